// Commands over the operations on numbers, counters, samples and texts.
#include "common.h"
using namespace fl;

static std::string nums(const std::vector<scalar>& v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << rat(v[i]);
    return os.str() + "]";
}
static std::string strs(const std::vector<std::string>& v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << jstr(v[i]);
    return os.str() + "]";
}
static std::string ints(const std::vector<int>& v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
    return os.str() + "]";
}
static std::vector<scalar> readNums(const Args& a, std::size_t i) {
    std::vector<scalar> v;
    for (; i < a.size(); ++i) v.push_back(num(a[i]));
    return v;
}
static int isSpaceChar(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

void registerUtilities() {
    // compare a b tolerance(or default)
    reg("compare", [](const Args& args) {
        double a = num(args[1]), b = num(args[2]);
        bool dflt = args[3] == "default";
        double eps = dflt ? fl::fuzzylite::macheps() : num(args[3]), was = fl::fuzzylite::macheps();
        std::ostringstream os;
        if (dflt)
            os << "\"lt\":" << jbool(Op::isLt(a, b)) << ",\"gt\":" << jbool(Op::isGt(a, b)) << ",\"le\":" << jbool(Op::isLE(a, b))
               << ",\"ge\":" << jbool(Op::isGE(a, b)) << ",\"eq\":" << jbool(Op::isEq(a, b)) << ",\"close\":" << jbool(Op::isClose(a, b));
        else
            os << "\"lt\":" << jbool(Op::isLt(a, b, eps)) << ",\"gt\":" << jbool(Op::isGt(a, b, eps)) << ",\"le\":" << jbool(Op::isLE(a, b, eps))
               << ",\"ge\":" << jbool(Op::isGE(a, b, eps)) << ",\"eq\":" << jbool(Op::isEq(a, b, eps)) << ",\"close\":"
               << jbool(Op::isClose(a, b, eps));
        fl::fuzzylite::setMachEps(eps);
        os << ",\"flt\":" << Op::lt(a, b) << ",\"fgt\":" << Op::gt(a, b) << ",\"fle\":" << Op::le(a, b) << ",\"fge\":" << Op::ge(a, b)
           << ",\"feq\":" << Op::eq(a, b) << ",\"fneq\":" << Op::neq(a, b);
        fl::fuzzylite::setMachEps(was);
        return os.str(); });
    // within x a b
    reg("within", [](const Args& a) {
        double x = num(a[1]), l = num(a[2]), h = num(a[3]);
        std::ostringstream os;
        os << "\"v\":[" << jbool(Op::in(x, l, h)) << "," << jbool(Op::in(x, l, h, true, false)) << "," << jbool(Op::in(x, l, h, false, true))
           << "," << jbool(Op::in(x, l, h, false, false)) << "]";
        return os.str(); });
    reg("arith", [](const Args& a) {
        double x = num(a[1]), y = num(a[2]), z = num(a[3]);
        std::ostringstream os;
        os << "\"min\":" << rat(Op::min(x, y)) << ",\"max\":" << rat(Op::max(x, y)) << ",\"bound\":" << rat(Op::bound(x, y, z))
           << ",\"add\":" << rat(Op::add(x, y)) << ",\"sub\":" << rat(Op::subtract(x, y)) << ",\"mul\":" << rat(Op::multiply(x, y))
           << ",\"div\":" << rat(Op::divide(x, y)) << ",\"mod\":" << rat(Op::modulo(x, y)) << ",\"neg\":" << rat(Op::negate(x))
           << ",\"round\":" << rat(Op::round(x)) << ",\"land\":" << rat(Op::logicalAnd(x, y)) << ",\"lor\":" << rat(Op::logicalOr(x, y))
           << ",\"lnot\":" << rat(Op::logicalNot(x)) << ",\"isnan\":" << jbool(Op::isNaN(x)) << ",\"isinf\":" << jbool(Op::isInf(x))
           << ",\"isfinite\":" << jbool(Op::isFinite(x));
        return os.str(); });
    reg("scale", [](const Args& a) {
        double x = num(a[1]), b = num(a[2]), c = num(a[3]), d = num(a[4]), e = num(a[5]);
        std::ostringstream os;
        os << "\"plain\":" << rat(Op::scale(x, b, c, d, e)) << ",\"unbounded\":" << rat(Op::scale(x, b, c, d, e, false)) << ",\"bounded\":"
           << rat(Op::scale(x, b, c, d, e, true));
        return os.str(); });
    reg("midpoints", [](const Args& a) {
        return "\"v\":" + nums(Op::midpoints(num(a[1]), num(a[2]), integer(a[3]))); });
    // counter position(0: the last) N x... lo... hi...
    reg("counter", [](const Args& a) {
        int p = integer(a[1]), n = integer(a[2]);
        std::vector<int> x, lo, hi;
        for (int i = 0; i < n; ++i) {
            x.push_back(integer(a[3 + i]));
            lo.push_back(integer(a[3 + n + i]));
            hi.push_back(integer(a[3 + 2 * n + i]));
        }
        bool more = p < 0 ? Op::increment(x, lo, hi) : Op::increment(x, p - 1, lo, hi);
        return "\"after\":" + ints(x) + ",\"more\":" + jbool(more); });
    // stats mean values...
    reg("stats", [](const Args& a) {
        double m = num(a[1]);
        std::vector<scalar> v = readNums(a, 2);
        std::ostringstream os;
        os << "\"sum\":" << rat(Op::sum(v)) << ",\"mean\":" << rat(Op::mean(v)) << ",\"var\":" << rat(Op::variance(v)) << ",\"varm\":"
           << rat(Op::variance(v, m)) << ",\"sd\":" << rat(Op::standardDeviation(v)) << ",\"sdm\":" << rat(Op::standardDeviation(v, m));
        return os.str(); });
    reg("replace", [](const Args& a) {
        return "\"all\":" + jstr(Op::replaceAll(a[1], a[2], a[3])) + ",\"first\":" + jstr(Op::replaceFirst(a[1], a[2], a[3]))
               + ",\"fall\":" + jstr(Op::findReplace(a[1], a[2], a[3])) + ",\"ffirst\":" + jstr(Op::findReplace(a[1], a[2], a[3], false)); });
    reg("split", [](const Args& a) {
        std::vector<std::string> kept = Op::split(a[1], a[2], false);
        return "\"dropped\":" + strs(Op::split(a[1], a[2])) + ",\"kept\":" + strs(kept) + ",\"joined\":" + jstr(Op::join(kept, a[2])); });
    // textop text class replacement
    reg("textop", [](const Args& a) {
        int (*f)(int) = a[2] == "digit" ? ::isdigit : a[2] == "alpha" ? ::isalpha : a[2] == "alnum" ? ::isalnum : a[2] == "upper" ? ::isupper
                        : a[2] == "lower" ? ::islower : isSpaceChar;
        return "\"trim\":" + jstr(Op::trim(a[1])) + ",\"name\":" + jstr(Op::validName(a[1])) + ",\"format\":" + jstr(Op::format(a[1], f, a[3]))
               + ",\"str\":" + jstr(Op::str<const std::string&>(a[1])); });
    reg("tonum", [](const Args& a) {
        double alt = num(a[2]), v = 0;
        bool raised = false, ok = true;
        try { v = Op::toScalar(a[1]); } catch (fl::Exception&) { raised = true; }
        double w = Op::toScalar(a[1], alt, &ok), w2 = Op::toScalar(a[1], alt);
        return "\"raised\":" + jbool(raised) + ",\"v\":" + rat(v) + ",\"w\":" + rat(w) + ",\"w2\":" + rat(w2) + ",\"ok\":" + jbool(ok)
               + ",\"isnum\":" + jbool(Op::isNumeric(a[1])); });
    reg("tonums", [](const Args& a) {
        double alt = num(a[2]);
        std::vector<scalar> v;
        bool raised = false, ok = true;
        try { v = Op::toScalars(a[1]); } catch (fl::Exception&) { raised = true; }
        std::vector<scalar> w = Op::toScalars(a[1], alt, &ok);
        return "\"raised\":" + jbool(raised) + ",\"v\":" + nums(v) + ",\"w\":" + nums(w) + ",\"ok\":" + jbool(ok); });
    // tostr decimals separator numbers...
    reg("tostr", [](const Args& a) {
        int d = integer(a[1]);
        std::vector<scalar> v = readNums(a, 3);
        std::vector<std::string> r, r2;
        for (std::size_t i = 0; i < v.size(); ++i) r.push_back(Op::str(v[i], d));
        fl::fuzzylite::setDecimals(d);
        for (std::size_t i = 0; i < v.size(); ++i) r2.push_back(Op::str(v[i]));
        std::string joined = Op::join(v, a[2]);
        fl::fuzzylite::setDecimals(3);
        if (r != r2) r.push_back("unlike the default");
        return "\"strs\":" + strs(r) + ",\"join\":" + jstr(joined); });
    // joins separator NWORDS words... NINTS ints...
    reg("joins", [](const Args& a) {
        std::size_t i = 2;
        std::vector<std::string> w;
        std::vector<int> n;
        for (int k = integer(a[i++]); k > 0; --k) w.push_back(a[i++]);
        for (int k = integer(a[i++]); k > 0; --k) n.push_back(integer(a[i++]));
        std::string jv, iv;
        if (w.size() == 3) jv = Op::join(3, a[1], w[0].c_str(), w[1].c_str(), w[2].c_str());
        if (n.size() == 3) iv = Op::join(3, a[1], n[0], n[1], n[2]);
        return "\"join\":" + jstr(Op::join(w, a[1])) + ",\"joinv\":" + jstr(jv) + ",\"ints\":" + jstr(Op::join(n, a[1])) + ",\"intsv\":"
               + jstr(iv); });
}
