// Commands over the parts of an engine: norms, hedges, terms, formulas.
#include "common.h"
using namespace fl;

static std::string list(const std::vector<double>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + rat(v[i]);
    return r + "]";
}
static std::vector<double> nums(const std::string& s) {
    std::vector<std::string> w = words(s);
    std::vector<double> r;
    for (std::size_t i = 0; i < w.size(); ++i) r.push_back(num(w[i]));
    return r;
}
static std::string termJson(const Term* t) {
    // what the term's own getters say, through its parameters (six decimals)
    int d = fl::fuzzylite::decimals();
    fl::fuzzylite::setDecimals(9);
    std::string p = t->parameters();
    fl::fuzzylite::setDecimals(d);
    std::ostringstream os;
    os << "{\"name\":" << jstr(t->getName()) << ",\"k\":" << jstr(t->className()) << ",\"h\":" << rat(t->getHeight()) << ",\"p\":[";
    if (t->className() != "Function") {
        std::vector<std::string> w = words(p);
        std::size_t n = w.size();
        bool tall = t->className() != "Constant" && t->className() != "Linear" && !Op::isEq(t->getHeight(), 1.0);
        if (tall && n) --n;
        for (std::size_t i = 0; i < n; ++i) os << (i ? "," : "") << rat(Op::toScalar(w[i]));
    }
    os << "],\"text\":" << jstr(t->className() == "Function" ? static_cast<const Function*>(t)->getFormula() : "") << "}";
    return os.str();
}

// the same formula in a term that comes to it in another way
static Function* remade(int way, const std::string& text, const std::map<std::string, scalar>& vars, Engine* e) {
    std::unique_ptr<Function> f;
    if (way == 0) {                     // it had another one, and another engine
        f.reset(Function::create("f", "1 - x", 0));
        f->variables = vars;
        f->load(text, e);
    } else if (way == 1) {              // unloaded, and loaded again
        f.reset(new Function("f", text, vars, e, true));
        f->unload();
        if (f->isLoaded() || !f->variables.empty()) throw fl::Exception("unloaded");
        f->variables = vars;
        f->load();
    } else if (way == 2) {              // assigned over another one
        std::unique_ptr<Function> g(new Function("g", text, vars, e, true));
        f.reset(Function::create("f", "2 * x", 0));
        for (std::map<std::string, scalar>::const_iterator i = vars.begin(); i != vars.end(); ++i) f->variables[i->first] = i->second + 3;
        *f = *g;
    } else if (way == 3) {              // it was a term of another engine
        std::unique_ptr<Engine> o(e ? new Engine(*e) : new Engine);
        for (std::size_t i = 0; i < o->numberOfInputVariables(); ++i) o->getInputVariable(i)->setValue(7);
        for (std::size_t i = 0; i < o->numberOfOutputVariables(); ++i) o->getOutputVariable(i)->setValue(-7);
        f.reset(new Function("f", text, vars, o.get(), true));
        f->load(text, e);
        f->variables = vars;
    } else {                            // part by part
        f.reset(new Function("f", "x * x", 0));
        f->load();
        f->setFormula(text);
        f->setEngine(e);
        f->variables = vars;
        f->load();
    }
    if (!f->isLoaded() || f->getFormula() != text || f->getEngine() != e || f->root() == 0) throw fl::Exception("remade");
    return f.release();
}

void registerParts() {
    // tnorm NAME "a..." "b..."
    reg("tnorm", [](const Args& a) {
        FL_unique_ptr<TNorm> n(mkTNorm(a[1])), m(n->clone());
        std::vector<double> x = nums(a[2]), y = nums(a[3]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 3 == 2 ? m : n)->compute(x[i], y[i]));
        return "\"v\":" + list(v) + ",\"n\":" + jstr(n->className()); });
    reg("snorm", [](const Args& a) {
        FL_unique_ptr<SNorm> n(mkSNorm(a[1])), m(n->clone());
        std::vector<double> x = nums(a[2]), y = nums(a[3]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 3 == 2 ? m : n)->compute(x[i], y[i]));
        return "\"v\":" + list(v) + ",\"n\":" + jstr(n->className()); });
    reg("tnormf", [](const Args& a) {
        TNormFunction n(a[1]);
        TNormFunction k;
        k.setFormula(a[1]);
        if (k.getFormula() != n.getFormula()) throw fl::Exception("formula");
        // (a copy; one that had another formula before; one that is assigned over another formula)
        TNormFunction m(k), g("min(a, b) / 2"), h("min(a, b) / 2");
        g.setFormula(a[1]);
        h = k;
        std::vector<double> x = nums(a[2]), y = nums(a[3]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 4 == 1 ? g : i % 4 == 2 ? m : i % 4 == 3 ? h : n).compute(x[i], y[i]));
        return "\"v\":" + list(v); });
    reg("snormf", [](const Args& a) {
        SNormFunction n(a[1]);
        SNormFunction k;
        k.setFormula(a[1]);
        if (k.getFormula() != n.getFormula()) throw fl::Exception("formula");
        // (a copy; one that had another formula before; one that is assigned over another formula)
        SNormFunction m(k), g("max(a, b) / 2"), h("max(a, b) / 2");
        g.setFormula(a[1]);
        h = k;
        std::vector<double> x = nums(a[2]), y = nums(a[3]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 4 == 1 ? g : i % 4 == 2 ? m : i % 4 == 3 ? h : n).compute(x[i], y[i]));
        return "\"v\":" + list(v); });
    reg("hedge", [](const Args& a) {
        FL_unique_ptr<Hedge> n(FactoryManager::instance()->hedge()->constructObject(a[1])), m(n->clone());
        std::vector<double> x = nums(a[2]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 3 == 2 ? m : n)->hedge(x[i]));
        return "\"v\":" + list(v) + ",\"n\":" + jstr(n->name()); });
    reg("hedgef", [](const Args& a) {
        HedgeFunction n(a[1]);
        HedgeFunction k;
        k.setFormula(a[1]);
        if (k.getFormula() != n.getFormula()) throw fl::Exception("formula");
        // (a copy; one that had another formula before; one that is assigned over another formula)
        HedgeFunction m(k), g("x / 4"), h("x / 4");
        g.setFormula(a[1]);
        h = k;
        std::vector<double> x = nums(a[2]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 4 == 1 ? g : i % 4 == 2 ? m : i % 4 == 3 ? h : n).hedge(x[i]));
        return "\"v\":" + list(v); });
    // member slot|0 "xs" class height params...
    reg("member", [](const Args& a) {
        Engine* e = a[1] == "0" ? 0 : world.at(integer(a[1]));
        FL_unique_ptr<Term> t(mkTerm("t", a[3], a[4], a, 5, e)), u(t->clone());
        if (Function* f = dynamic_cast<Function*>(t.get())) f->load();
        if (Function* f = dynamic_cast<Function*>(u.get())) f->load();
        std::vector<double> x = nums(a[2]), v;
        for (std::size_t i = 0; i < x.size(); ++i) v.push_back((i % 3 == 2 ? u : t)->membership(x[i]));
        return "\"v\":" + list(v); });
    // where a term grows: direction class height params...
    reg("direction", [](const Args& a) {
        FL_unique_ptr<Term> t(mkTerm("t", a[1], a[2], a, 3, 0));
        std::string d = "?";
        if (const Ramp* r = dynamic_cast<const Ramp*>(t.get()))
            d = r->direction() == Ramp::Positive ? "up" : r->direction() == Ramp::Negative ? "down" : "none";
        else if (const Sigmoid* r = dynamic_cast<const Sigmoid*>(t.get()))
            d = r->direction() == Sigmoid::Positive ? "up" : r->direction() == Sigmoid::Negative ? "down" : "none";
        else if (const Binary* r = dynamic_cast<const Binary*>(t.get()))
            d = r->direction() == Binary::Positive ? "up" : r->direction() == Binary::Negative ? "down" : "none";
        return "\"d\":" + jstr(d); });
    reg("tsukamoto", [](const Args& a) {
        Engine* e = a[1] == "0" ? 0 : world.at(integer(a[1]));
        FL_unique_ptr<Term> t(mkTerm("t", a[3], a[4], a, 5, e));
        std::vector<double> y = nums(a[2]), v, w;
        std::string head = "\"mono\":" + jbool(t->isMonotonic());
        try {
            for (std::size_t i = 0; i < y.size(); ++i) { v.push_back(t->tsukamoto(y[i])); w.push_back(t->membership(v.back())); }
        } catch (fl::Exception&) { return head + ",\"te\":true"; }
        return head + ",\"te\":false,\"v\":" + list(v) + ",\"w\":" + list(w); });
    // sample slot lo hi n bounded class height params...
    reg("sample", [](const Args& a) {
        Engine* e = a[1] == "0" ? 0 : world.at(integer(a[1]));
        FL_unique_ptr<Term> t(mkTerm("t", a[6], a[7], a, 8, e));
        if (Function* f = dynamic_cast<Function*>(t.get())) f->load();
        FL_unique_ptr<Discrete> d(Discrete::discretize(t.get(), num(a[2]), num(a[3]), integer(a[4]), flag(a[5])));
        return "\"x\":" + list(d->x()) + ",\"y\":" + list(d->y()); });
    // params decimals class height params... : text, then read by a fresh term
    reg("params", [](const Args& a) {
        FL_unique_ptr<Term> t(mkTerm("t", a[2], a[3], a, 4, 0));
        fl::fuzzylite::setDecimals(integer(a[1]));
        std::string p = t->parameters();
        fl::fuzzylite::setDecimals(3);
        FL_unique_ptr<Term> u(FactoryManager::instance()->term()->constructObject(a[2]));
        u->setName("t");
        std::string r = "\"text\":" + jstr(p);
        try { u->configure(p); } catch (fl::Exception&) { return r + ",\"ce\":true"; }
        return r + ",\"ce\":false,\"c\":" + termJson(u.get()); });
    reg("configureterm", [](const Args& a) {
        FL_unique_ptr<Term> u(FactoryManager::instance()->term()->constructObject(a[1]));
        u->setName("t");
        u->configure(a[2]);
        return "\"c\":" + termJson(u.get()); });
    // points decimals "numbers" missing prefix inner suffix outer
    reg("points", [](const Args& a) {
        std::vector<double> n = nums(a[2]);
        std::vector<Discrete::Pair> p = Discrete::toPairs(n, num(a[3])), q;
        std::string r;
        try { q = Discrete::toPairs(n); r = "\"pe\":false"; } catch (fl::Exception&) { q = p; r = "\"pe\":true"; }
        Discrete d("d", p), u("u", q);
        fl::fuzzylite::setDecimals(integer(a[1]));
        r += ",\"vec\":" + list(Discrete::toVector(p)) + ",\"vec2\":" + list(Discrete::toVector(q)) + ",\"x\":" + list(d.x()) + ",\"y\":" + list(u.y())
             + ",\"plain\":" + jstr(Discrete::formatXY(p)) + ",\"text\":" + jstr(Discrete::formatXY(q, a[4], a[5], a[6], a[7]));
        fl::fuzzylite::setDecimals(3);
        // one by one, read and written
        std::vector<double> one, two;
        for (std::size_t i = 0; i < p.size(); ++i) { one.push_back(d.x(i)); one.push_back(d.xy(i).second); }
        for (std::size_t i = 0; i < p.size(); ++i) { u.x(i) = d.y(i); u.y(i) = d.x(i); }
        two = Discrete::toVector(u.xy());
        d.sort();
        Discrete::sort(p);
        return r + ",\"one\":" + list(one) + ",\"two\":" + list(two) + ",\"s1\":" + list(Discrete::toVector(d.xy())) + ",\"s2\":"
               + list(Discrete::toVector(p)); });
    // formulas
    reg("ftext", [](const Args& a) {
        Function f;
        std::string r;
        try { r = "\"pe\":false,\"post\":" + jstr(f.toPostfix(a[1])); } catch (fl::Exception&) { r = "\"pe\":true,\"post\":\"\""; }
        try {
            FL_unique_ptr<Function::Node> n(f.parse(a[1])), m(n->clone());
            std::ostringstream os;
            os << ",\"te\":false,\"tree\":{\"pre\":" << jstr(m->toPrefix()) << ",\"inf\":" << jstr(n->toInfix()) << ",\"post\":"
               << jstr(m->toPostfix()) << ",\"ops\":" << n->treeSize(Function::Element::Operator) << ",\"funs\":"
               << m->treeSize(Function::Element::Function) << "}";
            r += os.str();
        } catch (fl::Exception&) { r += ",\"te\":true"; }
        return r; });
    // feval text "names" "xs" values-of-name-1 values-of-name-2 ...
    reg("feval", [](const Args& a) {
        std::vector<std::string> names = words(a[2]);
        std::vector<double> xs = nums(a[3]), v;
        std::map<std::string, scalar> vars;
        for (std::size_t i = 0; i < names.size(); ++i) vars[names[i]] = 0;
        Function f("f", a[1], vars, fl::null, true);
        Function g(f);
        FL_unique_ptr<Function> h(f.clone()), k(remade(a[1].size() % 5, a[1], vars, 0));
        for (std::size_t i = 0; i < xs.size(); ++i) {
            for (std::size_t j = 0; j < names.size(); ++j) vars[names[j]] = nums(a[4 + j])[i];
            Function* w = i % 4 == 0 ? &f : i % 4 == 1 ? &g : i % 4 == 2 ? h.get() : k.get();
            if ((i / 4 + i) % 2) { w->variables = vars; v.push_back(w->membership(xs[i])); }
            else { vars["x"] = xs[i]; v.push_back(w->evaluate(vars)); vars.erase("x"); }
        }
        return "\"v\":" + list(v); });
    // fscope slot text "names" "values" "xs" : a formula of a term in an engine, with variables of its own
    reg("fscope", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        std::vector<std::string> names = words(a[3]);
        std::vector<double> vals = nums(a[4]), xs = nums(a[5]), v;
        std::map<std::string, scalar> vars;
        for (std::size_t i = 0; i < names.size(); ++i) vars[names[i]] = vals[i];
        Function f("f", a[2], vars, e, true);
        FL_unique_ptr<Function> g(f.clone());
        FL_unique_ptr<Function> k(remade(a[2].size() % 5, a[2], vars, e));
        Function h;
        h = f;
        for (std::size_t i = 0; i < xs.size(); ++i)
            v.push_back((i % 4 == 0 ? &f : i % 4 == 1 ? g.get() : i % 4 == 2 ? k.get() : &h)->membership(xs[i]));
        return "\"v\":" + list(v); });
}
