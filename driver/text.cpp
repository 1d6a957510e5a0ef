// Commands over texts: exporting, importing, structure of an engine.
#include "common.h"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <stdlib.h>
using namespace fl;

static std::string text;      // the text of the latest export

static std::string termJson(const Term* t) {
    std::ostringstream os;
    std::string cls = t->className();
    std::vector<scalar> p;
    std::string formula;
    if (const Triangle* x = dynamic_cast<const Triangle*>(t)) { p.push_back(x->getVertexA()); p.push_back(x->getVertexB()); p.push_back(x->getVertexC()); }
    else if (const Trapezoid* x = dynamic_cast<const Trapezoid*>(t)) { p.push_back(x->getVertexA()); p.push_back(x->getVertexB()); p.push_back(x->getVertexC()); p.push_back(x->getVertexD()); }
    else if (const fl::Rectangle* x = dynamic_cast<const fl::Rectangle*>(t)) { p.push_back(x->getStart()); p.push_back(x->getEnd()); }
    else if (const Ramp* x = dynamic_cast<const Ramp*>(t)) { p.push_back(x->getStart()); p.push_back(x->getEnd()); }
    else if (const Binary* x = dynamic_cast<const Binary*>(t)) { p.push_back(x->getStart()); p.push_back(x->getDirection()); }
    else if (const Concave* x = dynamic_cast<const Concave*>(t)) { p.push_back(x->getInflection()); p.push_back(x->getEnd()); }
    else if (const SShape* x = dynamic_cast<const SShape*>(t)) { p.push_back(x->getStart()); p.push_back(x->getEnd()); }
    else if (const ZShape* x = dynamic_cast<const ZShape*>(t)) { p.push_back(x->getStart()); p.push_back(x->getEnd()); }
    else if (const PiShape* x = dynamic_cast<const PiShape*>(t)) { p.push_back(x->getBottomLeft()); p.push_back(x->getTopLeft()); p.push_back(x->getTopRight()); p.push_back(x->getBottomRight()); }
    else if (const Bell* x = dynamic_cast<const Bell*>(t)) { p.push_back(x->getCenter()); p.push_back(x->getWidth()); p.push_back(x->getSlope()); }
    else if (const Gaussian* x = dynamic_cast<const Gaussian*>(t)) { p.push_back(x->getMean()); p.push_back(x->getStandardDeviation()); }
    else if (const GaussianProduct* x = dynamic_cast<const GaussianProduct*>(t)) { p.push_back(x->getMeanA()); p.push_back(x->getStandardDeviationA()); p.push_back(x->getMeanB()); p.push_back(x->getStandardDeviationB()); }
    else if (const Sigmoid* x = dynamic_cast<const Sigmoid*>(t)) { p.push_back(x->getInflection()); p.push_back(x->getSlope()); }
    else if (const SigmoidDifference* x = dynamic_cast<const SigmoidDifference*>(t)) { p.push_back(x->getLeft()); p.push_back(x->getRising()); p.push_back(x->getFalling()); p.push_back(x->getRight()); }
    else if (const SigmoidProduct* x = dynamic_cast<const SigmoidProduct*>(t)) { p.push_back(x->getLeft()); p.push_back(x->getRising()); p.push_back(x->getFalling()); p.push_back(x->getRight()); }
    else if (const Spike* x = dynamic_cast<const Spike*>(t)) { p.push_back(x->getCenter()); p.push_back(x->getWidth()); }
    else if (const Cosine* x = dynamic_cast<const Cosine*>(t)) { p.push_back(x->getCenter()); p.push_back(x->getWidth()); }
    else if (const Constant* x = dynamic_cast<const Constant*>(t)) p.push_back(x->getValue());
    else if (const Linear* x = dynamic_cast<const Linear*>(t)) p = x->coefficients();
    else if (const Discrete* x = dynamic_cast<const Discrete*>(t)) p = Discrete::toVector(x->xy());
    else if (const fl::Function* x = dynamic_cast<const fl::Function*>(t)) formula = x->getFormula();
    os << "{\"name\":" << jstr(t->getName()) << ",\"k\":" << jstr(cls) << ",\"p\":[";
    for (std::size_t i = 0; i < p.size(); ++i) os << (i ? "," : "") << rat(p[i]);
    os << "],\"h\":" << rat(t->getHeight()) << ",\"text\":" << jstr(formula) << "}";
    return os.str();
}

static std::string varJson(const Variable* v) {
    std::ostringstream os;
    os << "\"name\":" << jstr(v->getName()) << ",\"desc\":" << jstr(v->getDescription()) << ",\"en\":" << jbool(v->isEnabled())
       << ",\"lock\":" << jbool(v->isLockValueInRange()) << ",\"lo\":" << rat(v->getMinimum()) << ",\"hi\":" << rat(v->getMaximum())
       << ",\"terms\":[";
    for (std::size_t t = 0; t < v->numberOfTerms(); ++t) os << (t ? "," : "") << termJson(v->getTerm(t));
    os << "]";
    return os.str();
}

static std::string norm(const Norm* n) { return jstr(n ? n->className() : "none"); }

static std::string dfJson(const Defuzzifier* d) {
    std::ostringstream os;
    int res = 1; std::string type = "Automatic";
    if (const IntegralDefuzzifier* i = dynamic_cast<const IntegralDefuzzifier*>(d)) res = i->getResolution();
    if (const WeightedDefuzzifier* w = dynamic_cast<const WeightedDefuzzifier*>(d)) type = w->getTypeName();
    os << "{\"k\":" << jstr(d ? d->className() : "none") << ",\"res\":" << res << ",\"type\":" << jstr(type) << "}";
    return os.str();
}

static std::string actJson(const Activation* a) {
    std::ostringstream os;
    int n = 1; double th = 0; std::string c = ">=";
    if (const First* x = dynamic_cast<const First*>(a)) { n = x->getNumberOfRules(); th = x->getThreshold(); }
    if (const Last* x = dynamic_cast<const Last*>(a)) { n = x->getNumberOfRules(); th = x->getThreshold(); }
    if (const Highest* x = dynamic_cast<const Highest*>(a)) n = x->getNumberOfRules();
    if (const Lowest* x = dynamic_cast<const Lowest*>(a)) n = x->getNumberOfRules();
    if (const Threshold* x = dynamic_cast<const Threshold*>(a)) { c = x->comparisonOperator(); th = x->getValue(); }
    os << "{\"k\":" << jstr(a ? a->className() : "none") << ",\"n\":" << n << ",\"th\":" << rat(th) << ",\"cmp\":" << jstr(c) << "}";
    return os.str();
}

static std::string dump(const Engine* e) {
    std::ostringstream os;
    os << "{\"name\":" << jstr(e->getName()) << ",\"desc\":" << jstr(e->getDescription()) << ",\"ins\":[";
    for (std::size_t i = 0; i < e->numberOfInputVariables(); ++i) os << (i ? ",{" : "{") << varJson(e->getInputVariable(i)) << "}";
    os << "],\"outs\":[";
    for (std::size_t i = 0; i < e->numberOfOutputVariables(); ++i) {
        const OutputVariable* o = e->getOutputVariable(i);
        os << (i ? ",{" : "{") << varJson(o) << ",\"agg\":" << norm(o->getAggregation()) << ",\"df\":" << dfJson(o->getDefuzzifier())
           << ",\"def\":" << rat(o->getDefaultValue()) << ",\"lockp\":" << jbool(o->isLockPreviousValue()) << "}";
    }
    os << "],\"blocks\":[";
    for (std::size_t b = 0; b < e->numberOfRuleBlocks(); ++b) {
        const RuleBlock* k = e->getRuleBlock(b);
        os << (b ? ",{" : "{") << "\"name\":" << jstr(k->getName()) << ",\"desc\":" << jstr(k->getDescription()) << ",\"en\":" << jbool(k->isEnabled())
           << ",\"conj\":" << norm(k->getConjunction()) << ",\"disj\":" << norm(k->getDisjunction()) << ",\"impl\":" << norm(k->getImplication())
           << ",\"act\":" << actJson(k->getActivation()) << ",\"nin\":" << e->numberOfInputVariables() << ",\"nout\":" << e->numberOfOutputVariables()
           << ",\"rules\":[";
        for (std::size_t r = 0; r < k->numberOfRules(); ++r) os << (r ? "," : "") << jstr(k->getRule(r)->getText());
        os << "]}";
    }
    os << "]}";
    return os.str();
}

static std::string ok() { return ""; }

// ---- the same text by other ways: from a file, an exporter set up later or copied, or put together from pieces
static std::string how;
struct ScratchFile {
    std::string path;
    ScratchFile() { char p[] = "/tmp/fv-XXXXXX"; int fd = mkstemp(p); if (fd >= 0) close(fd); path = p; }
    ~ScratchFile() { unlink(path.c_str()); }
};
static std::string throughFile(const Exporter& x, const Engine* e) {
    ScratchFile s;
    // (the file may hold something already)
    { std::ofstream w(s.path.c_str()); for (int i = 0; i < 2000; ++i) w << "Engine: old\n"; }
    x.toFile(s.path, e);
    std::ifstream f(s.path.c_str());
    std::ostringstream os; os << f.rdbuf();
    std::string r = os.str();
    if (r.empty() || r[r.size() - 1] != '\n') return "no end of line: " + r;
    return r.substr(0, r.size() - 1);
}
static std::string exported(const Exporter& x, const Engine* e) {
    if (how == "file") return throughFile(x, e);
    if (how == "clone") { std::unique_ptr<Exporter> c(x.clone()); return c->toString(e); }
    return x.toString(e);
}
static std::string glue(const std::vector<std::string>& p, const std::string& sep) {
    std::string r;
    for (std::size_t i = 0; i < p.size(); ++i) r += (i ? sep : "") + p[i];
    return r;
}
static std::string but(std::string t, const std::string& sep, std::size_t n) {      // without the last n lines
    for (; n > 0; --n) { std::size_t i = t.rfind(sep); if (i == std::string::npos) return "short of lines: " + t; t = t.substr(0, i); }
    return t;
}
static std::string fllPieces(FllExporter x, Engine* e) {
    const std::string ind = x.getIndent(), sep = x.getSeparator();
    std::vector<std::string> r;
    r.push_back("Engine: " + e->getName());
    if (!e->getDescription().empty()) r.push_back("description: " + e->getDescription());
    if (how == "parts") {
        if (e->numberOfInputVariables()) r.push_back(x.toString(e->inputVariables()));
        if (e->numberOfOutputVariables()) r.push_back(x.toString(e->outputVariables()));
        if (e->numberOfRuleBlocks()) r.push_back(x.toString(e->ruleBlocks()));
    } else if (how == "each") {
        for (std::size_t i = 0; i < e->numberOfInputVariables(); ++i) r.push_back(e->getInputVariable(i)->toString());
        for (std::size_t i = 0; i < e->numberOfOutputVariables(); ++i) r.push_back(e->getOutputVariable(i)->toString());
        for (std::size_t i = 0; i < e->numberOfRuleBlocks(); ++i) r.push_back(e->getRuleBlock(i)->toString());
    } else {
        std::vector<Variable*> vs = e->variables();
        for (std::size_t i = 0; i < vs.size(); ++i) {
            Variable* v = vs[i];
            InputVariable* in = dynamic_cast<InputVariable*>(v);
            std::string t = in ? x.toString(static_cast<const Variable*>(v)) : x.toString(dynamic_cast<OutputVariable*>(v));
            if (in) {
                std::vector<Variable*> one(1, v);
                if (t.compare(0, 9, "Variable:") || x.toString(one) != t || Variable(*v).toString() != FllExporter().toString(static_cast<const Variable*>(v)))
                    t = "not a variable: " + t;
                else t = "Input" + t;
            }
            t = but(t, sep, v->numberOfTerms());
            std::vector<std::string> each;
            for (std::size_t k = 0; k < v->numberOfTerms(); ++k) {
                each.push_back(x.toString(v->getTerm(k)));
                t += sep + ind + v->getTerm(k)->toString();
            }
            if (x.toString(v->terms()) != glue(each, sep)) t = "terms: " + x.toString(v->terms());
            r.push_back(t);
        }
        for (std::size_t b = 0; b < e->numberOfRuleBlocks(); ++b) {
            RuleBlock* k = e->getRuleBlock(b);
            std::string t = but(x.toString(k), sep, k->numberOfRules());
            for (std::size_t i = 0; i < k->numberOfRules(); ++i) t += sep + ind + (i % 2 ? x.toString(k->getRule(i)) : k->getRule(i)->toString());
            r.push_back(t);
        }
    }
    return glue(r, sep);
}

std::map<std::string, Engine* (*)()>& generated() { static std::map<std::string, Engine* (*)()> t; return t; }

void registerText() {
    reg("dump", [](const Args& a) { return "\"dump\":" + dump(world.at(integer(a[1]))); });
    reg("decimals", [](const Args& a) { fl::fuzzylite::setDecimals(integer(a[1])); return ok(); });
    // how way: by which way the next export or import goes
    reg("how", [](const Args& a) { how = a[1]; return ok(); });
    reg("settext", [](const Args& a) { text = a[1]; return ok(); });
    reg("gettext", [](const Args&) { return "\"text\":" + jstr(text); });
    // names and descriptions: meta slot name desc
    reg("meta", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        e->setName(a[2]); e->setDescription(a[3]);
        return ok(); });
    reg("desc", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        int i = integer(a[3]) - 1;
        if (a[2] == "in") e->getInputVariable(i)->setDescription(a[4]);
        else if (a[2] == "out") e->getOutputVariable(i)->setDescription(a[4]);
        else e->getRuleBlock(i)->setDescription(a[4]);
        return ok(); });
    // export format slot [indent separator]
    reg("export", [](const Args& a) {
        Engine* e = world.at(integer(a[2]));
        struct Usual { ~Usual() { how = ""; } } usual;
        if (a[1] == "fll") {
            FllExporter x = a.size() > 4 ? FllExporter(a[3], a[4]) : FllExporter();
            if (how == "set") {
                FllExporter y("?", "!");
                y.setIndent(x.getIndent()); y.setSeparator(x.getSeparator());
                text = y.toString(e);
            } else if (how == "say") text = a.size() > 4 ? x.toString(e) : e->toString();
            else if (how == "parts" || how == "inner" || (how == "each" && a.size() <= 4)) text = fllPieces(x, e);
            else text = exported(x, e);
        } else if (a[1] == "fis") text = exported(FisExporter(), e);
        else if (a[1] == "fcl") {
            FclExporter x = a.size() > 3 ? FclExporter(a[3]) : FclExporter();
            if (how == "set") { FclExporter y("?"); y.setIndent(x.getIndent()); text = y.toString(e); }
            else text = exported(x, e);
        }
        else if (a[1] == "engine") text = e->toString();
        else if (a[1] == "cpp") {
            if (how == "set") {
                CppExporter y(!flag(a[3]), !flag(a[4]));
                y.setUsingNamespace(!y.isUsingNamespace()); y.setUsingVariableNames(!y.isUsingVariableNames());
                text = y.toString(e);
            } else text = exported(CppExporter(flag(a[3]), flag(a[4])), e);
        } else if (a[1] == "java") {
            if (how == "set") { JavaExporter y(!flag(a[3])); y.setUsingVariableNames(!y.isUsingVariableNames()); text = y.toString(e); }
            else text = exported(JavaExporter(flag(a[3])), e);
        }
        else throw std::logic_error("format");
        return "\"text\":" + jstr(text) + ",\"lib\":[" + jstr(fl::fuzzylite::library()) + "," + jstr(fl::fuzzylite::version()) + "]"; });
    // generated key slot: the engine that an exported program builds
    reg("generated", [](const Args& a) {
        Engine* e = generated().at(a[1])();
        world.put(integer(a[2]), e);
        return "\"dump\":" + dump(e); });
    // import format slot [separator]: reads the text kept
    reg("import", [](const Args& a) {
        struct Usual { ~Usual() { how = ""; } } usual;
        std::unique_ptr<Importer> m;
        if (a[1] == "fll") {
            FllImporter* x = a.size() > 3 ? new FllImporter(a[3]) : new FllImporter;
            m.reset(x);
            if (how == "set") { FllImporter* y = new FllImporter("!"); y->setSeparator(x->getSeparator()); m.reset(y); }
        } else if (a[1] == "fis") m.reset(new FisImporter);
        else if (a[1] == "fcl") m.reset(new FclImporter);
        else throw std::logic_error("format");
        Engine* e = 0;
        if (how == "file" && a.size() <= 3) {
            ScratchFile f;
            { std::ofstream w(f.path.c_str()); w << text; if (text.size() % 2) w << std::endl; }
            e = m->fromFile(f.path);
        } else if (how == "clone") {
            std::unique_ptr<Importer> c(m->clone());
            e = c->fromString(text);
        } else e = m->fromString(text);
        world.put(integer(a[2]), e);
        return "\"dump\":" + dump(e); });
}
