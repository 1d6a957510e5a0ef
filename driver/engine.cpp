// Commands over engines: construction, operations, observation.
#include "common.h"
#include <algorithm>
using namespace fl;

fl::TNorm* mkTNorm(const std::string& k) { return k == "none" ? 0 : FactoryManager::instance()->tnorm()->constructObject(k); }
fl::SNorm* mkSNorm(const std::string& k) { return k == "none" ? 0 : FactoryManager::instance()->snorm()->constructObject(k); }

fl::Defuzzifier* mkDefuzz(const std::string& spec) {
    std::vector<std::string> w = words(spec);
    if (w.empty() || w[0] == "none") return 0;
    Defuzzifier* d = FactoryManager::instance()->defuzzifier()->constructObject(w[0]);
    if (w.size() > 1) {
        if (IntegralDefuzzifier* i = dynamic_cast<IntegralDefuzzifier*>(d)) i->setResolution(std::atoi(w[1].c_str()));
        else if (WeightedDefuzzifier* v = dynamic_cast<WeightedDefuzzifier*>(d)) {
            v->setType(w[1] == "TakagiSugeno" ? WeightedDefuzzifier::TakagiSugeno
                       : w[1] == "Tsukamoto" ? WeightedDefuzzifier::Tsukamoto : WeightedDefuzzifier::Automatic);
        }
    }
    return d;
}

// methods that come to their parameters by setters, after having had others
template <class T> static T* mkActFew(const std::vector<std::string>& w) {
    T* x = new T(7);
    x->setNumberOfRules(std::atoi(w[1].c_str()));
    return x;
}
template <class T> static T* mkActMany(const std::vector<std::string>& w) {
    T* x = new T(7, 0.875);
    x->setNumberOfRules(std::atoi(w[1].c_str()));
    x->setThreshold(num(w[2]));
    return x;
}
static fl::Activation* mkThreshold(int way, const std::string& cmp, double value) {
    if (way == 0) return new Threshold(cmp, value);
    if (way == 1) return new Threshold(Threshold().parseComparison(cmp), value);
    Threshold* x = new Threshold;
    x->configure(cmp == "!=" ? "< 0.875" : "!= 0.875");
    if (way == 2) x->setThreshold(cmp, value);
    else if (way == 3) x->setThreshold(x->parseComparison(cmp), value);
    else { x->setComparison(x->parseComparison(cmp)); x->setValue(value); }
    if (x->comparisonOperator() != cmp || x->comparisonOperator(x->getComparison()) != cmp) throw fl::Exception("comparison");
    std::vector<std::string> c = x->availableComparisonOperators();
    if (c.size() != 6 || std::find(c.begin(), c.end(), cmp) == c.end()) throw fl::Exception("comparisons");
    return x;
}
fl::Activation* mkAct(const std::string& spec) {
    static int made = 0;
    std::vector<std::string> w = words(spec);
    if (w.empty() || w[0] == "none") return 0;
    int way = ++made % 5;
    if (w[0] == "Threshold") return mkThreshold(way, w[1], num(w[2]));
    if (way % 2) {
        if (w[0] == "First") return mkActMany<First>(w);
        if (w[0] == "Last") return mkActMany<Last>(w);
        if (w[0] == "Highest") return mkActFew<Highest>(w);
        if (w[0] == "Lowest") return mkActFew<Lowest>(w);
    }
    if (w[0] == "First") return new First(std::atoi(w[1].c_str()), num(w[2]));
    if (w[0] == "Last") return new Last(std::atoi(w[1].c_str()), num(w[2]));
    if (w[0] == "Highest") return new Highest(std::atoi(w[1].c_str()));
    if (w[0] == "Lowest") return new Lowest(std::atoi(w[1].c_str()));
    if (w[0] == "General") return new General;
    if (w[0] == "Proportional") return new Proportional;
    return FactoryManager::instance()->activation()->constructObject(w[0]);
}

// a term made by its class's setters (0: not this class)
static fl::Term* mkTermBySetters(const std::string& name, const std::string& cls, double h, const std::vector<double>& p, fl::Engine* e) {
    FL_unique_ptr<Term> t(FactoryManager::instance()->term()->constructObject(cls));
    t->setName(name);
    #define SET(C, S) if (C* x = dynamic_cast<C*>(t.get())) { S; x->setHeight(h); return t.release(); }
    SET(Triangle, x->setVertexC(p[2]); x->setVertexA(p[0]); x->setVertexB(p[1]))
    SET(Trapezoid, x->setVertexA(p[0]); x->setVertexB(p[1]); x->setVertexC(p[2]); x->setVertexD(p[3]))
    SET(Rectangle, x->setEnd(p[1]); x->setStart(p[0]))
    SET(Ramp, x->setStart(p[0]); x->setEnd(p[1]))
    SET(Binary, x->setStart(p[0]); x->setDirection(p[1]))
    SET(Concave, x->setInflection(p[0]); x->setEnd(p[1]))
    SET(SShape, x->setStart(p[0]); x->setEnd(p[1]))
    SET(ZShape, x->setEnd(p[1]); x->setStart(p[0]))
    SET(PiShape, x->setBottomLeft(p[0]); x->setTopLeft(p[1]); x->setTopRight(p[2]); x->setBottomRight(p[3]))
    SET(Bell, x->setSlope(p[2]); x->setCenter(p[0]); x->setWidth(p[1]))
    SET(Gaussian, x->setMean(p[0]); x->setStandardDeviation(p[1]))
    SET(GaussianProduct, x->setMeanA(p[0]); x->setStandardDeviationA(p[1]); x->setMeanB(p[2]); x->setStandardDeviationB(p[3]))
    SET(Sigmoid, x->setSlope(p[1]); x->setInflection(p[0]))
    SET(SigmoidDifference, x->setLeft(p[0]); x->setRising(p[1]); x->setFalling(p[2]); x->setRight(p[3]))
    SET(SigmoidProduct, x->setRight(p[3]); x->setFalling(p[2]); x->setRising(p[1]); x->setLeft(p[0]))
    SET(Spike, x->setCenter(p[0]); x->setWidth(p[1]))
    SET(Cosine, x->setWidth(p[1]); x->setCenter(p[0]))
    SET(Discrete, x->setXY(Discrete::toPairs(p)))
    #undef SET
    if (Constant* x = dynamic_cast<Constant*>(t.get())) { x->setValue(p[0]); return t.release(); }
    if (Linear* x = dynamic_cast<Linear*>(t.get())) {
        if (p.size() % 2) x->set(p, e);
        else { x->setCoefficients(p); x->setEngine(e); }
        return t.release();
    }
    return 0;
}

fl::Term* mkTerm(const std::string& name, const std::string& cls, const std::string& height,
                 const Args& a, std::size_t from, fl::Engine* e) {
    double h = num(height);
    std::vector<scalar> p;
    if (cls != "Function") for (std::size_t i = from; i < a.size(); ++i) p.push_back(num(a[i]));
    std::size_t sum = name.size();
    for (std::size_t i = from; i < a.size(); ++i) for (std::size_t j = 0; j < a[i].size(); ++j) sum += a[i][j];
    if (sum % 3 == 1 && cls != "Function" && !(cls == "Discrete" && p.size() % 2)) {
        Term* t = mkTermBySetters(name, cls, h, p, e);
        if (t) return t;
    }
    if (cls == "Triangle") return new Triangle(name, p[0], p[1], p[2], h);
    if (cls == "Trapezoid") return new Trapezoid(name, p[0], p[1], p[2], p[3], h);
    if (cls == "Rectangle") return new Rectangle(name, p[0], p[1], h);
    if (cls == "Ramp") return new Ramp(name, p[0], p[1], h);
    if (cls == "Binary") return new Binary(name, p[0], p[1], h);
    if (cls == "Concave") return new Concave(name, p[0], p[1], h);
    if (cls == "SShape") return new SShape(name, p[0], p[1], h);
    if (cls == "ZShape") return new ZShape(name, p[0], p[1], h);
    if (cls == "PiShape") return new PiShape(name, p[0], p[1], p[2], p[3], h);
    if (cls == "Bell") return new Bell(name, p[0], p[1], p[2], h);
    if (cls == "Gaussian") return new Gaussian(name, p[0], p[1], h);
    if (cls == "GaussianProduct") return new GaussianProduct(name, p[0], p[1], p[2], p[3], h);
    if (cls == "Sigmoid") return new Sigmoid(name, p[0], p[1], h);
    if (cls == "SigmoidDifference") return new SigmoidDifference(name, p[0], p[1], p[2], p[3], h);
    if (cls == "SigmoidProduct") return new SigmoidProduct(name, p[0], p[1], p[2], p[3], h);
    if (cls == "Spike") return new Spike(name, p[0], p[1], h);
    if (cls == "Cosine") return new Cosine(name, p[0], p[1], h);
    if (cls == "Constant") return new Constant(name, p[0]);
    if (cls == "Linear") return new Linear(name, p, e);
    if (cls == "Discrete") {
        std::vector<Discrete::Pair> xy;
        for (std::size_t i = 0; i + 1 < p.size(); i += 2) xy.push_back(Discrete::Pair(p[i], p[i + 1]));
        return new Discrete(name, xy, h);
    }
    if (cls == "Function") {
        Function* f = new Function(name, a[from], e);
        try { f->load(); } catch (...) {}
        return f;
    }
    throw std::logic_error("unknown term class " + cls);
}

static bool owns(fl::Engine* e, const Variable* v) {
    std::vector<Variable*> vs = e->variables();
    for (std::size_t i = 0; i < vs.size(); ++i) if (vs[i] == v) return true;
    return false;
}
static bool ownsTerm(const Variable* v, const Term* t) {
    for (std::size_t i = 0; i < v->numberOfTerms(); ++i) if (v->getTerm(i) == t) return true;
    return false;
}
static bool propOwn(fl::Engine* e, Proposition* p) {
    return owns(e, p->variable) && (!p->term || ownsTerm(p->variable, p->term));
}
static bool exprOwn(fl::Engine* e, Expression* x) {
    if (!x) return true;
    if (x->type() == Expression::Proposition) return propOwn(e, static_cast<Proposition*>(x));
    Operator* o = static_cast<Operator*>(x);
    return exprOwn(e, o->left) && exprOwn(e, o->right);
}

// a degree that the rational arithmetic of the model cannot work with precisely
static bool imprecise(double d) { return d != 0 && (std::fabs(d) < 1e-4 || std::fabs(d) > 20 || ratError(d) > 1e-6); }

std::string observeEngine(fl::Engine* e, bool impl) {
    std::ostringstream os;
    os << "{\"ins\":[";
    for (std::size_t i = 0; i < e->numberOfInputVariables(); ++i) {
        InputVariable* v = e->getInputVariable(i);
        os << (i ? "," : "") << "{\"en\":" << jbool(v->isEnabled()) << ",\"val\":" << rat(v->getValue())
           << ",\"nm\":" << jstr(v->getName()) << "}";
    }
    os << "],\"outs\":[";
    for (std::size_t i = 0; i < e->numberOfOutputVariables(); ++i) {
        OutputVariable* v = e->getOutputVariable(i);
        os << (i ? "," : "") << "{\"en\":" << jbool(v->isEnabled()) << ",\"val\":" << rat(v->getValue())
           << ",\"nm\":" << jstr(v->getName())
           << ",\"prev\":" << rat(v->getPreviousValue()) << ",\"fz\":[";
        const std::vector<Activated>& ts = v->fuzzyOutput()->terms();
        bool tiny = false, exact = true;
        for (std::size_t t = 0; t < ts.size(); ++t) {
            double dg = ts[t].getDegree();
            if (imprecise(dg)) tiny = true;
            if (dg * 4096 != std::floor(dg * 4096)) exact = false;
            int idx = 0;
            for (std::size_t k = 0; k < v->numberOfTerms(); ++k) if (v->getTerm(k) == ts[t].getTerm()) idx = k + 1;
            std::string im = "?";
            if (impl) {
                if (!ts[t].getImplication()) im = "none";
                else im = "foreign";
                if (im == "foreign") for (std::size_t b = 0; b < e->numberOfRuleBlocks(); ++b)
                    if (e->getRuleBlock(b)->getImplication() == ts[t].getImplication())
                        im = ts[t].getImplication()->className();
            }
            os << (t ? "," : "") << "{\"t\":" << idx << ",\"d\":" << rat(ts[t].getDegree()) << ",\"impl\":" << jstr(im) << "}";
        }
        os << "],\"tiny\":" << jbool(tiny) << ",\"exact\":" << jbool(exact) << "}";
    }
    os << "],\"blocks\":[";
    for (std::size_t b = 0; b < e->numberOfRuleBlocks(); ++b) {
        RuleBlock* k = e->getRuleBlock(b);
        os << (b ? "," : "") << "{\"en\":" << jbool(k->isEnabled()) << ",\"nm\":" << jstr(k->getName()) << ",\"rules\":[";
        for (std::size_t r = 0; r < k->numberOfRules(); ++r) {
            Rule* u = k->getRule(r);
            bool own = true;
            if (u->isLoaded()) {
                own = exprOwn(e, u->getAntecedent()->getExpression());
                for (std::size_t c = 0; c < u->getConsequent()->conclusions().size(); ++c)
                    own = own && propOwn(e, u->getConsequent()->conclusions().at(c));
            }
            os << (r ? "," : "") << "{\"en\":" << jbool(u->isEnabled()) << ",\"w\":" << rat(u->getWeight())
               << ",\"loaded\":" << jbool(u->isLoaded()) << ",\"deg\":" << rat(u->getActivationDegree())
               << ",\"tiny\":" << jbool(imprecise(u->getActivationDegree())) << ",\"trig\":" << jbool(u->isTriggered()) << ",\"own\":" << jbool(own)
               << ",\"text\":" << jstr(u->getText()) << "}";
        }
        os << "]}";
    }
    os << "]}";
    return os.str();
}

static RuleBlock* blk(const Args& a) { return world.at(integer(a[1]))->getRuleBlock(integer(a[2]) - 1); }
static Rule* rul(const Args& a) { return blk(a)->getRule(integer(a[3]) - 1); }
static InputVariable* iv(const Args& a) { return world.at(integer(a[1]))->getInputVariable(integer(a[2]) - 1); }
static OutputVariable* ov(const Args& a) { return world.at(integer(a[1]))->getOutputVariable(integer(a[2]) - 1); }
static std::string ok() { return ""; }

void registerEngine() {
    reg("reset", [](const Args&) { world.clear(); fl::fuzzylite::setDecimals(3); return ok(); });
    reg("new", [](const Args& a) { world.put(integer(a[1]), new Engine(a[2])); return ok(); });
    reg("iv", [](const Args& a) {
        InputVariable* v = new InputVariable(a[2], num(a[5]), num(a[6]));
        v->setEnabled(flag(a[3])); v->setLockValueInRange(flag(a[4]));
        world.at(integer(a[1]))->addInputVariable(v); return ok(); });
    reg("ov", [](const Args& a) {
        OutputVariable* v = new OutputVariable(a[2], num(a[5]), num(a[6]));
        v->setEnabled(flag(a[3])); v->setLockValueInRange(flag(a[4]));
        v->setDefaultValue(num(a[7])); v->setLockPreviousValue(flag(a[8]));
        v->setAggregation(mkSNorm(a[9])); v->setDefuzzifier(mkDefuzz(a[10]));
        world.at(integer(a[1]))->addOutputVariable(v); return ok(); });
    // term slot in|out index name class height params...
    reg("term", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        Term* t = mkTerm(a[4], a[5], a[6], a, 7, e);
        int i = integer(a[3]) - 1;
        if (a[2] == "in") e->getInputVariable(i)->addTerm(t); else e->getOutputVariable(i)->addTerm(t);
        return ok(); });
    reg("block", [](const Args& a) {
        RuleBlock* b = new RuleBlock(a[2]);
        b->setEnabled(flag(a[3])); b->setConjunction(mkTNorm(a[4])); b->setDisjunction(mkSNorm(a[5]));
        b->setImplication(mkTNorm(a[6])); b->setActivation(mkAct(a[7]));
        world.at(integer(a[1]))->addRuleBlock(b); return ok(); });
    reg("rule", [](const Args& a) { blk(a)->addRule(new Rule(a[3])); return ok(); });
    // functions refer to the engine's variables: load them once everything is there
    reg("refs", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        std::vector<Variable*> vs = e->variables();
        for (std::size_t i = 0; i < vs.size(); ++i)
            for (std::size_t t = 0; t < vs[i]->numberOfTerms(); ++t) vs[i]->getTerm(t)->updateReference(e);
        return ok(); });

    // ---- observation
    reg("obs", [](const Args& a) {
        std::ostringstream os;
        // operators of contributions are looked at in one slot only (elsewhere they may be gone)
        int impl = a.size() > 1 ? integer(a[1]) : 0;
        os << "\"obs\":[";
        int max = world.slots.empty() ? 0 : world.slots.rbegin()->first;
        for (int s = 1; s <= max; ++s) {
            if (s > 1) os << ",";
            if (world.slots.count(s) && world.slots[s]) os << observeEngine(world.slots[s], impl == s);
            else os << "{\"none\":true}";
        }
        os << "]";
        return os.str(); });

    // ---- operations
    reg("in", [](const Args& a) { iv(a)->setValue(num(a[3])); return ok(); });
    reg("inname", [](const Args& a) { world.at(integer(a[1]))->setInputValue(a[2], num(a[3])); return ok(); });
    reg("out", [](const Args& a) { ov(a)->setValue(num(a[3])); return ok(); });
    reg("setprev", [](const Args& a) { ov(a)->setPreviousValue(num(a[3])); return ok(); });
    reg("process", [](const Args& a) { world.at(integer(a[1]))->process(); return ok(); });
    reg("restart", [](const Args& a) { world.at(integer(a[1]))->restart(); return ok(); });
    reg("enin", [](const Args& a) { iv(a)->setEnabled(flag(a[3])); return ok(); });
    reg("enout", [](const Args& a) { ov(a)->setEnabled(flag(a[3])); return ok(); });
    reg("enblock", [](const Args& a) { blk(a)->setEnabled(flag(a[3])); return ok(); });
    reg("enrule", [](const Args& a) { rul(a)->setEnabled(flag(a[4])); return ok(); });
    reg("weight", [](const Args& a) { rul(a)->setWeight(num(a[4])); return ok(); });
    reg("loadrule", [](const Args& a) { rul(a)->load(a[4], world.at(integer(a[1]))); return ok(); });
    reg("reloadrule", [](const Args& a) { rul(a)->load(world.at(integer(a[1]))); return ok(); });
    reg("unloadrule", [](const Args& a) { rul(a)->unload(); return ok(); });
    reg("loadrules", [](const Args& a) { blk(a)->loadRules(world.at(integer(a[1]))); return ok(); });
    reg("reloadrules", [](const Args& a) { blk(a)->reloadRules(world.at(integer(a[1]))); return ok(); });
    reg("unloadrules", [](const Args& a) { blk(a)->unloadRules(); return ok(); });
    reg("addrule", [](const Args& a) { blk(a)->addRule(Rule::parse(a[3], world.at(integer(a[1])))); return ok(); });
    reg("insrule", [](const Args& a) {
        blk(a)->insertRule(Rule::parse(a[4], world.at(integer(a[1]))), integer(a[3]) - 1); return ok(); });
    reg("rmrule", [](const Args& a) { delete blk(a)->removeRule(integer(a[3]) - 1); return ok(); });
    reg("conj", [](const Args& a) { blk(a)->setConjunction(mkTNorm(a[3])); return ok(); });
    reg("disj", [](const Args& a) { blk(a)->setDisjunction(mkSNorm(a[3])); return ok(); });
    reg("impl", [](const Args& a) { blk(a)->setImplication(mkTNorm(a[3])); return ok(); });
    reg("act", [](const Args& a) { blk(a)->setActivation(mkAct(a[3])); return ok(); });
    reg("agg", [](const Args& a) { ov(a)->setAggregation(mkSNorm(a[3])); return ok(); });
    reg("df", [](const Args& a) { ov(a)->setDefuzzifier(mkDefuzz(a[3])); return ok(); });
    reg("lockp", [](const Args& a) { ov(a)->setLockPreviousValue(flag(a[3])); return ok(); });
    reg("lockout", [](const Args& a) { ov(a)->setLockValueInRange(flag(a[3])); return ok(); });
    reg("lockin", [](const Args& a) { iv(a)->setLockValueInRange(flag(a[3])); return ok(); });
    reg("def", [](const Args& a) { ov(a)->setDefaultValue(num(a[3])); return ok(); });
    reg("rangeout", [](const Args& a) { ov(a)->setRange(num(a[3]), num(a[4])); return ok(); });
    reg("rangein", [](const Args& a) { iv(a)->setRange(num(a[3]), num(a[4])); return ok(); });
    reg("activate", [](const Args& a) { blk(a)->activate(); return ok(); });
    // rules by hand, as an activation method of one's own does
    reg("ruledeg", [](const Args& a) {
        scalar d = rul(a)->activateWith(blk(a)->getConjunction(), blk(a)->getDisjunction());
        if (!(d == rul(a)->getActivationDegree()) && !(d != d)) throw std::logic_error("answers another degree");
        return ok(); });
    reg("trigger", [](const Args& a) { rul(a)->trigger(blk(a)->getImplication()); return ok(); });
    reg("deactivate", [](const Args& a) { rul(a)->deactivate(); return ok(); });
    reg("setdeg", [](const Args& a) { rul(a)->setActivationDegree(num(a[4])); return ok(); });
    reg("defuzzify", [](const Args& a) { ov(a)->defuzzify(); return ok(); });
    reg("clearout", [](const Args& a) { ov(a)->clear(); return ok(); });
    // removes a block/variable, puts another order
    reg("configure", [](const Args& a) {
        world.at(integer(a[1]))->configure(mkTNorm(a[2]), mkSNorm(a[3]), mkTNorm(a[4]), mkSNorm(a[5]),
                                           mkDefuzz(a[6]), mkAct(a[7])); return ok(); });
    reg("clone", [](const Args& a) { world.put(integer(a[2]), world.at(integer(a[1]))->clone()); return ok(); });
    reg("copy", [](const Args& a) { world.put(integer(a[2]), new Engine(*world.at(integer(a[1])))); return ok(); });
    reg("assign", [](const Args& a) { *world.at(integer(a[2])) = *world.at(integer(a[1])); return ok(); });
    reg("del", [](const Args& a) { delete world.at(integer(a[1])); world.slots[integer(a[1])] = 0; return ok(); });

    // ---- queries
    reg("ready", [](const Args& a) {
        std::string s; bool r = world.at(integer(a[1]))->isReady(&s);
        return "\"r\":" + jbool(r) + ",\"s\":" + jstr(s); });
    reg("type", [](const Args& a) {
        std::string n, r; Engine::Type t = world.at(integer(a[1]))->type(&n, &r);
        std::ostringstream os; os << "\"t\":" << int(t) << ",\"n\":" << jstr(n);
        return os.str(); });
    // say SLOT BLOCK RULE: what a rule was understood as
    reg("say", [](const Args& a) {
        Rule* r = rul(a);
        std::string raised, pre, inf, post;
        bool bad[3] = {false, false, false};
        try { pre = r->getAntecedent()->toPrefix(); } catch (fl::Exception&) { bad[0] = true; }
        try { inf = r->getAntecedent()->toInfix(); } catch (fl::Exception&) { bad[1] = true; }
        try { post = r->getAntecedent()->toPostfix(); } catch (fl::Exception&) { bad[2] = true; }
        if (bad[0] != bad[1] || bad[1] != bad[2]) inf = "some raised";
        if (!bad[0] && inf != r->getAntecedent()->toString()) inf = "infix: " + inf;
        return "\"raised\":" + jbool(bad[0]) + ",\"pre\":" + jstr(pre) + ",\"inf\":" + jstr(inf) + ",\"post\":" + jstr(post) + ",\"con\":"
               + jstr(r->getConsequent()->toString()); });
    reg("fuzzyout", [](const Args& a) { return "\"s\":" + jstr(ov(a)->fuzzyOutputValue()); });
    reg("fuzzyin", [](const Args& a) { return "\"s\":" + jstr(iv(a)->fuzzyInputValue()); });
}
