// Engines put together from copies of the components of another.
#include "common.h"
using namespace fl;

template <class T>
static Term* asAssigned(const Term* from, Term* fresh) {
    T* x = dynamic_cast<T*>(fresh);
    const T* y = dynamic_cast<const T*>(from);
    if (!x || !y) { delete fresh; return from->clone(); }
    *x = *y;
    return fresh;
}

// a copy of a term: cloned, or assigned to another one of its class
static Term* copied(const Term* t, bool assign) {
    if (!assign) return t->clone();
    const std::string c = t->className();
    if (c == "Discrete") {
        std::vector<Discrete::Pair> xy; xy.push_back(Discrete::Pair(9, 9)); xy.push_back(Discrete::Pair(10, 9));
        return asAssigned<Discrete>(t, new Discrete("junk", xy, .125));
    }
    if (c == "Function") {
        Function* f = new Function("junk", "1+1", 0); f->load();
        return asAssigned<Function>(t, f);
    }
    if (c == "Linear") return asAssigned<Linear>(t, new Linear("junk", std::vector<scalar>(9, 3), 0));
    Term* n = FactoryManager::instance()->term()->constructObject(c);
    n->setName("junk");
    #define AS(X) if (c == #X) return asAssigned<X>(t, n);
    AS(Bell) AS(Binary) AS(Concave) AS(Constant) AS(Cosine) AS(Gaussian) AS(GaussianProduct) AS(PiShape) AS(Ramp)
    AS(Rectangle) AS(SShape) AS(Sigmoid) AS(SigmoidDifference) AS(SigmoidProduct) AS(Spike) AS(Trapezoid) AS(Triangle) AS(ZShape)
    #undef AS
    delete n;
    return t->clone();
}

static void common(Variable* v, const Variable* from, bool assign) {
    v->setName(from->getName());
    v->setDescription(from->getDescription());
    v->setRange(from->getMinimum(), from->getMaximum());
    v->setEnabled(from->isEnabled());
    std::vector<Term*> ts;
    for (std::size_t t = 0; t < from->numberOfTerms(); ++t) ts.push_back(copied(from->getTerm(t), assign));
    if (ts.size() % 2) v->setTerms(ts);
    else for (std::size_t t = ts.size(); t > 0; --t) v->insertTerm(ts[t - 1], 0);
    v->setValue(from->getValue());
    v->setLockValueInRange(from->isLockValueInRange());
}

static InputVariable* copied(const InputVariable* v, int way) {
    if (way == 1) return v->clone();
    if (way == 2) return new InputVariable(*v);
    InputVariable* x = new InputVariable("junk", 5, 6);
    x->addTerm(new Triangle("junk", 5, 5.5, 6));
    x->setValue(5.25); x->setDescription("junk"); x->setEnabled(false); x->setLockValueInRange(true);
    if (way == 3) { *x = *v; return x; }
    if (way == 4) {
        delete x; x = new InputVariable(*v);
        const InputVariable& self = *x;
        *x = self;
        return x;
    }
    delete x; x = new InputVariable;
    common(x, v, true);
    return x;
}

static OutputVariable* copied(const OutputVariable* v, int way) {
    if (way == 1) return v->clone();
    if (way == 2) return new OutputVariable(*v);
    OutputVariable* x = new OutputVariable("junk", 5, 6);
    x->addTerm(new Triangle("junk", 5, 5.5, 6));
    x->setValue(5.25); x->setDescription("junk"); x->setEnabled(false); x->setLockValueInRange(true);
    x->setDefaultValue(5.5); x->setLockPreviousValue(true); x->setPreviousValue(5.75);
    x->setAggregation(new NormalizedSum); x->setDefuzzifier(new MeanOfMaximum(7));
    x->fuzzyOutput()->addTerm(x->getTerm(0), .5, 0);
    if (way == 3) { *x = *v; return x; }
    delete x;
    if (way == 4) {
        x = new OutputVariable(*v);
        const OutputVariable& self = *x;
        *x = self;
        return x;
    }
    x = new OutputVariable;
    common(x, v, true);
    x->setPreviousValue(v->getPreviousValue());
    x->setDefaultValue(v->getDefaultValue());
    x->setLockPreviousValue(v->isLockPreviousValue());
    if (v->getAggregation()) x->setAggregation(v->getAggregation()->clone());
    if (v->getDefuzzifier()) x->setDefuzzifier(v->getDefuzzifier()->clone());
    return x;
}

static Rule* copied(const Rule* r, int n) {
    if (n % 3 == 0) return r->clone();
    if (n % 3 == 1) return new Rule(*r);
    Rule* x = new Rule("if junk is junk then junk is junk", .125);
    x->setEnabled(false);
    *x = *r;
    return x;
}

static RuleBlock* copied(const RuleBlock* b, int way) {
    if (way == 1) return b->clone();
    if (way == 2) return new RuleBlock(*b);
    if (way == 3) {
        RuleBlock* x = new RuleBlock("junk");
        x->addRule(new Rule("if junk is junk then junk is junk"));
        x->setConjunction(new Minimum); x->setDisjunction(new Maximum); x->setImplication(new EinsteinProduct);
        x->setActivation(new Lowest(1)); x->setEnabled(false); x->setDescription("junk");
        *x = *b;
        return x;
    }
    if (way == 4) {
        RuleBlock* x = new RuleBlock(*b);
        const RuleBlock& self = *x;
        *x = self;
        return x;
    }
    RuleBlock* x = new RuleBlock;
    x->setName(b->getName());
    x->setDescription(b->getDescription());
    x->setEnabled(b->isEnabled());
    if (b->getConjunction()) x->conjunction(b->getConjunction()->clone());
    if (b->getDisjunction()) x->disjunction(b->getDisjunction()->clone());
    if (b->getImplication()) x->implication(b->getImplication()->clone());
    if (b->getActivation()) x->activation(b->getActivation()->clone());
    std::vector<Rule*> rs;
    for (std::size_t r = 0; r < b->numberOfRules(); ++r) rs.push_back(copied(b->getRule(r), int(r)));
    switch (rs.size() % 3) {
        case 0: x->rules(rs); break;
        case 1: x->setRules(rs); break;
        default: for (std::size_t r = 0; r < rs.size(); ++r) x->rule(rs[r]);
    }
    return x;
}

void registerAssemble() {
    // assemble S T WAY LOAD: the engine of slot T becomes one made of copies of the components of slot S
    reg("assemble", [](const Args& a) {
        Engine* s = world.at(integer(a[1]));
        int way = integer(a[3]);
        bool load = flag(a[4]), raised = false;
        std::vector<InputVariable*> ins; std::vector<OutputVariable*> outs; std::vector<RuleBlock*> blocks;
        for (std::size_t i = 0; i < s->numberOfInputVariables(); ++i) ins.push_back(copied(s->getInputVariable(i), way));
        for (std::size_t i = 0; i < s->numberOfOutputVariables(); ++i) outs.push_back(copied(s->getOutputVariable(i), way));
        for (std::size_t i = 0; i < s->numberOfRuleBlocks(); ++i) blocks.push_back(copied(s->getRuleBlock(i), way));
        Engine* e = 0;
        if (way == 1) {
            if (load) try { e = new Engine(s->getName(), s->getDescription(), ins, outs, blocks, true); } catch (fl::Exception&) { raised = true; }
            if (!e) e = new Engine(s->getName(), s->getDescription(), ins, outs, blocks, false);
        } else {
            e = new Engine(s->getName(), s->getDescription());
            if (way == 3) {
                for (std::size_t i = ins.size(); i > 0; --i) e->insertInputVariable(ins[i - 1], 0);
                for (std::size_t i = outs.size(); i > 0; --i) e->insertOutputVariable(outs[i - 1], 0);
                for (std::size_t i = blocks.size(); i > 0; --i) e->insertRuleBlock(blocks[i - 1], 0);
            } else if (way == 4) {
                for (std::size_t i = 0; i < ins.size(); ++i) e->addInputVariable(new InputVariable("old", 0, 1));
                for (std::size_t i = 0; i < outs.size(); ++i) e->addOutputVariable(new OutputVariable("old", 0, 1));
                for (std::size_t i = 0; i < blocks.size(); ++i) e->addRuleBlock(new RuleBlock("old"));
                for (std::size_t i = 0; i < ins.size(); ++i) delete e->setInputVariable(ins[i], i);
                for (std::size_t i = 0; i < outs.size(); ++i) delete e->setOutputVariable(outs[i], i);
                for (std::size_t i = 0; i < blocks.size(); ++i) delete e->setRuleBlock(blocks[i], i);
            } else if (way == 5) {
                e->setInputVariables(ins); e->setOutputVariables(outs); e->setRuleBlocks(blocks);
            } else {
                for (std::size_t i = 0; i < ins.size(); ++i) e->addInputVariable(ins[i]);
                for (std::size_t i = 0; i < outs.size(); ++i) e->addOutputVariable(outs[i]);
                for (std::size_t i = 0; i < blocks.size(); ++i) e->addRuleBlock(blocks[i]);
            }
        }
        world.put(integer(a[2]), e);
        std::vector<Variable*> vs = e->variables();
        if (way != 1 || !load || raised)          // (otherwise the constructor has done this)
          for (std::size_t i = 0; i < vs.size(); ++i)
            for (std::size_t t = 0; t < vs[i]->numberOfTerms(); ++t) vs[i]->getTerm(t)->updateReference(e);
        // (references first, then rules; every block gets its turn)
        if (load && (way != 1 || raised))
            for (std::size_t i = 0; i < blocks.size(); ++i)
                try { blocks[i]->loadRules(e); } catch (fl::Exception&) { raised = true; }
        return "\"bad\":" + jbool(raised); });
}
