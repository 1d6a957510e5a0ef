// Commands over the collections of an engine (input variables, output variables, rule blocks),
// of a variable (terms), and of a rule block (rules); and over factories.
#include "common.h"
using namespace fl;

struct Coll {
    std::function<std::size_t()> count;
    std::function<std::vector<void*>()> all;
    std::function<void*(int)> at;
    std::function<void*(const std::string&)> named, removeNamed;
    std::function<bool(const std::string&)> has;
    std::function<void(void*)> add;
    std::function<void(void*, int)> insert;
    std::function<void*(void*, int)> set;
    std::function<void*(int)> removeAt;
    std::function<void(const std::vector<void*>&)> assign;
    std::function<void*(const std::string&)> make;
    std::function<std::string(void*)> name;
    std::function<void(void*, const std::string&)> rename;
    std::function<void(void*)> kill;
};

template <typename T> static std::vector<void*> anon(const std::vector<T*>& v) { return std::vector<void*>(v.begin(), v.end()); }
template <typename T> static std::vector<T*> typed(const std::vector<void*>& v) {
    std::vector<T*> r;
    for (std::size_t i = 0; i < v.size(); ++i) r.push_back(static_cast<T*>(v[i]));
    return r;
}

static Engine* engine = 0;
static OutputVariable* variable = 0;
static RuleBlock* block = 0;
static std::map<void*, int> ids;
static int next = 1;

#define ENGINE_COLL(T, vec) { \
    Coll c; \
    c.count = []() { return engine->numberOf##T##s(); }; \
    c.all = []() { return anon<T>(engine->vec()); }; \
    c.at = [](int i) -> void* { return engine->get##T(i); }; \
    c.named = [](const std::string& n) -> void* { return engine->get##T(n); }; \
    c.has = [](const std::string& n) { return engine->has##T(n); }; \
    c.add = [](void* p) { engine->add##T(static_cast<T*>(p)); }; \
    c.insert = [](void* p, int i) { engine->insert##T(static_cast<T*>(p), i); }; \
    c.set = [](void* p, int i) -> void* { return engine->set##T(static_cast<T*>(p), i); }; \
    c.removeAt = [](int i) -> void* { return engine->remove##T(std::size_t(i)); }; \
    c.removeNamed = [](const std::string& n) -> void* { return engine->remove##T(n); }; \
    c.assign = [](const std::vector<void*>& v) { engine->set##T##s(typed<T>(v)); }; \
    c.make = [](const std::string& n) -> void* { return new T(n); }; \
    c.name = [](void* p) { return static_cast<T*>(p)->getName(); }; \
    c.rename = [](void* p, const std::string& n) { static_cast<T*>(p)->setName(n); }; \
    c.kill = [](void* p) { delete static_cast<T*>(p); }; \
    colls[#vec] = c; }

static std::map<std::string, Coll> colls;
static void setup() {
    if (!engine) { engine = new Engine; variable = new OutputVariable("v"); block = new RuleBlock; }
    if (!colls.empty()) return;
    ENGINE_COLL(InputVariable, inputVariables)
    ENGINE_COLL(OutputVariable, outputVariables)
    ENGINE_COLL(RuleBlock, ruleBlocks)
    {
        Coll c;
        c.count = []() { return variable->numberOfTerms(); };
        c.all = []() { return anon<Term>(variable->terms()); };
        c.at = [](int i) -> void* { return variable->getTerm(i); };
        c.named = [](const std::string& n) -> void* { return variable->getTerm(n); };
        c.has = [](const std::string& n) { return variable->hasTerm(n); };
        c.add = [](void* p) { variable->addTerm(static_cast<Term*>(p)); };
        c.insert = [](void* p, int i) { variable->insertTerm(static_cast<Term*>(p), i); };
        c.removeAt = [](int i) -> void* { return variable->removeTerm(i); };
        c.assign = [](const std::vector<void*>& v) { variable->setTerms(typed<Term>(v)); };
        c.make = [](const std::string& n) -> void* { return static_cast<Term*>(new Triangle(n)); };
        c.name = [](void* p) { return static_cast<Term*>(p)->getName(); };
        c.rename = [](void* p, const std::string& n) { static_cast<Term*>(p)->setName(n); };
        c.kill = [](void* p) { delete static_cast<Term*>(p); };
        colls["terms"] = c;
    }
    {
        Coll c;
        c.count = []() { return block->numberOfRules(); };
        c.all = []() { return anon<Rule>(block->rules()); };
        c.at = [](int i) -> void* { return block->getRule(i); };
        c.add = [](void* p) { block->addRule(static_cast<Rule*>(p)); };
        c.insert = [](void* p, int i) { block->insertRule(static_cast<Rule*>(p), i); };
        c.removeAt = [](int i) -> void* { return block->removeRule(i); };
        c.assign = [](const std::vector<void*>& v) { block->setRules(typed<Rule>(v)); };
        c.make = [](const std::string& n) -> void* { return new Rule(n); };
        c.name = [](void* p) { return static_cast<Rule*>(p)->getText(); };
        c.rename = [](void* p, const std::string& n) { static_cast<Rule*>(p)->setText(n); };
        c.kill = [](void* p) { delete static_cast<Rule*>(p); };
        colls["rules"] = c;
    }
}
static int idOf(void* p) { return ids.count(p) ? ids[p] : -1; }
static void* fresh(Coll& c, const std::string& n) { void* p = c.make(n); ids[p] = next++; return p; }
static void drop(Coll& c, void* p) { ids.erase(p); c.kill(p); }

static std::string seq(Coll& c) {
    std::vector<void*> v = c.all();
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i)
        os << (i ? "," : "") << "{\"id\":" << idOf(v[i]) << ",\"name\":" << jstr(ids.count(v[i]) ? c.name(v[i]) : "?") << "}";
    return os.str() + "]";
}
// everything there is to see about a collection; names: those looked up
static std::string look(Coll& c, const std::string& names) {
    std::ostringstream os;
    os << "\"seq\":" << seq(c) << ",\"count\":" << c.count() << ",\"at\":[";
    std::size_t n = c.all().size();
    for (std::size_t i = 0; i < n; ++i) os << (i ? "," : "") << idOf(c.at((int) i));
    os << "],\"beyond\":";
    try { c.at((int) n); os << "false"; } catch (std::exception&) { os << "true"; }
    os << ",\"found\":[";
    std::vector<std::string> w = words(names);
    if (c.named) for (std::size_t i = 0; i < w.size(); ++i) {
        os << (i ? "," : "") << "{\"name\":" << jstr(w[i]) << ",\"has\":" << jbool(c.has(w[i])) << ",\"id\":";
        try { os << idOf(c.named(w[i])); } catch (fl::Exception&) { os << 0; }
        os << "}";
    }
    os << "]";
    // the variables of an engine, inputs first
    std::vector<Variable*> vs = engine->variables();
    std::vector<InputVariable*>& ins = engine->inputVariables();
    std::vector<OutputVariable*>& outs = engine->outputVariables();
    bool ok = vs.size() == ins.size() + outs.size();
    for (std::size_t i = 0; ok && i < ins.size(); ++i) ok = vs[i] == ins[i];
    for (std::size_t i = 0; ok && i < outs.size(); ++i) ok = vs[ins.size() + i] == outs[i];
    os << ",\"vars\":" << jbool(ok);
    return os.str();
}

template <typename F> static std::string factory(F* f) {
    std::ostringstream os;
    std::vector<std::string> v = f->available();
    os << "\"av\":[";
    for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << jstr(v[i]);
    return os.str() + "]";
}
static std::string classOf(Term* t) { return t->className(); }
static std::string classOf(Hedge* t) { return t->name(); }
static std::string classOf(Norm* t) { return t->className(); }
static std::string classOf(Activation* t) { return t->className(); }
static std::string classOf(Defuzzifier* t) { return t->className(); }
static std::string classOf(Function::Element* t) { return t->name; }

// an action on a factory of constructors: has KEY, make KEY, drop KEY, put KEY AS, clone, list
template <typename T> static std::string construct(ConstructionFactory<T>*& f, const Args& a) {
    std::string head;
    if (a[2] == "put") f->registerConstructor(a[3], f->getConstructor(a[4]));
    else if (a[2] == "drop") f->deregisterConstructor(a[3]);
    else if (a[2] == "clone") { f = f->clone(); }
    else if (a[2] == "make") {
        try {
            T o = f->constructObject(a[3]);
            head = "\"made\":" + jstr(o ? classOf(o) : "null") + ",";
            delete o;
        } catch (fl::Exception&) { head = "\"made\":\"error\","; }
    }
    return head + "\"has\":" + jbool(f->hasConstructor(a[3])) + ",\"ctor\":" + jbool(f->getConstructor(a[3]) != 0) + "," + factory(f);
}
static ConstructionFactory<TNorm*>* ftn = 0;
static ConstructionFactory<SNorm*>* fsn = 0;
static ConstructionFactory<Activation*>* fac = 0;
static ConstructionFactory<Defuzzifier*>* fdf = 0;
static ConstructionFactory<Term*>* fte = 0;
static ConstructionFactory<Hedge*>* fhe = 0;
static FunctionFactory* ffu = 0;

// the manager takes copies of the factories of another (or of its own), changed
template <class F> static F* changed(const F* from, const std::string& kind, const Args& a) {
    F* f = dynamic_cast<F*>(from->clone());
    if (!a.empty() && a[1] == kind) {
        if (a[2] == "drop") f->deregisterConstructor(a[3]);
        else f->registerConstructor(a[3], f->getConstructor(a[4]));
    }
    return f;
}
static void swapFactory(FactoryManager* m, const FactoryManager* from, const Args& a) {
    std::string k = a.empty() ? "" : a[1];
    if (k == "tnorm" || k == "") m->setTnorm(changed(from->tnorm(), k, a));
    if (k == "snorm" || k == "") m->setSnorm(changed(from->snorm(), k, a));
    if (k == "activation" || k == "") m->setActivation(changed(from->activation(), k, a));
    if (k == "defuzzifier" || k == "") m->setDefuzzifier(changed(from->defuzzifier(), k, a));
    if (k == "term" || k == "") m->setTerm(changed(from->term(), k, a));
    if (k == "hedge" || k == "") m->setHedge(changed(from->hedge(), k, a));
    if (k == "") m->setFunction(from->function()->clone());
}
// the class of the one component of that kind in the engine of a text
static std::string builtOf(const std::string& kind, const std::string& text) {
    try {
        FL_unique_ptr<Engine> e(FllImporter().fromString(text));
        RuleBlock* b = e->getRuleBlock(0);
        if (kind == "tnorm") return b->getConjunction() ? b->getConjunction()->className() : "null";
        if (kind == "snorm") return b->getDisjunction() ? b->getDisjunction()->className() : "null";
        if (kind == "activation") return b->getActivation() ? b->getActivation()->className() : "null";
        if (kind == "defuzzifier") return e->getOutputVariable(0)->getDefuzzifier() ? e->getOutputVariable(0)->getDefuzzifier()->className() : "null";
        if (kind == "term") return e->getInputVariable(0)->getTerm(0)->className();
        if (!b->getRule(0)->isLoaded()) return "error";
        Proposition* p = dynamic_cast<Proposition*>(b->getRule(0)->getAntecedent()->getExpression());
        return p && p->hedges.size() == 1 ? p->hedges[0]->name() : "?";
    } catch (std::exception&) { return "error"; }
}

void registerCollections() {
    // collnew: everything anew
    reg("collnew", [](const Args&) {
        setup();
        ids.clear(); next = 1;
        delete engine; delete variable; delete block;
        engine = 0;
        setup();
        return std::string(); });
    // coll KIND names ACTION args...
    reg("coll", [](const Args& a) {
        Coll& c = colls.at(a[1]);
        std::string op = a[3];
        int ans = 0;
        bool raised = false;
        if (op == "add") c.add(fresh(c, a[4]));
        else if (op == "insert") c.insert(fresh(c, a[4]), integer(a[5]));
        else if (op == "set") {
            void* p = fresh(c, a[4]);
            try { void* q = c.set(p, integer(a[5])); ans = idOf(q); if (ans > 0 && q != p) drop(c, q); }
            catch (std::exception&) { raised = true; drop(c, p); }
        } else if (op == "removeat") {
            try { void* q = c.removeAt(integer(a[4])); ans = idOf(q); if (ans > 0) drop(c, q); } catch (std::exception&) { raised = true; }
        } else if (op == "removename") {
            try { void* q = c.removeNamed(a[4]); ans = idOf(q); if (ans > 0) drop(c, q); } catch (fl::Exception&) { raised = true; }
        } else if (op == "rename") {
            std::vector<void*> v = c.all();
            if ((std::size_t) integer(a[4]) < v.size()) c.rename(v[integer(a[4])], a[5]);
        } else if (op == "assign") {
            std::vector<void*> v = c.all(), w;
            std::vector<std::string> ns = words(a[4]);
            for (std::size_t i = 0; i < ns.size(); ++i) w.push_back(fresh(c, ns[i]));
            c.assign(w);
            for (std::size_t i = 0; i < v.size(); ++i) drop(c, v[i]);
        }
        return "\"ans\":" + std::to_string(ans) + ",\"raised\":" + jbool(raised) + "," + look(c, a[2]); });
    // collset NAME VALUE, collget NAME: values through the engine
    reg("collset", [](const Args& a) {
        bool raised = false;
        try { engine->setInputValue(a[1], num(a[2])); } catch (fl::Exception&) { raised = true; }
        std::ostringstream os;
        os << "\"raised\":" << jbool(raised) << ",\"vals\":[";
        for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i) {
            os << (i ? "," : "") << rat(engine->getInputVariable(i)->getValue());
            engine->getInputVariable(i)->setValue(fl::nan);
        }
        return os.str() + "]"; });
    reg("collget", [](const Args& a) {
        for (std::size_t i = 0; i < engine->numberOfOutputVariables(); ++i) engine->getOutputVariable(i)->setValue(scalar(i));
        try { return "\"raised\":false,\"val\":" + rat(engine->getOutputValue(a[1])); }
        catch (fl::Exception&) { return std::string("\"raised\":true,\"val\":[0,0]"); } });
    // factories
    reg("factnew", [](const Args&) {
        ftn = new TNormFactory; fsn = new SNormFactory; fac = new ActivationFactory; fdf = new DefuzzifierFactory;
        fte = new TermFactory; fhe = new HedgeFactory; ffu = new FunctionFactory;
        return std::string(); });
    reg("fact", [](const Args& a) {
        if (a[1] == "tnorm") return construct(ftn, a);
        if (a[1] == "snorm") return construct(fsn, a);
        if (a[1] == "activation") return construct(fac, a);
        if (a[1] == "defuzzifier") return construct(fdf, a);
        if (a[1] == "term") return construct(fte, a);
        if (a[1] == "hedge") return construct(fhe, a);
        throw std::logic_error("factory"); });
    // which of the manager's factories is it?
    reg("factmanager", [](const Args& a) {
        FactoryManager* m = FactoryManager::instance();
        FL_unique_ptr<FactoryManager> c(m->clone());
        FactoryManager* f = a[2] == "1" ? c.get() : m;
        if (a[1] == "tnorm") return factory(f->tnorm());
        if (a[1] == "snorm") return factory(f->snorm());
        if (a[1] == "activation") return factory(f->activation());
        if (a[1] == "defuzzifier") return factory(f->defuzzifier());
        if (a[1] == "term") return factory(f->term());
        if (a[1] == "hedge") return factory(f->hedge());
        return factory(f->function()); });
    // factswap KIND drop|put KEY FROM text: engines are read with what the manager's factory has, while it has it
    reg("factswap", [](const Args& a) {
        FactoryManager* m = FactoryManager::instance();
        FL_unique_ptr<FactoryManager> kept(m->clone());
        std::string r = "\"during\":" + jstr((swapFactory(m, m, a), builtOf(a[1], a[5])));
        swapFactory(m, kept.get(), Args());
        return r + ",\"after\":" + jstr(builtOf(a[1], a[5])); });
    // defuzz KEY resolution type
    reg("defuzzmake", [](const Args& a) {
        DefuzzifierFactory* f = FactoryManager::instance()->defuzzifier();
        WeightedDefuzzifier::Type ty = a[3] == "TakagiSugeno" ? WeightedDefuzzifier::TakagiSugeno
            : a[3] == "Tsukamoto" ? WeightedDefuzzifier::Tsukamoto : WeightedDefuzzifier::Automatic;
        std::string r;
        try {
            FL_unique_ptr<Defuzzifier> d(a[4] == "0" ? f->constructDefuzzifier(a[1], integer(a[2]), ty)
                : a[4] == "1" ? f->constructIntegral(a[1], integer(a[2])) : f->constructWeighted(a[1], ty));
            if (!d.get()) return std::string("\"made\":\"null\",\"res\":0,\"type\":\"\"");
            IntegralDefuzzifier* i = dynamic_cast<IntegralDefuzzifier*>(d.get());
            WeightedDefuzzifier* w = dynamic_cast<WeightedDefuzzifier*>(d.get());
            return "\"made\":" + jstr(d->className()) + ",\"res\":" + std::to_string(i ? i->getResolution() : 0) + ",\"type\":"
                + jstr(w ? w->getTypeName() : "");
        } catch (fl::Exception&) { return std::string("\"made\":\"error\",\"res\":0,\"type\":\"\""); } });
    // functions: objects that are cloned
    reg("func", [](const Args& a) {
        std::string head;
        if (a[1] == "put") {
            Function::Element* o = ffu->getObject(a[3]);
            if (o) { Function::Element* c = o->clone(); c->name = a[2]; ffu->deregisterObject(a[2]); ffu->registerObject(a[2], c); }
        } else if (a[1] == "drop") ffu->deregisterObject(a[2]);
        else if (a[1] == "clone") { FunctionFactory* g = ffu->clone(); delete ffu; ffu = g; }
        else if (a[1] == "assign") { FunctionFactory g; g.clear(); g = *ffu; *ffu = g; }
        else if (a[1] == "make") {
            try {
                FL_unique_ptr<Function::Element> o(ffu->cloneObject(a[2]));
                head = "\"made\":" + jstr(o.get() ? o->name : "null") + ",\"arity\":" + std::to_string(o.get() ? o->arity : -1)
                    + ",\"isop\":" + jbool(o.get() && o->isOperator()) + ",\"own\":" + jbool(o.get() != ffu->getObject(a[2])) + ",";
            } catch (fl::Exception&) { head = "\"made\":\"error\",\"arity\":-1,\"isop\":false,\"own\":true,"; }
        }
        std::ostringstream os;
        std::vector<std::string> v = ffu->availableOperators(), w = ffu->availableFunctions();
        os << ",\"ops\":[";
        for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << jstr(v[i]);
        os << "],\"funs\":[";
        for (std::size_t i = 0; i < w.size(); ++i) os << (i ? "," : "") << jstr(w[i]);
        os << "]";
        return head + "\"has\":" + jbool(ffu->hasObject(a[2])) + "," + factory(ffu) + os.str(); });
}
