// Commands over variables and fuzzy values: terms of a variable, activated and aggregated terms.
#include "common.h"
using namespace fl;

// terms: COUNT then for each NAME CLASS HEIGHT NPARAMS PARAMS... (left to the caller: ownership)
static std::vector<Term*> readTerms(const Args& a, std::size_t& i) {
    std::vector<Term*> r;
    int n = integer(a[i++]);
    for (int k = 0; k < n; ++k) {
        std::string name = a[i], cls = a[i + 1], h = a[i + 2];
        int np = integer(a[i + 3]);
        Args p(a.begin() + i + 4, a.begin() + i + 4 + np);
        i += 4 + np;
        if (cls == "Function") r.push_back(new Function(name, "x"));      // not loaded
        else r.push_back(mkTerm(name, cls, h, p, 0, 0));
    }
    return r;
}
static int indexOf(const std::vector<Term*>& ts, const Term* t) {
    for (std::size_t i = 0; i < ts.size(); ++i) if (ts[i] == t) return (int) i + 1;
    return 0;
}
static std::string acts(const std::vector<Term*>& ts, const std::vector<Activated>& v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i)
        os << (i ? "," : "") << "{\"t\":" << indexOf(ts, v[i].getTerm()) << ",\"d\":" << rat(v[i].getDegree()) << ",\"impl\":"
           << jstr(v[i].getImplication() ? v[i].getImplication()->className() : "none") << "}";
    return os.str() + "]";
}

void registerValues() {
    // fuzz decimals x terms
    reg("fuzz", [](const Args& a) {
        std::size_t i = 3;
        InputVariable v("v", -1, 1);
        std::vector<Term*> ts = readTerms(a, i);
        for (std::size_t k = 0; k < ts.size(); ++k) v.addTerm(ts[k]);
        double x = num(a[2]);
        v.setValue(x);
        FL_unique_ptr<InputVariable> w(v.clone());
        fl::fuzzylite::setDecimals(integer(a[1]));
        std::ostringstream os;
        scalar y = -7;
        Term* h = v.highestMembership(x, &y);
        Term* h2 = v.highestMembership(x);
        os << "\"acts\":" << acts(ts, v.activations(x)) << ",\"text\":" << jstr(v.fuzzify(x)) << ",\"itext\":"
           << jstr(w->fuzzyInputValue()) << ",\"max\":" << acts(ts, v.maxActivations(x)) << ",\"hi\":" << indexOf(ts, h)
           << ",\"hi2\":" << indexOf(ts, h2) << ",\"hd\":" << rat(y);
        fl::fuzzylite::setDecimals(3);
        return os.str(); });
    // sortterms resolution lo hi terms
    reg("sortterms", [](const Args& a) {
        std::size_t i = 4;
        Variable v("v", num(a[2]), num(a[3]));
        std::vector<Term*> ts = readTerms(a, i);
        for (std::size_t k = 0; k < ts.size(); ++k) v.addTerm(ts[k]);
        int before = IntegralDefuzzifier::defaultResolution();
        IntegralDefuzzifier::setDefaultResolution(integer(a[1]));
        v.sort();
        IntegralDefuzzifier::setDefaultResolution(before);
        std::ostringstream os;
        os << "\"order\":[";
        for (std::size_t k = 0; k < v.numberOfTerms(); ++k) os << (k ? "," : "") << indexOf(ts, v.getTerm(k));
        os << "]";
        return os.str(); });
    // aggr decimals name lo hi aggregation remove terms COUNT (term degree implication)...
    reg("aggr", [](const Args& a) {
        std::size_t i = 7;
        OutputVariable v(a[2], num(a[3]), num(a[4]));
        std::vector<Term*> ts = readTerms(a, i);
        for (std::size_t k = 0; k < ts.size(); ++k) v.addTerm(ts[k]);
        v.setAggregation(mkSNorm(a[5]));
        std::vector<TNorm*> impl;
        int n = integer(a[i++]);
        for (int k = 0; k < n; ++k, i += 3) {
            impl.push_back(mkTNorm(a[i + 2]));
            const Term* t = ts.at(integer(a[i]) - 1);
            switch (k % 3) {
                case 0: v.fuzzyOutput()->addTerm(t, num(a[i + 1]), impl.back()); break;
                case 1: v.fuzzyOutput()->addTerm(Activated(t, num(a[i + 1]), impl.back())); break;
                default: v.fuzzyOutput()->term(t, num(a[i + 1]), impl.back());
            }
        }
        // the same aggregated term by different ways: copied, assigned over another, put together
        Triangle junk("junk", 5, 6, 7);
        const Aggregated& f = *v.fuzzyOutput();
        Aggregated g("junk", 5, 6, new NormalizedSum, std::vector<Activated>(2, Activated(&junk, .5, 0)));
        switch ((n + a[2].size() + integer(a[1])) % 4) {
            case 0: { g = f; const Aggregated& self = g; g = self; break; }
            case 1:
                g.setName(f.getName()); g.setTerms(f.terms()); g.setRange(f.getMinimum(), f.getMaximum());
                g.setAggregation(f.getAggregation() ? f.getAggregation()->clone() : 0);
                break;
            case 2:
                g.setName(f.getName());
                g.clear();
                g.terms(f.terms()).range(f.getMinimum(), f.getMaximum()).aggregation(f.getAggregation() ? f.getAggregation()->clone() : 0);
                break;
            default:
                g = Aggregated(f.getName(), f.getMinimum(), f.getMaximum(), f.getAggregation() ? f.getAggregation()->clone() : 0, f.terms());
        }
        FL_unique_ptr<Aggregated> c(g.clone());
        fl::fuzzylite::setDecimals(integer(a[1]));
        std::ostringstream os;
        os << "\"entries\":" << acts(ts, g.terms()) << ",\"text\":" << jstr(g.fuzzyValue()) << ",\"otext\":" << jstr(v.fuzzyOutputValue())
           << ",\"str\":" << jstr(c->toString()) << ",\"params\":" << jstr(g.parameters()) << ",\"degs\":[";
        for (std::size_t k = 0; k < ts.size(); ++k) os << (k ? "," : "") << rat(c->activationDegree(ts[k]));
        Activated top = g.highestActivatedTerm();
        Aggregated gr = g.grouped();
        os << "],\"max\":" << acts(ts, g.maximallyActivatedTerms()) << ",\"top\":" << indexOf(ts, top.getTerm()) << ",\"topd\":"
           << rat(top.getDegree()) << ",\"groups\":" << acts(ts, gr.terms()) << ",\"groups2\":" << acts(ts, c->groupedTerms())
           << ",\"gagg\":" << jstr(gr.getAggregation() ? gr.getAggregation()->className() : "none") << ",\"gname\":" << jstr(gr.getName())
           << ",\"glo\":" << rat(gr.getMinimum()) << ",\"ghi\":" << rat(gr.getMaximum()) << ",\"n\":" << g.numberOfTerms()
           << ",\"empty\":" << jbool(g.isEmpty());
        // the first and the last entry as text of their own
        os << ",\"first\":" << jstr(n ? g.getTerm(0).toString() : "") << ",\"fpar\":" << jstr(n ? g.getTerm(n - 1).parameters() : "");
        // one entry is removed, from the copy only
        if (n) {
            Activated gone = c->removeTerm(integer(a[6]));
            os << ",\"gone\":" << acts(ts, std::vector<Activated>(1, gone)) << ",\"rest\":" << acts(ts, c->terms());
            c->clear();
        }
        os << ",\"after\":" << acts(ts, g.terms()) << ",\"cleared\":" << jbool(c->isEmpty() && c->numberOfTerms() == 0);
        fl::fuzzylite::setDecimals(3);
        v.fuzzyOutput()->clear();
        for (std::size_t k = 0; k < impl.size(); ++k) delete impl[k];
        return os.str(); });
}
