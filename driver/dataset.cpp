// Commands over tables of values of an engine: FLD datasets and benchmarks.
#include "common.h"
#include <fstream>
#include <unistd.h>
using namespace fl;

static std::map<int, std::unique_ptr<Benchmark>> bench;
static Benchmark* at(const Args& a) { return bench.at(integer(a[1])).get(); }

static std::string rowsJson(const std::vector<std::vector<scalar> >& m) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < m.size(); ++i) {
        os << (i ? ",[" : "[");
        for (std::size_t j = 0; j < m[i].size(); ++j) os << (j ? "," : "") << rat(m[i][j]);
        os << "]";
    }
    os << "]";
    return os.str();
}
static std::string rowsOf(const Benchmark* b) {
    return "\"expected\":" + rowsJson(b->getExpected()) + ",\"obtained\":" + rowsJson(b->getObtained());
}
static FldExporter::ScopeOfValues scopeOf(const std::string& s) { return s == "each" ? FldExporter::EachVariable : FldExporter::AllVariables; }

// a file of its own, gone afterwards
struct Scratch {
    std::string path;
    Scratch() {          // (a file that holds something already)
        char p[] = "/tmp/fv-XXXXXX"; int fd = mkstemp(p); path = p;
        if (fd >= 0) { for (int i = 0; i < 99; ++i) if (write(fd, "old old old\n", 12) < 0) break; close(fd); }
    }
    ~Scratch() { unlink(path.c_str()); }
    std::string read() const { std::ifstream f(path.c_str()); std::ostringstream os; os << f.rdbuf(); return os.str(); }
};

static FldExporter exporter(const Args& a, std::size_t k) {       // separator header inputs outputs
    FldExporter x(a[k]);
    x.setExportHeader(flag(a[k + 1]));
    x.setExportInputValues(flag(a[k + 2]));
    x.setExportOutputValues(flag(a[k + 3]));
    return x;
}
static std::vector<InputVariable*> actives(Engine* e, const std::string& flags) {
    std::vector<InputVariable*> r;
    for (std::size_t i = 0; i < flags.size(); ++i) r.push_back(flags[i] == '1' && i < e->numberOfInputVariables() ? e->getInputVariable(i) : fl::null);
    return r;
}
static std::string out(const std::string& s) { return "\"out\":" + jstr(s); }
static Benchmark::TimeUnit unitOf(const std::string& s) {
    for (int u = 0; u <= Benchmark::Hours; ++u) if (Benchmark::stringOf(Benchmark::TimeUnit(u)) == s) return Benchmark::TimeUnit(u);
    throw std::logic_error("unit");
}
static std::string resultsJson(const std::vector<Benchmark::Result>& r) {
    std::ostringstream os;
    os << "\"results\":[";
    for (std::size_t i = 0; i < r.size(); ++i) os << (i ? "," : "") << "[" << jstr(r[i].first) << "," << jstr(r[i].second) << "]";
    os << "]";
    return os.str();
}

void registerDataset() {
    // ingrid slot i k r: the input takes the k-th of r + 1 equally distributed values
    reg("ingrid", [](const Args& a) {
        InputVariable* v = world.at(integer(a[1]))->getInputVariable(integer(a[2]) - 1);
        int k = integer(a[3]), r = integer(a[4]);
        v->setValue(v->getMinimum() + k * (v->getMaximum() - v->getMinimum()) / (r > 0 ? r : 1));
        return std::string(); });
    // keep slot i: the input is given the value it has
    reg("keep", [](const Args& a) {
        InputVariable* v = world.at(integer(a[1]))->getInputVariable(integer(a[2]) - 1);
        v->setValue(v->getValue());
        return std::string(); });
    // fldgrid slot variant sep header inputs outputs values scope active ("*": all, not given)
    reg("fldgrid", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        FldExporter x = exporter(a, 3);
        int n = integer(a[7]);
        FldExporter::ScopeOfValues sc = scopeOf(a[8]);
        bool all = a[9] == "*";
        std::vector<InputVariable*> act = actives(e, all ? "" : a[9]);
        if (a[2] == "string") return out(all ? x.toString(e, n, sc) : x.toString(e, n, sc, act));
        if (a[2] == "const") return out(x.toString(static_cast<const Engine*>(e)));
        if (a[2] == "write") {
            std::ostringstream os;
            if (all) x.write(e, os, n, sc); else x.write(e, os, n, sc, act);
            return out(os.str());
        }
        Scratch f;
        if (all) x.toFile(f.path, e, n, sc); else x.toFile(f.path, e, n, sc, act);
        return out(f.read()); });
    // fldread slot variant sep header inputs outputs text
    reg("fldread", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        FldExporter x = exporter(a, 3);
        std::istringstream is(a[7]);
        if (a[2] == "string") return out(x.toString(e, is));
        if (a[2] == "write") { std::ostringstream os; x.write(e, os, is); return out(os.str()); }
        Scratch f;
        x.toFile(f.path, e, is);
        return out(f.read()); });
    // fldrow slot sep header inputs outputs active values...
    reg("fldrow", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        FldExporter x = exporter(a, 2);
        std::vector<scalar> v;
        for (std::size_t i = 7; i < a.size(); ++i) v.push_back(num(a[i]));
        std::ostringstream os;
        if (a[6] == "*") x.write(e, os, v); else x.write(e, os, v, actives(e, a[6]));
        return out(os.str()); });

    // rscript slot variant mode(grid read default file) a b outputs colors(3, or *) n scope | text | path
    reg("rscript", [](const Args& a) {
        Engine* e = world.at(integer(a[1]));
        RScriptExporter x;
        if (a[7] != "*") {
            std::vector<std::string> c = words(a[7]);
            x.setMinimumColor(c.at(0)); x.setMaximumColor(c.at(1)); x.setContourColor(c.at(2));
        }
        InputVariable* i = e->getInputVariable(integer(a[4]) - 1);
        InputVariable* j = e->getInputVariable(integer(a[5]) - 1);
        std::vector<OutputVariable*> z;
        for (std::size_t k = 0; k < a[6].size(); ++k) z.push_back(e->getOutputVariable(a[6][k] - '1'));
        std::string lib = ",\"lib\":[" + jstr(fl::fuzzylite::library()) + "," + jstr(fl::fuzzylite::version()) + "]";
        Scratch f;
        bool file = a[2] == "file";
        if (a[3] == "grid") {
            if (!file) return out(x.toString(e, i, j, integer(a[8]), scopeOf(a[9]), z)) + lib;
            x.toFile(f.path, e, i, j, integer(a[8]), scopeOf(a[9]), z);
        } else if (a[3] == "read") {
            std::istringstream is(a[8]);
            if (!file) return out(x.toString(e, i, j, is, z)) + lib;
            x.toFile(f.path, e, i, j, is, z);
        } else if (a[3] == "default") {
            if (!file) return out(x.toString(static_cast<const Engine*>(e))) + lib;
            x.toFile(f.path, static_cast<const Engine*>(e));
        } else {
            std::ostringstream os;
            x.writeScriptImportingDataFrame(e, os, i, j, a[8], z);
            return out(os.str()) + lib;
        }
        return out(f.read()) + lib; });

    // rusual slot: what is plotted when nothing is said
    reg("rusual", [](const Args& a) {
        std::string got[3];
        for (int k = 0; k < 3; ++k) {
            std::unique_ptr<Engine> q(world.at(integer(a[1]))->clone());
            const Engine* c = q.get();
            Scratch f;
            try {
                if (k == 0) got[k] = RScriptExporter().toString(c);
                else if (k == 1) { RScriptExporter().toFile(f.path, c); got[k] = f.read(); }
                else got[k] = RScriptExporter().toString(q.get(), q->getInputVariable(0), q->getInputVariable(q->numberOfInputVariables() > 1 ? 1 : 0),
                                                         1024, FldExporter::AllVariables, q->outputVariables());
            } catch (fl::Exception&) { got[k] = "raised"; }
        }
        return "\"usual\":" + jbool(got[0] == got[2] && got[1] == got[2]); });

    // ---- benchmarks
    reg("bnew", [](const Args& a) {
        bench[integer(a[1])].reset(new Benchmark(a[2], world.at(integer(a[1])), num(a[3])));
        return std::string(); });
    reg("bdel", [](const Args& a) { bench.erase(integer(a[1])); return std::string(); });
    reg("bgrid", [](const Args& a) { at(a)->prepare(integer(a[2]), scopeOf(a[3])); return rowsOf(at(a)); });
    reg("bread", [](const Args& a) {
        std::istringstream is(a[2]);
        if (integer(a[3]) < 0) at(a)->prepare(is); else at(a)->prepare(is, integer(a[3]));
        return rowsOf(at(a)); });
    // btweak slot row column delta ...: what was obtained is expected, except there
    reg("btweak", [](const Args& a) {
        const std::vector<std::vector<scalar> > had = at(a)->getObtained();
        std::vector<std::vector<scalar> > m = had;
        for (std::size_t i = 2; i + 2 < a.size(); i += 3) {
            scalar& x = m.at(integer(a[i])).at(integer(a[i + 1]));
            if (a[i + 2] == "nan" || a[i + 2] == "inf" || a[i + 2] == "-inf") x = num(a[i + 2]);
            else x = had.at(integer(a[i])).at(integer(a[i + 1])) + num(a[i + 2]);
        }
        at(a)->setExpected(m);
        return rowsOf(at(a)); });
    reg("brows", [](const Args& a) { return rowsOf(at(a)); });
    reg("btol", [](const Args& a) { at(a)->setTolerance(num(a[2])); return std::string(); });
    reg("breset", [](const Args& a) { at(a)->reset(); return rowsOf(at(a)) + ",\"total\":" + std::to_string(at(a)->getTimes().size()); });
    reg("brun", [](const Args& a) {
        std::size_t before = at(a)->getTimes().size(), got = 1;
        if (a[2] == "once") at(a)->runOnce();
        else got = at(a)->run(integer(a[2])).size();
        return rowsOf(at(a)) + ",\"times\":" + std::to_string(got) + ",\"before\":" + std::to_string(before)
               + ",\"total\":" + std::to_string(at(a)->getTimes().size()); });
    reg("berr", [](const Args& a) {
        const Benchmark* b = at(a);
        const Engine* e = b->getEngine();
        std::ostringstream all, acc, nf, mse;
        all << b->allErrors(); acc << b->accuracyErrors(); nf << b->nonFiniteErrors(); mse << rat(b->meanSquaredError());
        for (std::size_t i = 0; i < e->numberOfOutputVariables(); ++i) {
            const OutputVariable* o = e->getOutputVariable(i);
            all << "," << b->allErrors(o); acc << "," << b->accuracyErrors(o); nf << "," << b->nonFiniteErrors(o);
            mse << "," << rat(b->meanSquaredError(o));
        }
        return rowsOf(b) + ",\"can\":" + jbool(b->canComputeErrors()) + ",\"all\":[" + all.str() + "],\"acc\":[" + acc.str()
               + "],\"nf\":[" + nf.str() + "],\"mse\":[" + mse.str() + "]"; });
    // bres slot unit output(0: all) withtimes unit-of-given-times times...
    reg("bres", [](const Args& a) {
        Benchmark* b = at(a);
        std::vector<scalar> t;
        double ns = a[5] == "hours" ? 3600e9 : a[5] == "minutes" ? 60e9 : a[5] == "seconds" ? 1e9 : a[5] == "milliseconds" ? 1e6 : a[5] == "microseconds" ? 1e3 : 1;
        for (std::size_t i = 6; i < a.size(); ++i) t.push_back(num(a[i]) * ns);
        b->setTimes(t);
        int o = integer(a[3]);
        return rowsOf(b) + "," + resultsJson(o == 0 ? b->results(unitOf(a[2]), flag(a[4]))
                                                    : b->results(b->getEngine()->getOutputVariable(o - 1), unitOf(a[2]), flag(a[4]))); });
    // bfmt slot shape contents delimiter: the results as a table
    reg("bfmt", [](const Args& a) {
        Benchmark* b = at(a);
        std::vector<Benchmark::Result> r = b->results();
        return resultsJson(r) + ",\"table\":"
               + jstr(b->format(r, a[2] == "vertical" ? Benchmark::Vertical : Benchmark::Horizontal,
                                a[3] == "header" ? Benchmark::Header : a[3] == "body" ? Benchmark::Body : Benchmark::HeaderAndBody, a[4])); });
    reg("bhead", [](const Args& a) {
        std::vector<std::string> h = Benchmark().header(integer(a[2]), flag(a[3]));
        std::ostringstream os;
        for (std::size_t i = 0; i < h.size(); ++i) os << (i ? "," : "") << jstr(h[i]);
        return "\"names\":[" + os.str() + "]"; });
}
