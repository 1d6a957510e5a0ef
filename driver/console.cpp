// What the library answers to that which the command-line tool is asked for.
#include "common.h"
#include <fstream>
using namespace fl;

struct Decimals {
    int before;
    Decimals(int d) : before(fl::fuzzylite::decimals()) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(before); }
};
static Engine* read(const std::string& format, const std::string& text) {
    if (format == "fll") return FllImporter().fromString(text);
    if (format == "fis") return FisImporter().fromString(text);
    return FclImporter().fromString(text);
}
static std::string strings(const std::vector<std::string>& v) {
    std::ostringstream os;
    os << "[";
    for (std::size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << jstr(v[i]);
    os << "]";
    return os.str();
}
static std::string inputsOf(Engine* e) {
    std::vector<std::string> v;
    for (std::size_t i = 0; i < e->numberOfInputVariables(); ++i) v.push_back(Op::str(e->getInputVariable(i)->getValue()));
    return "\"ins\":" + strings(v);
}

void registerConsole() {
    // toolconv decimals from to text
    reg("toolconv", [](const Args& a) {
        Decimals d(integer(a[1]));
        std::unique_ptr<Engine> e(read(a[2], a[4]));
        std::string t;
        if (a[3] == "fll") t = FllExporter().toString(e.get());
        else if (a[3] == "fis") t = FisExporter().toString(e.get());
        else if (a[3] == "fcl") t = FclExporter().toString(e.get());
        else if (a[3] == "cpp") t = CppExporter().toString(e.get());
        else t = JavaExporter().toString(e.get());
        return "\"text\":" + jstr(t); });
    // tooltab decimals from header inputs (data DATA | values N SCOPE) text
    reg("tooltab", [](const Args& a) {
        Decimals d(integer(a[1]));
        std::unique_ptr<Engine> e(read(a[2], a.back()));
        FldExporter x(" ");
        x.setExportHeader(flag(a[3]));
        x.setExportInputValues(flag(a[4]));
        std::string t;
        if (a[5] == "data") { std::istringstream is(a[6]); t = x.toString(e.get(), is); }
        else t = x.toString(e.get(), integer(a[6]), a[7] == "AllVariables" ? FldExporter::AllVariables : FldExporter::EachVariable);
        return "\"text\":" + jstr(t); });
    // toolframe decimals name text: the script of an example
    reg("toolframe", [](const Args& a) {
        Decimals d(integer(a[1]));
        std::unique_ptr<Engine> e(read("fll", a[3]));
        std::ostringstream os;
        InputVariable* x = e->getInputVariable(0);
        InputVariable* y = e->getInputVariable(e->numberOfInputVariables() > 1 ? 1 : 0);
        RScriptExporter().writeScriptImportingDataFrame(e.get(), os, x, y, a[2] + ".fld", e->outputVariables());
        return "\"text\":" + jstr(os.str()); });
    // toolopen slot decimals from inputs text
    reg("toolopen", [](const Args& a) {
        Decimals d(integer(a[2]));
        Engine* e = read(a[3], a[5]);
        world.put(integer(a[1]), e);
        FldExporter x(" ");
        x.setExportInputValues(flag(a[4]));
        return "\"header\":" + jstr(x.header(e)) + "," + inputsOf(e); });
    // toolproc slot decimals values... (empty: the input is given the value it has)
    reg("toolproc", [](const Args& a) {
        Decimals d(integer(a[2]));
        Engine* e = world.at(integer(a[1]));
        for (std::size_t i = 3; i < a.size(); ++i) {
            InputVariable* v = e->getInputVariable(i - 3);
            v->setValue(a[i] == "" ? v->getValue() : Op::toScalar(a[i]));
        }
        std::string bad = "false";
        try { e->process(); } catch (std::exception&) { bad = "true"; }
        std::vector<std::string> o;
        for (std::size_t i = 0; i < e->numberOfOutputVariables(); ++i) o.push_back(Op::str(e->getOutputVariable(i)->getValue()));
        return inputsOf(e) + ",\"o\":" + strings(o) + ",\"bad\":" + bad; });
    // toolrestart slot decimals
    reg("toolrestart", [](const Args& a) {
        Decimals d(integer(a[2]));
        world.at(integer(a[1]))->restart();
        return inputsOf(world.at(integer(a[1]))); });
    // toolbench runs fll fld: columns and a row
    reg("toolbench", [](const Args& a) {
        int runs = integer(a[1]);
        std::unique_ptr<Engine> e(read("fll", a[2]));
        Benchmark b(e->getName(), e.get());
        std::istringstream is(a[3]);
        b.prepare(is);
        for (int i = 0; i < runs; ++i) b.runOnce();
        std::vector<std::string> row;
        std::vector<Benchmark::Result> r = b.results();
        for (std::size_t i = 0; i < r.size(); ++i) row.push_back(r[i].second);
        return "\"columns\":" + strings(Benchmark().header(runs, true)) + ",\"row\":" + strings(row); });
}
