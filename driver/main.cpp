// Conformance driver: reads one command per line (tab-separated), runs it on
// the real library, answers with one JSON object per line.
#include "common.h"
#include <algorithm>
#include <fstream>

World world;
static std::map<std::string, Handler>& table() { static std::map<std::string, Handler> t; return t; }
void reg(const std::string& name, Handler h) { table()[name] = h; }

double num(const std::string& s) {
    if (s == "nan") return fl::nan;
    if (s == "inf") return fl::inf;
    if (s == "-inf") return -fl::inf;
    std::size_t p = s.find('/');
    if (p == std::string::npos) return std::atof(s.c_str());
    double n = std::atof(s.substr(0, p).c_str()), d = std::atof(s.substr(p + 1).c_str());
    if (d == 0) return n > 0 ? fl::inf : n < 0 ? -fl::inf : fl::nan;
    return n / d;
}
bool flag(const std::string& s) { return s == "1" || s == "true"; }
int integer(const std::string& s) { return std::atoi(s.c_str()); }

std::string rat(double x) {
    std::ostringstream os;
    if (x != x) return "[0,0]";
    if (x > 1e300) return "[1,0]";
    if (x < -1e300) return "[-1,0]";
    const double B = 32000, D = 20000;
    bool neg = x < 0;
    double v = std::fabs(x);
    if (v > B) { os << "[" << (neg ? -32000 : 32000) << ",1]"; return os.str(); }
    double h1 = 1, k1 = 0, h2 = 0, k2 = 1, r = v;
    for (int i = 0; i < 40; ++i) {
        double a = std::floor(r);
        double h = a * h1 + h2, k = a * k1 + k2;
        if (h > B || k > D) {
            double m = std::floor(std::min(h1 > 0 ? (B - h2) / h1 : B, k1 > 0 ? (B - k2) / k1 : B));
            if (k1 > 0 && m > a - m) { h1 = m * h1 + h2; k1 = m * k1 + k2; }
            break;
        }
        h2 = h1; k2 = k1; h1 = h; k1 = k;
        if (std::fabs(v - h1 / k1) < 1e-13 * (1 + v)) break;
        double f = r - a;
        if (f < 1e-12) break;
        r = 1 / f;
    }
    long n = (long) h1, d = (long) k1;
    if (d == 0) { n = (long) std::floor(v + 0.5); d = 1; }
    // a small number that the library itself tells apart from zero stays apart
    if (n == 0 && v > 1.000001e-6) { n = 1; d = 32000; }
    os << "[" << (neg ? -n : n) << "," << d << "]";
    return os.str();
}

double ratError(double x) {
    if (x != x || std::fabs(x) > 1e300) return 0;
    long n = 0, d = 1;
    std::sscanf(rat(x).c_str(), "[%ld,%ld]", &n, &d);
    return std::fabs(x - double(n) / double(d));
}

std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 32) { char b[8]; std::sprintf(b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string w;
    while (is >> w) r.push_back(w);
    return r;
}

// fields: \t between, \n and \\ escaped inside
static Args parse(const std::string& line) {
    Args a;
    std::string cur;
    for (std::size_t i = 0; i < line.size(); ++i) {
        char c = line[i];
        if (c == '\t') { a.push_back(cur); cur.clear(); }
        else if (c == '\\' && i + 1 < line.size()) {
            char d = line[++i];
            cur += d == 'n' ? '\n' : d == 't' ? '\t' : d == 'r' ? '\r' : d;
        } else cur += c;
    }
    a.push_back(cur);
    return a;
}

int main() {
    registerEngine();
    registerText();
    registerParts();
    registerDataset();
    registerValues();
    registerCollections();
    registerUtilities();
    registerConsole();
    registerAssemble();
    std::ios::sync_with_stdio(false);
    // (the library logs to standard output: keep its messages apart from the answers)
    std::ostream answers(std::cout.rdbuf());
    std::ofstream nowhere("/dev/null");
    std::cout.rdbuf(nowhere.rdbuf());
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        Args a = parse(line);
        std::map<std::string, Handler>::iterator h = table().find(a[0]);
        std::string out;
        if (h == table().end()) { std::cerr << "unknown command " << a[0] << "\n"; return 3; }
        try {
            out = h->second(a);
            out = "{\"e\":false" + (out.empty() ? "" : "," + out) + "}";
        } catch (fl::Exception& ex) {
            out = "{\"e\":true,\"x\":" + jstr(ex.getWhat()) + "}";
        } catch (std::exception& ex) {
            out = "{\"e\":true,\"other\":true,\"x\":" + jstr(ex.what()) + "}";
        }
        answers << out << "\n" << std::flush;
    }
    world.clear();
    answers << std::flush;
    std::cout.rdbuf(answers.rdbuf());
    return 0;
}
