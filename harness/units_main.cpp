// C21: runs the programs of spec/Units.tla (args: programs, output)
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include "common.hpp"
#include "units.hpp"
namespace unc = uncertainties;
Log LOG;
static string shorten(const string &s) {       // FNV-1a, and the length
    unsigned long long h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return std::to_string(h) + "/" + std::to_string(s.size());
}
static string difference(const string &a, const string &b) {
    size_t i = 0; while (i < a.size() and i < b.size() and a[i] == b[i]) ++i;
    if (i == a.size() and i == b.size()) return "";
    return "at " + std::to_string(i) + ": " + a.substr(i < 20 ? 0 : i - 20, 60) + " / " + b.substr(i < 20 ? 0 : i - 20, 60);
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]); log_open(argv[2]);
    UnitApi *u[3] = {nullptr, &unit_1(), &unit_2()};
    string line; vector<int> total; long n = 0;
    intent("program of several units");
    if (argc > 3) { std::cerr << u[1]->static_digest << "\n"; return 0; }
    while (std::getline(in, line)) {
        Obj h; h.t("prof", "units").i("i", n); trace_begin(h);
        for (int k = 1; k <= 2; ++k) {
            Obj o; o.t("op", "static").i("unit", k).is("ids", u[k]->static_ids).t("dig", shorten(u[k]->static_digest)).t("diff", difference(u[1]->digest(), u[k]->static_digest)); event(o, "static");
            if (!n) total.insert(total.end(), u[k]->static_ids.begin(), u[k]->static_ids.end());
        }
        std::istringstream p(line); int c;
        while (p >> c) {
            int k = c / 10, t = c % 10;
            if (t == 0) { string d = u[k]->digest(); Obj o; o.t("op", "again").i("unit", k).t("dig", shorten(d)).t("diff", difference(u[1]->static_digest, d)); event(o, "again"); }
            else { int id = u[k]->make(t); total.push_back(id); Obj o; o.t("op", "make").i("unit", k).i("type", t).i("id", id); event(o, "make"); }
        }
        unc::UReal<double> s(0); unc::UReal2<double, unc::Prop::est> e(0);
        u[1]->sum(&s, &e); u[2]->sum(&s, &e);
        double v1 = s.s() * s.s(), v2 = cov(e, e);
        Obj o; o.t("op", "sums").i("var1", std::lround(v1)).i("var2", std::lround(v2)); event(o, "sums");
        trace_end();
        u[1]->keep(0); u[2]->keep(0); ++n;
    }
    Obj h; h.t("prof", "units").i("i", n); trace_begin(h);
    Obj o; o.t("op", "total").is("ids", total); event(o, "total"); trace_end();
    log_close();
}
