// C05: more variables than a 32 bit counter can tell.   many <n> <out.ndjson>
// n: how many are constructed, and destroyed, between the early and the late
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include <ctime>
#include "common.hpp"
namespace unc = uncertainties;
Log LOG;
template<typename U, typename F> struct Some {
    vector<U> x;
    void add(const char *of, const U &y) {
        vector<double> c; for (auto &o : x) c.push_back(double(cov(o, y)));
        Obj e; e.t("op", "make").t("of", of).t("id", std::to_string(y.indepid())).b("ind", y.isindep()).x("s", double(y.s())).x("self", double(cov(y, y))).xs("covs", c); event(e, "make");
        x.push_back(y);
    }
    void mix() {
        for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) {
            if (i == j) continue;
            const U s = x[i] + x[j], p = x[i] * x[j];
            Obj e; e.t("op", "mix").i("i", i + 1).i("j", j + 1).x("ci", double(cov(s, x[i]))).x("cj", double(cov(s, x[j]))).x("v", double(var(s))).x("pv", F::spread(p)); event(e, "mix");
        }
    }
};
struct One { template<typename U> static double spread(const U &p) { return double(var(p)) / 9; } };        // means 3
struct Two { template<typename U> static double spread(const U &p) { return double(var(p) - 1) / 9; } };    // plus the product of the variances
typedef unc::UReal2<double, unc::Prop::est> V;
static V second() { return V(3, 1, {0, 3, 0, 15, 0, 105}, -1); }
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    const long n = std::atol(argv[1]);
    log_open(argv[2]);
    intent("many constructions");
    Obj h; h.t("prof", "many").i("i", 0); trace_begin(h);
    Some<unc::udouble, One> a; Some<V, Two> b; Some<unc::ufloat, One> c;
    a.add("UReal", unc::udouble(3, 1)); a.add("UReal", unc::udouble(3, 1)); b.add("UReal2", second()); c.add("UReal of float", unc::ufloat(3, 1));
    double s = 0;
    const time_t start = std::time(nullptr);
    long made = 0;
    for (long part = 0; part < n; part += 1 << 26) {
        alarm(120);
        if (std::time(nullptr) - start > 300) break; // too slow to go on: judge what was made
        const long m = std::min(n - part, 1l << 26);
        made += m;
        for (long i = 0; i < m; ++i) { unc::udouble x(1, 1); s += x.n(); }
        if (part >> 26 == 7) a.add("UReal after many", unc::udouble(3, 1));
    }
    alarm(60);
    if (s != double(made)) return 2;
    a.add("UReal after more", unc::udouble(3, 1)); b.add("UReal2 after more", second()); c.add("UReal of float after more", unc::ufloat(3, 1)); b.add("normal after more", unc::distr::normal<V>(3, 1));
    vector<double> mu(2, 3.), v(4, 0.); v[0] = v[3] = 1;
    vector<unc::udouble> u = unc::ureals<vector<unc::udouble>>(mu, v);
    // results of ureals are results: their ids are those of the variables made inside
    for (auto &y : u) if (y.isindep()) a.add("ureals after more", y);
    a.add("UReal after more", unc::udouble(3, 1)); b.add("UReal2 after more", second());
    a.mix(); b.mix(); c.mix();
    trace_end();
    log_close();
}
