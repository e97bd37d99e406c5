//   h2 trace <seed> <n> <profile> <out.ndjson> [len]
// Compiled as several translation units (-DPART=1..6) in parallel.
#if PART == 1
#include <uncertainties/impl.hpp>
#include <uncertainties/io.hpp>
#endif
#include "h2.hpp"

#if PART == 1
Log LOG;
int main(int argc, char **argv) {
    string mode = argc > 1 ? argv[1] : "";
    if (mode != "trace" or argc < 6) { std::fprintf(stderr, "usage\n"); return 2; }
    uint64_t seed = std::strtoull(argv[2], 0, 10); long n = std::atol(argv[3]);
    string prof = argv[4];
    Profile2 pr = profile2(prof);
    log_open(argv[5]);
    int len = argc > 6 ? std::atoi(argv[6]) : 16;
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 29);
#ifdef USERTYPE
        if (i % 2) run_qe(g, pr, i, len); else run_qm(g, pr, i, len);
#else
        switch (i % 8) {
        case 3: run_fe(g, pr, i, len); break;
        case 6: run_lm(g, pr, i, len); break;
        case 0: case 2: case 5: run_dm(g, pr, i, len); break;
        default: run_de(g, pr, i, len);
        }
#endif
    }
    log_close();
    return 0;
}
#endif
using unc::Prop;
#define CONV_EXP(R2, P2, NAME, BACK) conv_as<R2, P2>(NAME, false, [](const U &x) { return unc::UReal2<R2, P2>(x); }, BACK, true)
#define CONV_IMP(R2, NAME) conv_as<R2, prop>(NAME, true, [](const U &x) { unc::UReal2<R2, prop> y = x; return y; }, [](const unc::UReal2<R2, prop> &x) { return U(x); }, true)
#if PART == 2
template<> void Machine2<double, Prop::est>::op_conv() {
    constexpr Prop prop = Prop::est;
    switch (g.below(4)) {
    case 0: CONV_EXP(double, Prop::mean, "dm", [](const unc::UReal2<double, Prop::mean> &x) { return U(x); }); break;
    case 1: CONV_EXP(float, Prop::est, "fe", [](const unc::UReal2<float, Prop::est> &x) { return U(x); }); break;
    case 2: CONV_IMP(long double, "le"); break;
    default: CONV_EXP(float, Prop::mean, "fm", [](const unc::UReal2<float, Prop::mean> &x) { return U(x); });
    }
}
void run_de(Rng &g, const Profile2 &p, long i, int len) { run2<double, Prop::est>(g, p, i, len, "de"); }
#elif PART == 3
template<> void Machine2<double, Prop::mean>::op_conv() {
    constexpr Prop prop = Prop::mean;
    switch (g.below(3)) {
    case 0: CONV_EXP(double, Prop::est, "de", [](const unc::UReal2<double, Prop::est> &x) { return U(x); }); break;
    case 1: CONV_EXP(float, Prop::mean, "fm", [](const unc::UReal2<float, Prop::mean> &x) { return U(x); }); break;
    default: CONV_IMP(long double, "lm");
    }
}
void run_dm(Rng &g, const Profile2 &p, long i, int len) { run2<double, Prop::mean>(g, p, i, len, "dm"); }
#elif PART == 4
template<> void Machine2<float, Prop::est>::op_conv() {
    constexpr Prop prop = Prop::est;
    switch (g.below(2)) {
    case 0: CONV_EXP(float, Prop::mean, "fm", [](const unc::UReal2<float, Prop::mean> &x) { return U(x); }); break;
    default: CONV_IMP(double, "de");
    }
}
void run_fe(Rng &g, const Profile2 &p, long i, int len) { run2<float, Prop::est>(g, p, i, len, "fe"); }
#elif PART == 5
template<> void Machine2<long double, Prop::mean>::op_conv() {
    constexpr Prop prop = Prop::mean; (void)prop;
    switch (g.below(2)) {
    case 0: CONV_EXP(long double, Prop::est, "le", [](const unc::UReal2<long double, Prop::est> &x) { return U(x); }); break;
    default: CONV_EXP(double, Prop::mean, "dm", [](const unc::UReal2<double, Prop::mean> &x) { return U(x); });
    }
}
void run_lm(Rng &g, const Profile2 &p, long i, int len) { run2<long double, Prop::mean>(g, p, i, len, "lm"); }
#endif
#if PART == 6
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/distr.hpp>
// identities of new variables made in every possible way
vector<int> fresh_ids(Rng &g) {
    vector<int> v;
    int n = g.range(4, 16);
    for (int i = 0; i < n; ++i) switch (g.below(9)) {
    case 0: v.push_back(unc::udouble(1, 2).indepid()); break;
    case 1: v.push_back(unc::ufloat(1, 2).indepid()); break;
    case 2: v.push_back(unc::udouble2e(1, 2, {0, 3, 0, 15, 0, 105}).indepid()); break;
    case 3: v.push_back(unc::udouble2m(1, std::array<double, 7>{1, 0, 3, 0, 15, 0, 105}).indepid()); break;
    case 4: v.push_back(unc::distr::normal<unc::udouble2e>(0, 1).indepid()); break;
    case 5: v.push_back(unc::distr::uniform<unc::udouble2m>(0, 1).indepid()); break;
    case 6: v.push_back(unc::distr::chisquare<unc::udouble2e>(3).indepid()); break;
    case 7: { vector<unc::udouble> u = unc::ureals<vector<unc::udouble>>(vector<double>{1}, vector<double>{2}); for (auto &x : u) v.push_back(x.indepid()); break; }
    default: v.push_back(unc::UReal<long double>(1, 2).indepid());
    }
    return v;
}
#endif
#if PART == 7
template<> void Machine2<usertype::Q, Prop::est>::op_conv() {
    CONV_EXP(usertype::Q, Prop::mean, "qm", [](const unc::UReal2<usertype::Q, Prop::mean> &x) { return U(x); });
}
template<> void Machine2<usertype::Q, Prop::mean>::op_conv() {
    CONV_EXP(usertype::Q, Prop::est, "qe", [](const unc::UReal2<usertype::Q, Prop::est> &x) { return U(x); });
}
void run_qe(Rng &g, const Profile2 &p, long i, int len) { run2<usertype::Q, Prop::est>(g, p, i, len, "qe"); }
void run_qm(Rng &g, const Profile2 &p, long i, int len) { run2<usertype::Q, Prop::mean>(g, p, i, len, "qm"); }
vector<int> fresh_ids(Rng &g) { return {unc::UReal2<usertype::Q, Prop::est>(1, 2, {0, 3, 0, 15, 0, 105}).indepid(), unc::UReal2<usertype::Q, Prop::mean>(1, 2, {0, 3, 0, 15, 0, 105}).indepid()}; }
#endif
