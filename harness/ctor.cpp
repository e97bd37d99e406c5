// Constructors and distributions:  ctor <seed> <n> <profile> <out.ndjson>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
#include "common.hpp"
namespace unc = uncertainties;
using unc::Prop;
Log LOG;

// largest eigenvalue of the Hankel matrix by Jacobi rotations (a witness,
// checked by the specification)
typedef __float128 Quad;
static Quad qsqrt(Quad x) {
    if (not (x > 0)) return 0;
    Quad r = 1;
    while (r * r < x) r *= 2;
    while (r * r > x) r /= 2;
    for (int i = 0; i < 10; ++i) r = (r + x / r) / 2;
    return r;
}
static double largest(const vector<long double> &raw) {
    Quad A[5][5];
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) A[i][j] = raw[i + j];
    for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < 5; ++p) for (int q = p + 1; q < 5; ++q) {
        if (A[p][q] == 0) continue;
        Quad th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
        Quad big = th < 0 ? -th : th, t = big > 1e15 ? 1 / (2 * big) : 1 / (big + qsqrt(big * big + 1));
        if (th < 0) t = -t;
        Quad c = 1 / qsqrt(t * t + 1), s = t * c;
        for (int k = 0; k < 5; ++k) { Quad x = A[k][p], y = A[k][q]; A[k][p] = c * x - s * y; A[k][q] = s * x + c * y; }
        for (int k = 0; k < 5; ++k) { Quad x = A[p][k], y = A[q][k]; A[p][k] = c * x - s * y; A[q][k] = s * x + c * y; }
        A[p][q] = A[q][p] = 0;
    }
    Quad l = A[0][0];
    for (int i = 1; i < 5; ++i) if (A[i][i] > l) l = A[i][i];
    return double(l);
}
template<typename U> string observe(Rng &g, const U &x, int before, const U &other) {
    using Real = typename U::real_type;
    // powers of two of the size of 1 and 1 / s
    const int sh = x.s() > 0 and isfinite(x.s()) ? -ilogb(x.s()) : 0;
    Real a = Real(g.range(-3, 3)), b = ldexp(Real(g.range(1, 5) * (g.p(.5) ? 1 : -1)), sh - 1);
    U z = unary(x, Real(7), a, 2 * b);
    vector<Real> mx, mz;
    for (int k = 1; k <= 4; ++k) { mx.push_back(x.m(k)); mz.push_back(z.m(k)); }
    Obj o; o.x("fn", x.first_order_n()).x("n", x.n()).x("s", x.s()).xs("mx", mx).xs("mz", mz).x("a", a).x("b", b)
        .b("ind", x.isindep()).i("id", x.indepid()).i("before", before).i("other", other.indepid()).x("cov", cov(x, other));
    return o.str();
}
template<typename U> void new2(Rng &g) {
    using Real = typename U::real_type;
    const bool stdf = g.p(.5);
    // standardized moments
    vector<long double> z(6);
    int kind = g.below(6);
    if (kind <= 2) {
        int n = kind == 0 ? g.range(2, 4) : g.range(5, 9); vector<long double> x(n), p(n); long double tot = 0, mu = 0;
        for (int i = 0; i < n; ++i) { x[i] = g.unif(-1, 1) + i * (g.p(.5) ? 1 : -1); p[i] = g.unif(.1, 1); tot += p[i]; }
        for (int i = 0; i < n; ++i) { p[i] /= tot; mu += p[i] * x[i]; }
        long double m[9]; for (int q = 2; q <= 8; ++q) { m[q] = 0; for (int i = 0; i < n; ++i) m[q] += p[i] * powl(x[i] - mu, q); }
        for (int q = 3; q <= 8; ++q) z[q - 3] = m[q] / powl(sqrtl(m[2]), q);
    } else if (kind == 3) { long double w[6] = {0, 3, 0, 15, 0, 105}; for (int i = 0; i < 6; ++i) z[i] = w[i]; }
    else if (kind == 4) { long double w[6] = {0, 1.8L, 0, 27 / 7.L, 0, 9}; for (int i = 0; i < 6; ++i) z[i] = w[i]; }
    else for (auto &x : z) x = g.unif(-3, 12);
    if (g.p(.35)) { int i = g.below(6); z[i] += (g.p(.6) ? -1 : 1) * g.unif(.2, 2) * (1 + fabsl(z[i])); }   // often no longer moments
    Real s = Real(ldexp(g.range(1, 15) / 8.0, stdf ? g.range(-6, 6) : g.range(-1, 1))), n = Real(g.num(6));
    Real thr = 0;
    const bool far = g.p(.3);
    switch (g.below(6)) { case 0: thr = -1; break; case 1: thr = Real(g.unif(0, .3)); break; case 2: thr = Real(1e-3); break; case 3: thr = g.p(.3) ? Real(2) : g.p(.5) ? Real(.05) : -Real(1e-9); }
    if (far) {      // other scales; the condition on the moments is not scale free
        const bool fl = sizeof(Real) == 4;
        const int lim = stdf ? fl ? 14 : 110 : thr < 0 ? fl ? 13 : 110 : fl ? 5 : 12;
        s = ldexp(s, g.range(-lim, lim));
    }
    vector<Real> mom; vector<long double> raw = {1, 0};
    if (stdf) { raw.push_back(1); for (auto &x : z) mom.push_back(Real(x)); }
    else { mom.push_back(s * s); for (int i = 0; i < 6; ++i) mom.push_back(Real(z[i] * powl((long double)s, i + 3))); if (g.p(.05)) for (auto &m : mom) m = 0; if (g.p(.1) and thr >= 0 and thr < Real(.01)) mom[0] = -mom[0]; }
    if (stdf and g.p(.1)) s = g.p(.2) ? Real(0) : -s;
    for (auto &m : mom) raw.push_back((long double)m);
    const bool dflt = thr == 0 and g.p(.6);
    Obj o; string ex; std::unique_ptr<U> x;
    U old(1, 1, {0, 3, 0, 15, 0, 105}); int before = old.indepid();
    intent("construct");
    try {
        if (stdf) { std::array<Real, 6> a; std::copy(mom.begin(), mom.end(), a.begin()); x.reset(dflt ? new U(n, s, a) : new U(n, s, a, thr)); }
        else { std::array<Real, 7> a; std::copy(mom.begin(), mom.end(), a.begin()); x.reset(dflt ? new U(n, a) : new U(n, a, thr)); }
    } catch (const std::invalid_argument &) { ex = "invalid_argument"; } catch (const std::exception &) { ex = "other"; }
    o.t("op", "new2").t("form", stdf ? "std" : "central").x("n", n).x("s", s).xs("mom", mom).x("t", thr).x("lam", thr < 0 ? 1. : largest(raw)).t("ex", ex).i("k", Tol<Real>::k);
    if (x) { U other(0, 1, {0, 3, 0, 15, 0, 105}); o.raw("o", observe(g, *x, before, other)); }
    event(o, ex.empty() ? "accepted" : "rejected");
}
template<typename Real> void ureal(Rng &g) {
    Real n = Real(g.num(10)), s = Real(g.p(.3) ? -g.sd(8) : g.p(.1) ? 0 : g.sd(8)), gn = 0, gs = 0; string ex;
    intent("construct");
    try { unc::UReal<Real> x(n, s); gn = x.n(); gs = x.s(); } catch (const std::invalid_argument &) { ex = "invalid_argument"; } catch (const std::exception &) { ex = "other"; }
    Obj o; o.t("op", "ureal").x("n", n).x("s", s).x("gn", gn).x("gs", gs).t("ex", ex); event(o, "ureal");
}
template<typename U> void distr(Rng &g) {
    using Real = typename U::real_type;
    const int lim = sizeof(Real) == 4 ? 3 : g.p(.2) ? 100 : 12;
    Real p, q = 0, mid = 0; string f, ex; std::unique_ptr<U> x;
    U old(1, 1, {0, 3, 0, 15, 0, 105}); int before = old.indepid();
    intent("distr");
    try {
        switch (g.below(3)) {
        case 0: f = "normal"; p = Real(g.num(lim)); q = Real(g.p(.08) ? -g.sd(lim) : g.p(.06) ? 0 : g.sd(lim)); x.reset(new U(unc::distr::normal<U>(p, q))); break;
        case 1: f = "uniform"; p = Real(g.num(lim)); q = g.p(.08) ? p - Real(g.sd(lim)) : g.p(.06) ? p : p + Real(g.sd(lim)); mid = (p + q) / 2; x.reset(new U(unc::distr::uniform<U>(p, q))); break;
        default: { f = "chisquare"; int k = g.p(.06) ? 0 : g.p(.08) ? -g.range(1, 50) : g.p(.5) ? g.range(1, 12) : g.p(.5) ? g.range(1, 1000) : g.range(1, sizeof(Real) == 4 ? 5000 : g.p(.5) ? 2147483647 : 2000000); p = Real(k); x.reset(new U(unc::distr::chisquare<U>(k))); }
        }
    } catch (const std::invalid_argument &) { ex = "invalid_argument"; } catch (const std::exception &) { ex = "other"; }
    Obj o; o.t("op", "distr").t("f", f).x("p", p).x("q", q).x("mid", mid).t("ex", ex).i("k", Tol<Real>::k);
    if (x) { U other = g.p(.5) ? unc::distr::normal<U>(0, 1) : U(0, 1, {0, 3, 0, 15, 0, 105}); o.raw("o", observe(g, *x, before, other)); }
    event(o, f);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]);
    string prof = argv[3];
    log_open(argv[4]);
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 47);
        Obj o; o.t("prof", prof).i("i", i); trace_begin(o);
        for (int k = 0; k < 6; ++k) {
            int t = g.below(5);
#ifdef USERTYPE
            if (prof == "ctor" and g.p(.12)) { ureal<usertype::Q>(g); continue; }
#define DO(F) if (t % 2) F<unc::UReal2<usertype::Q, Prop::est>>(g); else F<unc::UReal2<usertype::Q, Prop::mean>>(g)
#else
            if (prof == "ctor" and g.p(.12)) { if (t == 0) ureal<float>(g); else if (t == 1) ureal<long double>(g); else ureal<double>(g); continue; }
#define DO(F) switch (t) { case 0: F<unc::UReal2<float, Prop::est>>(g); break; case 1: F<unc::UReal2<long double, Prop::mean>>(g); break; case 2: F<unc::udouble2m>(g); break; default: F<unc::udouble2e>(g); }
#endif
            if (prof == "ctor") { DO(new2); } else { DO(distr); }
        }
        trace_end();
    }
    log_close();
}
