// ureals and stat.hpp:  stat <seed> <n> <profile> <out.ndjson>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/impl.hpp>
#include <deque>
#include <fstream>
#include <list>
#include <set>
#include <iterator>
#include "common.hpp"
namespace unc = uncertainties;
Log LOG;

template<typename V> string hexes(const V &v) {
    string a = "["; bool f = true;
    for (const auto &x : v) { if (not f) a += ","; f = false; a += qhex(x); }
    return a + "]";
}
// what a sequence type must offer to be given to ureals, nothing more
template<typename T> struct Seq {
    vector<T> v;
    std::size_t size() const { return v.size(); }
    T operator[](std::size_t i) const { return v.at(i); }
};

// ---------------------------------------------------------------- matrices
template<typename Real> vector<double> matrix(Rng &g, int n, int kind) {
    // symmetric matrices, in double with few bits so that they are exact in float
    vector<double> A(n * n, 0.);
    auto rnd = [&] { return g.range(-32, 32) / 8.0; };
    if (kind == 0) for (int i = 0; i < n; ++i) A[i * n + i] = g.range(1, 64) / 8.0;      // diagonal
    else {
        int m = kind == 3 ? std::max(1, n - 1) : n;     // kind 3: singular
        vector<double> B(n * m);
        for (auto &x : B) x = g.p(.25) ? 0 : rnd();
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < m; ++k) A[i * n + j] += B[i * m + k] * B[j * m + k];
        if (kind != 3) for (int i = 0; i < n; ++i) A[i * n + i] += g.range(1, 16) / 4.0;
        if (kind == 2) {   // not positive
            switch (g.below(3)) {
            case 0: { int i = g.below(n); A[i * n + i] = -A[i * n + i] - 1; break; }
            case 1: if (n > 1) { int i = g.below(n), j = (i + 1 + g.below(n - 1)) % n; double m = 2 + 2 * sqrt(A[i * n + i] * A[j * n + j]); m = ldexp(std::floor(ldexp(m, 4)), -4); A[i * n + j] = A[j * n + i] = g.p(.5) ? m : -m; break; } // fall through
            default: for (auto &x : A) x = -x;
            }
        }
    }
    // scales by powers of two
    if (g.p(.5)) { int lim = sizeof(Real) == 4 ? 5 : 30; vector<int> e(n); for (auto &x : e) x = g.range(-lim, lim); if (g.p(.2)) { int u = g.range(-3, 3) * lim; for (auto &x : e) x += u; }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i * n + j] = ldexp(A[i * n + j], e[i] + e[j]); }
    return A;
}
template<typename Real, typename OutV, typename InA, typename InB> void call(Rng &g, const vector<Real> &mu, const vector<Real> &cm, const InA &ma, const InB &mb) {
    using U = typename OutV::value_type;
    vector<U> old = {U(1, 2), U(g.unif(), 1)};
    old.push_back(old[0] * old[1]);
    int before = old[1].indepid();
    intent("ureals");
    OutV x; string out = "ok";
    try { x = unc::ureals<OutV>(ma, mb); }
    catch (const std::invalid_argument &) { out = "invalid_argument"; }
    catch (const std::runtime_error &) { out = "runtime_error"; }
    catch (const std::exception &e) { out = "other"; }
    vector<U> later = {U(3, 1)};
    OutV again; if (out == "ok") try { again = unc::ureals<OutV>(ma, mb); } catch (const std::exception &) {}
    vector<Real> means, C, cold; vector<int> ids, oldids;
    for (const auto &y : x) {
        means.push_back(y.n());
        for (const auto &z : x) C.push_back(cov(y, z));
        for (const auto &z : old) cold.push_back(cov(y, z));
        for (const auto &z : later) cold.push_back(cov(y, z));
        for (const auto &z : again) cold.push_back(cov(y, z));
        ids.push_back(y.indepid());
    }
    for (const auto &z : again) if (z.isindep()) oldids.push_back(z.indepid());
    oldids.push_back(later[0].indepid());
    Obj o; o.t("op", "ureals").i("n", mu.size()).i("nc", cm.size()).i("k", Tol<Real>::k).xs("mu", mu).xs("cov", cm).t("out", out)
        .xs("mean", means).xs("C", C).xs("old", cold).is("ids", ids).is("oldids", oldids).i("before", before);
    event(o, "ureals");
}
template<typename Real> void ev_ureals(Rng &g) {
    using U = unc::UReal<Real>;
    int n = g.p(.05) ? 0 : g.p(.8) ? g.range(1, 5) : g.p(.9) ? g.range(6, 8) : g.range(9, 18);
    int kind = g.p(.15) ? 0 : g.p(.2) ? 2 : g.p(.12) ? 3 : 1;
    vector<double> A = n ? matrix<Real>(g, n, kind) : vector<double>();
    vector<Real> cov(A.begin(), A.end()), mu;
    const bool wide = g.p(.2);
    for (int i = 0; i < n; ++i) mu.push_back(wide ? ldexp(Real(g.range(-40, 40) / 8.0), g.range(-60, 60)) : Real(g.range(-40, 40) / 8.0));
    if (g.p(.5)) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)      // the triangle that is not read
        cov[i + n * j] = g.p(.5) ? std::numeric_limits<Real>::quiet_NaN() : Real(g.range(-99, 99));
    if (g.p(.1)) { int k = g.below(4); if (k == 0) cov.push_back(1); else if (k == 1 and cov.size()) cov.pop_back(); else if (k == 2) { cov.resize(cov.size() + n + 1, 1); } else mu.push_back(1); }
    switch (g.below(4)) {
    case 0: { std::deque<Real> a(mu.begin(), mu.end()), b(cov.begin(), cov.end()); call<Real, std::deque<U>>(g, mu, cov, a, b); break; }
    case 1: { Seq<Real> a{mu}, b{cov}; call<Real, vector<U>>(g, mu, cov, a, b); break; }
    default: call<Real, vector<U>>(g, mu, cov, mu, cov);
    }
}

// --------------------------------------------------------------------- stat
struct Probe { int k; };           // a type with its own, asymmetric cov and corr
static double cov(const Probe &a, const Probe &b) { return 100 * a.k + b.k; }
static double corr(const Probe &a, const Probe &b) { return 1000 * a.k - b.k; }

template<typename T> struct Value { using type = typename T::real_type; };
template<> struct Value<Probe> { using type = double; };

template<typename In, typename T> void ev_outer(Rng &g, const In &x, const vector<T> &el) {
    using Real = typename Value<T>::type;
    const int n = el.size();
    const bool c = g.p(.5);
    vector<Real> want, out; bool guard = true; long ret = n * n;
    for (const auto &a : el) for (const auto &b : el) want.push_back(c ? cov(a, b) : corr(a, b));
    string how;
    intent("stat");
    switch (g.below(4)) {
    case 0: {   // iterators into a guarded buffer
        how = "iterators";
        vector<Real> buf(n * n + 8, Real(-12345.5));
        auto e = c ? unc::cov_matrix(x.begin(), x.end(), buf.begin() + 4) : unc::corr_matrix(x.begin(), x.end(), buf.begin() + 4);
        ret = e - (buf.begin() + 4);
        for (int i = 0; i < 4; ++i) guard = guard and buf[i] == Real(-12345.5) and buf[n * n + 4 + i] == Real(-12345.5);
        out.assign(buf.begin() + 4, buf.begin() + 4 + n * n);
        break; }
    case 1: {
        how = "inserter";
        auto e = c ? unc::cov_matrix(x.begin(), x.end(), std::back_inserter(out)) : unc::corr_matrix(x.begin(), x.end(), std::back_inserter(out));
        *e = Real(7); ret = out.size() and out.back() == Real(7) ? long(out.size()) - 1 : -1; if (out.size()) out.pop_back();
        break; }
    case 2: {
        how = "vector";
        std::deque<Real> o = c ? unc::cov_matrix<std::deque<Real>>(x) : unc::corr_matrix<std::deque<Real>>(x);
        out.assign(o.begin(), o.end()); break; }
    default:
        how = "vector";
        out = c ? unc::cov_matrix<vector<Real>>(x) : unc::corr_matrix<vector<Real>>(x);
    }
    Obj o; o.t("op", "outer").t("f", (c ? "cov_matrix " : "corr_matrix ") + how).i("n", n).xs("out", out).xs("want", want).b("guard", guard).i("ret", ret).i("k", Tol<Real>::k);
    event(o, how);
}
template<typename T> void outer_of(Rng &g, const vector<T> &el) {
    switch (g.below(3)) {
    case 0: ev_outer(g, vector<T>(el), el); break;
    case 1: ev_outer(g, std::deque<T>(el.begin(), el.end()), el); break;
    default: ev_outer(g, std::list<T>(el.begin(), el.end()), el);
    }
}
template<typename U> void variables(Rng &g, vector<U> &v, int n, U (*make)(Rng &)) {
    vector<U> b; for (int i = 0; i < 3; ++i) b.push_back(make(g));
    for (int i = 0; i < n; ++i) v.push_back(g.p(.3) ? b[g.below(3)] : b[g.below(3)] * b[g.below(3)] - b[g.below(3)]);
}
template<typename Real> unc::UReal<Real> mk1(Rng &g) { return unc::UReal<Real>(g.num(4), 1 + g.unif()); }
template<unc::Prop P> unc::UReal2<double, P> mk2(Rng &g) { return unc::UReal2<double, P>(g.num(4), 1 + g.unif(), {0.3, 3, 0, 15, 0, 105}, -1); }
void ev_stat(Rng &g) {
    int n = g.p(.95) ? g.range(0, 5) : g.range(6, 14);
    switch (g.below(9)) {
    case 0: { vector<unc::udouble> v; variables(g, v, n, mk1<double>); outer_of(g, v); break; }
    case 1: { vector<unc::ufloat> v; variables(g, v, n, mk1<float>); outer_of(g, v); break; }
    case 2: { vector<unc::udouble2e> v; variables(g, v, std::min(n, 4), mk2<unc::Prop::est>); outer_of(g, v); break; }
    case 3: { vector<unc::udouble2m> v; variables(g, v, std::min(n, 4), mk2<unc::Prop::mean>); outer_of(g, v); break; }
    case 4: { vector<Probe> v; for (int i = 0; i < n; ++i) v.push_back({g.range(1, 90)}); outer_of(g, v); break; }
    case 5: case 6: {
        vector<double> sigma, corr, out; string ex;
        for (int i = 0; i < n; ++i) sigma.push_back(g.num(6));
        for (int i = 0; i < n * n; ++i) corr.push_back(g.num(6));
        if (g.p(.25)) { int k = g.below(3); if (k == 0) corr.push_back(1); else if (k == 1 and corr.size()) corr.pop_back(); else corr.resize(n); }
        intent("stat");
        try {
            switch (g.below(3)) {
            case 0: out = unc::corr2cov<vector<double>>(sigma, corr); break;
            case 1: { auto o = unc::corr2cov<std::deque<double>>(std::deque<double>(sigma.begin(), sigma.end()), corr); out.assign(o.begin(), o.end()); break; }
            default: out = unc::corr2cov<vector<double>>(sigma, std::deque<double>(corr.begin(), corr.end()));
            }
        } catch (const std::invalid_argument &) { ex = "invalid_argument"; } catch (const std::exception &) { ex = "other"; }
        Obj o; o.t("op", "corr2cov").i("n", n).xs("sigma", sigma).xs("corr", corr).xs("out", out).t("ex", ex).i("k", Tol<double>::k);
        event(o, "corr2cov"); break; }
    default: {
        vector<double> out, want; intent("stat");
        switch (g.below(4)) {
        case 0: { vector<unc::udouble> v; variables(g, v, n, mk1<double>); for (auto &x : v) want.push_back(x.n()); out = unc::nom_vector<vector<double>>(std::list<unc::udouble>(v.begin(), v.end())); break; }
        case 1: { vector<unc::udouble2e> v; variables(g, v, n, mk2<unc::Prop::est>); for (auto &x : v) want.push_back(x.n()); out = unc::nom_vector<vector<double>>(v); break; }
        case 2: { vector<unc::udouble2m> v; variables(g, v, n, mk2<unc::Prop::mean>); for (auto &x : v) want.push_back(x.n()); std::deque<double> o = unc::nom_vector<std::deque<double>>(v); out.assign(o.begin(), o.end()); break; }
        default: for (int i = 0; i < n; ++i) want.push_back(g.num(6)); out = unc::nom_vector<vector<double>>(want);
        }
        Obj o; o.t("op", "nom").xs("out", out).xs("want", want); event(o, "nom");
    } }
}
// matrices of spec/PsdMC.tla, three by three, in all three types
template<typename Real> void given(Rng &g, const vector<int> &t) {
    vector<Real> c = {Real(t[0]), Real(t[1]), Real(t[2]), Real(77), Real(t[3]), Real(t[4]), Real(-77), Real(77), Real(t[5])}, mu = {1, Real(-2.5), 40};
    call<Real, vector<unc::UReal<Real>>>(g, mu, c, mu, c);
}
int given_matrices(const char *path) {
    std::ifstream in(path); vector<int> t(6); long n = 0;
    for (;;) {
        bool any = false;
        for (int k = 0; k < 20; ++k) {
            for (auto &x : t) in >> x;
            if (not in) break;
            if (not any) { Obj o; o.t("prof", "given").i("i", n); trace_begin(o); any = true; }
            Rng g(n);
            switch (n++ % 4) { case 0: given<float>(g, t); break; case 1: given<long double>(g, t); break; default: given<double>(g, t); }
        }
        if (any) trace_end(); else break;
    }
    log_close();
    return 0;
}
int main(int argc, char **argv) {
    if (argc == 4 and string(argv[1]) == "matrices") { log_open(argv[3]); return given_matrices(argv[2]); }
    if (argc < 5) return 2;
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]);
    string prof = argv[3];
    log_open(argv[4]);
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 43);
        Obj o; o.t("prof", prof).i("i", i); trace_begin(o);
        for (int k = 0; k < 8; ++k) {
            if (prof == "stat") ev_stat(g);
            else switch (g.below(4)) {
#ifdef USERTYPE
            default: ev_ureals<usertype::Q>(g);
#else
            case 0: ev_ureals<float>(g); break;
            case 1: ev_ureals<long double>(g); break;
            default: ev_ureals<double>(g);
#endif
            }
        }
        trace_end();
    }
    log_close();
}
