// Second-order (UReal2) conformance harness: recording of random histories.
// Uses only the public interface of the library.
#ifndef VERIF_H2_HPP
#define VERIF_H2_HPP
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/math.hpp>
#include "common.hpp"
#include "mathfn.hpp"
#include <memory>
#include <algorithm>
#include <tuple>

namespace unc = uncertainties;

struct Profile2 { int arith, un, bi, bas, frame, mom, cov, gh, conv, mth, fac, cls; int ids; double p_new; int maxb; double sparse; int graph; };
inline Profile2 profile2(const string &p) {
    //                arith un bi bas frame mom cov gh conv mth fac cls ids pnew maxb sparse
    if (p == "prop2")  return {26, 10, 24, 8, 6, 0, 0, 4, 0, 4, 0, 0, 0, .16, 5, .25};
    if (p == "mom")    return {18, 6, 16, 3, 3, 34, 2, 0, 0, 2, 0, 0, 0, .16, 3, .3};
    if (p == "mom4")   return {18, 4, 26, 3, 3, 24, 0, 0, 0, 0, 0, 0, 0, .30, 4, .4};
    if (p == "cov2")   return {18, 6, 16, 3, 4, 2, 40, 0, 0, 2, 0, 0, 0, .18, 4, .3};
    if (p == "frame2") return {14, 6, 10, 10, 34, 2, 2, 6, 6, 4, 0, 0, 0, .10, 4, .2};
    if (p == "gh")     return {14, 10, 8, 3, 8, 0, 0, 50, 0, 2, 0, 0, 0, .14, 4, .1};
    if (p == "conv2")  return {16, 6, 10, 3, 4, 0, 0, 0, 44, 2, 0, 0, 0, .14, 4, .2};
    if (p == "math2")  return {5, 2, 3, 1, 1, 0, 0, 0, 0, 60, 0, 5, 0, .06, 4, .1};
    if (p == "fac2")   return {5, 2, 3, 1, 1, 0, 0, 0, 0, 0, 60, 0, 0, .06, 4, .1};
    if (p == "graph")  return {0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 6, .4, 1};   // sums of few terms over many variables
    if (p == "graphp") return {3, 0, 2, 2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 6, .3, 3};   // products of such sums
    if (p == "graphv") return {0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 6, .3, 4};   // conversions of such sums
    if (p == "graphc") return {0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 6, .3, 2};
    if (p == "ids2")   return {16, 6, 10, 5, 20, 0, 0, 0, 6, 4, 0, 0, 30, .2, 6, .2};
    std::fprintf(stderr, "unknown profile %s\n", p.c_str()); std::exit(2);
}

template<typename Real> struct Lim2 {
    static int val() { return sizeof(Real) == 4 ? 11 : 45; }
    static int gen() { return sizeof(Real) == 4 ? 4 : 16; }
    static int sd() { return sizeof(Real) == 4 ? 2 : 8; }
};

vector<int> fresh_ids(Rng &);

template<typename Real, unc::Prop prop>
struct Machine2 {
    using U = unc::UReal2<Real, prop>;
    Rng &g;
    Profile2 pr;
    int R;
    vector<U> reg;
    vector<std::unique_ptr<U>> base;
    vector<Real> bsd;
    struct Snap { Real n; vector<Real> G, H; bool ind; int id; };
    vector<Snap> snap;

    Machine2(Rng &g, const Profile2 &pr, int R) : g(g), pr(pr), R(R), reg(R), snap(R) { for (int i = 0; i < R; ++i) snap[i] = look(i); }
    template<typename V> static Snap look(const V &x, const vector<std::unique_ptr<V>> &base) {
        Snap s; s.n = x.first_order_n();
        for (size_t j = 0; j < base.size(); ++j) {
            s.G.push_back(x.grad(*base[j]));
            for (size_t i = 0; i <= j; ++i) s.H.push_back(x.hess(*base[i], *base[j]));
        }
        s.ind = x.isindep(); s.id = x.indepid();
        return s;
    }
    Snap look(int i) const { return look(reg[i], base); }
    static bool same(const Real &a, const Real &b) { return a == b or (isnan(a) and isnan(b)); }
    static bool same(const vector<Real> &a, const vector<Real> &b) { for (size_t i = 0; i < b.size(); ++i) if (not same(i < a.size() ? a[i] : Real(0), b[i])) return false; return true; }
    static bool same(const Snap &a, const Snap &b) { return same(a.n, b.n) and a.ind == b.ind and a.id == b.id and same(a.G, b.G) and same(a.H, b.H); }
    static Obj obj(const Snap &s) { Obj c; c.x("n", s.n).xs("g", s.G).xs("h", s.H).b("ind", s.ind).i("id", s.id); return c; }
    void emit(Obj o, const string &op, int t) {
        string ch = "["; bool first = true;
        for (int i = 0; i < R; ++i) {
            Snap s = look(i);
            if (i == t or not same(snap[i], s)) {
                Obj c = obj(s); c.i("r", i + 1);
                ch += (first ? "" : ",") + c.str(); first = false;
            }
            snap[i] = s;
        }
        o.raw("ch", ch + "]");
        event(o, op);
    }
    static bool okval(const Real &x, int L = Lim2<Real>::val()) { return x == 0 or (abs(x) < ldexp(Real(1), L) and abs(x) > ldexp(Real(1), -L)); }
    bool okreg(int i, int L = Lim2<Real>::val()) const {
        const Snap &s = snap[i];
        if (not okval(s.n, L)) return false;
        for (size_t j = 0; j < s.G.size(); ++j) {
            if (not okval(s.G[j], L) or not okval(s.G[j] * bsd[j], L) or not okval(bsd[j], L)) return false;
            for (size_t k = 0; k <= j; ++k) { Real h = s.H[j * (j + 1) / 2 + k]; if (not okval(h, L) or not okval(h * bsd[j] * bsd[k], L)) return false; }
        }
        return true;
    }
    bool den(const Real &x) const { int L = Lim2<Real>::val() / 3; return abs(x) > ldexp(Real(1), -L) and abs(x) < ldexp(Real(1), 2 * L); }
    Real num() { return Real(g.num(Lim2<Real>::gen())) * (sizeof(Real) > 8 and g.p(.5) ? Real(1) + Real(g.unif()) * Real(0x1p-50) : Real(1)); }
    Real der() { return g.p(pr.sparse) ? Real(0) : num(); }
    Real sd() { return Real(g.sd(Lim2<Real>::sd())); }
    int rr() { return g.below(R); }

    // standardized moments 3..8 of a random distribution (or arbitrary numbers)
    std::array<Real, 6> stdmom(bool *valid) {
        std::array<Real, 6> v;
        int k = g.below(5);
        *valid = false;
        if (k == 0) { v = {0, 3, 0, 15, 0, 105}; *valid = true; return v; }
        if (k == 1) { for (auto &x : v) x = Real(g.unif(-4, 4)); return v; }   // unchecked, arbitrary
        if (k == 2) { v = {0, 1, 0, 1, 0, 1}; return v; }                       // +-s
        // finite support
        int n = g.range(2, 6); vector<long double> x(n), p(n);
        long double tot = 0, mu = 0;
        for (int i = 0; i < n; ++i) { x[i] = g.unif(-1, 1) + i * (g.p(.5) ? 1 : -1); p[i] = g.unif(.05, 1); tot += p[i]; }
        for (int i = 0; i < n; ++i) { p[i] /= tot; mu += p[i] * x[i]; }
        long double m[9];
        for (int q = 2; q <= 8; ++q) { m[q] = 0; for (int i = 0; i < n; ++i) m[q] += p[i] * powl(x[i] - mu, q); }
        for (int q = 3; q <= 8; ++q) v[q - 3] = Real(m[q] / powl(sqrtl(m[2]), q));
        return v;
    }
    void op_new(int t) {
        intent("construct");
        Real n = num(), s = sd();
        bool valid; std::array<Real, 6> v = stdmom(&valid);
        Obj o; o.t("op", "new").i("t", t + 1).x("n", n);
        if (g.p(.5)) {
            reg[t] = valid and g.p(.5) ? U(n, s, v) : U(n, s, v, -1);
            o.t("kind", "s").x("s", s).xs("v", vector<Real>(v.begin(), v.end()));
        } else {
            std::array<Real, 7> m; Real sn = s * s; m[0] = sn;
            for (int i = 0; i < 6; ++i) { sn *= s; m[i + 1] = v[i] * sn; }
            reg[t] = U(n, m, -1);
            s = sqrt(m[0]);
            o.t("kind", "c").xs("v", vector<Real>(m.begin(), m.end()));
        }
        base.push_back(std::unique_ptr<U>(new U(reg[t]))); bsd.push_back(s);
        emit(o, "new", t);
    }
    void op_const(int t) {
        intent("constant");
        Real n = num();
        if (g.p(.3)) { reg[t] = U(); n = 0; } else if (g.p(.5)) reg[t] = n; else reg[t] = U(n);
        Obj o; o.t("op", "const").i("t", t + 1).x("n", n);
        emit(o, "const", t);
    }
    void op_cpb(int t, int b) {
        intent("copy"); reg[t] = *base[b];
        Obj o; o.t("op", "cpb").i("t", t + 1).i("base", b + 1); emit(o, "cpb", t);
    }
    static U apply(int f, const U &a, const U &b) { return f == 0 ? a + b : f == 1 ? a - b : f == 2 ? a * b : a / b; }
    static const char *fname(int f) { static const char *n[] = {"add", "sub", "mul", "div"}; return n[f]; }
    void op_arith(int fa=-1, int fb=-1, int ff=-1) {
        intent("operator");
        int t = rr(), a = rr(), b = g.p(.25) ? a : rr(), f = g.below(4);
        if (fa >= 0) { a = fa; b = fb; f = ff; t = g.below(3); }
        if (g.p(.3) and fa < 0) t = g.p(.5) ? a : b;
        if (g.p(.12) and fa < 0) {
            Obj o; 
            if (g.p(.3)) { o.t("op", "plus").i("t", t + 1).i("a", a + 1); const U &p = +reg[a]; reg[t] = p; emit(o, "plus", t); }
            else { o.t("op", "neg").i("t", t + 1).i("a", a + 1); reg[t] = -reg[a]; emit(o, "neg", t); }
            return;
        }
        int k = fa < 0 ? g.below(9) : 8; Real c = num();
        if (f == 3 and not den(k == 1 ? c : reg[b].first_order_n())) f = 2;
        Obj o; o.t("op", "bin").t("f", fname(f)).i("t", t + 1);
        if (k == 0) { o.i("a", 0).i("b", b + 1).x("c", c); const U &y = reg[b]; reg[t] = f == 0 ? c + y : f == 1 ? c - y : f == 2 ? c * y : c / y; }
        else if (k == 1) { o.i("a", a + 1).i("b", 0).x("c", c); const U &x = reg[a]; reg[t] = f == 0 ? x + c : f == 1 ? x - c : f == 2 ? x * c : x / c; }
        else { o.i("a", a + 1).i("b", b + 1); reg[t] = apply(f, reg[a], reg[b]); }
        emit(o, "bin", t);
    }
    void op_un() {
        intent("unary");
        int t = rr(), a = rr(); Real mu = num(), d = der(), dd = der();
        Obj o; o.t("op", "un").i("t", t + 1).i("a", a + 1).x("mu", mu).x("d", d).x("dd", dd);
        reg[t] = unary(reg[a], mu, d, dd);
        emit(o, "un", t);
    }
    void op_bi(bool assign, int fa=-1, int fb=-1) {
        intent(assign ? "binary_assign" : "binary");
        int a = fa < 0 ? rr() : fa, b = fa >= 0 ? fb : g.p(.2) ? a : rr(), t = assign ? a : fa < 0 ? rr() : g.below(3);
        Real mu = num(), dx = der(), dy = der(), dxx = der(), dyy = der(), dxy = der();
        Obj o; o.t("op", assign ? "bas" : "bi").i("t", t + 1).i("a", a + 1).i("b", b + 1).x("mu", mu).x("dx", dx).x("dy", dy).x("dxx", dxx).x("dyy", dyy).x("dxy", dxy);
        if (assign) binary_assign(reg[a], reg[b], mu, dx, dy, dxx, dyy, dxy);
        else reg[t] = binary(reg[a], reg[b], mu, dx, dy, dxx, dyy, dxy);
        emit(o, assign ? "bas" : "bi", t);
    }
    void op_frame() {
        int t = rr(), a = rr();
        switch (g.below(4)) {
        case 0: { intent("copy"); reg[t] = reg[a]; Obj o; o.t("op", "copy").i("t", t + 1).i("a", a + 1); emit(o, "copy", t); return; }
        case 1: { intent("copy construction and move"); U c(reg[a]); reg[t] = std::move(c); Obj o; o.t("op", "copy").i("t", t + 1).i("a", a + 1); emit(o, "copy", t); return; }
        case 2: { intent("swap"); if (a == t) return; std::swap(reg[a], reg[t]); Obj o; o.t("op", "swap").i("t", t + 1).i("a", a + 1); 
            snap[a].n = std::numeric_limits<Real>::quiet_NaN(); snap[a].ind = not snap[a].ind; // force both to be listed
            emit(o, "swap", t); return; }
        default: if (base.size()) op_cpb(t, g.below(int(base.size())));
        }
    }
    void op_mom(int a=-1) {
        intent("moments");
        if (a < 0) a = rr();
        const U &x = reg[a];
        Obj o; o.t("op", "mom").i("a", a + 1).b("est", prop == unc::Prop::est);
        o.xs("m", vector<Real>{x.m(1), x.m(2), x.m(3), x.m(4)}).x("n", x.n()).x("s", x.s()).x("sk", x.skew()).x("ku", x.kurt())
            .x("nom", nom(x)).x("sdev", sdev(x)).x("var", var(x));
        emit(o, "mom", -1);
    }
    void op_covfar() { // variances in range, products of variances out of range
        intent("cov");
        const int E = std::numeric_limits<Real>::max_exponent / 2 - (sizeof(Real) == 4 ? 14 : 50);
        const int es = g.p(.5) ? g.range(-E, E) : g.p(.5) ? E - g.below(6) : -E + g.below(6), eu = std::max(-E, std::min(E, g.p(.8) ? es + g.range(-6, 6) : -es));
        auto coef = [&] { Real c = g.range(1, 16) / Real(4); return g.p(.5) ? c : -c; };
        const Real s = ldexp(Real(1 + g.unif()), es), u = ldexp(Real(1 + g.unif()), eu), p = coef(), q = coef(), r = coef();
        const std::array<Real, 6> nm {0, 3, 0, 15, 0, 105};
        const U x(num(), s, nm), y(num(), u, nm), a = unary(x, num(), p, 0), b = g.p(.5) ? binary(x, y, num(), q, r, 0, 0, 0) : binary(y, x, num(), r, q, 0, 0, 0), &ca = a, &cb = b;
        Obj o; o.t("op", "cfar").x("p", p).x("q", q).x("r", r).x("s", s).x("u", u).x("va", var(ca)).x("vb", var(cb)).x("sa", ca.s()).x("sb", cb.s())
            .x("cov", cov(ca, cb)).x("cov2", cov(cb, ca)).x("corr", g.p(.5) ? corr(ca, cb) : corr(cb, ca));
        emit(o, "cfar", -1);
    }
    void op_cov(int a=-1, int b=-1) {
        if (a < 0 and g.p(.06)) { op_covfar(); return; }
        intent("cov");
        if (a < 0) { a = rr(); b = g.p(.15) ? a : rr(); }
        Obj o; o.t("op", "cov").i("a", a + 1).i("b", b + 1).x("v", cov(reg[a], reg[b])).x("w", cov(reg[b], reg[a])).x("c", corr(reg[a], reg[b]))
            .x("va", reg[a].m(2)).x("vb", reg[b].m(2)).x("sa", reg[a].s()).x("sb", reg[b].s());
        emit(o, "cov", -1);
    }
    template<typename F> static string thrown(F f) {
        try { f(); return ""; } catch (std::invalid_argument &) { return "invalid_argument"; } catch (std::exception &) { return "exception"; }
    }
    void op_gh() {
        intent("grad/hess");
        int y = rr(), x = rr(), z = g.p(.4) ? x : rr();
        Real gv = 0, hv = 0;
        // with some probability make x (and z) functions of one base variable
        if (base.size() and g.p(.6)) {
            int b = g.below(int(base.size())), c = g.p(.5) ? b : g.below(int(base.size()));
            Real mu = num(), d = num(), dd = der();
            if (not (abs(d) > 1e-2)) d = 1;
            Obj o; o.t("op", "unb").i("t", x + 1).i("base", b + 1).x("mu", mu).x("d", d).x("dd", dd);
            reg[x] = unary(*base[b], mu, d, dd); emit(o, "unb", x);
            if (z != x) {
                if (b == c and g.p(.5)) { Obj o; o.t("op", "copy").i("t", z + 1).i("a", x + 1); reg[z] = reg[x]; emit(o, "copy", z); }
                else { Real d = num(), dd = der(); if (not (abs(d) > 1e-2)) d = -1; Obj o; o.t("op", "unb").i("t", z + 1).i("base", c + 1).x("mu", mu).x("d", d).x("dd", dd);
                    reg[z] = unary(*base[c], mu, d, dd); emit(o, "unb", z); }
            }
        }
        if (y == x and R > 1 and g.p(.7)) y = (x + 1) % R;
        Obj o; o.t("op", "gh").i("y", y + 1).i("x", x + 1).i("z", z + 1);
        const U &cy = reg[y];
        o.t("gthr", thrown([&] { gv = cy.grad(reg[x]); })).x("g", gv).t("hthr", thrown([&] { hv = cy.hess(reg[x], reg[z]); })).x("h", hv);
        emit(o, "gh", -1);
    }
    // ------------------------------------------------------------ conversions
    template<typename R2, unc::Prop p2, typename Conv, typename Back> void conv_as(const char *name, bool imp, Conv cv, Back back, bool wb) {
        using V = unc::UReal2<R2, p2>;
        intent("conversion");
        int a = pr.graph ? 3 : rr(), b = pr.graph ? 4 : rr(), t = -1;
        if (not okreg(a, Lim2<R2>::val()) or not okreg(b, Lim2<R2>::val())) return;   // avoid overflow in the narrower type
        vector<std::unique_ptr<V>> vb;
        for (auto &x : base) vb.emplace_back(new V(cv(*x)));
        V va = cv(reg[a]), vc = cv(reg[b]);
        typename Machine2<R2, p2>::Snap s = Machine2<R2, p2>::look(va, vb);
        Obj o; o.t("op", "conv").i("a", a + 1).i("b", b + 1).t("to", name).b("imp", imp).b("est", p2 == unc::Prop::est)
            .i("k", std::min(int(Tol<Real>::k), int(Tol<R2>::k))).raw("o", Machine2<R2, p2>::obj(s).str());
        o.xs("m", vector<R2>{va.m(1), va.m(2), va.m(3), va.m(4)}).x("nn", va.n()).x("cov", cov(va, vc));
        // the product, computed in the other type and converted back
        U z = back(va * vc);
        o.raw("z", obj(look(z, base)).str());
        // it can replace a register, unless its moments have become less precise
        if (wb and g.p(.5) and std::numeric_limits<R2>::digits >= std::numeric_limits<Real>::digits) { t = pr.graph ? 0 : rr(); reg[t] = z; }
        o.i("t", t + 1);
        emit(o, "conv", t);
    }
    void op_conv();
    // ------------------------------------------------------------- math.hpp
    U at(int a, const Real &x, const Real &sc=1) { return sc == 1 ? reg[a] - reg[a].first_order_n() + x : (reg[a] - reg[a].first_order_n()) * U(sc) + x; }   // argument moved to mean x
    void op_math() {
        int t = rr(), a = rr(), b = rr();
        if (g.p(.6)) {
            int f = g.below(mathfn::n1); const char *nm = mathfn::name1(f);
            Real x;
            if (not mathfn::point1<Real>(f, g, &x)) return;
            Real sc = 1;
            if (g.p(.15)) mathfn::far1<Real>(f, g, &x, &sc, 3);
            U arg = at(a, x, sc);
            x = arg.first_order_n();
            if (not okx1(f, x)) return;
            Obj o; o.t("op", "m1").t("f", nm).i("t", t + 1).i("a", a + 1).x("x", x).x("sc", sc).x("v", mathfn::std1<Real>(f, x)).xs("w", mathfn::basis1<typename mathfn::Wide<Real>::type>(f, typename mathfn::Wide<Real>::type(x)));
            intent(nm);
            reg[t] = mathfn::lib1(f, arg);
            emit(o, "m1", t);
        } else {
            int f = g.below(mathfn::n2); const char *nm = mathfn::name2(f);
            Real x, y;
            if (not mathfn::point2<Real>(f, g, &x, &y)) return;
            Real sc = 1;
            if (g.p(.15)) mathfn::far2<Real>(f, g, &x, &y, &sc, 3);
            U ax = at(a, x, sc), ay = at(b, y, sc);
            int cy = 0;
            if (f == mathfn::F_POW and not (x > 0)) { ay = U(y); cy = 1; }
            else if (g.p(.15)) { ay = U(y); cy = 1; }
            if (ax.first_order_n() != x or ay.first_order_n() != y) return;
            if (f == mathfn::F_POW and x == 0 and not cy) return;
            Obj o; o.t("op", "m2").t("f", nm).i("t", t + 1).i("a", a + 1).i("b", cy ? 0 : b + 1).x("x", x).x("y", y).x("sc", sc).x("v", mathfn::std2<Real>(f, x, y))
                .xs("w", mathfn::basis2<typename mathfn::Wide<Real>::type>(f, typename mathfn::Wide<Real>::type(x), typename mathfn::Wide<Real>::type(y)));
            intent(nm);
            reg[t] = mathfn::lib2(f, ax, ay);
            emit(o, "m2", t);
        }
    }
    bool okx1(int f, const Real &x) { (void)f; return x == x; }
    void op_class() {
        intent("isfinite/isnormal");
        Real sp[] = {0, 1, std::numeric_limits<Real>::infinity(), -std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::quiet_NaN(), std::numeric_limits<Real>::denorm_min(), Real(-2.5), Real(.75)};
        if (base.empty()) return;
        auto pick = [&] { return sp[g.p(.55) ? 1 + 5 * g.below(2) + g.below(2) * 0 : g.below(8)]; };
        int b = g.below(int(base.size())), c = g.below(int(base.size()));
        Real mu = pick(), d = pick(), dd = pick(), e = pick();
        U x = g.p(.5) ? unary(*base[b], mu, d, dd) : binary(*base[b], *base[c], mu, d, e, dd, pick(), pick());
        Snap s = look(x, base);
        Obj o; o.t("op", "class").raw("o", obj(s).str()).b("fin", isfinite(x)).b("nor", isnormal(x));
        // every coefficient of the variables involved normal?
        auto nrm = [](const Real &v) { return isnormal(v); };
        o.b("nmu", nrm(s.n));
        bool gn = true, hn = true, on = true;
        for (int i : {b, c}) if (s.ind ? i == b : true) {
            gn = gn and nrm(s.G[i]); hn = hn and nrm(s.H[i * (i + 1) / 2 + i]);
        }
        if (not s.ind and b != c) { int i = std::min(b, c), j = std::max(b, c); on = nrm(s.H[j * (j + 1) / 2 + i]); }
        o.b("ngrad", gn).b("nhess", hn).b("noff", on);
        emit(o, "class", -1);
    }
    // --------------------------------------------------------- functions.hpp
    static Real poly(const vector<int> &c, const Real &x, const Real &y) {
        Real r = 0, xi = 1;
        for (int i = 0; i < 4; ++i) { Real yj = 1; for (int j = 0; j < 4; ++j) { if (c[4 * i + j]) r += c[4 * i + j] * xi * yj; yj *= y; } xi *= x; }
        return r;
    }
    static vector<int> dpoly(const vector<int> &c, int var) {
        vector<int> d(16, 0);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
            if (var == 0 and i > 0) d[4 * (i - 1) + j] += c[4 * i + j] * i;
            if (var == 1 and j > 0) d[4 * i + j - 1] += c[4 * i + j] * j;
        }
        return d;
    }
    // products and quotients of numbers far from 1
    void op_far() {
        if (base.empty() or R < 3) return;
        int b[2] = {g.below(int(base.size())), g.below(int(base.size()))};
        const bool div = g.p(.7);
        const int E = std::numeric_limits<Real>::max_exponent;
        int e[2];
        const int sh = Lim2<Real>::gen() + 16;      // the product of two first derivatives does not overflow
        e[0] = div and g.p(.6) ? E / 2 + g.range(4, 10) : g.range(-E * 5 / 16, E * 3 / 8);
        e[1] = (div ? e[0] : -e[0]) + g.range(-3, 3);
        for (int i = 0; i < 2; ++i) {
            Real mu = num();
            if (mu == 0) mu = 1;
            mu = ldexp(mu, e[i]);
            Real d = g.p(.1) ? Real(0) : ldexp(num(), e[i] - sh + g.range(0, 4));
            Obj o; o.t("op", "unb").i("t", i + 1).i("base", b[i] + 1).x("mu", mu).x("d", d).x("dd", Real(0));
            intent("unary");
            reg[i] = unary(*base[b[i]], mu, d, Real(0)); emit(o, "unb", i);
        }
        Obj o; o.t("op", "bin").t("f", fname(div ? 3 : 2)).i("t", 3).i("a", 1).i("b", 2);
        intent("operator");
        reg[2] = apply(div ? 3 : 2, reg[0], reg[1]);
        emit(o, "bin", 2);
        for (int i = 0; i < 2; ++i) op_cpb(i, b[i]);
    }
    void op_fac() {
        int t = rr(), a = rr(), b = rr();
        Real x = Real(g.range(-12, 12)) / 4, y = Real(g.range(-12, 12)) / 4;
        bool two = g.p(.55); int kind = g.below(3);   // 0: analytic, 1: forward difference of derivatives, 2: central
        vector<int> c(16, 0);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < (two ? 4 : 1); ++j) if (i + j <= 3 and g.p(.6)) c[4 * i + j] = g.range(-3, 3);
        int st = kind ? (g.p(.5) ? 0 : g.range(3, 7)) : -1;
        const Real eps = std::numeric_limits<Real>::epsilon();
        const Real h0 = kind == 1 ? sqrt(eps) : sqrt(sqrt(eps));
        Real S = 1;
        if (st == 0 and g.p(.6)) { S = 1 / h0; x = y = 0; }
        U ax = at(a, x), ay = at(b, y);
        if (ax.first_order_n() != x or ay.first_order_n() != y) return;
        Real step = st > 0 ? ldexp(Real(1), -st) : Real(0);
        Obj o; o.t("op", "fac").b("two", two).i("kind", kind).i("t", t + 1).i("a", a + 1).i("b", two ? b + 1 : 0).x("x", x).x("y", y).is("c", c).i("st", st)
            .x("step", st > 0 ? step : h0).x("S", S);
        using F1 = unc::Unary<Real>; using F2 = unc::Binary<Real>;
        vector<int> cx = dpoly(c, 0), cy = dpoly(c, 1), cxx = dpoly(cx, 0), cxy = dpoly(cx, 1), cyy = dpoly(cy, 1);
        // the functions are p(S x, S y) and derivatives S^k p_k(S x, S y)
        auto mk1 = [S](const vector<int> &c, const Real &f) { return F1([=](const Real &x) { return f * poly(c, x * S, 1); }); };
        auto mk2 = [S](const vector<int> &c, const Real &f) { return F2([=](const Real &x, const Real &y) { return f * poly(c, x * S, y * S); }); };
        if (not two) {
            intent("uunary2");
            F1 f = mk1(c, 1), df = mk1(cx, S), ddf = mk1(cxx, S * S);
            unc::UUnary2<Real, prop> u = kind == 0 ? unc::uunary2<Real, prop>(f, df, ddf)
                : kind == 1 ? (st > 0 ? unc::uunary2<Real, prop>(f, df, step) : unc::uunary2<Real, prop>(f, df))
                : (st > 0 ? unc::uunary2<Real, prop>(f, step) : unc::uunary2<Real, prop>(f));
            if (g.p(.3)) u(U(1));
            reg[t] = u(ax);
        } else {
            intent("ubinary2");
            F2 f = mk2(c, 1), dx = mk2(cx, S), dy = mk2(cy, S), dxx = mk2(cxx, S * S), dyy = mk2(cyy, S * S), dxy = mk2(cxy, S * S);
            unc::UBinary2<Real, prop> u = kind == 0 ? unc::ubinary2<Real, prop>(f, dx, dy, dxx, dyy, dxy)
                : kind == 1 ? (st > 0 ? unc::ubinary2<Real, prop>(f, dx, dy, step) : unc::ubinary2<Real, prop>(f, dx, dy))
                : (st > 0 ? unc::ubinary2<Real, prop>(f, step) : unc::ubinary2<Real, prop>(f));
            if (g.p(.3)) u(U(1), U(2));
            reg[t] = u(ax, ay);
        }
        emit(o, "fac", t);
    }
    // A sum of few terms of first and second degree over up to six variables
    // whose ids may be far apart; `t` accumulates, registers 0, 1, 2 are used
    void accumulate(int t, int nterms, const std::vector<std::pair<int, int>> &edges = {}) {
        op_const(t);
        int nb = int(base.size());
        for (int k = 0; k < nterms; ++k) {
            int i = g.below(nb), j = g.below(nb);
            bool edge = k < int(edges.size());
            if (edge) { i = edges[k].first; j = edges[k].second; if (g.p(.5)) std::swap(i, j); }
            op_cpb(0, i); op_cpb(1, j);
            Real mu = num(), d[5];
            for (Real &x : d) x = der();
            if (g.p(.5)) d[0] = d[1] = 0;
            if (g.p(.5)) d[2] = d[3] = 0;
            if (d[4] == 0 and g.p(.7)) d[4] = num();
            if (edge) while (d[4] == 0) d[4] = num();
            intent("binary");
            Obj o; o.t("op", "bi").i("t", 3).i("a", 1).i("b", 2).x("mu", mu).x("dx", d[0]).x("dy", d[1]).x("dxx", d[2]).x("dyy", d[3]).x("dxy", d[4]);
            reg[2] = binary(reg[0], reg[1], mu, d[0], d[1], d[2], d[3], d[4]);
            emit(o, "bi", 2);
            intent("operator");
            bool r = g.p(.5);
            Obj q; q.t("op", "bin").t("f", "add").i("t", t + 1).i("a", (r ? 2 : t) + 1).i("b", (r ? t : 2) + 1);
            reg[t] = r ? reg[2] + reg[t] : reg[t] + reg[2];
            emit(q, "bin", t);
        }
    }
    // Cross terms that form a cycle, a matching, a star or a dense graph over
    // distinct variables: moments sum over all such shapes
    std::vector<std::pair<int, int>> shape() {
        int nb = int(base.size());
        std::vector<int> v(nb);
        for (int i = 0; i < nb; ++i) v[i] = i;
        for (int i = nb - 1; i > 0; --i) std::swap(v[i], v[g.below(i + 1)]);
        std::vector<std::pair<int, int>> e;
        int kind = g.below(5);
        if (kind < 2) { int L = nb < 4 or g.p(.2) ? 3 : g.p(.8) ? 4 : nb; for (int i = 0; i < L; ++i) e.push_back({v[i], v[(i + 1) % L]}); }
        else if (kind == 2) for (int i = 0; i + 1 < nb; i += 2) e.push_back({v[i], v[i + 1]});
        else if (kind == 3) for (int i = 1; i < nb and i < 5; ++i) e.push_back({v[0], v[i]});
        else for (int i = 0; i < nb and i < 4; ++i) for (int j = 0; j < i; ++j) e.push_back({v[i], v[j]});
        return e;
    }
    void graph() {
        int nb = pr.graph == 1 ? g.range(3, 6) : pr.graph == 2 ? g.range(3, 7) : g.range(3, 5);
        for (int i = 0; i < nb; ++i) {
            if (g.p(.5)) { long k = (1L << g.below(g.p(.2) ? 17 : 11)) - 1; for (long q = 0; q < k; ++q) unc::UReal2<float, unc::Prop::est>(0, 1, {0, 3, 0, 15, 0, 105}, -1); }
            op_new(0);
        }
        for (int rep = 0; rep < 2; ++rep) {
            if (pr.graph == 1 and g.p(.5)) { auto e = shape(); accumulate(3, int(e.size()) + g.below(3), e); }
            else accumulate(3, g.range(2, pr.graph == 1 ? nb : pr.graph == 2 ? 5 : 3));
            if (pr.graph == 1) { if (okreg(3)) op_mom(3); }
            else if (pr.graph == 3) {
                accumulate(4, g.range(1, 3));
                for (int i = 0; i < 3; ++i) op_const(i);
                op_arith(4, 3, g.p(.5) ? 2 : 3); op_arith(3, 4, 2); op_bi(false, 3, 4); op_bi(true, 4, 3); op_gh();
            }
            else if (pr.graph == 4) { accumulate(4, g.range(1, 2)); if (okreg(3) and okreg(4)) for (int i = 0; i < 3; ++i) op_conv(); break; }
            else { accumulate(4, g.range(1, 5)); if (okreg(3) and okreg(4)) { op_cov(3, 4); op_cov(4, 3); } }
        }
    }
    // fresh variables of any kind compared with ids seen before
    void step() {
        for (int i = 0; i < R; ++i) if (not okreg(i)) { if (g.p(.3) and int(base.size()) < pr.maxb) op_new(i); else if (base.size() and g.p(.8)) op_cpb(i, g.below(int(base.size()))); else op_const(i); return; }
        if (int(base.size()) < pr.maxb and g.p(pr.p_new)) { op_new(rr()); return; }
        if (g.p(.02)) { op_const(rr()); return; }
        if (pr.arith >= 26 and g.p(.05)) { op_far(); return; }
        int w = g.below(pr.arith + pr.un + pr.bi + pr.bas + pr.frame + pr.mom + pr.cov + pr.gh + pr.conv + pr.mth + pr.fac + pr.cls + pr.ids);
        if ((w -= pr.arith) < 0) { op_arith(); return; }
        if ((w -= pr.un) < 0) { op_un(); return; }
        if ((w -= pr.bi) < 0) { op_bi(false); return; }
        if ((w -= pr.bas) < 0) { op_bi(true); return; }
        if ((w -= pr.frame) < 0) { op_frame(); return; }
        if ((w -= pr.mom) < 0) { op_mom(); return; }
        if ((w -= pr.cov) < 0) { op_cov(); return; }
        if ((w -= pr.gh) < 0) { op_gh(); return; }
        if ((w -= pr.conv) < 0) { op_conv(); return; }
        if ((w -= pr.mth) < 0) { op_math(); return; }
        if ((w -= pr.fac) < 0) { op_fac(); return; }
        if ((w -= pr.cls) < 0) { op_class(); return; }
        op_ids();
    }
    void op_ids() { intent("ids"); Obj o; o.t("op", "ids").is("v", fresh_ids(g)); emit(o, "ids", -1); }
};

template<typename Real, unc::Prop prop> void run2(Rng &g, const Profile2 &pr, long i, int len, const char *ty) {
    int R = pr.graph ? 5 : g.range(2, 4);
    Machine2<Real, prop> m(g, pr, R);
    Obj h; h.t("ty", ty).i("k", Tol<Real>::k).i("em", std::numeric_limits<Real>::min_exponent).i("R", R).i("i", i).b("est", prop == unc::Prop::est);
    trace_begin(h);
    if (pr.graph) m.graph();
    else {
        m.op_new(0);
        for (int j = 0; j < len; ++j) m.step();
    }
    trace_end();
}
void run_de(Rng &, const Profile2 &, long, int);
void run_qe(Rng &, const Profile2 &, long, int);
void run_qm(Rng &, const Profile2 &, long, int);
void run_dm(Rng &, const Profile2 &, long, int);
void run_fe(Rng &, const Profile2 &, long, int);
void run_lm(Rng &, const Profile2 &, long, int);
#endif
