// First-order (UReal) conformance harness.
//   h1 trace  <seed> <ntraces> <profile> <out.ndjson>   record random histories
//   h1 script <in> <out>                                run programs generated by TLC
// It uses only the public interface of the library.
#include <uncertainties/impl.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/ureal.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/math.hpp>
#ifdef WITH_UREAL2
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#endif
#include "common.hpp"
#include "mathfn.hpp"
#include <memory>
#include <algorithm>

namespace unc = uncertainties;
Log LOG;

// weights of the operation families, per profile
struct Profile { int arith, ip, un, nary, frame, reads, cov, grad, conv, thr, mth, fac, ids; double p_new; bool wide; };
static Profile profile(const string &p) {
    //                 arith ip un nary frame reads cov grad conv thr mth fac ids pnew wide
    if (p == "core")    return {30, 6, 14, 14, 4, 4, 6, 2, 0, 0, 2, 0, 0, .10, true};
    if (p == "inplace") return {6, 40, 3, 3, 6, 24, 6, 0, 0, 0, 0, 0, 0, .08, true};
    if (p == "reads")   return {10, 12, 6, 4, 6, 40, 34, 0, 0, 0, 0, 0, 0, .08, true};
    if (p == "frame")   return {12, 14, 6, 5, 34, 12, 4, 4, 4, 8, 4, 0, 0, .06, false};
    if (p == "ids")     return {14, 8, 6, 6, 14, 4, 8, 2, 8, 4, 2, 0, 26, .10, false};
    if (p == "grad")    return {14, 8, 8, 6, 8, 3, 2, 50, 0, 0, 2, 0, 0, .08, false};
    if (p == "conv")    return {14, 8, 8, 6, 4, 4, 4, 2, 44, 0, 2, 0, 0, .08, false};
    if (p == "math")    return {6, 3, 3, 2, 1, 1, 1, 0, 0, 0, 60, 0, 0, .04, false};
    if (p == "fac")     return {6, 3, 3, 2, 1, 1, 1, 0, 0, 0, 0, 60, 0, .04, false};
    std::fprintf(stderr, "unknown profile %s\n", p.c_str()); std::exit(2);
}

template<typename Real> struct Lim { static int val() { return sizeof(Real) == 4 ? 16 : 60; } static int gen() { return sizeof(Real) == 4 ? 5 : 20; } };

template<typename Real>
struct Machine {
    using U = unc::UReal<Real>;
    Rng &g;
    Profile pr;
    int R;
    vector<U> reg;
    vector<std::unique_ptr<U>> base;   // private pristine copies of the base variables
    vector<Real> bsd;
    struct Snap { Real n; vector<Real> C; bool ind; int id; };
    vector<Snap> snap;
    vector<int> alloc;                 // last known ids, for reporting only

    Machine(Rng &g, const Profile &pr, int R) : g(g), pr(pr), R(R), reg(R), snap(R) {
        for (int i = 0; i < R; ++i) snap[i] = look(i);
    }
    Snap look(int i) const {
        Snap s;
        const U &x = reg[i];
        s.n = x.n();
        for (auto &b : base) s.C.push_back(cov(x, static_cast<const U &>(*b)));
        s.ind = x.isindep(); s.id = x.indepid();
        return s;
    }
    static bool same(const Real &a, const Real &b) { return a == b or (isnan(a) and isnan(b)); }
    static bool same(const Snap &a, const Snap &b) {
        if (not same(a.n, b.n) or a.ind != b.ind or a.id != b.id) return false;
        for (size_t i = 0; i < b.C.size(); ++i)
            if (not same(i < a.C.size() ? a.C[i] : Real(0), b.C[i])) return false;
        return true;
    }
    // append to the event every register whose observable state changed; the
    // register `t` is always included (0-based, -1: none)
    void emit(Obj o, const string &op, int t) {
        string ch = "[";
        bool first = true;
        for (int i = 0; i < R; ++i) {
            Snap s = look(i);
            if (i == t or not same(snap[i], s)) {
                Obj c;
                const U &cx = reg[i];
                c.i("r", i + 1).x("n", s.n).xs("C", s.C).x("s", cx.s()).b("ind", s.ind).i("id", s.id);
                ch += (first ? "" : ",") + c.str(); first = false;
            }
            snap[i] = s;
        }
        o.raw("ch", ch + "]");
        event(o, op);
    }
    bool okval(const Real &x) const {
        const int L = Lim<Real>::val();
        return x == 0 or (abs(x) < ldexp(Real(1), L) and abs(x) > ldexp(Real(1), -L));
    }
    bool okreg(int i) const {
        if (not okval(snap[i].n)) return false;
        for (auto &c : snap[i].C) if (not okval(c)) return false;
        return true;
    }
    bool den(const Real &x) const { return abs(x) > ldexp(Real(1), -Lim<Real>::val() / 3) and abs(x) < ldexp(Real(1), Lim<Real>::val() / 3 * 2); }
    Real num() { return Real(g.num(Lim<Real>::gen())) * (sizeof(Real) > 8 and g.p(.5) ? Real(1) + Real(g.unif()) * Real(0x1p-50) + (std::numeric_limits<Real>::digits > 64 ? Real(g.unif()) * Real(0x1p-90) : Real(0)) : Real(1)); }
    Real sd() { return Real(g.sd(Lim<Real>::gen() * 3 / 4)); }
    int rr() { return g.below(R); }

    void op_new(int t) {
        intent("construct");
        Real n = num(), s = sd();
        if (g.p(.04)) s = 0;
        int how = g.below(3);
        if (how == 0) reg[t] = U(n, s);
        else if (how == 1) { U v(n, s); reg[t] = v; }
        else { U v {n, s}; reg[t] = std::move(v); }
        base.push_back(std::unique_ptr<U>(new U(reg[t])));
        bsd.push_back(s);
        Obj o; o.t("op", "new").i("t", t + 1).x("n", n).x("s", s);
        emit(o, "new", t);
    }
    void op_const(int t) {
        intent("constant");
        Real n = num();
        if (g.p(.3)) { reg[t] = U(); n = 0; }
        else if (g.p(.5)) reg[t] = n;
        else reg[t] = U(n);
        Obj o; o.t("op", "const").i("t", t + 1).x("n", n);
        emit(o, "const", t);
    }
    // advance the id counter far away (ids are ints; ordering and width matter)
    void burn(long k) { for (long i = 0; i < k; ++i) { U v(0, 1); (void)v; } }

    static U apply(int f, const U &a, const U &b) { return f == 0 ? a + b : f == 1 ? a - b : f == 2 ? a * b : a / b; }
    static void apply_ip(int f, U &a, const U &b) { if (f == 0) a += b; else if (f == 1) a -= b; else if (f == 2) a *= b; else a /= b; }
    static const char *fname(int f) { static const char *n[] = {"add", "sub", "mul", "div"}; return n[f]; }
    // in a scalar operand slot the record carries the value, in a register slot the index
    void op_arith() {
        intent("binary operator");
        int t = rr(), a = rr(), b = g.p(.2) ? a : rr(), f = g.below(4);
        if (g.p(.3)) t = g.p(.5) ? a : b;
        int k = g.below(10); // 0: scalar on the left, 1: scalar on the right
        Real c = num();
        if (f == 3 and not den(k == 1 ? c : reg[b].n())) f = 2;
        Obj o; o.t("op", "bin").t("f", fname(f)).i("t", t + 1);
        if (k == 0) { o.i("a", 0).i("b", b + 1).x("c", c); const U &y = reg[b]; reg[t] = f == 0 ? c + y : f == 1 ? c - y : f == 2 ? c * y : c / y; }
        else if (k == 1) { o.i("a", a + 1).i("b", 0).x("c", c); const U &x = reg[a]; reg[t] = f == 0 ? x + c : f == 1 ? x - c : f == 2 ? x * c : x / c; }
        else { o.i("a", a + 1).i("b", b + 1); reg[t] = apply(f, reg[a], reg[b]); }
        emit(o, "bin", t);
    }
    void op_far() { // products and quotients of numbers far from 1
        if (R < 3) return;
        const int t = rr(), a = (t + 1) % R, b = (t + 2) % R, f = g.p(.7) ? 3 : 2, E = std::numeric_limits<Real>::max_exponent;
        if (not okreg(a) or not okreg(b)) return;
        const int e = f == 3 and g.p(.6) ? E / 2 + g.range(4, 10) : g.range(-E * 3 / 8, E * 3 / 8);
        for (int i = 0; i < 2; ++i) {
            const int r = i == 0 ? a : b, ei = i == 0 or f == 3 ? e : -e;
            intent("unary");
            Real mu = num(); if (mu == 0) mu = 1;
            mu = ldexp(mu, ei);
            Real d = ldexp(num(), ei / 2 - (ei > 0 ? 8 : 0));
            Obj o; o.t("op", "un").i("t", r + 1).i("a", r + 1).x("mu", mu).x("d", d);
            reg[r] = unary(reg[r], mu, d);
            emit(o, "un", r);
        }
        const bool ip = g.p(.4);
        intent(ip ? "in-place operator" : "binary operator");
        if (ip) { Obj o; o.t("op", "ip").t("f", fname(f)).i("t", a + 1).i("pre", 0).i("b", b + 1); apply_ip(f, reg[a], reg[b]); emit(o, "ip", a); }
        else { Obj o; o.t("op", "bin").t("f", fname(f)).i("t", t + 1).i("a", a + 1).i("b", b + 1); reg[t] = apply(f, reg[a], reg[b]); emit(o, "bin", t); }
    }
    void op_expr() { // (a f b) g c, with a temporary; and a f (b g c)
        intent("expression");
        int t = rr(), a = rr(), b = rr(), c = rr(), f = g.below(3), h = g.below(3);
        bool left = g.p(.5);
        Obj o; o.t("op", "expr").t("f", fname(f)).t("h", fname(h)).i("t", t + 1).i("a", a + 1).i("b", b + 1).i("c", c + 1).b("left", left);
        reg[t] = left ? apply(h, apply(f, reg[a], reg[b]), reg[c]) : apply(f, reg[a], apply(h, reg[b], reg[c]));
        emit(o, "expr", t);
    }
    void op_ip() {
        intent("in-place operator");
        int t = rr(), b = g.p(.25) ? t : rr(), f = g.below(4);
        bool scal = g.p(.15);
        Real c = num();
        if (f == 3 and not den(scal ? c : reg[b].n())) f = 2;
        // reading the standard deviation first fills the cache of dependent variables
        int pre = g.below(4);
        if (pre == 1) reg[t].s();
        if (pre == 2) var(reg[t]);
        if (pre == 3 and b != t) reg[b].s();
        Obj o; o.t("op", "ip").t("f", fname(f)).i("t", t + 1).i("pre", pre);
        if (scal) { o.i("b", 0).x("c", c); if (g.p(.5)) apply_ip(f, reg[t], U(c)); else { if (f == 0) reg[t] += c; else if (f == 1) reg[t] -= c; else if (f == 2) reg[t] *= c; else reg[t] /= c; } }
        else { o.i("b", b + 1); apply_ip(f, reg[t], reg[b]); }
        emit(o, "ip", t);
    }
    void op_bas() {
        intent("binary_assign");
        int t = rr(), b = g.p(.25) ? t : rr();
        Real mu = num(), dt = num(), dx = num();
        if (g.p(.1)) dt = 1;
        if (g.p(.1)) dt = -dx;
        int pre = g.below(3);
        if (pre == 1) reg[t].s();
        if (pre == 2) var(reg[t]);
        Obj o; o.t("op", "bas").i("t", t + 1).i("b", b + 1).x("mu", mu).x("dt", dt).x("dx", dx);
        const U &ret = reg[t].binary_assign(reg[b], mu, dt, dx);
        o.b("ret", &ret == &reg[t]);
        emit(o, "bas", t);
    }
    void op_un() {
        intent("unary");
        int t = rr(), a = rr();
        Obj o;
        int k = g.below(5);
        if (k == 0) { o.t("op", "neg").i("t", t + 1).i("a", a + 1); reg[t] = -reg[a]; emit(o, "neg", t); }
        else if (k == 1) { o.t("op", "plus").i("t", t + 1).i("a", a + 1); reg[t] = +reg[a]; emit(o, "plus", t); }
        else {
            Real mu = num(), d = num();
            o.t("op", "un").i("t", t + 1).i("a", a + 1).x("mu", mu).x("d", d);
            reg[t] = unary(reg[a], mu, d);
            emit(o, "un", t);
        }
    }
    void op_nary() {
        int t = rr();
        if (g.p(.5)) {
            intent("binary");
            int a = rr(), b = g.p(.25) ? a : rr();
            Real mu = num(), dx = num(), dy = g.p(.2) ? -dx : num();
            Obj o; o.t("op", "bi").i("t", t + 1).i("a", a + 1).i("b", b + 1).x("mu", mu).x("dx", dx).x("dy", dy);
            reg[t] = binary(reg[a], reg[b], mu, dx, dy);
            emit(o, "bi", t);
        } else {
            intent("nary");
            int n = g.below(6);
            vector<U> xs; vector<int> idx; vector<Real> ds;
            for (int i = 0; i < n; ++i) { idx.push_back(rr() + 1); xs.push_back(reg[idx.back() - 1]); ds.push_back(num()); }
            Real mu = num();
            Obj o; o.t("op", "nary").i("t", t + 1).is("x", idx).x("mu", mu).xs("d", ds);
            reg[t] = nary(xs.begin(), xs.end(), mu, ds.begin());
            emit(o, "nary", t);
        }
    }
    void op_frame() {
        int t = rr(), a = rr();
        Obj o;
        switch (g.below(6)) {
        case 0: intent("copy"); o.t("op", "copy").i("t", t + 1).i("a", a + 1); reg[t] = reg[a]; emit(o, "copy", t); break;
        case 1: { intent("self assignment"); o.t("op", "copy").i("t", t + 1).i("a", t + 1); U &r = reg[t]; reg[t] = r; emit(o, "copy", t); break; }
        case 2: intent("swap"); o.t("op", "swap").i("t", t + 1).i("a", a + 1); if (a != t) std::swap(reg[t], reg[a]); emit(o, "swap", t); break;
        case 3: { intent("move"); if (a == t) break; Real c = num(); o.t("op", "move").i("t", t + 1).i("a", a + 1).x("c", c); reg[t] = std::move(reg[a]); reg[a] = U(c); emit(o, "move", t); break; }
        case 4: { intent("copy construction"); o.t("op", "copy").i("t", t + 1).i("a", a + 1); U v(reg[a]); U w(std::move(v)); reg[t] = w; emit(o, "copy", t); break; }
        default: { intent("change_nom"); Real c = num(); o.t("op", "chnom").i("t", t + 1).i("a", a + 1).x("c", c); reg[t] = change_nom(reg[a], c); emit(o, "chnom", t); break; }
        }
    }
    void op_reads() { // a burst of reads, const and not, in random order
        intent("reads");
        int a = rr();
        U &x = reg[a]; const U &cx = x;
        int m = g.range(1, 4);
        vector<Real> v; string kinds = "[";
        for (int i = 0; i < m; ++i) {
            int k = g.below(8);
            if (i) kinds += ",";
            const char *nm = "";
            switch (k) {
            case 0: nm = "s"; v.push_back(cx.s()); break;
            case 1: nm = "s"; v.push_back(x.s()); break;
            case 2: nm = "var"; v.push_back(var(cx)); break;
            case 3: nm = "var"; v.push_back(var(x)); break;
            case 4: nm = "var"; v.push_back(cov(cx, cx)); break;
            case 5: nm = "n"; v.push_back(g.p(.5) ? nom(cx) : x.n()); break;
            case 6: nm = "s"; v.push_back(sdev(cx)); break;
            default: nm = "s"; v.push_back(unc::sdev(x)); break;
            }
            kinds += string("\"") + nm + "\"";
        }
        Obj o; o.t("op", "reads").i("a", a + 1).raw("k", kinds + "]").xs("v", v);
        emit(o, "reads", -1);
    }
    void op_covfar() { // variances in range, products of variances out of range
        intent("cov/corr");
        const int E = std::numeric_limits<Real>::max_exponent / 2 - (sizeof(Real) == 4 ? 14 : 50);
        const int es = g.p(.5) ? g.range(-E, E) : g.p(.5) ? E - g.below(6) : -E + g.below(6), eu = std::max(-E, std::min(E, g.p(.8) ? es + g.range(-6, 6) : -es));
        auto coef = [&] { Real c = g.range(1, 16) / Real(4); return g.p(.5) ? c : -c; };
        const Real s = ldexp(Real(1 + g.unif()), es), u = ldexp(Real(1 + g.unif()), eu), p = coef(), q = coef(), r = coef();
        const U x(num(), s), y(num(), u), a = unary(x, num(), p), b = g.p(.5) ? binary(x, y, num(), q, r) : binary(y, x, num(), r, q), &ca = a, &cb = b;
        Obj o; o.t("op", "cfar").x("p", p).x("q", q).x("r", r).x("s", s).x("u", u).x("va", var(ca)).x("vb", var(cb)).x("sa", ca.s()).x("sb", cb.s())
            .x("cov", cov(ca, cb)).x("cov2", cov(cb, ca)).x("corr", g.p(.5) ? corr(ca, cb) : corr(cb, ca));
        emit(o, "cfar", -1);
    }
    void op_cov() {
        if (g.p(.06)) { op_covfar(); return; }
        intent("cov/corr");
        int a = rr(), b = rr();
        const U &x = reg[a], &y = reg[b];
        if (g.p(.6)) {
            Obj o; o.t("op", "cov").i("a", a + 1).i("b", b + 1).x("v", cov(x, y)).x("w", cov(y, x));
            emit(o, "cov", -1);
        } else {
            if (not (x.s() > 0 and y.s() > 0)) return;
            Obj o; o.t("op", "corr").i("a", a + 1).i("b", b + 1).x("v", g.p(.5) ? corr(x, y) : corr(reg[a], reg[b]));
            emit(o, "corr", -1);
        }
    }
    void op_gradfar() { // standard deviations whose square is out of range
        intent("grad");
        const int E = std::numeric_limits<Real>::max_exponent - (sizeof(Real) == 4 ? 20 : 60);
        Real s = ldexp(Real(1 + g.unif()), g.range(-E, E)), d = num(), d2 = num(), mu = num();
        U x(num(), s), w(num(), 1), y = g.p(.3) ? unary(x, mu, d) : g.p(.5) ? binary(x, w, mu, d, d2) : binary(w, x, mu, d2, d);
        if (g.p(.3)) { Real c = num(); if (c == 0) c = 1; U z = unary(x, mu, c); d /= c; x = z; }
        if (g.p(.3)) { const U &cx = x; cx.s(); y.s(); }
        string thr; Real v = 0;
        try { v = y.grad(x); } catch (std::exception &) { thr = "thrown"; }
        Obj o; o.t("op", "gfar").t("thr", thr).x("v", v).x("d", d);
        emit(o, "gfar", -1);
    }
    void op_grad() {
        if (g.p(.06)) { op_gradfar(); return; }
        intent("grad");
        int y = rr();
        bool isbase = not base.empty() and g.p(.5);
        int x = isbase ? g.below(int(base.size())) : rr();
        const U &gx = isbase ? *base[x] : reg[x];
        Obj o; o.t("op", "grad").i("y", y + 1).i("x", isbase ? 0 : x + 1).i("base", isbase ? x + 1 : 0);
        string thr = "";
        Real v = 0;
        try { const U &cy = reg[y]; v = g.p(.5) ? cy.grad(gx) : reg[y].grad(gx); }
        catch (std::invalid_argument &) { thr = "invalid_argument"; }
        catch (std::exception &) { thr = "other"; }
        o.t("thr", thr).x("v", v);
        emit(o, "grad", -1);
    }
    void op_thr() {
        intent("invalid construction");
        Real n = num(), s = -abs(sd());
        string thr = "";
        int t = rr();
        try { if (g.p(.5)) { U v(n, s); (void)v; } else reg[t] = U(n, s); }
        catch (std::invalid_argument &) { thr = "invalid_argument"; }
        catch (std::exception &) { thr = "other"; }
        Obj o; o.t("op", "thr").t("thr", thr);
        emit(o, "thr", -1);
    }
    template<typename T> void conv_to(const char *name) {
        using V = unc::UReal<T>;
        int a = rr(), b = rr();
        // the type converted to must be able to hold the numbers
        for (int r : {a, b}) for (auto &c : snap[r].C) if (c != 0 and (abs(c) > 0x1p40 or abs(c) < 0x1p-40)) return;
        for (auto &s : bsd) if (s != 0 and (s > 0x1p40 or s < 0x1p-40)) return;
        for (int r : {a, b}) if (snap[r].n != 0 and (abs(snap[r].n) > 0x1p60 or abs(snap[r].n) < 0x1p-60)) return;
        intent("conversion");
        int pre = g.below(3);
        if (pre == 1) reg[a].s();
        if (pre == 2) var(reg[a]);
        V va = reg[a];
        const U &cb = reg[b];
        V vb = cb;
        const V &cva = va;
        vector<T> C;
        for (auto &p : base) { V vp = *p; C.push_back(cov(va, vp)); }
        int t = rr();
        bool round = g.p(.5);
        const int k = std::min(std::numeric_limits<T>::digits, std::numeric_limits<Real>::digits) - 7;
        Obj o; o.t("op", "conv").t("ty", name).i("a", a + 1).i("b", b + 1).i("k", k)
            .x("n", va.n()).xs("C", C).x("s", cva.s()).x("s2", va.s()).x("cov", cov(va, vb)).b("ind", va.isindep()).i("id", va.indepid())
            .i("t", round ? t + 1 : 0);
        if (round) {
            // operate in the other type, then come back
            V w = va + vb;
            reg[t] = w;
        }
        emit(o, "conv", round ? t : -1);
    }
    void op_conv() {
#ifndef USERTYPE
        int k = g.below(3);
        if (k == 0) { if (not std::is_same<Real, float>::value) conv_to<float>("f"); else conv_to<double>("d"); }
        else if (k == 1) { if (not std::is_same<Real, double>::value) conv_to<double>("d"); else conv_to<long double>("l"); }
        else { if (not std::is_same<Real, long double>::value) conv_to<long double>("l"); else conv_to<float>("f"); }
#endif
    }
    void op_ids() { // several constructions in a row, of several classes
        intent("id allocation");
        int m = g.range(1, 5);
        vector<int> ids;
        for (int i = 0; i < m; ++i) {
            switch (g.below(5)) {
            case 0: { unc::UReal<float> v(1, 1); ids.push_back(v.indepid()); break; }
            case 1: { unc::UReal<long double> v(1, 1); ids.push_back(v.indepid()); break; }
#ifdef WITH_UREAL2
            case 2: { auto v = unc::distr::normal<unc::UReal2<Real, unc::Prop::est>>(0, 1); ids.push_back(v.indepid()); break; }
            case 3: { auto v = unc::distr::uniform<unc::udouble2m>(0, 1); ids.push_back(v.indepid());
                      unc::udouble2e w(0, {{1, 0, 3, 0, 15, 0, 105}}, 0); ids.push_back(w.indepid()); break; }
#endif
            default: { U v(2, 1); ids.push_back(v.indepid()); break; }
            }
        }
        if (g.p(.2)) burn(g.p(.3) ? 70000 : g.below(300));
        Obj o; o.t("op", "ids").is("v", ids);
        emit(o, "ids", -1);
    }
    // ------------------------------------------------------------- math.hpp
    void op_math() {
        int t = rr(), a = rr(), b = rr();
        if (g.p(.62)) {
            int f = g.below(mathfn::n1);
            const char *nm = mathfn::name1(f);
            intent(nm);
            Real x;
            if (not mathfn::point1<Real>(f, g, &x)) return;
            Real sc = 1;
            if (g.p(.15)) mathfn::far1<Real>(f, g, &x, &sc);
            U arg = sc == 1 ? change_nom(reg[a], x) : unary(reg[a], x, sc);
            using W = typename mathfn::Wide<Real>::type; vector<W> w = mathfn::basis1<W>(f, W(x));
            Obj o; o.t("op", "m1").t("f", nm).i("t", t + 1).i("a", a + 1).x("x", x).x("sc", sc).x("v", mathfn::std1<Real>(f, x)).xs("w", w);
            reg[t] = mathfn::lib1(f, arg);
            emit(o, "m1", t);
        } else {
            int f = g.below(mathfn::n2);
            const char *nm = mathfn::name2(f);
            intent(nm);
            Real x, y;
            if (not mathfn::point2<Real>(f, g, &x, &y)) return;
            Real sc = 1;
            if (g.p(.15)) mathfn::far2<Real>(f, g, &x, &y, &sc);
            U ax = sc == 1 ? change_nom(reg[a], x) : unary(reg[a], x, sc), ay = sc == 1 ? change_nom(reg[b], y) : unary(reg[b], y, sc);
            int cy = 0;
            if (f == mathfn::F_POW and not (x > 0)) { ay = U(y); cy = 1; }   // constant exponent
            else if (g.p(.15)) { ay = U(y); cy = 1; }
            using W = typename mathfn::Wide<Real>::type; vector<W> w = mathfn::basis2<W>(f, W(x), W(y));
            Obj o; o.t("op", "m2").t("f", nm).i("t", t + 1).i("a", a + 1).i("b", cy ? 0 : b + 1).x("x", x).x("y", y).x("sc", sc).x("v", mathfn::std2<Real>(f, x, y)).xs("w", w);
            reg[t] = mathfn::lib2(f, ax, ay);
            emit(o, "m2", t);
        }
    }
    void op_class() { // isfinite / isnormal, also on special values
        intent("isfinite/isnormal");
        Real sp[] = {0, 1, std::numeric_limits<Real>::infinity(), -std::numeric_limits<Real>::infinity(), std::numeric_limits<Real>::quiet_NaN(), std::numeric_limits<Real>::denorm_min(), Real(-2.5)};
        Real n = sp[g.below(7)], s = sp[g.below(7)];
        if (s < 0) s = -s;
        U v(n, isnan(s) ? Real(1) : s);
        if (isnan(s)) v = unary(v, n, s);
        if (g.p(.5)) v = v + U(0, 0);
        const U cv = v;
        const Real rs = cv.s();
        Obj o; o.t("op", "class").x("n", cv.n()).x("s", rs).b("nn", isnormal(cv.n())).b("ns", isnormal(rs)).b("fin", isfinite(cv)).b("nor", isnormal(cv));
        emit(o, "class", -1);
    }
    // --------------------------------------------------------- functions.hpp
    // user functions are polynomials with small integer coefficients, evaluated
    // in floating point; c[i][j] multiplies x^i y^j
    static Real poly(const vector<int> &c, const Real &x, const Real &y) {
        Real r = 0, xi = 1;
        for (int i = 0; i < 4; ++i) { Real yj = 1; for (int j = 0; j < 4; ++j) { if (c[4 * i + j]) r += c[4 * i + j] * xi * yj; yj *= y; } xi *= x; }
        return r;
    }
    static vector<int> dpoly(const vector<int> &c, int var) {
        vector<int> d(16, 0);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
            if (var == 0 and i > 0) d[4 * (i - 1) + j] += c[4 * i + j] * i;
            if (var == 1 and j > 0) d[4 * i + j - 1] += c[4 * i + j] * j;
        }
        return d;
    }
    void op_fac() {
        int t = rr(), a = rr(), b = rr();
        Real x = Real(g.range(-12, 12)) / 4, y = Real(g.range(-12, 12)) / 4;
        bool two = g.p(.5), num_ = g.p(.6);
        vector<int> c(16, 0);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < (two ? 4 : 1); ++j) if (i + j <= 3 and g.p(.6)) c[4 * i + j] = g.range(-3, 3);
        int st = num_ ? (g.p(.5) ? 0 : g.range(3, 9)) : -1;      // step 2^-st, 0: default
        const Real h0 = sqrt(std::numeric_limits<Real>::epsilon());
        // with the default step, a function varying on the scale of the step
        // around 0 makes the quotient exactly computable
        Real S = 1;
        if (st == 0 and g.p(.6)) { S = 1 / h0; x = y = 0; }
        U ax = change_nom(reg[a], x), ay = change_nom(reg[b], y);
        Real step = st > 0 ? ldexp(Real(1), -st) : Real(0);
        Obj o; o.t("op", "fac").b("two", two).i("t", t + 1).i("a", a + 1).i("b", two ? b + 1 : 0).x("x", x).x("y", y).is("c", c).i("st", st)
            .x("step", st > 0 ? step : h0).x("S", S);
        vector<int> cx = dpoly(c, 0), cy = dpoly(c, 1);
        using F1 = unc::Unary<Real>; using F2 = unc::Binary<Real>;
        if (not two) {
            intent("uunary");
            F1 f = [c, S](const Real &x) { return poly(c, x * S, 1); }, df = [cx](const Real &x) { return poly(cx, x, 1); };
            unc::UUnary<Real> u = not num_ ? unc::uunary<Real>(f, df) : st > 0 ? unc::uunary<Real>(f, step) : unc::uunary<Real>(f);
            if (g.p(.3)) u(U(1, 1));
            reg[t] = u(ax);
        } else {
            intent("ubinary");
            F2 f = [c, S](const Real &x, const Real &y) { return poly(c, x * S, y * S); }, dfx = [cx](const Real &x, const Real &y) { return poly(cx, x, y); }, dfy = [cy](const Real &x, const Real &y) { return poly(cy, x, y); };
            unc::UBinary<Real> u = not num_ ? unc::ubinary<Real>(f, dfx, dfy) : st > 0 ? unc::ubinary<Real>(f, step) : unc::ubinary<Real>(f);
            if (g.p(.3)) u(U(1, 1), U(2));
            reg[t] = u(ax, ay);
        }
        emit(o, "fac", t);
    }

    void step() {
        for (int i = 0; i < R; ++i) if (not okreg(i)) { if (g.p(.3) and base.size() < 4) op_new(i); else if (base.size() and g.p(.7)) { // restart from a base variable
                int b = g.below(int(base.size())); intent("copy"); reg[i] = *base[b];
                Obj o; o.t("op", "cpb").i("t", i + 1).i("base", b + 1); emit(o, "cpb", i); } else op_const(i); return; }
        size_t maxb = pr.wide ? 14 : 6;
        if (g.p(base.size() < maxb ? pr.p_new : 0)) { op_new(rr()); return; }
        if (g.p(.02)) { op_const(rr()); return; }
        int w = g.below(pr.arith + pr.ip + pr.un + pr.nary + pr.frame + pr.reads + pr.cov + pr.grad + pr.conv + pr.thr + pr.mth + pr.fac + pr.ids);
        if ((w -= pr.arith) < 0) { if (g.p(.04)) op_far(); else if (g.p(.2)) op_expr(); else op_arith(); return; }
        if ((w -= pr.ip) < 0) { if (g.p(.03)) op_far(); else if (g.p(.3)) op_bas(); else op_ip(); return; }
        if ((w -= pr.un) < 0) { op_un(); return; }
        if ((w -= pr.nary) < 0) { op_nary(); return; }
        if ((w -= pr.frame) < 0) { op_frame(); return; }
        if ((w -= pr.reads) < 0) { op_reads(); return; }
        if ((w -= pr.cov) < 0) { op_cov(); return; }
        if ((w -= pr.grad) < 0) { op_grad(); return; }
        if ((w -= pr.conv) < 0) { op_conv(); return; }
        if ((w -= pr.thr) < 0) { op_thr(); return; }
        if ((w -= pr.mth) < 0) { if (g.p(.06)) op_class(); else op_math(); return; }
        if ((w -= pr.fac) < 0) { op_fac(); return; }
        op_ids();
    }
    // an accumulation of many fresh variables, created in shuffled order
    void wide(int nb) {
        vector<int> order;
        vector<U> v(nb);
        for (int i = 0; i < nb; ++i) {
            Real n = num(), s = sd();
            v[i] = U(n, s);
            if (g.p(.02)) burn(g.below(1000));
            base.push_back(std::unique_ptr<U>(new U(v[i]))); bsd.push_back(s); order.push_back(i);
            Obj o; o.t("op", "newb").x("n", n).x("s", s).i("id", v[i].indepid());
            emit(o, "newb", -1);
        }
        for (int i = nb - 1; i > 0; --i) std::swap(order[i], order[g.below(i + 1)]);
        for (int i = 0; i < nb; ++i) {
            int b = order[i], t = i % R;
            Obj o; o.i("t", t + 1).i("base", b + 1);
            int k = g.below(3);
            if (k == 0) { o.t("op", "wip").t("f", "add"); reg[t] += v[b]; }
            else if (k == 1) { o.t("op", "wip").t("f", "sub"); reg[t] -= v[b]; }
            else { o.t("op", "wbin").t("f", "sub"); reg[t] = v[b] - reg[t]; }
            emit(o, "wide", t);
        }
    }
    // registers made of random subsets, of very different sizes, of the same
    // base variables
    void subsets(int nb) {
        wide_bases(nb);
        for (int t = 0; t < R; ++t) {
            int kind = g.below(4); // few, half, most, a run of consecutive ids
            int lo = g.below(nb), hi = std::min(nb, lo + 1 + g.below(nb));
            for (int b = 0; b < nb; ++b) {
                bool in = kind == 0 ? g.p(2.5 / nb) : kind == 1 ? g.p(.5) : kind == 2 ? g.p(.9) : (b >= lo and b < hi);
                if (not in) continue;
                Obj o; o.i("t", t + 1).i("base", b + 1);
                if (g.p(.5)) { o.t("op", "wip").t("f", "add"); reg[t] += static_cast<const U &>(*base[b]); }
                else { o.t("op", "wbin").t("f", "sub"); reg[t] = static_cast<const U &>(*base[b]) - reg[t]; }
                emit(o, "wide", t);
            }
        }
        for (int i = 0; i < 2 * R; ++i) op_cov();
    }
    void wide_bases(int nb) {
        for (int i = 0; i < nb; ++i) {
            Real n = num(), s = sd();
            base.push_back(std::unique_ptr<U>(new U(n, s))); bsd.push_back(s);
            if (g.p(.05)) burn(g.below(1000));
            Obj o; o.t("op", "newb").x("n", n).x("s", s).i("id", base.back()->indepid());
            emit(o, "newb", -1);
        }
    }
};

template<typename Real> static void run(Rng &g, const Profile &pr, long i, int len, const char *ty) {
    bool wide = pr.wide and i % 12 == 5;
    bool sub = pr.wide and i % 12 % 5 == 1; // i % 12 in {1, 6, 11}
    int R = wide ? 3 : sub ? 4 : g.range(2, 5);
    Machine<Real> m(g, pr, R);
    Obj h; h.t("ty", ty).i("k", Tol<Real>::k).i("R", R).i("i", i);
    trace_begin(h);
    if (i == 1) m.burn(70000);
    if (wide) { m.wide(i % 24 == 5 ? 40 : 18); len /= 2; }
    if (sub) { m.subsets(g.range(5, 16)); len /= 2; }
    if (not wide and not sub) m.op_new(0);
    for (int j = 0; j < len; ++j) m.step();
    trace_end();
}

// ------------------------------------------------------------ TLC's programs
// one program per line:  op args ; op args ; ... | expected observables
// (integers; see spec/URealMC.tla, which prints them)
#include <sstream>
#include <fstream>
static char SCRIPT_LINE[2048]; static FILE *SCRIPT_OUT;
static void script_crash(int) {
    std::fprintf(SCRIPT_OUT, "K0\tcrash in %s\t%s\n", LOG.cur, SCRIPT_LINE); std::fclose(SCRIPT_OUT);
    std::printf("programs 0 ops 0 bad 1\n"); std::fflush(stdout); _exit(0);
}
static int script(const char *in, const char *out) {
    using U = unc::udouble;
    std::ifstream f(in);
    FILE *o = SCRIPT_OUT = std::fopen(out, "w");
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, script_crash);
    std::set_terminate([] { script_crash(0); });
    string line; long nprog = 0, nbad = 0, nops = 0;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        ++nprog;
        std::istringstream ss(line);
        vector<U> r(4); vector<U> base;
        string op, err;
        alarm(60);
        std::snprintf(SCRIPT_LINE, sizeof SCRIPT_LINE, "%s", line.c_str());
        while (ss >> op and op != "|") {
            ++nops;
            intent(op.c_str());
            int t, a, b, c, d;
            if (op == "new") { ss >> t >> a >> b; r[t] = U(a, b); base.push_back(r[t]); }
            else if (op == "const") { ss >> t >> a; r[t] = U(a); }
            else if (op == "copy") { ss >> t >> a; r[t] = r[a]; }
            else if (op == "neg") { ss >> t >> a; r[t] = -r[a]; }
            else if (op == "un") { ss >> t >> a >> b; r[t] = unary(r[a], b * r[a].n(), b); }
            else if (op == "add") { ss >> t >> a >> b; r[t] = r[a] + r[b]; }
            else if (op == "sub") { ss >> t >> a >> b; r[t] = r[a] - r[b]; }
            else if (op == "mul") { ss >> t >> a >> b; r[t] = r[a] * r[b]; }
            else if (op == "iadd") { ss >> t >> b; r[t] += r[b]; }
            else if (op == "isub") { ss >> t >> b; r[t] -= r[b]; }
            else if (op == "imul") { ss >> t >> b; r[t] *= r[b]; }
            else if (op == "bas") { ss >> t >> b >> c >> d; r[t].binary_assign(r[b], c * r[t].n() + d * r[b].n(), c, d); }
            else if (op == "chnom") { ss >> t >> a >> b; r[t] = change_nom(r[a], b); }
            else if (op == "rs") { ss >> t; r[t].s(); }
            else if (op == "rv") { ss >> t; var(r[t]); }
            else { std::fprintf(stderr, "unknown op %s\n", op.c_str()); return 2; }
        }
        // expected: for each register: n, number of bases, C_1..C_m, s2, ind(0/1/2), base index of the id (0: constant, -1: several, -2: any)
        string codes;   // what disagrees: n mean, C coefficient, G gradient, S spread, I identity, X covariance of registers
        auto bad = [&](char code, int reg, const string &what, double got, double exp) {
            std::ostringstream e; e << what << " got " << got << " expected " << exp; if (err.empty()) err = e.str();
            codes += (codes.empty() ? "" : ",") + (code + std::to_string(reg)); };
        int reg = 0; double n;
        auto eq = [](double x, double y) { return abs(x - y) <= 1e-9 * (1 + abs(y)); };   // false for NaN
        vector<vector<double>> C;
        while (ss >> reg >> n) {
            int m, ind, id; double s2;
            ss >> m;
            vector<double> c(m);
            for (auto &v : c) ss >> v;
            ss >> s2 >> ind >> id;
            const U &x = r[reg];
            if (not eq(x.n(), n)) bad('n', reg, "mean of r" + std::to_string(reg), x.n(), n);
            for (int i = 0; i < m; ++i) {
                if (not eq(cov(x, base[i]), c[i])) bad('C', reg, "cov(r" + std::to_string(reg) + ",b" + std::to_string(i + 1) + ")", cov(x, base[i]), c[i]);
                double gr = std::numeric_limits<double>::quiet_NaN();
                try { gr = x.grad(base[i]); } catch (std::exception &) {}
                if (not eq(gr, c[i] / var(base[i]))) bad('G', reg, "grad of r" + std::to_string(reg), gr, c[i] / var(base[i]));
            }
            if (not eq(x.s() * x.s(), s2) or x.s() < 0) bad('S', reg, "s of r" + std::to_string(reg), x.s(), sqrt(s2));
            if (not eq(var(x), s2)) bad('S', reg, "var of r" + std::to_string(reg), var(x), s2);
            U y = x; // non-const reads on a copy
            if (not eq(var(y), s2)) bad('S', reg, "var of copy of r" + std::to_string(reg), var(y), s2);
            if (not eq(y.s() * y.s(), s2) or y.s() < 0) bad('S', reg, "s of copy of r" + std::to_string(reg), y.s(), sqrt(s2));
            if (ind != 2 and x.isindep() != (ind == 1)) bad('I', reg, "isindep of r" + std::to_string(reg), x.isindep(), ind);
            int eid = id == -2 ? x.indepid() : id == -1 ? unc::invalid_id : id == 0 ? 0 : base[id - 1].indepid();
            if (x.indepid() != eid) bad('I', reg, "indepid of r" + std::to_string(reg), x.indepid(), eid);
            C.push_back(c);
        }
        // covariances between all registers (registers listed in order 0, 1, ..)
        for (size_t i = 0; i < C.size(); ++i) for (size_t j = 0; j < C.size(); ++j) {
            double e = 0;
            for (size_t q = 0; q < C[i].size(); ++q) e += C[i][q] * C[j][q] / var(base[q]);
            if (not eq(cov(r[i], r[j]), e)) bad('X', int(i), "cov of registers", cov(r[i], r[j]), e);
        }
        if (not err.empty()) { ++nbad; if (nbad < 300000) std::fprintf(o, "%s\t%s\t%s\n", codes.c_str(), err.c_str(), line.c_str()); }
    }
    std::fclose(o);
    std::printf("programs %ld ops %ld bad %ld\n", nprog, nops, nbad);
    return 0;
}

int main(int argc, char **argv) {
    string mode = argc > 1 ? argv[1] : "";
    if (mode == "script" and argc == 4) { LOG.f = stderr; return script(argv[2], argv[3]); }
    if (mode == "table" and argc == 3) { log_open(argv[2]); mathfn::table(); log_close(); return 0; }
    if (mode != "trace" or argc < 6) { std::fprintf(stderr, "usage\n"); return 2; }
    uint64_t seed = std::strtoull(argv[2], 0, 10); long n = std::atol(argv[3]);
    string prof = argv[4];
    Profile pr = profile(prof);
    log_open(argv[5]);
    int len = argc > 6 ? std::atoi(argv[6]) : 30;
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 17);
        if (i == n * 9 / 10 and (prof == "ids" or prof == "core")) { // very large ids
            for (long j = 0; j < 17000000; ++j) { unc::ufloat v(0, 1); (void)v; if (j % 1000000 == 0) alarm(60); }
        }
#ifdef USERTYPE
        if (i >= 0) { run<usertype::Q>(g, pr, i, len, "q"); continue; }
#else
        switch (i % 6) {
        case 2: run<float>(g, pr, i, len, "f"); break;
        case 4: run<long double>(g, pr, i, len, "l"); break;
        default: run<double>(g, pr, i, len, "d");
        }
#endif
    }
    log_close();
    return 0;
}
