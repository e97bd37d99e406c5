// Expressions of many variables.   bulk <seed> <histories> <bulk1|bulk2> <out.ndjson>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include <algorithm>
#include "common.hpp"
namespace unc = uncertainties;
Log LOG;
template<typename Real> static Real value(const unc::UReal<Real> &x) { return x.n(); }
template<typename Real, unc::Prop p> static Real value(const unc::UReal2<Real, p> &x) { return x.first_order_n(); }
template<typename Real> static void linear(unc::UReal<Real> &t, const unc::UReal<Real> &a, const unc::UReal<Real> &b, const Real &p, const Real &q) { t = binary(a, b, p * a.n() + q * b.n(), p, q); }
template<typename Real, unc::Prop o> static void linear(unc::UReal2<Real, o> &t, const unc::UReal2<Real, o> &a, const unc::UReal2<Real, o> &b, const Real &p, const Real &q) { t = binary(a, b, p * a.first_order_n() + q * b.first_order_n(), p, q, Real(0), Real(0), Real(0)); }
template<typename Real> static void apply(unc::UReal<Real> &t, const unc::UReal<Real> &a, const Real &f, const Real &d, const Real &) { t = unary(a, f, d); }
template<typename Real, unc::Prop o> static void apply(unc::UReal2<Real, o> &t, const unc::UReal2<Real, o> &a, const Real &f, const Real &d, const Real &dd) { t = unary(a, f, d, dd); }
template<typename Real> static void plus(unc::UReal<Real> &t, const unc::UReal<Real> &a) { t += a; }
template<typename Real> static void minus(unc::UReal<Real> &t, const unc::UReal<Real> &a) { t -= a; }
template<typename Real> static void times(unc::UReal<Real> &t, const unc::UReal<Real> &a) { t *= a; }
template<typename Real, unc::Prop o> static void plus(unc::UReal2<Real, o> &t, const unc::UReal2<Real, o> &a) { binary_assign(t, a, Real(value(t) + value(a)), Real(1), Real(1), Real(0), Real(0), Real(0)); }
template<typename Real, unc::Prop o> static void minus(unc::UReal2<Real, o> &t, const unc::UReal2<Real, o> &a) { binary_assign(t, a, Real(value(t) - value(a)), Real(1), Real(-1), Real(0), Real(0), Real(0)); }
template<typename Real, unc::Prop o> static void times(unc::UReal2<Real, o> &t, const unc::UReal2<Real, o> &a) { const Real p = value(t), q = value(a); binary_assign(t, a, p * q, q, p, Real(0), Real(0), Real(1)); }
// all the terms in one call, where it exists
template<typename Real> static bool nary_sum(unc::UReal<Real> &t, const vector<unc::UReal<Real>> &v, const vector<Real> &d, const Real &m) { t = nary(v.begin(), v.end(), m, d.begin()); return true; }
template<typename U, typename Real> static bool nary_sum(U &, const vector<U> &, const vector<Real> &, const Real &) { return false; }
template<typename U, typename Real> struct Machine {
    Rng &g; int N; vector<U> x; vector<Real> mu, sd; U r[3]; int started = 0;
    template<typename Make> Machine(Rng &g_, int n, Make make) : g(g_), N(n) {
        // some variables in between, so that ids are not consecutive
        for (int i = 0; i < N; ++i) {
            mu.push_back(g.range(-2, 2)); sd.push_back(g.p(.5) ? 1 : g.p(.5) ? 2 : 4);
            x.push_back(make(mu.back(), sd.back()));
            if (g.p(.2)) make(Real(0), Real(1));
        }
        if (g.p(.3)) for (int i = N - 1; i > 0; --i) { int j = g.below(i + 1); std::swap(x[i], x[j]); std::swap(mu[i], mu[j]); std::swap(sd[i], sd[j]); }
    }
    Real coef() { int c = g.range(1, 4); return g.p(.5) ? c : -c; }
    void second(Obj &, const unc::UReal<Real> &) {}
    template<unc::Prop o> void second(Obj &e, const unc::UReal2<Real, o> &y) {
        string h = "[";
        for (int i = 0; i < N; ++i) {
            h += i ? ",[" : "[";
            for (int j = 0; j <= i; ++j) { if (j) h += ","; h += qhex(g.p(.5) ? y.hess(x[i], x[j]) : y.hess(x[j], x[i])); }
            h += "]";
        }
        e.raw("H", h + "]").x("m1", y.m(1));
        e.x("m3", y.m(3));
        if (N <= 20) e.x("m4", y.m(4)); else e.t("m4", "");
    }
    void look(Obj &e, const char *op, int t) {
        const U &y = r[t];
        e.t("op", op).i("t", t + 1).x("n", value(y)).b("ind", y.isindep()).i("id", y.indepid());
        vector<Real> G, C, cv, vc, vs;
        for (auto &b : x) { G.push_back(y.grad(b)); C.push_back(g.p(.5) ? cov(y, b) : cov(b, y)); }
        for (auto &z : r) { cv.push_back(cov(y, z)); vc.push_back(cov(z, y)); const U &cz = z; vs.push_back(g.p(.5) ? var(z) : var(cz)); }
        e.xs("G", G).xs("C", C).xs("cov", cv).xs("voc", vc).xs("vars", vs);
        second(e, y);
        event(e, op);
    }
    void acc() {
        const int t = g.below(3), way = g.below(6), lo = g.p(.5) ? 0 : g.below(N), hi = g.p(.3) ? std::min(N, lo + g.range(1, 3)) : g.p(.5) ? N : g.range(lo, N), step = g.p(.6) ? 1 : g.range(2, 5);
        bool fresh = g.p(.4), ip = way == 0 or way == 5;
        vector<int> is; vector<Real> cs;
        for (int i = lo; i < hi; i += step) { is.push_back(i + 1); cs.push_back(coef()); }
        if (g.p(.4)) { std::reverse(is.begin(), is.end()); std::reverse(cs.begin(), cs.end()); }
        intent("sum of many variables");
        if (fresh) r[t] = U();
        if (way == 4) {
            vector<U> v(1, r[t]); vector<Real> d(1, 1); Real m = value(r[t]);
            for (size_t k = 0; k < is.size(); ++k) { v.push_back(x[is[k] - 1]); d.push_back(cs[k]); m += cs[k] * mu[is[k] - 1]; }
            if (g.p(.5)) { std::reverse(v.begin(), v.end()); std::reverse(d.begin(), d.end()); }
            if (not nary_sum(r[t], v, d, m)) for (size_t k = 0; k < is.size(); ++k) plus(r[t], cs[k] * x[is[k] - 1]);
        } else if (way == 5) { // halves summed apart, then together
            vector<U> part;
            for (size_t k = 0; k < is.size(); ++k) part.push_back(cs[k] * x[is[k] - 1]);
            while (part.size() > 1) {
                vector<U> next;
                for (size_t k = 0; k + 1 < part.size(); k += 2) next.push_back(part[k] + part[k + 1]);
                if (part.size() % 2) next.push_back(part.back());
                part.swap(next);
            }
            if (part.size()) plus(r[t], part[0]);
        } else for (size_t k = 0; k < is.size(); ++k) {
            const U &b = x[is[k] - 1]; const Real &c = cs[k];
            switch (way) {
            case 0: if (c == 1) plus(r[t], b); else if (c == -1) minus(r[t], b); else plus(r[t], U(c * b)); break;
            case 1: r[t] = r[t] + b * c; break;
            case 2: r[t] = c * b + r[t]; break;
            default: r[t] = r[t] - (-c) * b; break;
            }
        }
        Obj e; e.is("i", is).xs("c", cs).b("fresh", fresh).b("ip", ip); look(e, "acc", t);
    }
    void quad() {
        const int t = g.below(3), n = g.range(1, 12);
        vector<int> is, js; vector<Real> cs;
        intent("products of many variables");
        const bool star = g.p(.3); const int centre = g.below(N);
        for (int k = 0; k < n; ++k) { is.push_back((star ? centre : g.below(N)) + 1); js.push_back(g.below(N) + 1); cs.push_back(g.p(.5) ? 1 : -1); }
        const bool ip = g.p(.5);
        for (int k = 0; k < n; ++k) { const U p = x[is[k] - 1] * x[js[k] - 1]; if (ip) { if (cs[k] == 1) plus(r[t], p); else minus(r[t], p); } else r[t] = cs[k] * p + r[t]; }
        Obj e; e.is("i", is).is("j", js).xs("c", cs).b("ip", ip); look(e, "quad", t);
    }
    bool huge(int a) { return not (abs(value(r[a])) < 1000 and var(r[a]) < 1e7); }
    void step(bool two) {
        const int t = g.below(3), a = g.below(3), b = g.below(3), k = g.below(10);
        if (k < 4 or started < 2 or huge(a) or huge(b) or huge(t)) {
            ++started;
            for (int i = 0; i < 3; ++i) if (huge(i)) { r[i] = U(); Obj e; e.is("i", {}).xs("c", vector<Real>()).b("fresh", true); look(e, "acc", i); }
            acc();
        }
        else if (k < 6 and two) quad();
        else if (k < 7) {
            const bool ip = g.p(.5); const Real p = ip ? Real(1) : coef(), q = ip ? Real(g.p(.5) ? 1 : -1) : coef();
            intent("combination of expressions");
            Obj e; e.i("a", (ip ? t : a) + 1).i("b", b + 1).x("p", p).x("q", q).b("ip", ip);
            if (ip) { if (q == 1) plus(r[t], r[b]); else minus(r[t], r[b]); } else linear(r[t], r[a], r[b], p, q);
            look(e, "lin", t);
        } else if (k < 9) {
            const bool ip = g.p(.5);
            intent("product of expressions");
            Obj e; e.i("a", (ip ? t : a) + 1).i("b", b + 1).b("ip", ip);
            if (ip) times(r[t], r[b]); else r[t] = r[a] * r[b];
            look(e, "mul", t);
        } else {
            const Real f = g.range(-3, 3), d = g.p(.2) ? Real(0) : coef(), dd = g.range(-2, 2);
            intent("function of an expression");
            Obj e; e.i("a", a + 1).x("f", f).x("d", d).x("dd", dd);
            apply(r[t], r[a], f, d, dd);
            look(e, "un", t);
        }
    }
    void run(int len, bool two, const string &prof, long i) {
        Obj h; h.t("prof", prof).i("i", i).i("n", N).i("order", two ? 2 : 1).xs("mu", mu).xs("s", sd); trace_begin(h);
        for (int k = 0; k < len; ++k) { alarm(60); step(two); }
        trace_end();
    }
};
template<typename Real> static void first(Rng &g, long i) {
    const int N = g.p(.3) ? g.range(2, 40) : g.range(41, 260);
    Machine<unc::UReal<Real>, Real> m(g, N, [](const Real &n, const Real &s) { return unc::UReal<Real>(n, s); });
    m.run(8, false, "bulk1", i);
}
template<typename Real, unc::Prop o> static void second(Rng &g, long i) {
    const int N = g.p(.6) ? g.range(3, 12) : g.p(.6) ? g.range(13, 20) : g.range(21, 36);
    typedef unc::UReal2<Real, o> U;
    Machine<U, Real> m(g, N, [](const Real &n, const Real &s) { return unc::distr::normal<U>(n, s); });
    m.run(N > 12 ? 5 : 8, true, "bulk2", i);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    const uint64_t seed = std::strtoull(argv[1], 0, 10); const long n = std::atol(argv[2]);
    log_open(argv[4]);
    for (long i = 0; i < n; ++i) {
        Rng g(seed * 1000003 + i * 7919 + 59);
        if (string(argv[3]) == "bulk1") { if (i % 4 == 3) first<long double>(g, i); else first<double>(g, i); }
        else switch (i % 4) {
        case 0: second<long double, unc::Prop::mean>(g, i); break;
        case 1: second<double, unc::Prop::mean>(g, i); break;
        default: second<double, unc::Prop::est>(g, i);
        }
    }
    log_close();
}
