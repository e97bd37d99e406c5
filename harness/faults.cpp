// C23: runs the programs of spec/Faults.tla on a real type, failing each
// operation at every fault point (an allocation, or a call of a callable of
// the user) in turn.     faults <programs> <variant> <out.ndjson>
#include <new>
#include <fstream>
#include <sstream>
#include <list>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include "common.hpp"
namespace unc = uncertainties;
Log LOG;

// -------------------------------------------------------------- fault points
static long countdown = -1;        // fails when it reaches 0; negative: never
static long passed = 0, blocks = 0;
static bool fired = false;
static char what = ' ';            // the kind of the point that failed
static bool fault_now(char k) {
    ++passed;
    if (countdown < 0 or --countdown >= 0) return false;
    countdown = -1; fired = true; what = k;
    return true;
}
static void *get(size_t n) { void *p = std::malloc(n ? n : 1); if (p) ++blocks; return p; }
static void put(void *p) { if (p) { --blocks; std::free(p); } }
void *operator new(size_t n) { if (fault_now('m')) throw std::bad_alloc(); void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fault_now('m') ? nullptr : get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fault_now('m') ? nullptr : get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
struct Boom {};
static void call() { if (fault_now('c')) throw Boom(); }

// a type of the user, whose functions may fail, and a sequence of the user
struct Loud { double m, s; };
static double nom(const Loud &x) { call(); return x.m; }
static double sdev(const Loud &x) { call(); return x.s; }
static double cov(const Loud &x, const Loud &y) { call(); return x.s * y.s; }
static double corr(const Loud &x, const Loud &y) { call(); return x.m < y.m ? .5 : 1; }
template<typename T> struct Seq {
    typedef T value_type; typedef size_t size_type;
    vector<T> v;
    size_t size() const { return v.size(); }
    const T &operator[](size_t i) const { call(); return v[i]; }
};

static string fnv(const string &s) {
    uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    char b[20]; std::snprintf(b, 20, "%016llx", (unsigned long long)h); return b;
}

// ------------------------------------------------- differences between types
template<typename U> struct Kind;
template<typename R> struct Kind<unc::UReal<R>> {
    using U = unc::UReal<R>; using Real = R; using Other = unc::UReal<long double>;
    static U make(int k) { return U(Real(k) / 4 + 1, Real(k) / 8 + Real(.25)); }
    static void look(string &s, const U &x, const vector<U> &base) { for (auto &b : base) s += hex(x.grad(b)) + " "; }
    typedef unc::UUnary<Real> F1; typedef unc::UBinary<Real> F2;
    static void vector_of(const vector<Real> &m, const vector<Real> &c) { unc::ureals<vector<U>>(m, c); }
    static void invalid() { U(1, -1); }
    static bool fine(const U &x) { return isfinite(x); }
    static F1 fun() { return unc::uunary<Real>([](const Real &v) { call(); return v * v; }, [](const Real &v) { call(); return 2 * v; }); }
    static F1 num() { return unc::uunary<Real>([](const Real &v) { call(); return v * v; }); }
    static F2 fun2() { return unc::ubinary<Real>([](const Real &a, const Real &b) { call(); return a * b + a; }, [](const Real &, const Real &b) { call(); return b + 1; }, [](const Real &a, const Real &) { call(); return a; }); }
    static F2 num2() { return unc::ubinary<Real>([](const Real &a, const Real &b) { call(); return a * b + a; }); }
    static void assign(U &x, const U &y, bool mul) { if (mul) x *= y; else x += y; }
    static U seq(const U &x, const U &y) {
        std::list<U> v; v.push_back(x); v.push_back(y); v.push_back(x);
        vector<Real> d; d.push_back(2); d.push_back(-1); d.push_back(Real(.5));
        return nary(v.begin(), v.end(), x.n(), d.begin());
    }
    static U conv(const U &x) { const Other o = x; return static_cast<U>(o); }
    static U pair(U *second) {
        Seq<Real> mu; mu.v.push_back(1); mu.v.push_back(2);
        Seq<Real> c; c.v.push_back(2); c.v.push_back(1); c.v.push_back(1); c.v.push_back(3);
        vector<U> v = unc::ureals<vector<U>>(mu, c);
        *second = v[1]; return v[0] * v[1];
    }
};
template<typename R, unc::Prop p> struct Kind<unc::UReal2<R, p>> {
    using U = unc::UReal2<R, p>; using Real = R; using Other = unc::UReal2<long double, p == unc::Prop::est ? unc::Prop::mean : unc::Prop::est>;
    static U make(int k) { return U(Real(k) / 4 + 1, Real(k) / 8 + Real(.25), {0, 3, 0, 15, 0, 105}); }
    static void look(string &s, const U &x, const vector<U> &base) {
        s += hex(x.first_order_n()) + " " + hex(x.skew()) + " " + hex(x.kurt()) + " ";
        for (size_t i = 0; i < base.size(); ++i) {
            s += hex(x.grad(base[i])) + " ";
            for (size_t j = 0; j <= i; ++j) s += hex(x.hess(base[i], base[j])) + " ";
        }
    }
    typedef unc::UUnary2<Real, p> F1; typedef unc::UBinary2<Real, p> F2;
    static void vector_of(const vector<Real> &, const vector<Real> &c) { U(1, c.size() == 4 ? -1 : 1, {0, 3, 0, 15, 0, 14}); }
    static void invalid() { U(1, 1, {0, -3, 0, 15, 0, 105}); }
    static bool fine(const U &x) { return all(x, [](const Real &v) { call(); return std::isfinite(v); }); }
    static F1 fun() { return unc::uunary2<Real, p>([](const Real &v) { call(); return v * v; }, [](const Real &v) { call(); return 2 * v; }, [](const Real &) { call(); return Real(2); }); }
    static F1 num() { return unc::uunary2<Real, p>([](const Real &v) { call(); return v * v; }, [](const Real &v) { call(); return 2 * v; }); }
    static F2 fun2() {
        return unc::ubinary2<Real, p>([](const Real &a, const Real &b) { call(); return a * b + a; }, [](const Real &, const Real &b) { call(); return b + 1; }, [](const Real &a, const Real &) { call(); return a; },
                                      [](const Real &, const Real &) { call(); return Real(0); }, [](const Real &, const Real &) { call(); return Real(0); }, [](const Real &, const Real &) { call(); return Real(1); });
    }
    static F2 num2() { return unc::ubinary2<Real, p>([](const Real &a, const Real &b) { call(); return a * b + a; }); }
    static void assign(U &x, const U &y, bool mul) {
        const Real f = mul ? x.first_order_n() * y.first_order_n() : x.first_order_n() + y.first_order_n(), a = mul ? y.first_order_n() : Real(1), b = mul ? x.first_order_n() : Real(1);
        binary_assign(x, y, f, a, b, Real(0), Real(0), mul ? Real(1) : Real(0));
    }
    static U seq(const U &x, const U &y) { return (x - y) / x; }
    static U conv(const U &x) { const Other o(x); return U(o); }
    static U pair(U *second) { *second = U(2, {1, 1, 4, 9, 38, 120, 533}, -1); return *second * U(3); }
};

template<typename U> struct Machine {
    using K = Kind<U>; using Real = typename K::Real;
    static const int NR = 5;           // 1 2: registers; 3 4: base variables; 5: bystander
    vector<U> base, reg;
    // function objects made once
    const typename K::F1 fun = K::fun(), num = K::num();
    const typename K::F2 fun2 = K::fun2(), num2 = K::num2();
    Machine() {
        for (int k = 0; k < 3; ++k) base.push_back(K::make(k));
        reg.resize(NR + 1);
        reg[1] = base[0]; reg[2] = base[0] * base[1] + base[2];
        reg[3] = base[1]; reg[4] = base[2]; reg[5] = base[0] * base[2] - base[1];
    }
    string look(int r) const {
        const U x(reg[r]);             // a copy: what the variable keeps for later stays as it is
        string s = hex(x.n()) + " " + hex(x.s()) + (x.isindep() ? " i " : " d ");
        K::look(s, x, base);
        for (auto &b : base) s += hex(cov(x, b)) + " ";
        return fnv(s);
    }
    template<typename F> static string raises(F f) {
        try { f(); } catch (const std::invalid_argument &) { return "invalid_argument "; } catch (const std::runtime_error &) { return "runtime_error "; }
        return "nothing ";
    }
    // the operation; text results in *text
    void run(int kind, int t, int a, int b, string *text, bool first = false) {
        switch (kind) {
        case 1: reg[t] = K::make(2); break;
        case 2: reg[t] = reg[a]; break;
        case 3: reg[t] = reg[a] * reg[b]; break;
        case 4: K::assign(reg[t], reg[a], t == a); break;
        case 5: if (first) reg[t] = (t == a ? K::fun() : K::num())(reg[a]); else reg[t] = t == a ? fun(reg[a]) : num(reg[a]); break;
        case 6: if (first or (a == b and t == a)) reg[t] = (a == b ? K::fun2() : K::num2())(reg[a], reg[b]); else reg[t] = a == b ? fun2(reg[a], reg[b]) : num2(reg[a], reg[b]); break;
        case 7: reg[t] = K::conv(reg[a]); break;
        case 8: reg[t] = hypot(reg[a], reg[b]) + sin(reg[a]); break;
        case 9: *text = format(reg[a], 2.0f, "+-") + reg[a].format() + unc::format(Loud{1, .25}, 3.0f, " ") + (K::fine(reg[a]) ? "finite" : "infinite"); break;
        case 10: { U second; reg[t] = K::pair(&second); if (corr(second, second) < .5) *text = "?"; break; }
        case 11: {
            vector<U> v(reg.begin() + 1, reg.begin() + NR);
            const vector<Real> c = unc::cov_matrix<vector<Real>>(v), m = unc::nom_vector<vector<Real>>(v), s(m);
            const vector<Real> r = unc::corr_matrix<vector<Real>>(v), d = unc::corr2cov<vector<Real>>(s, r);
            for (size_t i = 0; i < c.size(); ++i) { *text += hex(c[i]) + " " + hex(r[i]) + " " + hex(d[i]) + " "; }
            for (size_t i = 0; i < m.size(); ++i) { *text += hex(m[i]) + " " + hex(s[i]) + " "; }
            vector<Loud> l; l.push_back(Loud{1, 2}); l.push_back(Loud{3, 4});
            const vector<double> e = unc::cov_matrix<vector<double>>(l), f = unc::corr_matrix<vector<double>>(l), g = unc::nom_vector<vector<double>>(l);
            Seq<double> h, k; h.v.push_back(2); h.v.push_back(3); k.v.assign(4, .5);
            const vector<double> q = unc::corr2cov<vector<double>>(h, k);
            vector<double> w(8); unc::cov_matrix(l.begin(), l.end(), w.begin()); unc::corr_matrix(l.begin(), l.end(), w.begin() + 4);
            for (size_t i = 0; i < e.size(); ++i) *text += hex(e[i]) + " " + hex(f[i]) + " " + hex(q[i]) + " ";
            for (size_t i = 0; i < w.size(); ++i) *text += hex(w[i]) + " ";
            *text += hex(g[1]);
            break; }
        case 13: {
            vector<Real> two(2, Real(1)), bad(4, Real(2)), odd(3, Real(1)); bad[0] = bad[3] = 1;
            *text += raises([&] { K::invalid(); }) + raises([&] { unc::format(reg[a], 0.5f); }) + raises([&] { K::vector_of(two, bad); })
                + raises([&] { K::vector_of(two, odd); }) + raises([&] { unc::corr2cov<vector<Real>>(two, odd); }) + raises([&] { reg[a].grad(reg[2] * reg[5]); });
            break; }
        default: reg[t] = K::seq(reg[a], reg[b]);
        }
    }
    // the target of a failed operation is not looked at: it need only be assignable
    void digests(vector<string> *d, int except = 0) const { d->clear(); for (int r = 1; r <= NR; ++r) d->push_back(r == except ? "unknown" : look(r)); }
    static string list(const vector<string> &d) { string s = "["; for (size_t i = 0; i < d.size(); ++i) s += (i ? ",\"" : "\"") + d[i] + "\""; return s + "]"; }

    struct Try { string how, again, againtext; vector<string> d, back; long grown; string text; };
    // fail at point k, twice, then complete; false if there is no such point,
    // in which case the operation has completed
    bool attempt(int kind, int t, int a, int b, long k, const U &saved, Try *o) {
        const bool writes = kind != 9 and kind != 11 and kind != 13;
        long before = 0;
        for (int round = 0; round < 3; ++round) {
            string text; text.reserve(1 << 14);
            char how[24] = "ok";
            fired = false; what = ' '; countdown = round < 2 ? k : -1;
            try { run(kind, t, a, b, &text); }
            catch (const std::bad_alloc &) { std::strcpy(how, "bad_alloc"); }
            catch (const Boom &) { std::strcpy(how, "boom"); }
            catch (const std::exception &) { std::strcpy(how, "another exception"); }
            countdown = -1;
            if (round == 0 and not fired) { o->againtext = fnv(text); return false; }
            if (round == 0) { o->how = string(1, what) + how; digests(&o->d, writes and std::strcmp(how, "ok") ? t : 0); o->text = fnv(text); }
            if (round == 2) { o->again = std::strcmp(how, "ok") ? how : writes ? look(t) : ""; o->againtext = fnv(text); }
            if (writes) reg[t] = saved;
            if (round == 0) digests(&o->back);
            const long now = blocks;
            if (round == 0) before = now; else if (round == 1) o->grown = fired ? now - before : 0;
        }
        return true;
    }
    void step(int kind, int t, int a, int b) {
        static const char *names[] = {"", "new", "copy", "binary", "inplace", "callable", "callable2", "conversion", "mathfn", "format", "ureals", "matrices", "sequence", "invalid"};
        char in[64]; std::snprintf(in, sizeof in, "%s failing half-way", names[kind]); intent(in);
        const bool writes = kind != 9 and kind != 11 and kind != 13;
        vector<string> d; digests(&d);
        const U saved(reg[t]);
        // what it gives when nothing fails
        string text, ref, reftext;
        run(kind, t, a, b, &text, true); ref = look(t); reftext = fnv(text);
        if (writes) reg[t] = saved;
        Obj o; o.t("op", "do").i("kind", kind).t("name", names[kind]).i("t", t).i("a", a).i("b", b).raw("before", list(d));
        // failures that look the same are recorded once
        std::map<string, int> seen; string tries = "["; long k = 0;
        for (; k < 400; ++k) {
            Try y;
            if (not attempt(kind, t, a, b, k, saved, &y)) { text = y.againtext; break; }
            Obj e; e.t("how", y.how).raw("d", list(y.d)).raw("back", list(y.back)).i("grown", y.grown).t("text", y.text).t("again", y.again).t("againtext", y.againtext);
            const string s = e.str();
            if (seen[s]++ == 0) { if (tries.size() > 1) tries += ","; Obj f; f.s = s.substr(0, s.size() - 1); f.first = false; f.i("k", k); tries += f.str(); }
        }
        o.raw("tries", tries + "]").i("points", k);
        digests(&d);
        o.t("ref", ref).t("reftext", reftext).raw("after", list(d)).t("text", text);
        event(o, names[kind]);
        points += k;
    }
    static long points;
};
template<typename U> long Machine<U>::points = 0;

template<typename U> int go(const char *path) {
    std::ifstream in(path); string line; long n = 0;
    while (std::getline(in, line)) {
        Obj h; h.t("prof", "faults").i("i", n++); trace_begin(h);
        Machine<U> m;
        std::istringstream p(line); int c;
        while (p >> c) m.step(c / 1000, c / 100 % 10, c / 10 % 10, c % 10);
        trace_end();
    }
    log_close();
    std::printf("op points %ld\n", Machine<U>::points);
    return 0;
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    log_open(argv[3]);
    switch (std::atoi(argv[2])) {
    case 0: return go<unc::udouble>(argv[1]);
    case 1: return go<unc::UReal2<double, unc::Prop::est>>(argv[1]);
    case 2: return go<unc::UReal<float>>(argv[1]);
    default: return go<unc::UReal2<float, unc::Prop::mean>>(argv[1]);
    }
}
