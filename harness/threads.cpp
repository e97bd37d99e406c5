// C06: histories with threads, on the public interface.
//   ids      several threads construct variables of every kind; their ids
//   shared   several threads use shared const variables; results are compared
//            with the same operations executed by one thread
// Each history runs in processes of its own (forked before any variable is
// made), so that the first use of function-local statics is concurrent.
// With -fsanitize=thread, reports of the race detector become events.
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
#include "common.hpp"
#include <thread>
#include <atomic>
#include <sstream>
#include <sys/wait.h>
#include <fcntl.h>

namespace unc = uncertainties;
Log LOG;
extern "C" const char *__tsan_default_options() { return "exitcode=0:report_signal_unsafe=0"; }
static std::atomic<int> races {0};
extern "C" void __tsan_on_report(void *) { races.fetch_add(1, std::memory_order_relaxed); }

struct Gate {   // releases all threads at once
    std::atomic<int> in {0}; int n;
    explicit Gate(int n) : n(n) {}
    void pass() {
        in.fetch_add(1, std::memory_order_relaxed);
        while (in.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    }
};

using D = unc::UReal<double>;
using E2 = unc::UReal2<double, unc::Prop::est>;
using M2 = unc::UReal2<double, unc::Prop::mean>;
static const std::array<double, 7> MOM7 {{4, .3, 40, 0, 900, 0, 30000}};
static const std::array<double, 6> MOM {{0.3, 3, 0, 15, 0, 105}};

// ---------------------------------------------------------------- kind: ids
// constructs variables; appends their ids; keeps one for the covariance check
struct Made { vector<int> ids; vector<D> d; vector<E2> e; };
static void make(Rng &g, Made &m, const D &old, const E2 &old2) {
    auto id = [&](int i) { m.ids.push_back(i); };
    switch (g.below(14)) {
    case 0: case 1: { D x(g.num(4), 1 + g.unif()); id(x.indepid()); if (m.d.size() < 4) m.d.push_back(x); break; }
    case 2: { unc::UReal<float> x(1, 2); id(x.indepid()); break; }
    case 3: { D x = change_nom(D(3, 1), 2.0); id(x.indepid()); break; }
    case 4: { E2 x(g.num(4), 1 + g.unif(), MOM, -1); id(x.indepid()); if (m.e.size() < 4) m.e.push_back(x); break; }
    case 5: { M2 x(1, 2, MOM, -1); id(x.indepid()); break; }
    case 6: { unc::UReal2<float, unc::Prop::mean> x(1, 2, {{0.3f, 3, 0, 15, 0, 105}}, -1); id(x.indepid()); break; }
    case 7: { E2 x = unc::distr::normal<E2>(0, 1); id(x.indepid()); if (m.e.size() < 4) m.e.push_back(x); break; }
    case 8: { M2 x = unc::distr::uniform<M2>(0, 1); id(x.indepid()); break; }
    case 9: { D x(0, 2); id(x.indepid()); D y = x + old; (void)y; break; }
    case 10: { E2 x = unc::distr::chisquare<E2>(3); id(x.indepid()); E2 y = x * old2; (void)y; break; }
    case 11: { E2 x(1, MOM7, -1); id(x.indepid()); if (m.e.size() < 4) m.e.push_back(x); break; }
    case 12: { M2 x(1, MOM7, -1); id(x.indepid()); break; }
    default: {
        vector<D> v = unc::ureals<vector<D>>(vector<double>{1, 2}, vector<double>{2, 0, 0, 3});
        for (const D &x : v) if (x.isindep()) id(x.indepid());
        if (m.d.size() < 4) m.d.push_back(v[0]);
    } }
}

// ------------------------------------------------------------- kind: shared
struct Shared {
    vector<D> d; vector<E2> e; vector<M2> m; vector<unc::UReal<float>> f;
    std::function<D(const D &)> u1; std::function<D(const D &, const D &)> u2;
    std::function<E2(const E2 &)> v1;
};
static void prepare(Rng &g, Shared &s) {
    for (int i = 0; i < 3; ++i) s.d.push_back(D(1 + g.unif(), .5 + g.unif()));
    for (int i = 0; i < 3; ++i) s.f.push_back(unc::UReal<float>(float(1 + g.unif()), float(.5 + g.unif())));
    for (int i = 0; i < 2; ++i) s.e.push_back(E2(1 + g.unif(), .5 + g.unif(), MOM, -1));
    for (int i = 0; i < 2; ++i) s.m.push_back(M2(1 + g.unif(), .5 + g.unif(), MOM, -1));
    for (int i = 0; i < 3; ++i) s.d.push_back(s.d[g.below(i + 2)] * s.d[g.below(3)] + s.d[g.below(3)]);
    s.f.push_back(s.f[0] * s.f[1]); s.f.push_back(s.f[3] - s.f[2]);
    for (int i = 0; i < 2; ++i) { s.e.push_back(s.e[g.below(i + 2)] * s.e[g.below(2)] + s.e[1]); s.m.push_back(s.m[g.below(i + 2)] * s.m[g.below(2)] - s.m[0]); }
    s.u1 = unc::uunary<double>([](double x) { return x * x; }, [](double x) { return 2 * x; });
    s.u2 = unc::ubinary<double>([](double x, double y) { return x * y; }, [](double, double y) { return y; }, [](double x, double) { return x; });
    s.v1 = unc::uunary2<double, unc::Prop::est>([](double x) { return x * x; }, [](double x) { return 2 * x; }, [](double) { return 2; });
}
template<typename Real> string look(const unc::UReal<Real> &x, const vector<unc::UReal<Real>> &v) {
    string r = hex(x.n()) + " " + hex(x.s()) + (x.isindep() ? " i" : " d");
    for (int i = 0; i < 3; ++i) r += " " + hex(cov(x, v[i])) + " " + hex(x.grad(v[i]));
    return r;
}
template<unc::Prop P> string look(const unc::UReal2<double, P> &x, const vector<unc::UReal2<double, P>> &v) {
    string r = hex(x.first_order_n()) + (x.isindep() ? " i" : " d");
    for (int i = 0; i < 2; ++i) { r += " " + hex(x.grad(v[i])); for (int j = 0; j <= i; ++j) r += " " + hex(x.hess(v[i], v[j])); }
    return r;
}
template<typename V> string all(const V &v) { string r; for (const auto &x : v) r += hex(x) + " "; return r; }

template<typename U> string math(Rng &g, const U &x, const U &y, const vector<U> &v) {
    switch (g.below(27)) {
    case 0: return look(exp(x), v); case 1: return look(log(abs(x) + 1.), v); case 2: return look(sin(x), v);
    case 3: return look(erf(x), v); case 4: return look(erfc(x), v); case 5: return look(exp2(x), v);
    case 6: return look(log10(abs(x) + 1.), v); case 7: return look(log2(abs(x) + 1.), v); case 8: return look(pow(abs(x) + 1., y), v);
    case 9: return look(hypot(x, y), v); case 10: return look(atan2(x, y), v); case 11: return look(fmax(x, y), v);
    case 12: return look(cbrt(x), v); case 13: return look(tanh(x), v); case 14: return look(atan(x), v);
    case 15: return look(sqrt(abs(x) + 1.), v); case 16: return look(expm1(x), v); case 17: return look(log1p(abs(x)), v);
    case 18: return look(cos(x), v); case 19: return look(sinh(x), v); case 20: return look(asinh(x), v);
    case 21: return look(fmin(x, y), v); case 22: return look(tan(x), v); case 23: return look(cosh(x), v);
    case 24: return look(fmod(x, y), v); case 25: return look(erf(y), v); default: return look(exp2(y), v);
    }
}
static void inplace(D &z, const D &y, const D &x) { z += y; z *= x; z -= y; }
template<unc::Prop P> void inplace(unc::UReal2<double, P> &z, const unc::UReal2<double, P> &y, const unc::UReal2<double, P> &x) { binary_assign(z, y, 1., 2., 3., 4., 5., 6.); z = z * x;; }
template<typename U> string arith(Rng &g, const U &x, const U &y, const vector<U> &v) {
    switch (g.below(9)) {
    case 0: return look(x + y, v); case 1: return look(x - y, v); case 2: return look(x * y, v);
    case 3: return look(x / (abs(y) + 1.), v); case 4: return look(-x, v); case 5: return look(2. * x, v); case 6: return look(+x, v);
    case 7: { U z = x; inplace(z, y, x); return look(z, v); }
    default: { U z = y; z = x; return look(z, v); }
    }
}
static string first_order(Rng &g, const Shared &s) {
    const vector<D> &v = s.d;
    const D &x = v[g.below(6)], &y = v[g.below(6)];
    switch (g.below(17)) {
    case 0: return hex(x.n()) + hex(x.s());
    case 1: return hex(unc::sdev(x)) + hex(unc::nom(x));
    case 2: return hex(var(x));
    case 3: return hex(cov(x, y));
    case 4: return hex(corr(x, y));
    case 5: return look(x, v);
    case 6: case 7: return arith(g, x, y, v);
    case 8: return math(g, x, y, v);
    case 9: return x.format(2) + x.format(1.5, "s");
    case 10: { std::ostringstream o; o << x; return o.str(); }
    case 11: return all(unc::cov_matrix<vector<double>>(v)) + all(unc::corr_matrix<vector<double>>(v)) + all(unc::nom_vector<vector<double>>(v));
    case 12: { const unc::UReal<float> &a = s.f[g.below(5)]; unc::UReal<double> b = a; return hex(b.n()) + hex(unc::sdev(b)) + hex(cov(b, b)); }
    case 13: { const unc::UReal<float> &a = s.f[g.below(5)], &b = s.f[g.below(5)]; return look(a * b, s.f) + hex(a.s()) + hex(corr(a, b)); }
    case 14: return look(g.p(.5) ? s.u1(x) : s.u2(x, y), v);
    case 15: { vector<double> dx {1, 2, 3}; vector<D> w {x, y, v[0]}; return look(nary(w.begin(), w.end(), 1., dx.begin()), v); }
    default: { D z = change_nom(x, 3.); D a = D(2, .5) + x; return look(z, v) + hex(a.n()) + hex(a.s()) + look(unary(x, 2., 3.), v) + look(binary(x, y, 1., 2., 3.), v); }
    }
}
template<typename U> string second_order(Rng &g, const Shared &s, const vector<U> &v) {
    const U &x = v[g.below(4)], &y = v[g.below(4)];
    switch (g.below(12)) {
    case 0: return hex(x.n()) + hex(x.s());
    case 1: return hex(x.skew()) + hex(x.kurt());
    case 2: return hex(x.m(g.range(1, 4)));
    case 3: return hex(cov(x, y));
    case 4: return hex(corr(x, y)) + hex(var(x));
    case 5: case 6: return arith(g, x, y, v);
    case 7: return math(g, x, y, v);
    case 8: return look(x, v);
    case 9: { std::ostringstream o; o << x; return o.str() + x.format(2); }
    case 10: return all(unc::cov_matrix<vector<double>>(v)) + all(unc::nom_vector<vector<double>>(v));
    default: { U a = (g.p(.5) ? U(2, .5, MOM, -1) : U(2, MOM7, -1)) * x; return hex(a.n()) + hex(a.s()) + hex(a.skew()); }
    }
}
template<typename U> string distr(Rng &g) {
    U x; switch (g.below(3)) {
    case 0: x = unc::distr::normal<U>(1, 2); break; case 1: x = unc::distr::uniform<U>(0, 3); break;
    default: x = unc::distr::chisquare<U>(3);
    }
    return hex(x.n()) + hex(unc::sdev(x)) + hex(var(x * x));
}
static string one(Rng &g, const Shared &s, string &name) {
    switch (g.below(8)) {
    case 0: case 1: case 2: name = "first"; return first_order(g, s);
    case 3: case 4: name = "second-est"; return second_order(g, s, s.e);
    case 5: case 6: name = "second-mean"; return second_order(g, s, s.m);
    default: name = "distr"; return g.p(.5) ? distr<E2>(g) : distr<M2>(g);
    }
}
using Res = vector<vector<string>>;
static const int T = 8;
static uint64_t thread_seed(uint64_t h, int t, bool same) { return h * 131 + (same ? 0 : t) * 7 + 5; }
static void script(uint64_t seed, const Shared &s, int n, vector<string> &out, vector<string> &names) {
    Rng g(seed);
    for (int i = 0; i < n; ++i) { string nm; out.push_back(one(g, s, nm)); names.push_back(nm); }
}
// in half of the histories all threads execute the same script: every
// function is then used for the first time by all threads at once
static Res run_shared(uint64_t h, int n, bool threads, Res &names) {
    Rng g(h); Shared s; prepare(g, s);
    bool same = h % 2;
    Res r(T); names.assign(T, {});
    if (threads) {
        Gate gate(T); vector<std::thread> th;
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] { gate.pass(); script(thread_seed(h, t, same), s, n, r[t], names[t]); });
        for (auto &t : th) t.join();
    } else for (int t = 0; t < T; ++t) script(thread_seed(h, t, same), s, n, r[t], names[t]);
    // the shared variables themselves afterwards
    string st;
    for (auto &x : s.d) st += look(x, s.d) + ";";
    for (auto &x : s.e) st += look(x, s.e) + ";";
    for (auto &x : s.m) st += look(x, s.m) + ";";
    for (auto &x : s.f) st += look(x, s.f) + ";";
    r.push_back({st}); names.push_back({"after"});
    return r;
}
static vector<string> split(const string &s, char c) { vector<string> r; std::istringstream i(s); string w; while (std::getline(i, w, c)) r.push_back(w); return r; }

// runs f in a child and returns what it wrote, or how it ended
template<typename F> static bool child(F f, string &out, int limit) {
    int p[2]; if (pipe(p)) std::exit(2);
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) std::exit(2);
    if (pid == 0) {
        close(p[0]);
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) std::signal(s, SIG_DFL);
        std::set_terminate([] { std::signal(SIGABRT, SIG_DFL); std::abort(); });
        alarm(limit);
        string r;
        try { r = f(); } catch (...) { _exit(77); }
        for (size_t k = 0; k < r.size();) { ssize_t w = write(p[1], r.data() + k, r.size() - k); if (w <= 0) _exit(78); k += size_t(w); }
        _exit(0);
    }
    close(p[1]); out.clear(); char buf[65536];
    alarm(limit + 20);
    for (ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;) out.append(buf, size_t(k));
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) and WEXITSTATUS(st) == 0) return true;
    out = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
    return false;
}
static void ended(const string &how, const char *in) { Obj o; o.t("op", "crash").t("how", how).t("in", in); event(o, "crash"); }

static void history_ids(uint64_t h, int n) {
    string out;
    bool ok = child([&] {
        Rng g0(h); D old(1, 2); E2 old2(1, 2, MOM, -1);
        vector<Made> m(T); Gate gate(T); vector<std::thread> th;
        bool plain = h % 3 == 0;     // nothing but constructions: the tightest contention
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
            Rng g(thread_seed(h, t, false)); Made mine; gate.pass();
            for (int i = 0; i < n; ++i) { if (plain) mine.ids.push_back(D(1, 2).indepid()); else make(g, mine, old, old2); }
            m[t] = std::move(mine);
        });
        for (auto &t : th) t.join();
        string r = "ids";
        for (auto &x : m) { r += "|"; for (int i : x.ids) r += std::to_string(i) + " "; }
        r += "\ncov";
        vector<D> d; vector<E2> e;
        for (auto &x : m) { d.insert(d.end(), x.d.begin(), x.d.end()); e.insert(e.end(), x.e.begin(), x.e.end()); }
        for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < i; ++j) r += " " + hex(cov(d[i], d[j]));
        for (size_t i = 0; i < e.size(); ++i) for (size_t j = 0; j < i; ++j) r += " " + hex(cov(e[i], e[j]));
        r += "\nraces " + std::to_string(races.load());
        return r;
    }, out, 60);
    if (not ok) { ended(out, "ids"); return; }
    auto ls = split(out, '\n');
    auto th = split(ls[0], '|');
    string a = "["; long total = 0;
    for (size_t t = 1; t < th.size(); ++t) {
        if (t > 1) a += ",";
        a += "["; bool f = true;
        for (auto &w : split(th[t], ' ')) { if (!f) a += ","; f = false; a += w; total++; }
        a += "]";
    }
    long nz = 0; for (auto &w : split(ls[1].substr(3), ' ')) if (not w.empty() and w != "0") nz++;
    Obj o; o.t("op", "alloc").raw("ids", a + "]").i("nonzero", nz).i("races", std::atoi(ls[2].c_str() + 6)); event(o, "alloc");
    LOG.ops["constructions"] += total;
}
static void history_shared(uint64_t h, int n) {
    string seq, con;
    auto body = [&](bool threads) {
        Res names, r = run_shared(h, n, threads, names);
        string o = "races " + std::to_string(races.load()) + "\n";
        for (size_t t = 0; t < r.size(); ++t) for (size_t i = 0; i < r[t].size(); ++i) o += names[t][i] + "\t" + r[t][i] + "\n";
        return o;
    };
    if (not child([&] { return body(false); }, seq, 60)) { ended(seq, "sequential"); return; }
    if (not child([&] { return body(true); }, con, 60)) { ended(con, "shared"); return; }
    auto a = split(seq, '\n'), b = split(con, '\n');
    string w = "["; bool f = true;
    // all results of a thread in one pair: [thread, sequential, concurrent] by 64-bit digests plus the first difference
    string diff; long k = 0;
    for (size_t i = 1; i < a.size(); ++i) {
        string got = i < b.size() ? b[i] : "missing";
        string x = a[i], y = got;
        if (x != y and diff.empty()) diff = "sequential " + x.substr(0, 150) + " concurrent " + y.substr(0, 150);
        uint64_t hx = 1469598103934665603ull, hy = hx;
        for (unsigned char c : x) hx = (hx ^ c) * 1099511628211ull;
        for (unsigned char c : y) hy = (hy ^ c) * 1099511628211ull;
        if (!f) w += ","; f = false;
        w += "[\"" + x.substr(0, x.find('\t')) + "\",\"" + std::to_string(hx) + "\",\"" + std::to_string(hy) + "\"]"; ++k;
    }
    Obj o; o.t("op", "shared").raw("res", w + "]").t("diff", diff).i("races", std::atoi(b[0].c_str() + 6)); event(o, "shared");
    LOG.ops["shared_operations"] += k;
}
int main(int argc, char **argv) {
    if (argc < 6) return 2;
    uint64_t seed = std::strtoull(argv[1], 0, 10); long n = std::atol(argv[2]); string prof = argv[3];
    log_open(argv[4]); int size = std::atoi(argv[5]);
    for (long i = 0; i < n; ++i) {
        uint64_t h = seed * 1000003 + i * 7919 + 43;
        Obj o; o.t("prof", prof).i("i", i).i("threads", T); trace_begin(o);
        if (prof == "ids") history_ids(h, size); else history_shared(h, size);
        trace_end();
    }
    log_close();
}
