// C06: runs interleavings generated from spec/Threads.tla on the real
// constructors.  std::atomic is replaced by a class of the same interface
// that stops before each access until the interleaving reaches its thread.
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <sstream>
#include <fstream>
#include <iostream>
#include <Eigen/Dense>
#include "common.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <deque>
#include <set>
#include <tuple>

struct Sched {
    std::mutex m; std::condition_variable c;
    int turn = -1; vector<int> st;     // 0 stopped, 1 running, 2 finished
    long points = 0;
};
static Sched S;
static thread_local int self = -1;
static void point() {
    if (self < 0) return;
    std::unique_lock<std::mutex> l(S.m);
    S.st[self] = 0; S.points++; S.c.notify_all();
    S.c.wait(l, [] { return S.turn == self; });
    S.turn = -1; S.st[self] = 1; S.c.notify_all();
}
// lets thread t run until it stops again; a thread that waits for another
// one (a lock) is left running
static void advance(std::unique_lock<std::mutex> &l, int t) {
    auto ms = std::chrono::milliseconds(30);
    if (S.st[t] == 1) S.c.wait_for(l, ms, [&] { return S.st[t] != 1; });
    if (S.st[t] != 0) return;
    S.turn = t; S.c.notify_all();
    S.c.wait(l, [&] { return S.turn == -1; });
    S.c.wait_for(l, ms, [&] { return S.st[t] != 1; });
}
namespace std {
    template<typename T> struct verif_atomic {
        atomic<T> v;
        constexpr verif_atomic() noexcept : v() {}
        constexpr verif_atomic(T x) noexcept : v(x) {}
        verif_atomic(const verif_atomic &) = delete;
        T load(memory_order = memory_order_seq_cst) const { point(); return v.load(); }
        void store(T x, memory_order = memory_order_seq_cst) { point(); v.store(x); }
        T exchange(T x, memory_order = memory_order_seq_cst) { point(); return v.exchange(x); }
        operator T() const { return load(); }
        T operator=(T x) { store(x); return x; }
        T fetch_add(T d, memory_order = memory_order_seq_cst) { point(); return v.fetch_add(d); }
        T fetch_sub(T d, memory_order = memory_order_seq_cst) { point(); return v.fetch_sub(d); }
        T fetch_or(T d, memory_order = memory_order_seq_cst) { point(); return v.fetch_or(d); }
        T fetch_and(T d, memory_order = memory_order_seq_cst) { point(); return v.fetch_and(d); }
        T operator++() { point(); return ++v; }
        T operator--() { point(); return --v; }
        T operator++(int) { point(); return v++; }
        T operator--(int) { point(); return v--; }
        T operator+=(T d) { point(); return v += d; }
        T operator-=(T d) { point(); return v -= d; }
        bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { point(); return v.compare_exchange_strong(e, d); }
        bool compare_exchange_weak(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { point(); return v.compare_exchange_strong(e, d); }
        bool is_lock_free() const { return true; }
    };
    template<typename T> T atomic_fetch_add(verif_atomic<T> *a, T d) { return a->fetch_add(d); }
    template<typename T> T atomic_load(const verif_atomic<T> *a) { return a->load(); }
    template<typename T> void atomic_store(verif_atomic<T> *a, T x) { a->store(x); }
}
#define atomic verif_atomic
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
#undef atomic
namespace unc = uncertainties;
Log LOG;

static const std::array<double, 6> MOM {{0.3, 3, 0, 15, 0, 105}};
static int construct(int kind) {
    switch (kind % 6) {
    case 5: return unc::UReal2<double, unc::Prop::est>(1, {{4, .3, 40, 0, 900, 0, 30000}}, -1).indepid();
    case 0: return unc::UReal<double>(1, 2).indepid();
    case 1: return unc::UReal2<double, unc::Prop::est>(1, 2, MOM, -1).indepid();
    case 2: return unc::UReal<float>(1, 2).indepid();
    case 3: return unc::UReal2<double, unc::Prop::mean>(1, 2, MOM, -1).indepid();
    default: return unc::distr::normal<unc::UReal2<double, unc::Prop::mean>>(1, 2).indepid();
    }
}
int main(int argc, char **argv) {   // sched T K programs out
    if (argc < 5) return 2;
    int T = std::atoi(argv[1]), K = std::atoi(argv[2]);
    std::ifstream in(argv[3]);
    log_open(argv[4]); string prog; long n = 0; int batch = 0;
    construct(0); construct(1); construct(2); construct(3); construct(4); construct(5);
    while (std::getline(in, prog)) {
        intent("sched");
        vector<vector<int>> ids(T); S.st.assign(T, 1); S.turn = -1;
        vector<std::thread> th;
        for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
            self = t; point();
            for (int k = 0; k < K; ++k) ids[t].push_back(construct(n % 2 ? 0 : int(n / 2) + t + k));
            std::unique_lock<std::mutex> l(S.m); S.st[t] = 2; S.c.notify_all();
        });
        {
            std::unique_lock<std::mutex> l(S.m);
            for (int t = 0; t < T; ++t) { S.c.wait(l, [&] { return S.st[t] == 0; }); }
            for (int t = 0; t < T; ++t) advance(l, t);       // to its first access
            for (char c : prog) if (c >= '1' and c < '1' + T) advance(l, c - '1');
            for (bool live = true; live;) {
                live = false;
                for (int t = 0; t < T; ++t) if (S.st[t] != 2) { live = true; advance(l, t); }
            }
        }
        for (auto &t : th) t.join();
        if (batch == 0) { Obj o; o.t("prof", "sched").i("i", n).i("threads", T); trace_begin(o); }
        string a = "[";
        for (int t = 0; t < T; ++t) { a += t ? ",[" : "["; for (size_t k = 0; k < ids[t].size(); ++k) a += (k ? "," : "") + std::to_string(ids[t][k]); a += "]"; }
        Obj o; o.t("op", "sched").t("schedule", prog).raw("ids", a + "]").i("nonzero", 0).i("races", 0); event(o, "sched");
        if (++batch == 50) { trace_end(); batch = 0; }
        ++n;
    }
    trace_end();
    LOG.ops["stops_at_atomic_accesses"] = S.points;
    log_close();
}
