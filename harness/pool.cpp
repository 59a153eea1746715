// Execution server for thread pools, parallel loops and runtime contexts.
#include "rpc.h"

#undef TS_DISABLE_PARALLEL      // the loop macros of the header in their parallel form
#include "runtime/inside/parallel.h"
#include "runtime/runtime.h"
#include "runtime/workbench.h"
#include "utils/box.h"

#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <thread>

using namespace ts;
using rpc::Val;

// ------------------------------------------------------------------------------- injected delays
// Calls of the code under test into the threading library are delayed at random: before a lock,
// after an unlock, between the test of a condition and the wait for it (the mutex is still held),
// and before a notification.  Every such delay is a schedule the system may produce itself.
static std::atomic<int> g_chaos{0};
static std::atomic<uint64_t> g_delays{0}, g_waits{0};
static std::atomic<uint64_t> g_seed{1};

static uint64_t dice() {
    static thread_local uint64_t x = 0;
    if (!x) x = (g_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1);
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x;
}

static void perturb(int extra = 1) {
    int c = g_chaos.load(std::memory_order_relaxed);
    if (!c) return;
    auto d = dice();
    if (int(d % 100) >= c * extra) return;
    g_delays.fetch_add(1, std::memory_order_relaxed);
    if ((d >> 8) % 3 == 0) { sched_yield(); return; }
    struct timespec t = {0, long((d >> 16) % 300000)};
    nanosleep(&t, nullptr);
}

#if !defined(__SANITIZE_THREAD__)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    perturb();
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    int r = real(m);
    perturb();
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto real = reinterpret_cast<int (*)(pthread_cond_t *, pthread_mutex_t *)>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"));
    g_waits.fetch_add(1, std::memory_order_relaxed);
    perturb(2);
    return real(c, m);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto real = reinterpret_cast<int (*)(pthread_cond_t *)>(dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"));
    perturb();
    return real(c);
}
int pthread_cond_signal(pthread_cond_t *c) {
    static auto real = reinterpret_cast<int (*)(pthread_cond_t *)>(dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"));
    perturb();
    return real(c);
}
}
#endif

namespace {

struct Chaos {
    explicit Chaos(int c) { g_chaos = c; }
    ~Chaos() { g_chaos = 0; }
};

void spend(int mode) {
    if (mode == 1) sched_yield();
    else if (mode >= 2) { struct timespec t = {0, 20000L * mode}; nanosleep(&t, nullptr); }
}

// what happened to one task; written by the worker without atomics: the join has to publish it
struct Seen { int runs = 0, after = 0, slot = -1, slot_after = -1; };

struct Gate {
    std::mutex m; std::condition_variable c; bool open = false; int inside = 0;
    void pass() { std::unique_lock<std::mutex> l(m); ++inside; c.notify_all(); while (!open) c.wait(l); }
    void await(int n) { std::unique_lock<std::mutex> l(m); while (inside < n) c.wait(l); }
    void release() { std::unique_lock<std::mutex> l(m); open = true; c.notify_all(); }
};

Val seen_list(const std::vector<Seen> &v) {
    Val r = Val::List();
    for (auto &x : v) { Val o = Val::List(); o.add(Val::Int(x.runs)).add(Val::Int(x.after)).add(Val::Int(x.slot)).add(Val::Int(x.slot_after)); r.add(o); }
    return r;
}

const int SLOTS = 64;
struct Slots {
    std::atomic<int> in[SLOTS];
    std::atomic<int> overlap{0}, outside{0};
    Slots() { for (auto &x : in) x = 0; }
    void enter(int s, int limit) {
        if (s < 0 || s >= SLOTS || s >= std::max(limit, 1)) { ++outside; return; }
        if (in[s].fetch_add(1) != 0) ++overlap;
    }
    void leave(int s, int limit) { if (s >= 0 && s < SLOTS && s < std::max(limit, 1)) in[s].fetch_sub(1); }
};

// one pool, a list of operations; -> list of results per operation, overlapping slots, slots out of range
Val do_pool(const Val &q) {
    int size = int(q.at(1).integer());
    Chaos chaos(int(q.at(2).integer()));
    std::vector<Seen> seen;
    size_t total = 0;
    for (auto &op : q.at(3).list()) if (op.at(0).str() == "run" || op.at(0).str() == "after") ++total;
    seen.resize(total);
    Slots slots;
    Val res = Val::List();
    size_t next = 0;
    std::vector<std::unique_ptr<Gate>> gates;
    {
        ThreadPool pool{size_t(size)};
        ctx::bind<ThreadPool> bind(pool);
        std::vector<std::shared_ptr<std::vector<int>>> loops;     // hits per index of not joined loops
        for (auto &op : q.at(3).list()) {
            auto &name = op.at(0).str();
            Val r;
            if (name == "run" || name == "after") {
                int mode = int(op.at(1).integer());
                auto &me = seen[next++];
                auto task = [&me, &slots, mode, size](int s) { slots.enter(s, size); spend(mode); ++me.runs; me.slot = s; slots.leave(s, size); };
                if (name == "run") pool.run(task);
                else pool.run(task, [&me](int s) { me.after += me.runs == 1 ? 1 : 100; me.slot_after = s; });
            } else if (name == "join" || name == "sync") {
                if (name == "join") pool.join(); else parallel_sync();
                r = Val::List();
                std::vector<Seen> done(seen.begin(), seen.begin() + next);
                r.add(seen_list(done));
                Val l = Val::List();
                for (auto &hits : loops) {
                    int wrong = 0;
                    for (auto h : *hits) wrong += h != 1;
                    l.add(Val::Int(wrong));
                }
                r.add(l);
                loops.clear();
            } else if (name == "busy") {
                r = Val::Int(pool.busy());
            } else if (name == "gate") {
                auto g = new Gate;
                gates.emplace_back(g);
                if (size == 0) g->release();
                pool.run([g](int) { g->pass(); });
                if (op.at(1).integer()) g->await(1);
            } else if (name == "open") {
                for (auto &g : gates) g->release();
            } else if (name == "size") {
                r = Val::Int(int64_t(pool.size()));
            } else if (name == "loop") {      // kind, begin, end, joined
                int kind = int(op.at(1).integer()), lo = int(op.at(2).integer()), hi = int(op.at(3).integer());
                auto mine = std::make_shared<Slots>();    // a loop may run on the caller, in slot 0, beside older tasks
                bool joined = op.at(4).integer() != 0;
                auto hits = std::make_shared<std::vector<int>>(size_t(hi > lo ? hi - lo : 0), 0);
                auto &h = *hits;
                auto range = [&h, lo, mine, size, hits](int s, int b, int e) {
                    mine->enter(s, size);
                    for (int i = b; i < e; ++i) h.at(size_t(i - lo)) += 1;
                    if (e - b > 3) spend(1);
                    mine->leave(s, size);
                };
                if (kind == 0) {
                    TS_PARALLEL_FOR_BEGIN(i, lo, hi)
                        mine->enter(__parallel_id, size);
                        h.at(size_t(i - lo)) += 1;
                        mine->leave(__parallel_id, size);
                    TS_PARALLEL_FOR_END()
                    TS_PARALLEL_SYNC
                } else if (kind == 1) {
                    TS_PARALLEL_RANGE_BEGIN(rg, lo, hi)
                        for (int i = rg.first; i < rg.second; ++i) h.at(size_t(i - lo)) += 1;
                    TS_PARALLEL_RANGE_END()
                    TS_PARALLEL_SYNC
                } else if (kind == 2) {
                    parallel_run(range, lo, hi, joined);
                } else {
                    parallel_range([range](int s, const Range &x) { range(s, x.first, x.second); }, lo, hi, joined);
                }
                if (kind < 2 || joined) { slots.overlap += mine->overlap.load(); slots.outside += mine->outside.load(); }
                if (kind < 2 || joined) {
                    int wrong = 0;
                    for (auto x : h) wrong += x != 1;
                    r = Val::Int(wrong);
                } else { loops.push_back(hits); r = Val::Int(-1); }
            } else if (name == "crowd") {      // several submitting threads
                int n = int(op.at(1).integer()), each = int(op.at(2).integer()), mode = int(op.at(3).integer());
                std::vector<int> hits(size_t(n * each), 0);
                std::vector<std::thread> ts;
                for (int t = 0; t < n; ++t) ts.emplace_back([&, t]() {
                    for (int k = 0; k < each; ++k) { auto p = &hits[size_t(t * each + k)]; pool.run([p, mode](int) { spend(mode); ++*p; }); if (k % 7 == 3) pool.join(); }
                    pool.join();
                });
                for (auto &t : ts) t.join();
                pool.join();
                int wrong = 0;
                for (auto x : hits) wrong += x != 1;
                r = Val::Int(wrong);
            } else throw std::runtime_error("rpc: unknown pool operation");
            res.add(r);
        }
        for (auto &g : gates) g->release();
    }
    Val out = Val::List();
    out.add(res).add(Val::Int(slots.overlap.load())).add(Val::Int(slots.outside.load())).add(seen_list(seen));
    return out;
}

// one Thread: list of operations
Val do_thread(const Val &q) {
    Chaos chaos(int(q.at(1).integer()));
    size_t total = 0;
    for (auto &op : q.at(2).list()) if (op.at(0).str() == "run" || op.at(0).str() == "after") ++total;
    std::vector<Seen> seen(total);
    std::vector<int> order;
    std::vector<std::unique_ptr<Gate>> gates;
    Val res = Val::List();
    size_t next = 0;
    {
        Thread t;
        for (auto &op : q.at(2).list()) {
            auto &name = op.at(0).str();
            Val r;
            if (name == "run" || name == "after") {
                int id = int(next);
                auto &me = seen[next++];
                int mode = int(op.at(1).integer());
                auto task = [&me, &order, mode, id](int s) { spend(mode); ++me.runs; me.slot = s; order.push_back(id); };
                if (name == "run") t.run(id + 1000, task);
                else t.run(id + 1000, task, [&me](int s) { me.after += me.runs == 1 ? 1 : 100; me.slot_after = s; });
            } else if (name == "join") {
                t.join();
                r = Val::List();
                r.add(seen_list(std::vector<Seen>(seen.begin(), seen.begin() + next)));
                Val o = Val::List();
                for (auto x : order) o.add(Val::Int(x));
                r.add(o);
            } else if (name == "busy") r = Val::Int(t.busy());
            else if (name == "gate") { auto g = new Gate; gates.emplace_back(g); t.run(0, [g](int) { g->pass(); }); if (op.at(1).integer()) g->await(1); }
            else if (name == "open") { for (auto &g : gates) g->release(); }
            else throw std::runtime_error("rpc: unknown thread operation");
            res.add(r);
        }
        for (auto &g : gates) g->release();
    }
    return res;
}

// create and destroy: [chaos, rounds, [kinds]] kind: 0..n pool size, -1 Thread, -2 RuntimeContext, -3 Workbench, tasks left queued
Val do_churn(const Val &q) {
    Chaos chaos(int(q.at(1).integer()));
    std::atomic<int> ran{0};
    int submitted = 0;
    for (auto &op : q.at(2).list()) {
        int kind = int(op.at(0).integer()), tasks = int(op.at(1).integer()), mode = int(op.at(2).integer());
        auto job = [&ran, mode](int) { spend(mode); ++ran; };
        if (kind >= 0) { ThreadPool p{size_t(kind)}; for (int k = 0; k < tasks; ++k, ++submitted) p.run(job); }
        else if (kind == -1) { Thread t; if (tasks) { t.run(0, job); ++submitted; } }
        else if (kind == -2) {
            RuntimeContext a;
            a.set_computing_thread_number(tasks + 1);
            RuntimeContext b = a.clone();
            RuntimeContext c(std::move(a));
            for (int k = 0; k < tasks; ++k, ++submitted) b.thread_pool().run(job);
        } else { Workbench b(ComputingDevice(CPU, 0), tasks + 1); auto c = b.clone(); }
    }
    Val r = Val::List();
    r.add(Val::Int(submitted)).add(Val::Int(ran.load()));
    return r;
}

// [chaos, threads, operations] on runtime contexts -> per operation [number of threads, pool size, sum computed on the pool]
Val do_runtime(const Val &q) {
    Chaos chaos(int(q.at(1).integer()));
    std::vector<std::unique_ptr<RuntimeContext>> all;
    Val res = Val::List();
    for (auto &op : q.at(2).list()) {
        auto &name = op.at(0).str();
        if (name == "new") all.emplace_back(op.at(1).integer() ? new RuntimeContext(MemoryDevice(CPU)) : new RuntimeContext());
        else if (name == "clone") all.emplace_back(new RuntimeContext(all.at(size_t(op.at(1).integer()))->clone()));
        else if (name == "move") *all.at(size_t(op.at(1).integer())) = RuntimeContext(all.at(size_t(op.at(2).integer()))->clone());
        else if (name == "set") all.at(size_t(op.at(1).integer()))->set_computing_thread_number(int(op.at(2).integer()));
        else if (name == "drop") all.erase(all.begin() + size_t(op.at(1).integer()));
        else throw std::runtime_error("rpc: unknown runtime operation");
        Val l = Val::List();
        for (auto &c : all) {
            std::vector<int> hits(37, 0);
            ctx::bind<ThreadPool> bind(c->thread_pool());
            auto width = parallel_size();
            parallel_run([&](int, int b, int e) { for (int i = b; i < e; ++i) hits[size_t(i)] += 1; }, 0, 37);
            int wrong = 0;
            for (auto x : hits) wrong += x != 1;
            Val o = Val::List();
            o.add(Val::Int(c->get_computing_thread_number())).add(Val::Int(int64_t(c->thread_pool().size()))).add(Val::Int(int64_t(width))).add(Val::Int(wrong));
            o.add(Val::Int(c->flow() != nullptr)).add(Val::Int(c->dynamic() != nullptr));
            l.add(o);
        }
        res.add(l);
    }
    return res;
}

uint64_t number(const Val &v) { return v.tag == 's' ? std::strtoull(v.str().c_str(), nullptr, 10) : uint64_t(v.integer()); }

Val do_bins(const Val &q) {
    Val r = Val::List();
    if (q.at(1).integer() == 0) {
        for (auto &b : split_bins(int(q.at(2).integer()), int(q.at(3).integer()), int(q.at(4).integer()))) { Val o = Val::List(); o.add(Val::Int(b.first)).add(Val::Int(b.second)); r.add(o); }
    } else {
        for (auto &b : lsplit_bins(size_t(number(q.at(2))), size_t(number(q.at(3))), size_t(number(q.at(4))))) { Val o = Val::List(); o.add(Val::Str(std::to_string(b.first))).add(Val::Str(std::to_string(b.second))); r.add(o); }
    }
    return r;
}

Val do_delays(const Val &) {
    Val r = Val::List();
    r.add(Val::Int(int64_t(g_delays.load()))).add(Val::Int(int64_t(g_waits.load())));
    return r;
}

}

int main(int argc, char **argv) {
    rpc::Alloc::install();
    g_seed = uint64_t(getpid()) * 0x9E3779B97F4A7C15ull;
    std::map<std::string, rpc::Handler> h;
    h["pool"] = do_pool;
    h["thread"] = do_thread;
    h["churn"] = do_churn;
    h["runtime"] = do_runtime;
    h["bins"] = do_bins;
    h["delays"] = do_delays;
    return rpc::serve(argc, argv, h);
}
