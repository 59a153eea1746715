// Execution server for control structures: operand stacks and scoped contexts.
#include "rpc.h"

#include <thread>

#include "runtime/stack.h"
#include "runtime/workbench.h"
#include "runtime/program.h"
#include "runtime/operator.h"
#include "runtime/image_filter.h"
#include "runtime/instruction/stack_instruction.h"
#include "runtime/runtime.h"
#include "runtime/inside/parallel.h"
#include "board/hook.h"
#include "board/profiler.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "core/device_context.h"
#include "core/tensor_builder.h"
#include "global/operator_factory.h"
#include "utils/ctxmgr_lite_support.h"

using namespace ts;
using rpc::Val;

namespace {

// runs f, giving ["ok"|"ts"|"std", what]
template<typename F>
std::pair<std::string, std::string> guarded(F f) {
    try { f(); return {"ok", ""}; }
    catch (const Exception &e) { return {"ts", e.what()}; }
    catch (const std::exception &e) { return {"std", e.what()}; }
}

// ---------------------------------------------------------------------------------------- stacks
Tensor number(int64_t v) { return tensor::from<int32_t>(int32_t(v)); }

Val seen(const Tensor *t) {
    Val x = Val::List();
    x.add(Val::Int(t->dtype() == INT32 && t->count() == 1 ? t->data<int32_t>(0) : -7777777));
    x.add(Val::Int(int64_t(reinterpret_cast<uintptr_t>(t->data()))));
    return x;
}

// [kind(0 plain stack, 1 stack of a workbench), ops] -> per operation [status, what, returned, base, size, items, begin..end as expected by index]
Val do_stack(const Val &q) {
    std::shared_ptr<Workbench> bench;
    std::shared_ptr<Stack> own;
    if (q.at(1).integer()) bench = std::make_shared<Workbench>(ComputingDevice(CPU, 0), 1);
    else own = std::make_shared<Stack>(MemoryDevice(CPU), q.at(1).integer() != 0);
    Stack &s = bench ? bench->stack() : *own;
    const Stack &cs = s;
    Val res = Val::List();
    for (auto &op : q.at(2).list()) {
        auto name = op.at(0).str();
        auto arg = [&](size_t k) { return int(op.at(k).integer()); };
        Val ret;
        auto instr = [&](const Instruction::shared &i) {
            if (!bench) bench = std::make_shared<Workbench>(ComputingDevice(CPU, 0), 1);
            i->run(*bench);
        };
        auto st = guarded([&]() {
            if (name == "push") ret = seen(s.push(number(arg(1))));
            else if (name == "push_at") ret = seen(s.push(arg(1)));
            else if (name == "push_new") { auto t = s.push(INT32, Shape({1})); t->data<int32_t>(0) = arg(1); ret = seen(t); }
            else if (name == "push_proto") { auto t = s.push(Tensor::Prototype(INT32, Shape({1})), MemoryDevice(CPU)); t->data<int32_t>(0) = arg(1); ret = seen(t); }
            else if (name == "clone") ret = seen(s.clone(arg(1)));
            else if (name == "clone_push") ret = seen(s.clone_push(*s.index(arg(1)), MemoryDevice(CPU)));
            else if (name == "index") ret = seen(s.index(arg(1)));
            else if (name == "cindex") ret = seen(cs.index(arg(1)));
            else if (name == "at") ret = seen(&s[arg(1)]);
            else if (name == "uat") ret = seen(&s[size_t(arg(1))]);
            else if (name == "top") ret = seen(s.top());
            else if (name == "ctop") ret = seen(cs.top());
            else if (name == "pop") s.pop();
            else if (name == "pop_n") s.pop(size_t(op.at(1).integer()));
            else if (name == "erase") s.erase(arg(1));
            else if (name == "erase_range") s.erase(arg(1), arg(2));
            else if (name == "clear") s.clear();
            else if (name == "push_base") s.push_base(arg(1));
            else if (name == "pop_base") s.pop_base();
            else if (name == "rebase") ret = Val::Int(int64_t(s.rebase(size_t(op.at(1).integer()))));
            else if (name == "i_push") instr(instruction::Stack::push(arg(1)));
            else if (name == "i_clone") instr(instruction::Stack::clone(arg(1)));
            else if (name == "i_erase") instr(instruction::Stack::erase(arg(1)));
            else if (name == "i_erase_range") instr(instruction::Stack::erase(arg(1), arg(2)));
            else if (name == "i_swap") instr(instruction::Stack::swap(arg(1), arg(2)));
            else if (name == "i_shift") instr(instruction::Stack::ring_shift_left());
            else throw std::runtime_error("rpc: unknown stack operation");
        });
        Val one = Val::List();
        one.add(Val::Str(st.first)).add(Val::Str(st.second)).add(ret);
        one.add(Val::Int(int64_t(s.base()))).add(Val::Int(int64_t(s.size())));
        Val items = Val::List();
        bool sane = s.size() < 100000;
        if (sane) {
            size_t n = 0;
            for (auto it = cs.begin(); it != cs.end(); ++it, ++n) items.add(seen(&*it));
            if (n != s.size()) sane = false;
        }
        one.add(items);
        res.add(one);
        if (!sane) break;
    }
    return res;
}

// ------------------------------------------------------------------------------------- contexts
// Slots: 0 Graph, 1 RuntimeContext, 2 ThreadPool, 3 Workbench, 4 Profiler, 5 Hook, 6 DeviceContext.
const int SLOTS = 7, VALUES = 4;

struct World {
    std::vector<std::shared_ptr<Graph>> graphs;
    std::vector<std::shared_ptr<RuntimeContext>> runtimes;
    std::vector<std::shared_ptr<ThreadPool>> pools;
    std::vector<std::shared_ptr<Workbench>> benches;
    std::vector<std::shared_ptr<Profiler>> profilers;
    std::vector<std::shared_ptr<Hook>> hooks;
    std::vector<std::shared_ptr<DeviceContext>> devices;
    Module::shared module;
    std::vector<Workbench::shared> runners;
    World() {
        for (int k = 0; k < VALUES; ++k) {
            graphs.push_back(std::make_shared<Graph>());
            runtimes.push_back(std::make_shared<RuntimeContext>());
            pools.push_back(std::make_shared<ThreadPool>(1));
            benches.push_back(std::make_shared<Workbench>(ComputingDevice(CPU, 0), 1));
            profilers.push_back(std::make_shared<Profiler>());
            hooks.push_back(std::make_shared<Hook>());
            devices.push_back(std::make_shared<DeviceContext>(ComputingDevice(CPU, 0)));
        }
    }
};

template<typename T>
int value_of(const std::vector<std::shared_ptr<T>> &all, T *p) {
    if (!p) return 0;
    for (size_t k = 0; k < all.size(); ++k) if (all[k].get() == p) return int(k) + 1;
    return 99;
}
int read_slot(World &w, int slot) {
    switch (slot) {
        case 0: return value_of(w.graphs, ctx::get<Graph>());
        case 1: return value_of(w.runtimes, ctx::get<RuntimeContext>());
        case 2: return value_of(w.pools, ctx::get<ThreadPool>());
        case 3: return value_of(w.benches, ctx::get<Workbench>());
        case 4: return value_of(w.profilers, ctx::get<Profiler>());
        case 5: return value_of(w.hooks, ctx::get<Hook>());
        default: return value_of(w.devices, ctx::get<DeviceContext>());
    }
}
template<typename T>
int ref_of(const std::vector<std::shared_ptr<T>> &all) {
    try { return value_of(all, &ctx::ref<T>()); } catch (const NoLiteContextException &) { return -1; }
}
int ref_slot(World &w, int slot) {
    switch (slot) {
        case 0: return ref_of(w.graphs);
        case 1: return ref_of(w.runtimes);
        case 2: return ref_of(w.pools);
        case 3: return ref_of(w.benches);
        case 4: return ref_of(w.profilers);
        case 5: return ref_of(w.hooks);
        default: return ref_of(w.devices);
    }
}
template<typename T> T *pick(const std::vector<std::shared_ptr<T>> &all, int v) { return v ? all[size_t(v) - 1].get() : nullptr; }

struct Thrown {};

std::atomic<int> g_wrong(0);    // operators that saw another context than that of the running workbench
std::atomic<int> g_looked(0);

class CtxProbe : public Operator {
public:
    void init() override {}
    int infer(ts::Stack &stack, std::vector<Tensor::Prototype> &output) override {
        output.assign(1, stack[0].proto());
        return 1;
    }
    int run(ts::Stack &stack) override {
        ++g_looked;
        auto bench = ctx::get<Workbench>();
        if (!bench || &bench->stack() != &stack || ctx::get<RuntimeContext>() != &bench->runtime() ||
            ctx::get<ThreadPool>() != &bench->runtime().thread_pool() || ctx::get<DeviceContext>() != &bench->device()) ++g_wrong;
        auto x = stack[0];
        if (x.data<float>(0) < 0) throw Exception("verif_ctx");
        stack.push(x.clone());
        return 1;
    }
};

void execute(World &w, const Val &body, Val &log, const Val &top);

void observe(World &w, Val &log) {
    Val l = Val::List();
    for (int k = 0; k < SLOTS; ++k) l.add(Val::Int(read_slot(w, k)));
    log.add(l);
}

template<typename T>
void bound(World &w, T *value, bool as_ref, const Val &body, Val &log, const Val &top) {
    if (as_ref && value) {
        ctx::bind<T> b(*value);
        observe(w, log);
        execute(w, body, log, top);
        observe(w, log);
    } else {
        ctx::bind<T> b(value);
        observe(w, log);
        execute(w, body, log, top);
        observe(w, log);
    }
}

Module::shared probe_module() {
    Graph g;
    ctx::bind<Graph> b(g);
    auto x = bubble::param("x");
    auto y = bubble::op("y", "verif_ctx", {x});
    auto m = std::make_shared<Module>();
    m->load(g, {y});
    return m;
}
Module::shared bad_module() {
    Graph g;
    ctx::bind<Graph> b(g);
    auto x = bubble::param("x");
    auto y = bubble::op("y", "verif_no_such_operator", {x});
    auto m = std::make_shared<Module>();
    m->load(g, {y});
    return m;
}

void execute(World &w, const Val &body, Val &log, const Val &top) {
    for (auto &op : body.list()) {
        auto name = op.at(0).str();
        if (name == "get") observe(w, log);
        else if (name == "ref") {
            Val l = Val::List();
            for (int k = 0; k < SLOTS; ++k) l.add(Val::Int(ref_slot(w, k)));
            log.add(l);
        } else if (name == "yield") std::this_thread::yield();
        else if (name == "throw") throw Thrown();
        else if (name == "try") {
            try { execute(w, op.at(1), log, top); } catch (const Thrown &) {}
            observe(w, log);
        } else if (name == "bind" || name == "set") {
            auto slot = int(op.at(1).integer()), v = int(op.at(2).integer());
            if (name == "bind") {
                bool r = op.at(3).integer() != 0;
                auto &b = op.at(4);
                switch (slot) {
                    case 0: bound(w, pick(w.graphs, v), r, b, log, top); break;
                    case 1: bound(w, pick(w.runtimes, v), r, b, log, top); break;
                    case 2: bound(w, pick(w.pools, v), r, b, log, top); break;
                    case 3: bound(w, pick(w.benches, v), r, b, log, top); break;
                    case 4: bound(w, pick(w.profilers, v), r, b, log, top); break;
                    case 5: bound(w, pick(w.hooks, v), r, b, log, top); break;
                    default: bound(w, pick(w.devices, v), r, b, log, top); break;
                }
            } else {
                switch (slot) {
                    case 0: ctx::set(pick(w.graphs, v)); break;
                    case 1: ctx::set(pick(w.runtimes, v)); break;
                    case 2: ctx::set(pick(w.pools, v)); break;
                    case 3: if (v) pick(w.benches, v)->setup_context(); else ctx::set<Workbench>(static_cast<Workbench *>(nullptr)); break;
                    case 4: ctx::set(pick(w.profilers, v)); break;
                    case 5: if (v) pick(w.hooks, v)->setup_context(); else ctx::set<Hook>(static_cast<Hook *>(nullptr)); break;
                    default: DeviceContext::Switch(pick(w.devices, v)); break;
                }
            }
            observe(w, log);
        } else if (name == "spawn") {
            Val inner = Val::List();
            std::thread t([&]() { try { execute(w, op.at(1), inner, top); } catch (const Thrown &) { inner.add(Val::Str("thrown")); } });
            t.join();
            log.add(inner);
        } else if (name == "run") {     // a real run: [which runner, fail]
            auto bench = Workbench::Load(probe_module(), ComputingDevice(CPU, 0));
            bench->input(0, tensor::from<float>(op.at(1).integer() ? -1.0f : 1.0f));
            int wrong = g_wrong;
            (void) wrong;
            bool failed = false;
            try { bench->run(); } catch (const Exception &) { failed = true; }
            log.add(Val::Int(failed ? 1 : 0));
            observe(w, log);
        } else if (name == "hook") {
            auto bench = Workbench::Load(probe_module(), ComputingDevice(CPU, 0));
            bench->input(0, tensor::from<float>(op.at(1).integer() ? -1.0f : 1.0f));
            bool failed = false;
            try { bench->run_hook({"y"}); } catch (const Exception &) { failed = true; }
            log.add(Val::Int(failed ? 1 : 0));
            observe(w, log);
        } else if (name == "compile") {
            bool failed = false;
            try { Program::Compile(op.at(1).integer() ? bad_module() : probe_module(), ComputingDevice(CPU, 0)); } catch (const Exception &) { failed = true; }
            log.add(Val::Int(failed ? 1 : 0));
            observe(w, log);
        } else if (name == "filter") {
            bool failed = false;
            try {
                ImageFilter f(ComputingDevice(CPU, 0));
                f.to_float();
                f.scale(2);
                if (op.at(1).integer()) f.channel_swap({});
                f.to_chw();
                f.compile();
            } catch (const Exception &e) { failed = true; std::fprintf(stderr, "filter: %s\n", e.what()); }
            log.add(Val::Int(failed ? 1 : 0));
            observe(w, log);
        } else if (name == "parallel") {    // tasks of a pool do not see the bindings of the submitting thread
            std::atomic<int> visible(0);
            std::vector<std::thread::id> who(4);
            auto me = std::this_thread::get_id();
            {
                ThreadPool pool(3);
                for (int k = 0; k < 6; ++k) pool.run([&](int) {
                    if (std::this_thread::get_id() == me) return;
                    for (int s = 0; s < SLOTS; ++s) if (read_slot(w, s)) ++visible;
                });
                pool.join();
            }
            log.add(Val::Int(visible.load()));
            observe(w, log);
        } else throw std::runtime_error("rpc: unknown context operation " + name);
    }
}

// [programs, one per thread] -> [logs, operators that looked, operators that saw a wrong context]
Val do_ctx(const Val &q) {
    World w;
    g_wrong = 0; g_looked = 0;
    auto &progs = q.at(1).list();
    std::vector<Val> logs(progs.size(), Val::List());
    std::vector<std::string> errors(progs.size());
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for (size_t k = 0; k < progs.size(); ++k) {
        ts.emplace_back([&, k]() {
            ++ready;
            while (ready.load() < int(progs.size())) std::this_thread::yield();
            try { execute(w, progs[k], logs[k], progs[k]); }
            catch (const Thrown &) { logs[k].add(Val::Str("thrown")); observe(w, logs[k]); }
            catch (const std::exception &e) { errors[k] = e.what(); }
        });
    }
    for (auto &t : ts) t.join();
    Val l = Val::List();
    for (size_t k = 0; k < progs.size(); ++k) {
        if (!errors[k].empty()) throw std::runtime_error("context program failed: " + errors[k]);
        l.add(logs[k]);
    }
    Val r = Val::List();
    r.add(l).add(Val::Int(g_looked.load())).add(Val::Int(g_wrong.load()));
    return r;
}

}  // namespace
TS_REGISTER_OPERATOR(CtxProbe, CPU, "verif_ctx")

int main(int argc, char **argv) {
    rpc::Alloc::install();
    std::map<std::string, rpc::Handler> h;
    h["stack"] = do_stack;
    h["ctx"] = do_ctx;
    return rpc::serve(argc, argv, h);
}
