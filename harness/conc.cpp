// Execution server for workbenches used by several threads at the same time.
#include "rpc.h"

#include <set>
#include <thread>
#include <unordered_map>

#include "runtime/workbench.h"
#include "runtime/program.h"
#include "runtime/image_filter.h"
#include "global/operator_factory.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "module/io/sstream.h"
#include "core/tensor_builder.h"
#include "frontend/intime.h"
#include "utils/ctxmgr_lite_support.h"
#include "probes.h"

using namespace ts;
using rpc::Val;

namespace {

// Everything the threads share: held by each thread on its own, so that the last one to let go destroys it.
struct Shared {
    Workbench::shared bench;
    Module::shared module;
    Program::shared program;
    std::string bytes, path, options;
};

struct Action {
    std::string what, name, options;
    int64_t k = 0;
    Tensor tensor;
};

struct Answer { std::string status, message; std::vector<Tensor> values; std::string text; };

// never starts anything before all are there
struct Gate {
    std::atomic<int> left;
    explicit Gate(int n) : left(n) {}
    void pass() { --left; while (left.load() > 0) std::this_thread::yield(); }
};

void play(Shared mine, const std::vector<Action> &script, const std::vector<Tensor> &common, Gate &gate, std::vector<Answer> &out) {
    Workbench::shared bench;
    std::vector<Workbench::shared> old;
    gate.pass();
    for (auto &a : script) {
        Answer r;
        r.status = "ok";
        try {
            if (a.what == "clone") bench = mine.bench->clone();
            else if (a.what == "load") bench = Workbench::Load(mine.module, ComputingDevice(CPU, 0), a.options);
            else if (a.what == "parse") {
                StringStreamReader s(mine.bytes);
                bench = Workbench::Load(Module::Load(s), ComputingDevice(CPU, 0), a.options);
            }
            else if (a.what == "file") bench = Workbench::Load(Module::Load(mine.path), ComputingDevice(CPU, 0), a.options);
            else if (a.what == "prog") {
                auto b = std::make_shared<Workbench>(ComputingDevice(CPU, 0), int(a.k));
                b->setup_context();
                b->setup(mine.program->clone());
                bench = b;
            }
            else if (a.what == "recompile") { bench->setup(bench->compile(mine.module, a.options)); }
            else if (a.what == "self") bench = bench->clone();
            else if (a.what == "keep") old.push_back(bench);
            else if (a.what == "unkeep") old.clear();
            else if (a.what == "in") bench->input(a.name, a.tensor);
            else if (a.what == "inslot") bench->input(int(a.k), a.tensor);
            else if (a.what == "common") bench->input(a.name, common[size_t(a.k)]);
            else if (a.what == "run") bench->run();
            else if (a.what == "out") r.values.push_back(bench->output(int(a.k)));
            else if (a.what == "outname") r.values.push_back(bench->output(a.name));
            else if (a.what == "drop") mine.bench.reset();
            else if (a.what == "dropmodule") mine.module.reset();
            else if (a.what == "dropprogram") mine.program.reset();
            else if (a.what == "die") bench.reset();
            else if (a.what == "yield") { for (int64_t k = 0; k < a.k; ++k) std::this_thread::yield(); }
            else if (a.what == "threads") bench->runtime().set_computing_thread_number(int(a.k));
            else if (a.what == "save") {
                StringStreamWriter w;
                Module::Save(w, mine.module);
                r.text = w.str();
            }
            else if (a.what == "summary") r.text = bench->summary().empty() ? "" : "some";
            else if (a.what == "sigmoid") {
                bench->setup_context();
                r.values.push_back(intime::sigmoid(a.tensor));
            }
            else if (a.what == "filter") {      // an image filter of this thread
                bench->setup_context();
                ImageFilter f(ComputingDevice(CPU, 0));
                f.to_float(); f.scale(2.0f);
                if (a.k & 1) f.channel_swap({0});
                if (a.k & 2) f.to_chw();
                r.values.push_back(f.run(a.tensor));
            }
            else if (a.what == "hook") {
                bench->run_hook({a.name});
                r.values.push_back(bench->output(a.name));
            }
            else { r.status = "harness"; r.message = "unknown action " + a.what; }
        } catch (const Exception &e) { r.status = "ts"; r.message = e.what(); }
        catch (const std::exception &e) { r.status = "std"; r.message = e.what(); }
        out.push_back(std::move(r));
    }
}

// ["scene", module bytes, file, options, common tensors, [[[what, name, k, tensor or None, options]...]...], one after another, filtered]
Val do_scene(const Val &q) {
    Shared shared;
    shared.bytes = q.at(1).str();
    shared.path = q.at(2).str();
    shared.options = q.at(3).str();
    StringStreamReader s(shared.bytes);
    shared.module = Module::Load(s);
    shared.bench = Workbench::Load(shared.module, ComputingDevice(CPU, 0), shared.options);
    if (q.at(7).integer()) {    // an image filter of the shared workbench, and so of its clones
        auto f = std::make_shared<ImageFilter>(ComputingDevice(CPU, 0));
        ctx::bind<Workbench> _bind(shared.bench.get());
        f->to_float(); f->scale(2.0f);
        shared.bench->bind_filter(0, f);
    }
    shared.program = shared.bench->compile(shared.module, shared.options);
    StringStreamWriter saved;
    Module::Save(saved, shared.module);
    std::vector<Tensor> common;
    for (auto &x : q.at(4).list()) common.push_back(x.ten().clone());
    auto &l = q.at(5).list();
    std::vector<std::vector<Action>> scripts(l.size());
    for (size_t t = 0; t < l.size(); ++t) {
        for (auto &x : l[t].list()) {
            Action a;
            a.what = x.at(0).str(); a.name = x.at(1).str(); a.k = x.at(2).integer();
            if (!x.at(3).none()) a.tensor = x.at(3).ten().clone();
            a.options = x.at(4).str();
            scripts[t].push_back(a);
        }
    }
    bool serial = q.at(6).integer() != 0;
    std::vector<std::vector<Answer>> answers(l.size());
    Gate gate(serial ? 1 : int(l.size()));
    std::vector<std::thread> threads;
    for (size_t t = 0; t < l.size(); ++t) {
        threads.emplace_back([&, t](Shared mine) { play(std::move(mine), scripts[t], common, gate, answers[t]); }, shared);
        if (serial) threads.back().join();
    }
    shared = Shared();
    if (!serial) for (auto &t : threads) t.join();
    Val v = Val::List();
    for (auto &a : answers) {
        Val e = Val::List();
        for (auto &r : a) {
            Val o = Val::List();
            for (auto &t : r.values) o.add(Val::Ten(t));
            e.add(Val::List().add(Val::Str(r.status)).add(Val::Str(r.message)).add(o).add(Val::Str(r.text)));
        }
        v.add(e);
    }
    Val c = Val::List();
    for (auto &t : common) c.add(Val::Ten(t));
    return Val::List().add(v).add(c).add(Val::Str(saved.str()));
}
}

int main(int argc, char **argv) {
    std::map<std::string, rpc::Handler> h;
    h["scene"] = do_scene;
    return rpc::serve(argc, argv, h);
}
