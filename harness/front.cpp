// Execution server for the functions that build graphs and run operators at once.
#include "rpc.h"

#include "runtime/workbench.h"
#include "runtime/program.h"
#include "global/operator_factory.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "module/io/sstream.h"
#include "core/tensor_builder.h"
#include "frontend/frontend.h"
#include "frontend/symbol.h"
#include "frontend/intime.h"
#include "utils/ctxmgr_lite_support.h"
#include "core/device_context.h"

using namespace ts;
using rpc::Val;

namespace {

// v: 1 sizes, indexes, paddings given as numbers; 2 matrices given as numbers; 4 trailing arguments left out
struct Step {
    std::string fn, name;
    std::vector<size_t> refs;
    std::vector<int32_t> ints, sizes;
    std::vector<float> floats;
    std::array<float, 9> matrix{};
    int v = 0;
    bool num() const { return v & 1; }
    bool mat() const { return v & 2; }
    bool dft() const { return v & 4; }
    std::array<int32_t, 2> pair() const { return {sizes.at(0), sizes.at(1)}; }
    desc::ResizeType type(size_t i) const { return desc::ResizeType(ints.at(i)); }
};

Tensor immediate(const Step &s, const std::vector<Tensor> &x) {
    using namespace intime;
    auto &f = s.fn;
    if (f == "resize2d") {
        if (s.num()) return s.dft() ? resize2d(x[0], s.sizes) : resize2d(x[0], s.sizes, s.type(0));
        return s.dft() ? resize2d(x[0], x[1]) : resize2d(x[0], x[1], s.type(0));
    }
    if (f == "add") return add(x[0], x[1]);
    if (f == "sub") return sub(x[0], x[1]);
    if (f == "mul") return mul(x[0], x[1]);
    if (f == "div") return div(x[0], x[1]);
    if (f == "transpose") return transpose(x[0], s.sizes);
    if (f == "sigmoid") return sigmoid(x[0]);
    if (f == "gather") return s.num() ? gather(x[0], s.sizes, s.ints.at(0)) : gather(x[0], x[1], s.ints.at(0));
    if (f == "concat") return concat(x, s.ints.at(0));
    if (f == "softmax") return s.dft() ? softmax(x[0], s.ints.at(0)) : softmax(x[0], s.ints.at(0), s.ints.at(1) != 0);
    if (f == "pad") return s.dft() ? pad(x[0], x[1]) : pad(x[0], x[1], s.floats.at(0));
    if (f == "cast") return cast(x[0], DTYPE(s.ints.at(0)));
    if (f == "affine_sample2d") {
        if (s.num() && s.mat()) return affine_sample2d(s.name, x[0], s.pair(), s.matrix, s.ints.at(0), s.floats.at(0), s.type(1));
        if (s.num()) return affine_sample2d(s.name, x[0], s.pair(), x[1], s.ints.at(0), s.floats.at(0), s.type(1));
        if (s.mat()) return affine_sample2d(s.name, x[0], x[1], s.matrix, s.ints.at(0), s.floats.at(0), s.type(1));
        return affine_sample2d(x[0], x[1], x[2], s.ints.at(0), s.floats.at(0), s.type(1));
    }
    if (f == "affine_on_sample2d") {
        if (s.num() && s.mat()) return affine_on_sample2d(s.name, x[0], s.pair(), s.matrix, s.ints.at(0), s.type(1));
        if (s.num()) return affine_on_sample2d(s.name, x[0], s.pair(), x[1], s.ints.at(0), s.type(1));
        if (s.mat()) return affine_on_sample2d(s.name, x[0], x[1], s.matrix, s.ints.at(0), s.type(1));
        return affine_on_sample2d(x[0], x[1], x[2], s.ints.at(0), s.type(1));
    }
    if (f == "matmul") return s.dft() ? matmul(x[0], x[1]) : matmul(x[0], x[1], s.ints.at(0) != 0);
    if (f == "broadcast") return s.num() ? broadcast(x[0], s.sizes) : broadcast(x[0], x[1]);
    throw std::runtime_error("unknown function " + f);
}

Node symbolic(const Step &s, const std::vector<Node> &x) {
    using namespace symbol;
    auto &f = s.fn, &n = s.name;
    if (f == "resize2d") return s.dft() ? resize2d(n, x[0], x[1]) : resize2d(n, x[0], x[1], s.type(0));
    if (f == "add") return add(n, x[0], x[1]);
    if (f == "sub") return sub(n, x[0], x[1]);
    if (f == "mul") return mul(n, x[0], x[1]);
    if (f == "div") return div(n, x[0], x[1]);
    if (f == "transpose") return transpose(n, x[0], s.sizes);
    if (f == "sigmoid") return sigmoid(n, x[0]);
    if (f == "gather") return gather(n, x[0], x[1], s.ints.at(0));
    if (f == "concat") return concat(n, x, s.ints.at(0));
    if (f == "softmax") return s.dft() ? softmax(n, x[0], s.ints.at(0)) : softmax(n, x[0], s.ints.at(0), s.ints.at(1) != 0);
    if (f == "pad") return s.dft() ? pad(n, x[0], x[1]) : pad(n, x[0], x[1], s.floats.at(0));
    if (f == "cast") return cast(n, x[0], DTYPE(s.ints.at(0)));
    if (f == "affine_sample2d") return affine_sample2d(n, x[0], x[1], x[2], s.ints.at(0), s.floats.at(0), s.type(1));
    if (f == "affine_on_sample2d") return affine_on_sample2d(n, x[0], x[1], x[2], s.ints.at(0), s.type(1));
    if (f == "matmul") return s.dft() ? matmul(n, x[0], x[1]) : matmul(n, x[0], x[1], s.ints.at(0) != 0);
    if (f == "broadcast") return broadcast(n, x[0], x[1]);
    throw std::runtime_error("unknown function " + f);
}

Node front(const Step &s, const std::vector<frontend::NodeOrTensor> &x) {
    using namespace frontend;
    auto &f = s.fn, &n = s.name;
    if (f == "resize2d") {
        if (s.num()) return s.dft() ? resize2d(n, x[0], s.sizes) : resize2d(n, x[0], s.sizes, s.type(0));
        return s.dft() ? resize2d(n, x[0], x[1]) : resize2d(n, x[0], x[1], s.type(0));
    }
    if (f == "add") return add(n, x[0], x[1]);
    if (f == "sub") return sub(n, x[0], x[1]);
    if (f == "mul") return mul(n, x[0], x[1]);
    if (f == "div") return div(n, x[0], x[1]);
    if (f == "transpose") return transpose(n, x[0], s.sizes);
    if (f == "sigmoid") return sigmoid(n, x[0]);
    if (f == "gather") return gather(n, x[0], x[1], s.ints.at(0));
    if (f == "concat") return concat(n, x, s.ints.at(0));
    if (f == "softmax") return s.dft() ? softmax(n, x[0], s.ints.at(0)) : softmax(n, x[0], s.ints.at(0), s.ints.at(1) != 0);
    if (f == "pad") {
        if (!s.num()) return s.dft() ? pad(n, x[0], x[1]) : pad(n, x[0], x[1], s.floats.at(0));
        std::vector<DimPadding> p;
        for (size_t i = 0; i + 1 < s.sizes.size(); i += 2) p.emplace_back(s.sizes[i], s.sizes[i + 1]);
        return s.dft() ? pad(n, x[0], p) : pad(n, x[0], p, s.floats.at(0));
    }
    if (f == "cast") return cast(n, x[0], DTYPE(s.ints.at(0)));
    if (f == "affine_sample2d") {
        if (s.num() && s.mat()) return affine_sample2d(n, x[0], s.pair(), s.matrix, s.ints.at(0), s.floats.at(0), s.type(1));
        if (s.num()) return affine_sample2d(n, x[0], s.pair(), x[1], s.ints.at(0), s.floats.at(0), s.type(1));
        if (s.mat()) return affine_sample2d(n, x[0], x[1], s.matrix, s.ints.at(0), s.floats.at(0), s.type(1));
        return affine_sample2d(n, x[0], x[1], x[2], s.ints.at(0), s.floats.at(0), s.type(1));
    }
    if (f == "affine_on_sample2d") {
        if (s.num() && s.mat()) return affine_on_sample2d(n, x[0], s.pair(), s.matrix, s.ints.at(0), s.type(1));
        if (s.num()) return affine_on_sample2d(n, x[0], s.pair(), x[1], s.ints.at(0), s.type(1));
        if (s.mat()) return affine_on_sample2d(n, x[0], x[1], s.matrix, s.ints.at(0), s.type(1));
        return affine_on_sample2d(n, x[0], x[1], x[2], s.ints.at(0), s.type(1));
    }
    if (f == "matmul") return s.dft() ? matmul(n, x[0], x[1]) : matmul(n, x[0], x[1], s.ints.at(0) != 0);
    if (f == "broadcast") return s.num() ? broadcast(n, x[0], s.sizes) : broadcast(n, x[0], x[1]);
    throw std::runtime_error("unknown function " + f);
}

std::vector<Step> steps_of(const Val &l) {
    std::vector<Step> steps;
    for (auto &q : l.list()) {
        Step s;
        s.fn = q.at(0).str(); s.name = q.at(1).str();
        for (auto &x : q.at(2).list()) s.refs.push_back(size_t(x.integer()));
        for (auto &x : q.at(3).list()) s.ints.push_back(int32_t(x.integer()));
        for (auto &x : q.at(4).list()) s.sizes.push_back(int32_t(x.integer()));
        for (auto &x : q.at(5).list()) s.floats.push_back(x.ten().data<float>(0));
        if (!q.at(6).none()) for (size_t i = 0; i < 9; ++i) s.matrix[i] = q.at(6).ten().data<float>(i);
        s.v = int(q.at(7).integer());
        steps.push_back(s);
    }
    return steps;
}

// ["now", leaves, steps, threads]: [[status, message, value or None]...], leaves afterwards, values on the stack afterwards
Val do_now(const Val &q) {
    std::vector<Tensor> vals;
    for (auto &x : q.at(1).list()) vals.push_back(x.ten().clone());
    size_t leaves = vals.size();
    auto steps = steps_of(q.at(2));
    Workbench bench(ComputingDevice(CPU, 0), int(q.at(3).integer()));
    ctx::bind<ThreadPool> a(bench.runtime().thread_pool());
    ctx::bind<RuntimeContext> b(bench.runtime());
    ctx::bind<Workbench> c(bench);
    auto pre = DeviceContext::Switch(&bench.device());
    bench.stack().push(tensor::from(int32_t(77)));      // something of another caller
    std::vector<std::pair<std::string, std::string>> status;
    for (auto &s : steps) {
        std::vector<Tensor> in;
        for (auto r : s.refs) in.push_back(vals.at(r));
        try {
            vals.push_back(immediate(s, in));
            status.emplace_back("ok", "");
        } catch (const Exception &e) { vals.emplace_back(); status.emplace_back("ts", e.what()); }
        catch (const std::exception &e) { vals.emplace_back(); status.emplace_back("std", e.what()); }
    }
    auto &stack = bench.stack();
    int left = int(stack.size());
    bool kept = left == 1 && tensor::to_int(stack[0]) == 77;
    Val l = Val::List(), m = Val::List();
    for (size_t k = 0; k < steps.size(); ++k) {
        Val e = Val::List();
        e.add(Val::Str(status[k].first)).add(Val::Str(status[k].second));
        e.add(status[k].first == "ok" ? Val::Ten(vals[leaves + k]) : Val());
        l.add(e);
    }
    for (size_t k = 0; k < leaves; ++k) m.add(Val::Ten(vals[k]));
    vals.clear();
    DeviceContext::Switch(pre);
    return Val::List().add(l).add(m).add(Val::Int(kept));
}

// ["graph", front end?, leaves, constant flags, steps, outs, through bytes?, input order]: output values by slot, by name, input names
Val do_graph(const Val &q) {
    bool fe = q.at(1).integer() != 0;
    std::vector<Tensor> leaves;
    for (auto &x : q.at(2).list()) leaves.push_back(x.ten().clone());
    auto &constant = q.at(3).list();
    auto steps = steps_of(q.at(4));
    Module::shared module;
    std::vector<std::string> names;
    {
        Graph g;
        ctx::bind<Graph> bind(g);
        std::vector<Node> nodes;
        std::vector<int> given(leaves.size(), -1);
        for (size_t k = 0; k < leaves.size(); ++k) {
            auto name = "x" + std::to_string(k);
            bool is_const = constant[k].integer() != 0;
            nodes.push_back(is_const ? bubble::data(name, leaves[k]) : bubble::param(name));
            if (!is_const) names.push_back(name);
        }
        for (auto &s : steps) {
            if (fe) {
                std::vector<frontend::NodeOrTensor> in;
                for (auto r : s.refs) {
                    if (r < leaves.size() && constant[r].integer() == 2) in.emplace_back(leaves[r]);
                    else if (r < leaves.size() && constant[r].integer() == 3) in.emplace_back(leaves[r], CPU);
                    else in.emplace_back(nodes.at(r));
                }
                nodes.push_back(front(s, in));
            } else {
                std::vector<Node> in;
                for (auto r : s.refs) in.push_back(nodes.at(r));
                nodes.push_back(symbolic(s, in));
            }
            if (nodes.back()->name() != s.name) throw Exception("verif: the node is called " + nodes.back()->name());
        }
        std::vector<Node> outs;
        for (auto &x : q.at(5).list()) outs.push_back(nodes.at(leaves.size() + size_t(x.integer())));
        module = Module::Load(g, outs);
    }
    if (q.at(6).integer()) {
        StringStreamWriter w;
        Module::Save(w, module);
        StringStreamReader r(w.str());
        module = Module::Load(r);
    }
    auto bench = Workbench::Load(module, ComputingDevice(CPU, 0));
    for (size_t k = 0; k < leaves.size(); ++k) {
        if (constant[k].integer()) continue;
        auto name = "x" + std::to_string(k);
        bool used = false;
        for (int i = 0; i < bench->input_count(); ++i) used |= module->input(size_t(i))->name() == name;
        if (used) bench->input(name, leaves[k]);
    }
    bench->run();
    Val l = Val::List();
    auto &outs = q.at(5).list();
    for (size_t k = 0; k < outs.size(); ++k) {
        l.add(Val::Ten(bench->output(int(k))));
        l.add(Val::Ten(bench->output(steps.at(size_t(outs[k].integer())).name)));
    }
    return l;
}

// ["copy", dst, offset, src, offset, size, where the data is given]: [copied, dst afterwards]
Val do_copy(const Val &q) {
    Tensor dst = q.at(1).ten().clone(), src = q.at(3).ten().clone();
    int where = int(q.at(6).integer());
    auto n = intime::memcpy(dst, where & 1 ? dst.data() : nullptr, q.at(2).integer(), src, where & 2 ? src.data() : nullptr, q.at(4).integer(), q.at(5).integer());
    return Val::List().add(Val::Int(n)).add(Val::Ten(dst));
}
}

int main(int argc, char **argv) {
    std::map<std::string, rpc::Handler> h;
    h["now"] = do_now; h["graph"] = do_graph; h["copy"] = do_copy;
    return rpc::serve(argc, argv, h);
}
