// Execution server: runs single operators, graphs, workbench histories, image filters, (de)serialisation
// and static inference of the real library on behalf of the Python drivers.
#include "rpc.h"

#include <set>
#include <unordered_map>

#include "runtime/workbench.h"
#include "runtime/program.h"
#include "runtime/inferer.h"
#include "runtime/image_filter.h"
#include "runtime/stack.h"
#include "global/operator_factory.h"
#include "global/hard_converter.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/graph.h"
#include "module/header.h"
#include "module/io/sstream.h"
#include "module/io/fstream.h"
#include "core/tensor_builder.h"
#include "core/device_context.h"
#include "backend/name.h"
#include "utils/ctxmgr_lite_support.h"
#include "runtime/runtime.h"
#include "probes.h"

#ifdef _OPENMP
#include <omp.h>
#else
static int omp_get_max_threads() { return -1; }
#endif

using namespace ts;

// A probe operator of the drivers: what the run sees.
namespace {
// verif_probe(any...) -> INT32 [4]: configured threads, thread pool size, OpenMP threads of a plain region, inputs
class Probe : public Operator {
public:
    void init() override {}
    int infer(Stack &stack, std::vector<Tensor::Prototype> &output) override {
        (void) stack;
        output.assign(1, Tensor::Prototype(INT32, {4}));
        return 1;
    }
    int run(Stack &stack) override {
        auto rt = ctx::get<RuntimeContext>();
        auto pool = ctx::get<ThreadPool>();
        auto n = int(stack.size());
        auto &out = *stack.push(INT32, {4}, MemoryDevice(CPU));
        auto p = out.data<int32_t>();
        p[0] = rt ? rt->get_computing_thread_number() : -1;
        p[1] = pool ? int(pool->size()) : -1;
        p[2] = omp_get_max_threads();
        p[3] = n;
        return 1;
    }
};
}
TS_REGISTER_OPERATOR(Probe, CPU, "verif_probe")
using rpc::Val;

namespace {

struct Stage { const char *name = ""; };

std::map<int, Workbench::shared> g_benches;

Workbench::shared bench_for(int threads) {
    auto it = g_benches.find(threads);
    if (it != g_benches.end()) return it->second;
    auto b = std::make_shared<Workbench>(ComputingDevice(CPU, 0), threads);
    // exact-size blocks, so that every tensor is its own red-zoned allocation
    b->runtime().bind_flow(DynamicSyncMemoryController::Make(MemoryDevice(CPU, 0), false));
    b->runtime().bind_dynamic(DynamicSyncMemoryController::Make(MemoryDevice(CPU, 0), false));
    g_benches[threads] = b;
    return b;
}

struct Bound {
    ctx::bind<ThreadPool> a; ctx::bind<RuntimeContext> b; ctx::bind<Workbench> c;
    DeviceContext *pre;
    explicit Bound(Workbench &w) : a(w.runtime().thread_pool()), b(w.runtime()), c(w) {
        pre = DeviceContext::Switch(&w.device());
    }
    ~Bound() { DeviceContext::Switch(pre); }
};

Val proto_val(const Tensor::Prototype &p) {
    Val v = Val::List();
    v.add(Val::Int(p.dtype()));
    for (size_t i = 0; i < p.dims(); ++i) v.add(Val::Int(p.size(i)));
    return v;
}

struct OpResult {
    std::string status = "ok";   // ok | <stage>:<kind>
    std::string message;
    Val protos = Val::List();
    Val outputs = Val::List();
    bool inputs_modified = false, params_modified = false;
};

std::vector<std::pair<std::string, Tensor>> params_of(const Val &v) {
    std::vector<std::pair<std::string, Tensor>> out;
    for (auto &p : v.list()) out.emplace_back(p.at(0).str(), p.at(1).ten());
    return out;
}

std::string blob(const std::vector<Tensor> &ts) {
    std::string s;
    for (auto &t : ts) rpc::encode(s, Val::Ten(t));
    return s;
}

Operator::shared make_op(const std::string &name, const std::vector<std::pair<std::string, Tensor>> &params) {
    auto op = OperatorCreator::Create(CPU, name, false);
    op->set("#op", tensor::from(name));
    op->set("#name", tensor::from("case"));
    for (auto &p : params) op->set(p.first, p.second.clone());
    return op;
}

// One execution of one operator object on the given inputs.
void exec(Operator::shared op, const std::vector<Tensor> &inputs, Workbench &w, OpResult &r, Stage &stage, bool do_infer) {
    Stack stack(MemoryDevice(CPU, 0), w.runtime().dynamic());
    if (do_infer) {
        stage.name = "infer";
        for (auto &t : inputs) stack.push(t);
        std::vector<Tensor::Prototype> protos;
        op->infer(stack, protos);
        r.protos = Val::List();
        for (auto &p : protos) r.protos.add(proto_val(p));
        stack.clear();
    }
    stage.name = "run";
    for (auto &t : inputs) stack.push(t);
    auto n = RunOperator(op, stack, int(inputs.size()));
    stage.name = "collect";
    if (n != 1 || stack.size() != 1) throw std::runtime_error("operator returned " + std::to_string(n) + " values, stack holds " + std::to_string(stack.size()));
    r.outputs = Val::List();
    r.outputs.add(Val::Ten(*stack.top()));
}

template<typename F>
void guarded(OpResult &r, Stage &stage, F f) {
    try { f(); }
    catch (const Exception &e) { r.status = std::string(stage.name) + ":ts"; r.message = e.what(); }
    catch (const std::exception &e) { r.status = std::string(stage.name) + ":std"; r.message = e.what(); }
    catch (...) { r.status = std::string(stage.name) + ":other"; }
}

Val result_val(const OpResult &r) {
    Val v = Val::List();
    v.add(Val::Str(r.status)).add(Val::Str(r.message)).add(r.protos).add(r.outputs)
     .add(Val::Int(r.inputs_modified ? 1 : 0)).add(Val::Int(r.params_modified ? 1 : 0));
    return v;
}

// ["op_seq", name, threads, [[set up, params, inputs, infer]...]] on one operator object: parameters set and the
// object set up again where they are given
Val do_op_seq(const Val &q) {
    auto w = bench_for(int(q.at(2).integer()));
    Bound bound(*w);
    Val out = Val::List();
    Operator::shared op;
    bool ready = false;
    for (auto &s : q.at(3).list()) {
        OpResult r; Stage stage; stage.name = "create";
        guarded(r, stage, [&]() {
            if (s.at(0).integer()) {
                auto params = params_of(s.at(1));
                ready = false;
                if (!op) op = make_op(q.at(1).str(), params);
                else for (auto &p : params) op->set(p.first, p.second.clone());
                stage.name = "init";
                op->init();
                ready = true;
            }
            if (!ready) { stage.name = "init"; throw Exception("not set up"); }
            std::vector<Tensor> inputs;
            for (auto &x : s.at(2).list()) inputs.push_back(x.ten());
            exec(op, inputs, *w, r, stage, s.at(3).integer() != 0);
        });
        out.add(result_val(r));
    }
    return out;
}

// ["op", name, params, inputs, threads, mode, others]  mode: 0 single; 1 full (three executions: fill A, fill B,
// and again on the object of the first); 2 history (inputs, others[0], inputs, others[1], inputs ... on one object)
Val do_op(const Val &q) {
    auto name = q.at(1).str();
    auto params = params_of(q.at(2));
    std::vector<Tensor> inputs;
    for (auto &x : q.at(3).list()) inputs.push_back(x.ten());
    int threads = int(q.at(4).integer());
    int mode = int(q.at(5).integer());
    auto w = bench_for(threads);
    Bound bound(*w);
    auto &A = rpc::Alloc::me();
    auto before = blob(inputs);
    Val out = Val::List();
    Operator::shared first;
    const int fills[3] = {0xFF, 0x41, 0x00};
    if (mode == 2) {
        OpResult r; Stage stage; stage.name = "create";
        Operator::shared op;
        guarded(r, stage, [&]() { op = make_op(name, params); stage.name = "init"; op->init(); });
        if (r.status != "ok") { out.add(result_val(r)); return out; }
        auto &others = q.at(6).list();
        for (size_t k = 0; k < others.size() * 2 + 1; ++k) {
            std::vector<Tensor> in = inputs;
            if (k % 2) { in.clear(); for (auto &x : others[k / 2].list()) in.push_back(x.ten()); }
            OpResult rr;
            A.fill = fills[k % 3];
            guarded(rr, stage, [&]() { exec(op, in, *w, rr, stage, k % 4 < 2); });
            A.fill = -1;
            out.add(result_val(rr));
        }
        return out;
    }
    for (int k = 0; k < (mode ? 3 : 1); ++k) {
        OpResult r; Stage stage; stage.name = "create";
        A.fill = fills[k];
        guarded(r, stage, [&]() {
            Operator::shared op = first;
            if (k != 2 || !first) {
                op = make_op(name, params);
                stage.name = "init";
                op->init();
                if (k == 0) first = op;
            }
            std::vector<std::pair<std::string, Tensor>> ps;
            std::string pb;
            for (auto &p : op->params()) { rpc::encode(pb, Val::Str(p.first)); rpc::encode(pb, Val::Ten(p.second)); }
            exec(op, inputs, *w, r, stage, k != 1);
            std::string pa;
            for (auto &p : op->params()) { rpc::encode(pa, Val::Str(p.first)); rpc::encode(pa, Val::Ten(p.second)); }
            r.params_modified = pa != pb;
        });
        A.fill = -1;
        r.inputs_modified = blob(inputs) != before;
        if (r.status != "ok") first = nullptr;
        out.add(result_val(r));
    }
    return out;
}

// ---------------------------------------------------------------- handle table
struct Obj {
    Module::shared module;
    Workbench::shared bench;
    Program::shared program;
    ImageFilter::shared filter;
    Operator::shared op;
    std::shared_ptr<Tensor> tensor;
};
std::map<int64_t, Obj> g_obj;
int64_t g_next = 1;
Val keep(const Obj &o) { auto id = g_next++; g_obj[id] = o; return Val::Int(id); }
Obj &obj(const Val &v) {
    auto it = g_obj.find(v.integer());
    if (it == g_obj.end()) throw std::runtime_error("rpc: no such handle");
    return it->second;
}
template<typename T> T &nn(T &p) { if (!p) throw std::runtime_error("rpc: wrong handle kind"); return p; }

// graph spec: [nodes, outputs, input-order] ; node: [kind, name, op, params, inputs]
struct Built { Graph graph; std::vector<Node> nodes; std::vector<Node> outputs; };
void build_graph(const Val &nodes, const Val &outputs, Built &b) {
    ctx::bind<Graph> bind_graph(b.graph);
    for (auto &n : nodes.list()) {
        auto kind = n.at(0).str();
        auto name = n.at(1).str();
        if (kind == "p") {
            auto node = bubble::param(name);
            for (auto &p : n.at(3).list()) {
                if (p.at(0).str() == "#shape") node->shape(Shape(tensor::array::to_int(p.at(1).ten())));
                else if (p.at(0).str() == "#dtype") node->dtype(DTYPE(tensor::to_int(p.at(1).ten())));
                else node->set(p.at(0).str(), p.at(1).ten());
            }
            b.nodes.push_back(node);
        } else if (kind == "c") {
            b.nodes.push_back(bubble::data(name, n.at(3).at(0).at(1).ten()));
        } else {
            std::vector<Node> in;
            for (auto &i : n.at(4).list()) in.push_back(b.nodes.at(size_t(i.integer())));
            auto node = bubble::op(name, n.at(2).str(), in);
            for (auto &p : n.at(3).list()) node->set(p.at(0).str(), p.at(1).ten());
            b.nodes.push_back(node);
        }
    }
    for (auto &o : outputs.list()) b.outputs.push_back(b.nodes.at(size_t(o.integer())));
}

Val do_module_new(const Val &q) {
    Built b;
    build_graph(q.at(1), q.at(2), b);
    auto m = std::make_shared<Module>();
    m->load(b.graph, b.outputs);
    if (!q.at(3).none()) {
        std::vector<std::string> names;
        for (auto &x : q.at(3).list()) names.push_back(x.str());
        m->sort_inputs(names);
    }
    Obj o; o.module = m;
    return keep(o);
}

Val do_module_bytes(const Val &q) {
    auto m = nn(obj(q.at(1)).module);
    StringStreamWriter w;
    Module::Save(w, m);
    return Val::Str(w.str());
}

// A reader that delivers at most `chunk` bytes per call and counts what it delivered.
struct ChunkReader : public StreamReader {
    std::string data; size_t pos = 0, chunk = 0;
    size_t read(void *buffer, size_t size) override {
        size_t n = std::min(size, data.size() - pos);
        if (chunk) n = std::min(n, chunk);
        if (n) std::memcpy(buffer, data.data() + pos, n);
        pos += n;
        return n;
    }
};

Val do_module_load(const Val &q) {
    ChunkReader r; r.data = q.at(1).str();
    if (q.size() > 2) r.chunk = size_t(q.at(2).integer());
    Obj o; o.module = Module::Load(r);
    Val v = Val::List();
    v.add(keep(o)).add(Val::Int(int64_t(r.pos)));
    return v;
}
Val do_module_load_many(const Val &q) {  // bytes, count, chunk
    ChunkReader r; r.data = q.at(1).str(); r.chunk = size_t(q.at(3).integer());
    Val v = Val::List();
    for (int64_t k = 0; k < q.at(2).integer(); ++k) {
        Obj o; o.module = Module::Load(r);
        Val e = Val::List();
        e.add(keep(o)).add(Val::Int(int64_t(r.pos)));
        v.add(e);
    }
    return v;
}
struct ChunkReaderV2 : public StreamReaderV2 {
    std::string data; size_t pos = 0, chunk = 0, rewinds = 0;
    size_t read(void *buffer, size_t size) override {
        size_t n = std::min(size, data.size() - pos);
        if (chunk) n = std::min(n, chunk);
        if (n) std::memcpy(buffer, data.data() + pos, n);
        pos += n;
        return n;
    }
    void rewind() override { pos = 0; ++rewinds; }
};
Val do_module_load_v2(const Val &q) {
    ChunkReaderV2 r; r.data = q.at(1).str();
    if (q.size() > 2) r.chunk = size_t(q.at(2).integer());
    Obj o; o.module = Module::LoadV2(r, nullptr, 0);
    Val v = Val::List();
    v.add(keep(o)).add(Val::Int(int64_t(r.pos)));
    return v;
}
Val do_module_load_file_v2(const Val &q) {
    Obj o; o.module = Module::LoadV2(q.at(1).str(), nullptr, 0);
    return keep(o);
}

Val do_module_load_file(const Val &q) {
    Obj o; o.module = Module::Load(q.at(1).str());
    return keep(o);
}
Val do_module_save_file(const Val &q) {
    Module::Save(q.at(2).str(), nn(obj(q.at(1)).module));
    return Val();
}

// Description of nodes for structural comparison.
Val desc_nodes(const std::vector<std::pair<Node, int>> &refs, std::unordered_map<Node, int64_t> &index) {
    Val nodes = Val::List();
    for (auto &rn : refs) { auto k = int64_t(index.size()); index[rn.first] = k; }
    for (auto &rn : refs) {
        auto &b = rn.first.bubble();
        Val n = Val::List();
        n.add(Val::Str(b.op())).add(Val::Str(b.name())).add(Val::Int(rn.second));
        std::map<std::string, Tensor> ps(b.params().begin(), b.params().end());
        Val pv = Val::List();
        for (auto &p : ps) { Val e = Val::List(); e.add(Val::Str(p.first)).add(Val::Ten(p.second)); pv.add(e); }
        n.add(pv);
        Val iv = Val::List();
        for (auto &i : rn.first.inputs()) iv.add(Val::Int(index.count(i) ? index[i] : -1));
        n.add(iv);
        Val sv = Val::List();
        for (auto x : b.shape()) sv.add(Val::Int(x));
        n.add(sv).add(Val::Int(b.dtype()));
        Val ov = Val::List();
        for (auto &i : rn.first.outputs()) ov.add(Val::Int(index.count(i) ? index[i] : -1));
        n.add(ov);
        nodes.add(n);
    }
    return nodes;
}
Val do_module_desc(const Val &q) {
    auto m = nn(obj(q.at(1)).module);
    auto refs = Module::list_reference_nodes(m->outputs());
    std::unordered_set<Node> have;
    for (auto &rn : refs) have.insert(rn.first);
    for (auto &i : m->inputs()) if (have.insert(i).second) refs.push_back(std::make_pair(i, 0));
    std::unordered_map<Node, int64_t> index;
    Val nodes = desc_nodes(refs, index);
    Val ins = Val::List(), outs = Val::List(), idx = Val::List();
    for (auto &i : m->inputs()) { ins.add(Val::Str(i.bubble().name())); idx.add(Val::Int(index[i])); }
    for (auto &o : m->outputs()) outs.add(Val::Int(index.count(o) ? index[o] : -1));
    Val v = Val::List();
    v.add(nodes).add(ins).add(outs).add(idx);
    return v;
}
// graphs through one stream: [[nodes...]...], chunk -> [bytes, [written], [[consumed, returned, nodes]]]
Val do_graph_roundtrip(const Val &q) {
    StringStreamWriter w;
    Val v = Val::List(), wrote = Val::List(), back = Val::List();
    Val none = Val::List();
    for (auto &g : q.at(1).list()) {
        Built b;
        build_graph(g, none, b);
        wrote.add(Val::Int(int64_t(serialize_graph(w, b.graph))));
    }
    ChunkReader r; r.data = w.str(); r.chunk = size_t(q.at(2).integer());
    for (size_t k = 0; k < q.at(1).size(); ++k) {
        Graph g;
        auto n = externalize_graph(r, g);
        std::vector<std::pair<Node, int>> refs;
        for (auto &x : g.nodes()) refs.push_back(std::make_pair(x, 0));
        std::unordered_map<Node, int64_t> index;
        Val e = Val::List();
        e.add(Val::Int(int64_t(r.pos))).add(Val::Int(int64_t(n))).add(desc_nodes(refs, index));
        back.add(e);
    }
    v.add(Val::Str(w.str())).add(wrote).add(back);
    return v;
}
Val do_tensor_file(const Val &q) {  // path, tensor -> tensor read back
    tensor::save(q.at(1).str(), q.at(2).ten());
    return Val::Ten(tensor::load(q.at(1).str()));
}
Val do_header(const Val &q) {  // fake, code, data -> bytes, written, fake, code, data, returned
    Header h; h.fake = uint32_t(q.at(1).integer()); h.code = uint32_t(q.at(2).integer());
    auto d = q.at(3).str();
    std::copy(d.begin(), d.begin() + std::min(d.size(), h.data.size()), h.data.begin());
    StringStreamWriter w;
    auto n = h.serialize(w);
    ChunkReader r; r.data = w.str();
    Header k; k.fake = 77; k.code = 78; k.data.fill(79);
    auto m = k.externalize(r);
    Val v = Val::List();
    v.add(Val::Str(w.str())).add(Val::Int(int64_t(n))).add(Val::Int(int64_t(m))).add(Val::Int(k.fake)).add(Val::Int(k.code))
     .add(Val::Str(std::string(k.data.begin(), k.data.end())));
    return v;
}

Val do_fusion(const Val &q) {
    std::vector<Module::shared> ms;
    for (auto &x : q.at(1).list()) ms.push_back(nn(obj(x).module));
    std::vector<Module::Route> rs;
    for (auto &x : q.at(2).list()) {
        rs.push_back(Module::Route(int(x.at(0).integer()), int(x.at(1).integer()), int(x.at(2).integer()), int(x.at(3).integer())));
    }
    Obj o; o.module = Module::Fusion(ms, rs);
    return keep(o);
}

Val do_wb_new(const Val &q) {  // module, options, threads
    Obj o;
    auto m = nn(obj(q.at(1)).module);
    int threads = int(q.at(3).integer());
    o.bench = std::make_shared<Workbench>(ComputingDevice(CPU, 0), threads);
    o.bench->setup(o.bench->compile(m, q.at(2).str()));
    return keep(o);
}
Val do_wb_load(const Val &q) {  // module, options : the static loader
    Obj o;
    o.bench = Workbench::Load(nn(obj(q.at(1)).module), ComputingDevice(CPU, 0), q.at(2).str());
    return keep(o);
}
Val do_wb_empty(const Val &q) {
    Obj o; o.bench = std::make_shared<Workbench>(ComputingDevice(CPU, 0), int(q.at(1).integer()));
    return keep(o);
}
Val do_prog_new(const Val &q) {  // bench, module, options
    Obj o; o.program = nn(obj(q.at(1)).bench)->compile(nn(obj(q.at(2)).module), q.at(3).str());
    return keep(o);
}
Val do_prog_clone(const Val &q) { Obj o; o.program = nn(obj(q.at(1)).program)->clone(); return keep(o); }
Val do_wb_setup(const Val &q) { nn(obj(q.at(1)).bench)->setup(nn(obj(q.at(2)).program)); return Val(); }
Val do_wb_launch(const Val &q) {  // bench, program, args(list of tensors or list of [name,tensor])
    auto b = nn(obj(q.at(1)).bench);
    auto p = nn(obj(q.at(2)).program);
    std::vector<Tensor> res;
    if (q.at(3).size() && q.at(3).at(0).tag == 'l') {
        std::map<std::string, Tensor> args;
        for (auto &x : q.at(3).list()) args[x.at(0).str()] = x.at(1).ten();
        res = b->launch_offline(p, args);
    } else {
        std::vector<Tensor> args;
        for (auto &x : q.at(3).list()) args.push_back(x.ten());
        res = b->launch_offline(p, args);
    }
    Val v = Val::List();
    for (auto &t : res) v.add(Val::Ten(t));
    return v;
}
Val do_wb_clone(const Val &q) { Obj o; o.bench = nn(obj(q.at(1)).bench)->clone(); return keep(o); }
Val do_wb_input(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    Tensor t = q.at(3).tag == 'i' ? *nn(obj(q.at(3)).tensor) : q.at(3).ten();
    if (q.at(2).tag == 's') b->input(q.at(2).str(), t); else b->input(int(q.at(2).integer()), t);
    return Val();
}
Val do_wb_get_input(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    return Val::Ten(q.at(2).tag == 's' ? b->input(q.at(2).str()) : b->input(int(q.at(2).integer())));
}
Val do_wb_run(const Val &q) { nn(obj(q.at(1)).bench)->run(); return Val(); }
Val do_wb_output(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    const Tensor &t = q.at(2).tag == 's' ? b->output(q.at(2).str()) : b->output(int(q.at(2).integer()));
    return Val::Ten(t);
}
Val do_wb_hold(const Val &q) {  // keep a handle on an output tensor (no copy)
    auto b = nn(obj(q.at(1)).bench);
    Obj o; o.tensor = std::make_shared<Tensor>(q.at(2).tag == 's' ? b->output(q.at(2).str()) : b->output(int(q.at(2).integer())));
    return keep(o);
}
Val do_tensor_keep(const Val &q) { Obj o; o.tensor = std::make_shared<Tensor>(q.at(1).ten()); return keep(o); }
Val do_tensor_get(const Val &q) { return Val::Ten(*nn(obj(q.at(1)).tensor)); }
Val do_wb_counts(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    Val v = Val::List();
    v.add(Val::Int(b->input_count())).add(Val::Int(b->output_count())).add(Val::Int(int64_t(b->stack().size())))
     .add(Val::Int(b->runtime().get_computing_thread_number()));
    return v;
}
Val do_wb_filter(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    ImageFilter::shared f = q.at(3).none() ? nullptr : nn(obj(q.at(3)).filter);
    if (q.at(2).tag == 's') b->bind_filter(q.at(2).str(), f); else b->bind_filter(int(q.at(2).integer()), f);
    return Val();
}
Val do_wb_hook(const Val &q) {
    auto b = nn(obj(q.at(1)).bench);
    std::vector<std::string> names;
    for (auto &x : q.at(2).list()) names.push_back(x.str());
    b->run_hook(names);
    Val v = Val::List();
    for (auto &n : names) { try { v.add(Val::Ten(b->output(n))); } catch (const Exception &e) { v.add(Val::Str(e.what())); } }
    return v;
}
Val do_wb_param(const Val &q) {
    nn(obj(q.at(1)).bench)->set_operator_param(q.at(2).str(), q.at(3).str(), q.at(4).ten());
    return Val();
}
Val do_wb_op(const Val &q) {  // bench, op, params, inputs, infer first -> outputs : an operator of its own on this workbench
    auto b = nn(obj(q.at(1)).bench);
    Bubble bubble(q.at(2).str(), "alone");
    for (auto &p : q.at(3).list()) bubble.set(p.at(0).str(), p.at(1).ten());
    auto op = b->offline_create(bubble, true);
    if (!op) throw Exception("no such operator");
    std::vector<Tensor> in, res;
    for (auto &x : q.at(4).list()) in.push_back(x.ten());
    if (q.at(5).integer()) { std::vector<Tensor::Prototype> protos; b->offline_infer(op, in, protos); }
    b->offline_run(op, in, res);
    Val v = Val::List();
    for (auto &t : res) v.add(Val::Ten(t));
    return v;
}
Val do_wb_summary(const Val &q) { return Val::Str(nn(obj(q.at(1)).bench)->summary()); }
Val do_wb_threads(const Val &q) { nn(obj(q.at(1)).bench)->runtime().set_computing_thread_number(int(q.at(2).integer())); return Val(); }

Val do_filter_new(const Val &q) { (void) q; Obj o; o.filter = std::make_shared<ImageFilter>(ComputingDevice(CPU, 0)); return keep(o); }
Val do_filter_step(const Val &q) {
    auto f = nn(obj(q.at(1)).filter);
    auto step = q.at(2).str();
    auto &a = q.at(3).list();
    auto I = [&](size_t i) { return int(a.at(i).integer()); };
    auto F = [&](size_t i) { return float(a.at(i).number()); };
    auto FL = [&](size_t i) { std::vector<float> v; for (auto &x : a.at(i).list()) v.push_back(float(x.number())); return v; };
    auto IL = [&](size_t i) { std::vector<int> v; for (auto &x : a.at(i).list()) v.push_back(int(x.integer())); return v; };
    using RM = ImageFilter::ResizeMethod;
    if (step == "to_float") f->to_float();
    else if (step == "to_chw") f->to_chw();
    else if (step == "scale") f->scale(F(0));
    else if (step == "sub_mean") f->sub_mean(FL(0));
    else if (step == "div_std") f->div_std(FL(0));
    else if (step == "resize") f->resize(I(0), I(1), RM(I(2)));
    else if (step == "resize_short") f->resize(I(0), RM(I(1)));
    else if (step == "center_crop1") f->center_crop(I(0));
    else if (step == "center_crop") f->center_crop(I(0), I(1));
    else if (step == "channel_swap") f->channel_swap(IL(0));
    else if (step == "prewhiten") f->prewhiten();
    else if (step == "letterbox") f->letterbox(I(0), I(1), F(2), RM(I(3)));
    else if (step == "divided") f->divided(I(0), I(1), F(2));
    else if (step == "force_color") f->force_color();
    else if (step == "force_gray") { if (a.empty()) f->force_gray(); else f->force_gray(FL(0)); }
    else if (step == "norm_image") f->norm_image(F(0));
    else if (step == "clear") f->clear();
    else if (step == "compile") f->compile();
    else throw std::runtime_error("rpc: unknown filter step");
    return Val();
}
Val do_filter_clone(const Val &q) { Obj o; o.filter = nn(obj(q.at(1)).filter)->clone(); return keep(o); }
Val do_filter_module(const Val &q) { Obj o; o.module = nn(obj(q.at(1)).filter)->module(); return keep(o); }
Val do_filter_run(const Val &q) {  // filter, image, threads
    auto w = bench_for(int(q.at(3).integer()));
    ctx::bind<Workbench> bw(*w);
    Bound bound(*w);
    return Val::Ten(nn(obj(q.at(1)).filter)->run(q.at(2).ten()));
}

Val do_free(const Val &q) { for (size_t i = 1; i < q.size(); ++i) g_obj.erase(q.at(i).integer()); return Val(); }
Val do_reset(const Val &q) { (void) q; g_obj.clear(); return Val(); }

Val do_infer_static(const Val &q) {  // nodes, outputs -> protos of each output
    Built b;
    build_graph(q.at(1), q.at(2), b);
    std::unordered_map<Node, TensorPrototype> cache;
    Val v = Val::List();
    for (auto &o : b.outputs) {
        auto p = infer(o, cache);
        Val e = Val::List();
        if (p.packed()) for (auto &f : p.unpack()) e.add(proto_val(f));
        else e.add(proto_val(p));
        v.add(e);
    }
    return v;
}

// ---------------------------------------------------------------- tensors
Val do_tensor_bytes(const Val &q) {
    StringStreamWriter w;
    Val v = Val::List();
    int64_t total = 0;
    for (auto &x : q.at(1).list()) total += int64_t(x.ten().serialize(w));
    v.add(Val::Str(w.str())).add(Val::Int(total));
    return v;
}
Val do_tensor_parse(const Val &q) {  // bytes, count, chunk -> tensors, consumed per tensor
    ChunkReader r; r.data = q.at(1).str(); r.chunk = size_t(q.at(3).integer());
    Val ts = Val::List(), used = Val::List(), rets = Val::List();
    Tensor used_before(INT16, {3, 2});
    for (int64_t k = 0; k < q.at(2).integer(); ++k) {
        // every other one is read into an object that has been used
        Tensor fresh, &t = k % 2 ? fresh : used_before;
        auto ret = t.externalize(r);
        ts.add(Val::Ten(t)); used.add(Val::Int(int64_t(r.pos))); rets.add(Val::Int(int64_t(ret)));
    }
    Val v = Val::List();
    v.add(ts).add(used).add(rets);
    return v;
}
Val do_bubble_roundtrip(const Val &q) {  // op, name, params -> bytes, op, name, params
    Bubble b(q.at(1).str(), q.at(2).str());
    for (auto &p : q.at(3).list()) b.set(p.at(0).str(), p.at(1).ten());
    StringStreamWriter w;
    auto n = b.serialize(w);
    ChunkReader r; r.data = w.str();
    // reading replaces whatever the object was
    Bubble c;
    if (q.size() > 4) {
        c = Bubble(q.at(4).str(), q.at(5).str());
        for (auto &p : q.at(6).list()) c.set(p.at(0).str(), p.at(1).ten());
    }
    auto m = c.externalize(r);
    Val ps = Val::List();
    std::map<std::string, Tensor> sorted(c.params().begin(), c.params().end());
    for (auto &p : sorted) { Val e = Val::List(); e.add(Val::Str(p.first)).add(Val::Ten(p.second)); ps.add(e); }
    Val orig = Val::List();
    std::map<std::string, Tensor> sorted2(b.params().begin(), b.params().end());
    for (auto &p : sorted2) { Val e = Val::List(); e.add(Val::Str(p.first)).add(Val::Ten(p.second)); orig.add(e); }
    Val v = Val::List();
    v.add(Val::Str(w.str())).add(Val::Int(int64_t(n))).add(Val::Int(int64_t(m))).add(Val::Str(c.op())).add(Val::Str(c.name())).add(ps).add(orig)
     .add(Val::Int(int64_t(r.pos)));
    Val shape = Val::List();
    for (auto x : c.shape()) shape.add(Val::Int(x));
    v.add(shape).add(Val::Int(int64_t(c.dtype())));
    return v;
}
Val do_cast(const Val &q) { return Val::Ten(tensor::cast(DTYPE(q.at(2).integer()), q.at(1).ten())); }
Val do_scalar(const Val &q) {  // all typed accessors on a tensor
    auto &t = q.at(1).ten();
    auto kind = q.at(2).str();
    if (kind == "int") return Val::Int(tensor::to_int(t));
    if (kind == "uint") return Val::Int(int64_t(tensor::to_uint(t)));
    if (kind == "float") return Val::Float(tensor::to_float(t));
    if (kind == "double") return Val::Float(tensor::to_double(t));
    if (kind == "bool") return Val::Int(tensor::to_bool(t) ? 1 : 0);
    if (kind == "string") return Val::Str(tensor::to_string(t));
    Val v = Val::List();
    if (kind == "ints") { for (auto x : tensor::array::to_int(t)) v.add(Val::Int(x)); return v; }
    if (kind == "uints") { for (auto x : tensor::array::to_uint(t)) v.add(Val::Int(int64_t(x))); return v; }
    if (kind == "floats") { for (auto x : tensor::array::to_float(t)) v.add(Val::Float(x)); return v; }
    if (kind == "doubles") { for (auto x : tensor::array::to_double(t)) v.add(Val::Float(x)); return v; }
    if (kind == "bools") { for (auto x : tensor::array::to_bool(t)) v.add(Val::Int(x ? 1 : 0)); return v; }
    throw std::runtime_error("rpc: unknown accessor");
}
Val do_reshape(const Val &q) {
    std::vector<int32_t> sh;
    for (auto &x : q.at(2).list()) sh.push_back(int32_t(x.integer()));
    return Val::Ten(q.at(1).ten().reshape(Shape(sh.begin(), sh.end())));
}

Val do_alloc_stats(const Val &q) {
    (void) q;
    auto &a = rpc::Alloc::me();
    Val v = Val::List();
    v.add(Val::Int(int64_t(a.live_bytes.load()))).add(Val::Int(int64_t(a.live_blocks.load()))).add(Val::Int(int64_t(a.total_blocks.load())))
     .add(Val::Int(int64_t(a.bad.load()))).add(Val::Int(int64_t(a.max_request.exchange(0))));
    return v;
}
Val do_alloc_limit(const Val &q) { rpc::Alloc::me().limit = uint64_t(q.at(1).integer()); return Val(); }
Val do_ops(const Val &q) {
    (void) q;
    Val v = Val::List();
    for (auto &kv : OperatorCreator::GetCreatorFucMap()) if (kv.first.first == CPU) v.add(Val::Str(kv.first.second));
    return v;
}

}  // namespace

int main(int argc, char **argv) {
    rpc::Alloc::install();
    std::map<std::string, rpc::Handler> h;
    h["op_seq"] = do_op_seq;
    h["op"] = do_op; h["module_new"] = do_module_new; h["module_bytes"] = do_module_bytes; h["module_load"] = do_module_load;
    h["module_load_many"] = do_module_load_many; h["module_load_v2"] = do_module_load_v2; h["module_load_file_v2"] = do_module_load_file_v2;
    h["graph_roundtrip"] = do_graph_roundtrip; h["tensor_file"] = do_tensor_file; h["header"] = do_header;
    h["module_load_file"] = do_module_load_file; h["module_save_file"] = do_module_save_file; h["module_desc"] = do_module_desc;
    h["fusion"] = do_fusion;
    h["wb_new"] = do_wb_new; h["wb_load"] = do_wb_load; h["wb_empty"] = do_wb_empty; h["prog_new"] = do_prog_new; h["prog_clone"] = do_prog_clone;
    h["wb_setup"] = do_wb_setup; h["wb_launch"] = do_wb_launch; h["wb_clone"] = do_wb_clone; h["wb_input"] = do_wb_input;
    h["wb_get_input"] = do_wb_get_input; h["wb_run"] = do_wb_run; h["wb_output"] = do_wb_output; h["wb_hold"] = do_wb_hold;
    h["tensor_keep"] = do_tensor_keep; h["tensor_get"] = do_tensor_get; h["wb_counts"] = do_wb_counts; h["wb_filter"] = do_wb_filter;
    h["wb_hook"] = do_wb_hook; h["wb_param"] = do_wb_param; h["wb_summary"] = do_wb_summary; h["wb_op"] = do_wb_op; h["wb_threads"] = do_wb_threads;
    h["filter_new"] = do_filter_new; h["filter_step"] = do_filter_step; h["filter_clone"] = do_filter_clone; h["filter_module"] = do_filter_module; h["filter_run"] = do_filter_run;
    h["free"] = do_free; h["reset"] = do_reset; h["infer_static"] = do_infer_static;
    h["tensor_bytes"] = do_tensor_bytes; h["tensor_parse"] = do_tensor_parse; h["bubble_roundtrip"] = do_bubble_roundtrip;
    h["cast"] = do_cast; h["scalar"] = do_scalar; h["reshape"] = do_reshape;
    h["probe_runs"] = [](const Val &) { return Val::Int(g_probe_runs.exchange(0)); };
    h["alloc_stats"] = do_alloc_stats; h["alloc_limit"] = do_alloc_limit; h["ops"] = do_ops;
    return rpc::serve(argc, argv, h);
}
