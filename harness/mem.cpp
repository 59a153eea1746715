// Execution server for memory controllers, hard memory and tensor handles.
#include "rpc.h"

#include "core/controller.h"
#include "core/sync/sync_controller.h"
#include "core/tensor_builder.h"
#include "memory/flow.h"
#include "memory/orz/vat.h"
#include "global/hard_converter.h"
#include "global/memory_device.h"
#include "kernels/cpu/memory_cpu.h"
#include "runtime/workbench.h"
#include "module/io/sstream.h"

using namespace ts;
using rpc::Val;

namespace {

// A second kind of device.  Its memory is ordinary memory, but it is only reachable through what
// is registered here, and everything is logged.
struct Log {
    std::mutex m;
    std::map<std::pair<int, char *>, size_t> blocks;     // (device id, address) -> size
    uint64_t bad = 0, total = 0, copies = 0;
    uint64_t limit = uint64_t(1) << 32;
    void *get(int id, size_t n) {
        if (n > limit) throw OutOfMemoryException(MemoryDevice("verif", id), n);
        auto p = static_cast<char *>(std::malloc(n));
        std::memset(p, 0xA7, n);
        std::lock_guard<std::mutex> g(m);
        blocks[{id, p}] = n; ++total;
        return p;
    }
    void put(int id, void *p) {
        if (!p) return;
        std::lock_guard<std::mutex> g(m);
        auto it = blocks.find({id, static_cast<char *>(p)});
        if (it == blocks.end()) { ++bad; return; }
        std::memset(p, 0x5B, it->second);
        blocks.erase(it);
        std::free(p);
    }
    void inside(int id, const void *p, size_t n) {
        if (!n) return;
        std::lock_guard<std::mutex> g(m);
        auto it = blocks.upper_bound({id, static_cast<char *>(const_cast<void *>(p))});
        if (it == blocks.begin()) { ++bad; return; }
        --it;
        if (it->first.first != id || static_cast<const char *>(p) + n > it->first.second + it->second) ++bad;
    }
    uint64_t bytes() { uint64_t s = 0; for (auto &b : blocks) s += b.second; return s; }
};
Log logs[2];      // of the device types verif and verif2
const char *const TYPES[] = {"cpu", "verif", "verif2"};

void devices() {
    for (int k = 0; k < 2; ++k) {
        auto l = &logs[k];
        auto type = DeviceType(TYPES[k + 1]);
        HardConverter::Register(type, type, [l](int d, void *dst, int s, const void *src, size_t n) { l->inside(d, dst, n); l->inside(s, src, n); ++l->copies; if (n) std::memcpy(dst, src, n); });
        HardConverter::Register(type, CPU, [l](int d, void *dst, int, const void *src, size_t n) { l->inside(d, dst, n); ++l->copies; if (n) std::memcpy(dst, src, n); });
        HardConverter::Register(CPU, type, [l](int, void *dst, int s, const void *src, size_t n) { l->inside(s, src, n); ++l->copies; if (n) std::memcpy(dst, src, n); });
        auto get = [l](int id, size_t n) { return l->get(id, n); };
        auto put = [l](int id, void *p) { l->put(id, p); };
        if (k == 0) HardAllocator::RegisterV3(type, get, put, [l](int id, size_t n, void *mem, size_t old) {
            auto p = l->get(id, n);
            l->inside(id, mem, old);
            std::memcpy(p, mem, std::min(n, old));
            l->put(id, mem);
            return p;
        });
        else HardAllocator::RegisterV2(type, get, put);
    }
    HardConverter::Register("verif", "verif2", [](int d, void *dst, int s, const void *src, size_t n) { logs[0].inside(d, dst, n); logs[1].inside(s, src, n); if (n) std::memcpy(dst, src, n); });
    HardConverter::Register("verif2", "verif", [](int d, void *dst, int s, const void *src, size_t n) { logs[1].inside(d, dst, n); logs[0].inside(s, src, n); if (n) std::memcpy(dst, src, n); });
}

// device code: 0 cpu, 1 verif:0, 2 verif:1, 3 verif2:0
MemoryDevice device(int64_t k) { return k == 0 ? MemoryDevice(CPU) : k == 3 ? MemoryDevice("verif2", 0) : MemoryDevice("verif", int(k - 1)); }
int64_t code(const MemoryDevice &d) {
    for (int k = 0; k < 4; ++k) if (d == device(k)) return k;
    return -1;
}

template<typename F>
Val guarded(F f) {
    Val r = Val::List();
    try { f(); r.add(Val::Str("ok")).add(Val::Str("")); }
    catch (const Exception &e) { r.add(Val::Str("ts")).add(Val::Str(e.what())); }
    catch (const std::exception &e) { r.add(Val::Str("std")).add(Val::Str(e.what())); }
    return r;
}

unsigned char pattern(int64_t seed, size_t i) { return static_cast<unsigned char>(seed * 31 + i * 7 + (i >> 8)); }
void fill(void *p, size_t n, int64_t seed) { auto c = static_cast<unsigned char *>(p); for (size_t i = 0; i < n; ++i) c[i] = pattern(seed, i); }
bool holds(const void *p, size_t n, int64_t seed) { auto c = static_cast<const unsigned char *>(p); for (size_t i = 0; i < n; ++i) if (c[i] != pattern(seed, i)) return false; return true; }

int64_t address(const void *p) { return int64_t(reinterpret_cast<uintptr_t>(p)); }

void usage(Val &r) {
    auto &a = rpc::Alloc::me();
    r.add(Val::Int(int64_t(a.live_bytes.load()))).add(Val::Int(int64_t(a.live_blocks.load())));
    uint64_t bytes = 0, blocks = 0, bad = a.bad;
    for (auto &l : logs) { bytes += l.bytes(); blocks += l.blocks.size(); bad += l.bad; }
    r.add(Val::Int(int64_t(bytes))).add(Val::Int(int64_t(blocks))).add(Val::Int(int64_t(bad)));
}

// --------------------------------------------------------------------------------------- blocks
struct Record { int64_t seed = 0; };
struct Block {
    int64_t id;
    bool sync;
    Memory m;
    SyncMemory s;
    std::shared_ptr<Record> rec;
    Block(int64_t id, const Memory &m) : id(id), sync(false), m(m), rec(std::make_shared<Record>()) {}
    Block(int64_t id, const SyncMemory &s) : id(id), sync(true), s(s), rec(std::make_shared<Record>()) {}
    void *data() { return sync ? s.data() : m.data(); }
    size_t size() { return sync ? s.size() : m.size(); }
    const MemoryDevice &dev() { return sync ? s.device() : m.device(); }
};

struct Controller {
    MemoryController::shared plain;
    SyncMemoryController::shared sync;
};

// [operations] -> per operation [status, what, [[id, address, size, device, content ok, handles of the usage, summary]]], then what is live at the end
Val do_blocks(const Val &q) {
    Val before = Val::List(), after = Val::List(), res = Val::List();
    auto &cpu = rpc::Alloc::me();
    auto old_limit = cpu.limit.load();
    std::vector<int64_t> fired;
    usage(before);
    {
        std::map<int64_t, Controller> ctrl;
        std::map<int64_t, std::unique_ptr<Block>> live;
        auto at = [&](int64_t k) -> Block & { return *live.at(k); };
        for (auto &op : q.at(1).list()) {
            auto &name = op.at(0).str();
            auto arg = [&](size_t k) { return op.at(k).integer(); };
            auto fresh = [&](Block *b, int64_t seed) { b->rec->seed = seed; fill(b->data(), b->size(), seed); live[b->id].reset(b); };
            auto st = guarded([&]() {
                if (name == "ctrl") {
                    Controller c;
                    switch (arg(2)) {
                        case 0: c.plain = std::make_shared<DynamicMemoryController>(device(arg(3))); break;
                        case 1: c.plain = std::make_shared<VatMemoryController>(device(arg(3))); break;
                        case 2: c.sync = DynamicSyncMemoryController::Make(device(arg(3)), arg(4) != 0); break;
                        case 3: c.sync = HypeSyncMemoryController<FlowMemoryController>::Make(device(arg(3)), arg(4) != 0); break;
                        default: c.plain = std::make_shared<StackMemoryController>(device(arg(3)));
                    }
                    ctrl[arg(1)] = c;
                } else if (name == "cclone") { Controller c; c.sync = ctrl.at(arg(2)).sync->clone(); ctrl[arg(1)] = c; }
                else if (name == "cdrop") ctrl.erase(arg(1));
                else if (name == "summary") { auto &c = ctrl.at(arg(1)); if (c.sync) c.sync->summary(); else c.plain->summary(); }
                else if (name == "alloc") {
                    auto &c = ctrl.at(arg(2));
                    if (c.sync) fresh(new Block(arg(1), c.sync->alloc(size_t(arg(3)))), arg(4));
                    else fresh(new Block(arg(1), c.plain->alloc(size_t(arg(3)))), arg(4));
                } else if (name == "alloc_on") fresh(new Block(arg(1), ctrl.at(arg(2)).sync->alloc(device(arg(5)), size_t(arg(3)))), arg(4));
                else if (name == "memory") fresh(new Block(arg(1), Memory(device(arg(5)), size_t(arg(3)))), arg(4));
                else if (name == "copy" || name == "assign" || name == "move" || name == "weak") {
                    auto &b = at(arg(2));
                    std::unique_ptr<Block> n;
                    if (name == "copy") n.reset(b.sync ? new Block(arg(1), b.s) : new Block(arg(1), b.m));
                    else if (name == "assign") { if (b.sync) { n.reset(new Block(arg(1), SyncMemory(size_t(3)))); n->s = b.s; } else { n.reset(new Block(arg(1), Memory(size_t(3)))); n->m = b.m; } }
                    else if (name == "move") { if (b.sync) n.reset(new Block(arg(1), SyncMemory(std::move(b.s)))); else n.reset(new Block(arg(1), Memory(std::move(b.m)))); }
                    else n.reset(new Block(arg(1), b.sync ? b.s.weak_memory() : b.m.weak()));
                    n->rec = b.rec;
                    if (name == "move") live.erase(arg(2));
                    live[arg(1)] = std::move(n);
                } else if (name == "swap") {
                    auto &a = at(arg(1)); auto &b = at(arg(2));
                    if (a.sync) a.s.swap(b.s); else a.m.swap(b.m);
                    std::swap(a.rec, b.rec);
                } else if (name == "drop") live.erase(arg(1));
                else if (name == "write") { auto &b = at(arg(1)); b.rec->seed = arg(2); fill(b.data(), b.size(), arg(2)); }
                else if (name == "dtor") { auto id = arg(2); at(arg(1)).m.destructor([id, &fired]() { fired.push_back(id); }); }
                else if (name == "view") {
                    auto &b = at(arg(2));
                    std::unique_ptr<Block> n(new Block(arg(1), b.s.view(device(arg(3)))));
                    if (arg(4)) n->rec = at(arg(4)).rec; else n->rec->seed = arg(5);     // the content it has to show
                    live[arg(1)] = std::move(n);
                } else if (name == "broadcast") at(arg(1)).s.broadcast();
                else if (name == "memcpy") {      // dst src size
                    auto &d = at(arg(1)); auto &s = at(arg(2));
                    Memory to = d.sync ? d.s.weak_memory() : d.m, from = s.sync ? s.s.weak_memory() : s.m;
                    if (arg(3) < 0) ts::memcpy(to, from); else ts::memcpy(to, from, size_t(arg(3)));
                    std::vector<unsigned char> want(from.size());
                    auto n = arg(3) < 0 ? from.size() : size_t(arg(3));
                    if (n && std::memcmp(to.data(), from.data(), n) != 0) throw std::runtime_error("different after memcpy");
                    fill(d.data(), d.size(), d.rec->seed);
                } else if (name == "limit") { cpu.limit = uint64_t(arg(1)); for (auto &l : logs) l.limit = uint64_t(arg(1)); }
                else throw std::runtime_error("rpc: unknown memory operation");
            });
            Val all = Val::List();
            for (auto &pair : live) {
                auto &b = *pair.second;
                Val o = Val::List();
                o.add(Val::Int(b.id)).add(Val::Int(address(b.data()))).add(Val::Int(int64_t(b.size()))).add(Val::Int(code(b.dev())));
                o.add(Val::Int(holds(b.data(), b.size(), b.rec->seed))).add(Val::Int(b.sync ? -1 : b.m.use_count()));
                all.add(o);
            }
            st.add(all);
            Val f = Val::List();
            for (auto x : fired) f.add(Val::Int(x));
            st.add(f);
            usage(st);
            res.add(st);
        }
        cpu.limit = old_limit;
        for (auto &l : logs) l.limit = uint64_t(1) << 32;
        // drop what is left in the order asked for
        if (q.at(2).integer()) ctrl.clear();
        while (!live.empty()) {
            if (q.at(3).integer()) live.erase(std::prev(live.end())); else live.erase(live.begin());
        }
    }
    usage(after);
    Val r = Val::List(), f = Val::List();
    for (auto x : fired) f.add(Val::Int(x));
    r.add(res).add(before).add(after).add(f);
    return r;
}

// ---------------------------------------------------------------------------------- hard memory
// per operation [status, what, [[id, address, capacity, device, matching prefix]]]
Val do_hard(const Val &q) {
    Val before = Val::List(), after = Val::List(), res = Val::List();
    usage(before);
    auto &cpu = rpc::Alloc::me();
    auto old_limit = cpu.limit.load();
    {
        struct H { std::unique_ptr<HardMemory> h; int64_t seed = 0; std::vector<char> own; };
        std::map<int64_t, H> live;
        for (auto &op : q.at(1).list()) {
            auto &name = op.at(0).str();
            auto arg = [&](size_t k) { return op.at(k).integer(); };
            auto st = guarded([&]() {
                if (name == "new") {      // id device size allocator
                    H x;
                    auto d = device(arg(2));
                    switch (arg(4)) {
                        case 0: x.h.reset(new HardMemory(d, size_t(arg(3)))); break;
                        case 1: x.h.reset(new HardMemory(d)); x.h->resize(size_t(arg(3))); break;
                        case 2: x.h.reset(new HardMemory(d, HardAllocator::Query(d.type()), size_t(arg(3)))); break;
                        case 3: x.h.reset(new HardMemory(MemoryDevice(CPU), cpu_allocator, size_t(arg(3)))); break;
                        default: x.own.resize(size_t(arg(3)) + 1); x.h.reset(new HardMemory(MemoryDevice(CPU), x.own.data(), size_t(arg(3))));
                    }
                    live[arg(1)] = std::move(x);
                } else if (name == "fill") { auto &x = live.at(arg(1)); x.seed = arg(2); fill(x.h->data(), x.h->capacity(), x.seed); }
                else if (name == "expect") live.at(arg(1)).h->expect(size_t(arg(2)));
                else if (name == "shrink") live.at(arg(1)).h->shrink(size_t(arg(2)));
                else if (name == "resize") live.at(arg(1)).h->resize(size_t(arg(2)));
                else if (name == "dispose") live.at(arg(1)).h->dispose();
                else if (name == "drop") live.erase(arg(1));
                else if (name == "move") { auto &x = live.at(arg(2)); H n; n.h.reset(new HardMemory(std::move(*x.h))); n.seed = x.seed; n.own = std::move(x.own); live.erase(arg(2)); live[arg(1)] = std::move(n); }
                else if (name == "assign") { auto &a = live.at(arg(1)); auto &b = live.at(arg(2)); *a.h = std::move(*b.h); a.seed = b.seed; std::swap(a.own, b.own); live.erase(arg(2)); }
                else if (name == "swap") { auto &a = live.at(arg(1)); auto &b = live.at(arg(2)); a.h->swap(*b.h); std::swap(a.seed, b.seed); std::swap(a.own, b.own); }
                else if (name == "limit") { cpu.limit = uint64_t(arg(1)); for (auto &l : logs) l.limit = uint64_t(arg(1)); }
                else throw std::runtime_error("rpc: unknown hard memory operation");
            });
            Val all = Val::List();
            for (auto &pair : live) {
                auto &x = *pair.second.h;
                size_t n = 0;
                auto p = static_cast<const unsigned char *>(x.data());
                while (p && n < x.capacity() && p[n] == pattern(pair.second.seed, n)) ++n;
                Val o = Val::List();
                o.add(Val::Int(pair.first)).add(Val::Int(address(x.data()))).add(Val::Int(int64_t(x.capacity()))).add(Val::Int(code(x.device()))).add(Val::Int(int64_t(n)));
                all.add(o);
            }
            st.add(all);
            usage(st);
            res.add(st);
        }
        cpu.limit = old_limit;
        for (auto &l : logs) l.limit = uint64_t(1) << 32;
    }
    usage(after);
    Val r = Val::List();
    r.add(res).add(before).add(after);
    return r;
}

// ------------------------------------------------------------------------------------------ vat
Val do_vat(const Val &q) {
    Val res = Val::List();
    struct Own { std::map<void *, size_t> blocks; uint64_t total = 0, bad = 0, bytes = 0; };
    auto own = std::make_shared<Own>();
    auto get = [own](size_t n) -> std::shared_ptr<void> {
        auto p = std::malloc(n);
        own->blocks[p] = n; ++own->total; own->bytes += n;
        return std::shared_ptr<void>(p, [own](void *p) { auto it = own->blocks.find(p); if (it == own->blocks.end()) { ++own->bad; return; } own->bytes -= it->second; std::memset(p, 0x11, it->second); own->blocks.erase(it); std::free(p); });
    };
    {
        std::vector<std::unique_ptr<Vat>> vats;
        std::map<int64_t, std::pair<void *, std::pair<size_t, int64_t>>> live;
        for (auto &op : q.at(1).list()) {
            auto &name = op.at(0).str();
            auto arg = [&](size_t k) { return op.at(k).integer(); };
            auto st = guarded([&]() {
                if (name == "new") vats.emplace_back(new Vat(get));
                else if (name == "malloc") { auto p = vats.at(size_t(arg(1)))->malloc(size_t(arg(3))); fill(p, size_t(arg(3)), arg(4)); live[arg(2)] = {p, {size_t(arg(3)), arg(4)}}; }
                else if (name == "free") { auto p = live.at(arg(2)).first; live.erase(arg(2)); vats.at(size_t(arg(1)))->free(p); }
                else if (name == "free_bad") { int x; vats.at(size_t(arg(1)))->free(&x); }
                else if (name == "reset" || name == "dispose") { for (auto &k : op.at(2).list()) live.erase(k.integer()); if (name == "reset") vats.at(size_t(arg(1)))->reset(); else vats.at(size_t(arg(1)))->dispose(); }
                else if (name == "clean") vats.at(size_t(arg(1)))->clean();
                else if (name == "deprecated") vats.at(size_t(arg(1)))->deprecated();
                else if (name == "swap") vats.at(size_t(arg(1)))->swap(*vats.at(size_t(arg(2))));
                else if (name == "move") { std::unique_ptr<Vat> n(new Vat(std::move(*vats.at(size_t(arg(1)))))); vats.at(size_t(arg(1))) = std::move(n); }
                else if (name == "drop") { for (auto &k : op.at(2).list()) live.erase(k.integer()); vats.at(size_t(arg(1))).reset(); }
                else throw std::runtime_error("rpc: unknown vat operation");
            });
            Val all = Val::List();
            for (auto &x : live) { Val o = Val::List(); o.add(Val::Int(x.first)).add(Val::Int(address(x.second.first))).add(Val::Int(int64_t(x.second.second.first))).add(Val::Int(holds(x.second.first, x.second.second.first, x.second.second.second))); all.add(o); }
            Val sums = Val::List();
            for (auto &v : vats) sums.add(Val::Int(v ? int64_t(v->summary()) : -1));
            st.add(all).add(sums).add(Val::Int(int64_t(own->bytes)));
            res.add(st);
        }
    }
    Val r = Val::List();
    r.add(res).add(Val::Int(int64_t(own->bytes))).add(Val::Int(int64_t(own->bad))).add(Val::Int(int64_t(own->total)));
    return r;
}

// -------------------------------------------------------------------------------------- tensors
Val proto_val(const Tensor::Prototype &p) {
    Val o = Val::List();
    o.add(Val::Int(p.dtype()));
    Val s = Val::List();
    for (auto x : p.sizes()) s.add(Val::Int(x));
    o.add(s);
    return o;
}

Val observe(const Tensor &t) {
    Val fields = Val::List();
    auto n = t.fields_count();
    for (size_t k = 0; k < n; ++k) {
        Tensor f = k == 0 ? t : t.field(k);
        Val o = proto_val(f.proto());
        o.add(Val::Int(f.count())).add(Val::Int(address(f.data()))).add(Val::Int(code(f.device())));
        o.add(Val::Str(f.count() ? std::string(f.data<char>(), size_t(f.count()) * size_t(f.proto().type_bytes())) : std::string()));
        Val more = Val::List();
        more.add(Val::Int(int64_t(f.dims()))).add(Val::Int(f.has_empty_shape()));
        bool sizes = f.has_shape(f.sizes());
        for (size_t i = 0; i < f.dims(); ++i) sizes = sizes && f.size(i) == f.sizes()[i];
        more.add(Val::Int(sizes));
        o.add(more);
        fields.add(o);
    }
    Val r = Val::List();
    r.add(fields).add(Val::Int(t.packed())).add(Val::Int(t.empty()));
    TensorPrototype p(t);
    bool same = p.fields_count() == n;
    for (size_t k = 0; same && k < n; ++k) same = p.field(k) == t.field(k).proto();
    r.add(Val::Int(same));
    return r;
}

Shape shape_of(const Val &v) { Shape s; for (auto &x : v.list()) s.push_back(int32_t(x.integer())); return s; }

// [operations] -> per operation [status, what, extra, {handle: observation}]
Val do_tensors(const Val &q) {
    Val before = Val::List(), after = Val::List(), res = Val::List();
    usage(before);
    {
        Workbench bench(ComputingDevice(CPU, 0), 1);
        ctx::bind<Workbench> bind(bench);
        std::map<int64_t, Tensor> live;
        std::map<int64_t, Tensor::shared> keep;
        for (auto &op : q.at(1).list()) {
            auto &name = op.at(0).str();
            auto arg = [&](size_t k) { return op.at(k).integer(); };
            auto in = [&](size_t k) -> Tensor & { return live.at(arg(k)); };
            Val extra;
            auto st = guarded([&]() {
                if (name == "new") {      // to, how, device, tensor value
                    auto &v = op.at(4).ten();
                    auto dev = device(arg(3));
                    Tensor t;
                    switch (arg(2)) {
                        case 0: t = Tensor(dev, v.proto()); break;
                        case 1: t = Tensor(dev, v.dtype(), v.sizes()); break;
                        case 2: t = Tensor(std::make_shared<DynamicMemoryController>(dev), v.dtype(), v.sizes()); break;
                        case 3: t = Tensor(std::make_shared<VatMemoryController>(dev), v.proto()); break;
                        case 4: t = Tensor(HypeSyncMemoryController<FlowMemoryController>::Make(dev), v.proto()); break;
                        case 5: t = Tensor(DynamicSyncMemoryController::Make(MemoryDevice(CPU)), v.dtype(), v.sizes(), dev); break;
                        case 6: t = Tensor(Memory(dev, size_t(v.count()) * size_t(v.proto().type_bytes())), v.proto()); break;
                        case 7: t = Tensor(SyncMemory(dev, size_t(v.count()) * size_t(v.proto().type_bytes())), v.proto()); break;
                        case 8: t = Tensor(v.proto()); break;
                        case 9: t = Tensor(v.dtype(), v.sizes()); break;
                        case 10: t = Tensor(Tensor::InFlow::HOST, v.proto()); break;
                        case 11: t = Tensor(Tensor::InFlow::DEVICE, v.dtype(), v.sizes()); break;
                        default: t = Tensor();
                    }
                    if (v.count() && arg(2) != 12) std::memcpy(t.data(), v.data(), size_t(v.count()) * size_t(v.proto().type_bytes()));
                    live[arg(1)] = t;
                } else if (name == "copy") { Tensor t(in(2)); live[arg(1)] = t; }
                else if (name == "assign") { auto &s = in(2); live.at(arg(1)) = s; }
                else if (name == "move") { Tensor t(std::move(in(2))); live.erase(arg(2)); live[arg(1)] = std::move(t); }
                else if (name == "move_assign") { in(1) = std::move(in(2)); live.erase(arg(2)); }
                else if (name == "drop") { live.erase(arg(1)); }
                else if (name == "clone") {      // to, from, how, device
                    auto &s = in(2);
                    Tensor t;
                    switch (arg(3)) {
                        case 0: t = s.clone(); break;
                        case 1: t = s.clone(std::make_shared<DynamicMemoryController>(device(arg(4)))); break;
                        case 2: t = s.clone(std::make_shared<VatMemoryController>(device(arg(4)))); break;
                        case 3: t = s.clone(DynamicSyncMemoryController::Make(device(arg(4)))); break;
                        case 4: t = s.clone(HypeSyncMemoryController<FlowMemoryController>::Make(MemoryDevice(CPU)), device(arg(4))); break;
                        case 5: t = *s.clone_shared(); break;
                        case 6: t = *s.clone_shared(std::make_shared<DynamicMemoryController>(device(arg(4)))); break;
                        case 7: t = *s.clone_shared(DynamicSyncMemoryController::Make(device(arg(4)))); break;
                        default: t = *s.clone_shared(DynamicSyncMemoryController::Make(MemoryDevice(CPU)), device(arg(4)));
                    }
                    live[arg(1)] = t;
                } else if (name == "reshape") { Tensor t = in(2).reshape(shape_of(op.at(3))); live[arg(1)] = t; }
                else if (name == "flatten") { Tensor t = in(2).flatten(int(arg(3))); live[arg(1)] = t; }
                else if (name == "slice") { Tensor t = in(2).slice(int(arg(3))); live[arg(1)] = t; }
                else if (name == "slices") { Tensor t = in(2).slice(int(arg(3)), int(arg(4))); live[arg(1)] = t; }
                else if (name == "field") { Tensor t = arg(4) ? in(2).field(size_t(arg(3))) : in(2).field(int(arg(3))); live[arg(1)] = t; }
                else if (name == "set_field") { Tensor v = in(3); if (arg(4)) in(1).field(size_t(arg(2)), v); else in(1).field(int(arg(2)), v); }
                else if (name == "pack") {      // to, how, from...
                    std::vector<Tensor> fs;
                    for (auto &k : op.at(3).list()) fs.push_back(live.at(k.integer()));
                    if (arg(2)) live[arg(1)] = Tensor::Pack(fs); else live.at(arg(1)).pack(fs);
                } else if (name == "unpack") { auto fs = in(2).unpack(); Tensor t = fs.at(size_t(arg(3))); live[arg(1)] = t; }
                else if (name == "refield") in(1).refield(size_t(arg(2)));
                else if (name == "view") { Tensor t = in(2).view(device(arg(3))); live[arg(1)] = t; }
                else if (name == "view_flow") { Tensor t = in(2).view(arg(3) ? Tensor::InFlow::DEVICE : Tensor::InFlow::HOST); live[arg(1)] = t; }
                else if (name == "broadcast") in(1).broadcast();
                else if (name == "weak") { Tensor t = in(2).weak(); live[arg(1)] = t; }
                else if (name == "strong") { Tensor t = in(2).strong(); live[arg(1)] = t; }
                else if (name == "write") {      // handle, field, element, byte value
                    Tensor f = in(1).field(size_t(arg(2)));
                    auto w = size_t(f.proto().type_bytes());
                    std::memset(f.data<char>() + size_t(arg(3)) * w, int(arg(4)), w);
                } else if (name == "serialize") {
                    StringStreamWriter w;
                    auto n = in(2).serialize(w);
                    auto bytes = w.str();
                    StringStreamReader r(bytes);
                    Tensor t;
                    auto m = t.externalize(r);
                    extra = Val::List();
                    extra.add(Val::Int(int64_t(n))).add(Val::Int(int64_t(m))).add(Val::Int(int64_t(bytes.size())));
                    live[arg(1)] = t;
                } else if (name == "has_shape") {
                    extra = Val::List();
                    auto s = shape_of(op.at(2));
                    auto &t = in(1);
                    extra.add(Val::Int(t.has_shape(s)));
                    switch (s.size()) {
                        case 1: extra.add(Val::Int(t.has_shape(s[0]))); break;
                        case 2: extra.add(Val::Int(t.has_shape(s[0], s[1]))); extra.add(Val::Int(t.has_shape({s[0], s[1]}))); break;
                        case 3: extra.add(Val::Int(t.has_shape(s[0], s[1], s[2]))); break;
                        case 4: extra.add(Val::Int(t.has_shape(s[0], s[1], s[2], s[3]))); break;
                        case 5: extra.add(Val::Int(t.has_shape(s[0], s[1], s[2], s[3], s[4]))); break;
                        case 6: extra.add(Val::Int(t.has_shape(s[0], s[1], s[2], s[3], s[4], s[5]))); break;
                        case 7: extra.add(Val::Int(t.has_shape(s[0], s[1], s[2], s[3], s[4], s[5], s[6]))); break;
                        default: break;
                    }
                } else throw std::runtime_error("rpc: unknown tensor operation");
            });
            st.add(extra);
            Val all = Val::List();
            for (auto &x : live) { Val o = Val::List(); o.add(Val::Int(x.first)).add(observe(x.second)); all.add(o); }
            st.add(all);
            res.add(st);
        }
        while (!live.empty()) {
            if (q.at(2).integer()) live.erase(live.begin()); else live.erase(std::prev(live.end()));
        }
    }
    usage(after);
    Val r = Val::List();
    r.add(res).add(before).add(after);
    return r;
}

// [shape, coordinates to index] -> [count, weights, coordinates in order, back, to_index of each, to_coordinate of each index]
Val do_shape(const Val &q) {
    auto s = shape_of(q.at(1));
    Tensor t(INT8, s);
    auto h = t.hype_shape();
    Val r = Val::List();
    auto coord = [](const Shape &c) { Val o = Val::List(); for (auto x : c) o.add(Val::Int(x)); return o; };
    r.add(Val::Int(h.count())).add(coord(h.weight())).add(coord(h.shape()));
    Val forth = Val::List(), back = Val::List(), index = Val::List(), coords = Val::List();
    ShapeIterator it(s);
    for (int k = 0; k < t.count(); ++k) {
        Shape c = it.coordinate();
        forth.add(coord(c));
        index.add(Val::Int(h.to_index(c)));
        index.add(Val::Int(h.to_index(std::vector<int32_t>(c.begin(), c.end()))));
        switch (c.size()) {
            case 1: index.add(Val::Int(h.to_index(c[0]))); break;
            case 2: index.add(Val::Int(h.to_index(c[0], c[1]))); index.add(Val::Int(h.to_index({c[0], c[1]}))); break;
            case 3: index.add(Val::Int(h.to_index(c[0], c[1], c[2]))); index.add(Val::Int(h.to_index({c[0], c[1], c[2]}))); break;
            case 4: index.add(Val::Int(h.to_index(c[0], c[1], c[2], c[3]))); break;
            case 5: index.add(Val::Int(h.to_index(c[0], c[1], c[2], c[3], c[4]))); break;
            case 6: index.add(Val::Int(h.to_index(c[0], c[1], c[2], c[3], c[4], c[5]))); break;
            case 7: index.add(Val::Int(h.to_index(c[0], c[1], c[2], c[3], c[4], c[5], c[6]))); break;
            default: break;
        }
        index.add(Val::Int(-5));
        auto back_c = h.to_coordinate(k);
        coords.add(coord(Shape(back_c.begin(), back_c.end())));
        if (k & 1) ++it; else it++;
    }
    forth.add(coord(it.coordinate()));      // wrapped around
    for (int k = 0; k < t.count(); ++k) { if (k & 1) --it; else it--; back.add(coord(it.coordinate())); }
    it.rewind();
    back.add(coord(it.coordinate()));
    r.add(forth).add(back).add(index).add(coords);
    return r;
}

// prototypes: register machine
Val do_protos(const Val &q) {
    std::map<int64_t, TensorPrototype> live;
    Val res = Val::List();
    auto single = [](const Val &v) { return Tensor::Prototype(DTYPE(v.at(0).integer()), shape_of(v.at(1))); };
    for (auto &op : q.at(1).list()) {
        auto &name = op.at(0).str();
        auto arg = [&](size_t k) { return op.at(k).integer(); };
        Val extra;
        auto st = guarded([&]() {
            if (name == "new") { std::vector<Tensor::Prototype> fs; for (auto &f : op.at(3).list()) fs.push_back(single(f)); if (arg(2) == 0) live[arg(1)] = TensorPrototype(fs); else if (arg(2) == 1) live[arg(1)].pack(fs); else { std::vector<Tensor> ts; for (auto &f : fs) ts.emplace_back(f); live[arg(1)] = TensorPrototype(Tensor::Pack(ts)); } }
            else if (name == "copy") { TensorPrototype p(live.at(arg(2))); live[arg(1)] = p; }
            else if (name == "move") { TensorPrototype p(std::move(live.at(arg(2)))); live.erase(arg(2)); live[arg(1)] = std::move(p); }
            else if (name == "field") { live[arg(1)] = TensorPrototype(arg(4) ? live.at(arg(2)).field(size_t(arg(3))) : live.at(arg(2)).field(int(arg(3)))); }
            else if (name == "move_single") { Tensor::Prototype a = live.at(arg(2)).field(0); Tensor::Prototype b(std::move(a)); live[arg(1)] = TensorPrototype(std::move(b)); }
            else if (name == "set_field") { auto v = single(op.at(3)); if (arg(4)) live.at(arg(1)).field(size_t(arg(2)), v); else live.at(arg(1)).field(int(arg(2)), v); }
            else if (name == "refield") live.at(arg(1)).refield(size_t(arg(2)));
            else if (name == "equal") { auto &a = live.at(arg(1)); auto &b = live.at(arg(2)); extra = Val::List(); extra.add(Val::Int(a == b)).add(Val::Int(a != b)).add(Val::Int(a.field(0) == b)).add(Val::Int(a == b.field(0))).add(Val::Int(a.field(0) != b)); }
            else throw std::runtime_error("rpc: unknown prototype operation");
        });
        st.add(extra);
        Val all = Val::List();
        for (auto &x : live) {
            Val o = Val::List(), fs = Val::List();
            for (auto &f : x.second.unpack()) fs.add(proto_val(f));
            std::ostringstream oss;
            oss << x.second;
            o.add(Val::Int(x.first)).add(fs).add(Val::Int(int64_t(x.second.fields_count()))).add(Val::Int(x.second.packed())).add(Val::Str(oss.str()));
            all.add(o);
        }
        st.add(all);
        res.add(st);
    }
    return res;
}

Val do_types(const Val &) {
    Val r = Val::List();
    for (int k = 0; k <= SINK8Q7; ++k) { Val o = Val::List(); o.add(Val::Int(k)).add(Val::Int(type_bytes(DTYPE(k)))).add(Val::Str(type_str(DTYPE(k)))); r.add(o); }
    return r;
}

// a tensor beyond 2 GB: [count, rows] -> [bytes of the clone that differ, last bytes]
Val do_big(const Val &q) {
    auto n = int(q.at(1).integer());
    Tensor t(FLOAT64, Shape({n}));
    t.data<double>(0) = 1; t.data<double>(n - 1) = 2; t.data<double>(n / 2) = 3;
    Val r = Val::List();
    auto rows = int(q.at(2).integer());
    if (rows <= 3) {
        auto d = t.device();
        auto c = rows == 0 ? t.clone() : rows == 1 ? t.clone(DynamicSyncMemoryController::Make(d)) : rows == 2 ? t.clone(DynamicSyncMemoryController::Make(d), d) : t.clone();
        t = Tensor();
        r.add(Val::Float(c.data<double>(0))).add(Val::Float(c.data<double>(n - 1))).add(Val::Float(c.data<double>(n / 2)));
    } else {
        t = t.reshape({rows, n / rows});
        auto a = t.slice(rows - 1), b = t.slice(1, rows), c = t.slice(rows - 1, rows);
        auto end = n / rows - 1;
        r.add(Val::Float(a.data<double>(end))).add(Val::Float(b.data<double>(n / rows * (rows - 1) - 1))).add(Val::Float(c.data<double>(end)));
        r.add(Val::Int(address(a.data()) - address(t.data()))).add(Val::Int(int64_t(b.weak_memory().size()))).add(Val::Int(address(c.data()) - address(t.data())));
    }
    return r;
}

}

int main(int argc, char **argv) {
    rpc::Alloc::install();
    devices();
    std::map<std::string, rpc::Handler> h;
    h["blocks"] = do_blocks;
    h["hard"] = do_hard;
    h["vat"] = do_vat;
    h["tensors"] = do_tensors;
    h["shape"] = do_shape;
    h["protos"] = do_protos;
    h["types"] = do_types;
    h["big"] = do_big;
    return rpc::serve(argc, argv, h);
}
