// Generic typed RPC values exchanged with the Python drivers over a pipe, conversion from/to
// ts::Tensor, and the instrumented device allocator.  Test harness code; not part of TenniS.
#ifndef VERIF_RPC_H
#define VERIF_RPC_H

#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <atomic>
#include <mutex>
#include <memory>
#include <functional>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>

#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "global/hard_allocator.h"
#include "utils/except.h"
#include "utils/log.h"

namespace rpc {

struct Val {
    char tag = 'n';
    int64_t i = 0;
    double f = 0;
    std::string s;
    ts::Tensor t;
    std::vector<Val> l;

    Val() = default;
    static Val Int(int64_t v) { Val x; x.tag = 'i'; x.i = v; return x; }
    static Val Float(double v) { Val x; x.tag = 'f'; x.f = v; return x; }
    static Val Str(const std::string &v) { Val x; x.tag = 's'; x.s = v; return x; }
    static Val Ten(const ts::Tensor &v) { Val x; x.tag = 't'; x.t = v; return x; }
    static Val List() { Val x; x.tag = 'l'; return x; }
    Val &add(const Val &v) { l.push_back(v); return *this; }

    bool none() const { return tag == 'n'; }
    int64_t integer() const { if (tag != 'i') throw std::runtime_error("rpc: int expected"); return i; }
    double number() const { if (tag == 'f') return f; return double(integer()); }
    const std::string &str() const { if (tag != 's') throw std::runtime_error("rpc: str expected"); return s; }
    const ts::Tensor &ten() const { if (tag != 't') throw std::runtime_error("rpc: tensor expected"); return t; }
    const std::vector<Val> &list() const { if (tag != 'l') throw std::runtime_error("rpc: list expected"); return l; }
    const Val &at(size_t k) const { return list().at(k); }
    size_t size() const { return list().size(); }
};

// ---------------------------------------------------------------- instrumented allocator
// Every fresh byte gets a chosen pattern, so results depending on stale memory differ between runs.
struct Alloc {
    std::atomic<int> fill{-1};              // -1: leave as is; 0..255: byte
    std::atomic<uint64_t> live_bytes{0}, live_blocks{0}, total_blocks{0}, bad{0};
    std::atomic<uint64_t> limit{uint64_t(6) << 30};  // refuse single requests above this
    std::atomic<uint64_t> max_request{0};
    std::mutex m;
    std::map<void *, size_t> blocks;
    bool track = true;
    static Alloc &me() { static Alloc *a = new Alloc; return *a; }

    void *fresh(size_t n) {
        if (n > max_request) max_request = n;
        if (n > limit) throw ts::OutOfMemoryException(ts::MemoryDevice(ts::CPU, 0), n);
        void *p = std::malloc(n);
        if (!p) throw ts::OutOfMemoryException(ts::MemoryDevice(ts::CPU, 0), n);
        int b = fill.load();
        if (b >= 0) std::memset(p, b, n);
        if (track) {
            std::lock_guard<std::mutex> g(m);
            blocks[p] = n; live_bytes += n; ++live_blocks; ++total_blocks;
        }
        return p;
    }
    void drop(void *p) {
        if (track) {
            std::lock_guard<std::mutex> g(m);
            auto it = blocks.find(p);
            if (it == blocks.end()) ++bad;
            else { live_bytes -= it->second; --live_blocks; blocks.erase(it); }
        }
        std::free(p);
    }
    void *call(int id, size_t new_size, void *mem, size_t mem_size) {
        (void) id;
        if (new_size == 0) { if (mem) drop(mem); return nullptr; }
        if (!mem) return fresh(new_size);
        if (!mem_size) { drop(mem); return fresh(new_size); }
        void *p = fresh(new_size);
        std::memcpy(p, mem, mem_size < new_size ? mem_size : new_size);
        drop(mem);
        return p;
    }
    static void install() {
        ts::HardAllocator::Register(ts::CPU, [](int id, size_t n, void *mem, size_t ms) { return me().call(id, n, mem, ms); });
    }
};

// ---------------------------------------------------------------- wire format
inline void put(std::string &o, const void *p, size_t n) { o.append(static_cast<const char *>(p), n); }
template<typename T> inline void put(std::string &o, T v) { put(o, &v, sizeof(v)); }

inline void put_field(std::string &o, const ts::Tensor &t) {
    put<int32_t>(o, int32_t(t.dtype()));
    put<uint32_t>(o, uint32_t(t.dims()));
    for (size_t k = 0; k < t.dims(); ++k) put<int32_t>(o, t.size(k));
    auto h = t.view(ts::MemoryDevice(ts::CPU));
    uint64_t n = 1;
    for (size_t k = 0; k < t.dims(); ++k) n *= uint64_t(t.size(k) < 0 ? 0 : t.size(k));
    n *= uint64_t(t.proto().type_bytes());
    put<uint64_t>(o, n);
    if (n) put(o, h.data(), n);
}

inline void encode(std::string &o, const Val &v) {
    o.push_back(v.tag);
    switch (v.tag) {
        case 'i': put<int64_t>(o, v.i); break;
        case 'f': put<double>(o, v.f); break;
        case 's': put<uint32_t>(o, uint32_t(v.s.size())); put(o, v.s.data(), v.s.size()); break;
        case 't': {
            if (v.t.packed()) {
                auto fs = v.t.unpack();
                put<uint32_t>(o, uint32_t(fs.size()));
                for (auto &f : fs) put_field(o, f);
            } else { put<uint32_t>(o, 1u); put_field(o, v.t); }
            break;
        }
        case 'l': put<uint32_t>(o, uint32_t(v.l.size())); for (auto &x : v.l) encode(o, x); break;
        default: break;
    }
}

struct In {
    const char *p; const char *e;
    template<typename T> T get() { if (size_t(e - p) < sizeof(T)) throw std::runtime_error("rpc: short"); T v; std::memcpy(&v, p, sizeof(T)); p += sizeof(T); return v; }
    void raw(void *d, size_t n) { if (size_t(e - p) < n) throw std::runtime_error("rpc: short"); if (n) std::memcpy(d, p, n); p += n; }
};

inline ts::Tensor get_field(In &in) {
    auto dt = ts::DTYPE(in.get<int32_t>());
    auto nd = in.get<uint32_t>();
    std::vector<int32_t> sh(nd);
    for (auto &x : sh) x = in.get<int32_t>();
    auto n = in.get<uint64_t>();
    ts::Tensor t(ts::MemoryDevice(ts::CPU), dt, ts::Shape(sh.begin(), sh.end()));
    in.raw(n ? t.data() : nullptr, n);
    return t;
}

inline Val decode(In &in) {
    Val v; v.tag = in.get<char>();
    switch (v.tag) {
        case 'i': v.i = in.get<int64_t>(); break;
        case 'f': v.f = in.get<double>(); break;
        case 's': { auto n = in.get<uint32_t>(); v.s.resize(n); in.raw(n ? &v.s[0] : nullptr, n); break; }
        case 't': {
            auto nf = in.get<uint32_t>();
            if (nf == 1) v.t = get_field(in);
            else { std::vector<ts::Tensor> fs; for (uint32_t k = 0; k < nf; ++k) fs.push_back(get_field(in)); v.t.pack(fs); }
            break;
        }
        case 'l': { auto n = in.get<uint32_t>(); v.l.reserve(n); for (uint32_t k = 0; k < n; ++k) v.l.push_back(decode(in)); break; }
        case 'n': break;
        default: throw std::runtime_error("rpc: bad tag");
    }
    return v;
}

inline bool read_all(int fd, void *p, size_t n) {
    auto c = static_cast<char *>(p);
    while (n) { auto r = ::read(fd, c, n); if (r <= 0) return false; c += r; n -= size_t(r); }
    return true;
}
inline bool write_all(int fd, const void *p, size_t n) {
    auto c = static_cast<const char *>(p);
    while (n) { auto r = ::write(fd, c, n); if (r <= 0) return false; c += r; n -= size_t(r); }
    return true;
}

inline bool same_tensor(const ts::Tensor &a, const ts::Tensor &b) {
    std::string x, y;
    encode(x, Val::Ten(a)); encode(y, Val::Ten(b));
    return x == y;
}

using Handler = std::function<Val(const Val &)>;

// Serves requests ["cmd", args...] until end of input.  fds: argv[1] (in) argv[2] (out).
inline int serve(int argc, char **argv, std::map<std::string, Handler> &handlers) {
    if (argc < 3) { std::fprintf(stderr, "usage: %s <in-fd> <out-fd>\n", argv[0]); return 2; }
    int in = std::atoi(argv[1]), out = std::atoi(argv[2]);
    std::string buf;
    for (;;) {
        uint32_t n;
        if (!read_all(in, &n, 4)) break;
        buf.resize(n);
        if (n && !read_all(in, &buf[0], n)) break;
        Val rsp;
        {
            Val res = Val::List();
            try {
                In i{buf.data(), buf.data() + buf.size()};
                Val req = decode(i);
                auto it = handlers.find(req.at(0).str());
                if (it == handlers.end()) throw std::runtime_error("rpc: unknown command " + req.at(0).str());
                Val v = it->second(req);
                res.add(Val::Str("ok")).add(v);
            } catch (const ts::Exception &e) {
                res = Val::List(); res.add(Val::Str("ts")).add(Val::Str(e.what()));
            } catch (const std::exception &e) {
                res = Val::List(); res.add(Val::Str("std")).add(Val::Str(e.what()));
            } catch (...) {
                res = Val::List(); res.add(Val::Str("other")).add(Val::Str("unknown exception"));
            }
            rsp = res;
        }
        std::string o;
        encode(o, rsp);
        uint32_t m = uint32_t(o.size());
        if (!write_all(out, &m, 4) || !write_all(out, o.data(), o.size())) break;
    }
    return 0;
}

}  // namespace rpc
#endif
