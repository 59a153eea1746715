// Execution server for value types and streams: element conversion, half floats, fixed point, AES.
#include "rpc.h"

#include "core/tensor_builder.h"
#include "core/ieee754_float.h"
#include "core/sink.h"
#include "encryption/encrypted_fstream.h"
#include "encryption/aes.h"
#include "module/module.h"
#include "module/menu.h"
#include "module/io/fstream.h"

using namespace ts;
using rpc::Val;

namespace {

Val do_cast(const Val &q) { return Val::Ten(tensor::cast(DTYPE(q.at(2).integer()), q.at(1).ten())); }
Val do_clone(const Val &q) { return Val::Ten(tensor::clone(DTYPE(q.at(2).integer()), q.at(1).ten())); }

template<typename D, typename V>
Val vec(DTYPE dt, const V &v) {
    Tensor t(MemoryDevice(CPU), dt, Shape({int(v.size())}));
    auto p = static_cast<D *>(t.data());
    size_t k = 0;
    for (auto x : v) p[k++] = D(x);
    return Val::Ten(t);
}
Val do_array(const Val &q) {  // the typed array accessors, as tensors
    auto &t = q.at(1).ten();
    auto kind = q.at(2).str();
    if (kind == "int") return vec<int32_t>(INT32, tensor::array::to_int(t));
    if (kind == "uint") return vec<uint32_t>(UINT32, tensor::array::to_uint(t));
    if (kind == "float") return vec<float>(FLOAT32, tensor::array::to_float(t));
    if (kind == "double") return vec<double>(FLOAT64, tensor::array::to_double(t));
    if (kind == "bool") return vec<uint8_t>(BOOLEAN, tensor::array::to_bool(t));
    throw std::runtime_error("rpc: unknown accessor");
}
Val do_scalar(const Val &q) {
    auto &t = q.at(1).ten();
    auto kind = q.at(2).str();
    if (kind == "int") return Val::Int(tensor::to_int(t));
    if (kind == "uint") return Val::Int(int64_t(tensor::to_uint(t)));
    if (kind == "float") return Val::Float(tensor::to_float(t));
    if (kind == "double") return Val::Float(tensor::to_double(t));
    if (kind == "bool") return Val::Int(tensor::to_bool(t) ? 1 : 0);
    if (kind == "string") return Val::Str(tensor::to_string(t));
    throw std::runtime_error("rpc: unknown accessor");
}
template<typename X>
Tensor build_as(const Tensor &t) {
    std::vector<X> v(t.data<X>(), t.data<X>() + t.count());
    return tensor::build(dtypeid<X>::id, v);
}
Val do_build(const Val &q) {  // tensor::build(dtype, values of the tensor's own type)
    auto &t = q.at(1).ten();
    auto to = DTYPE(q.at(2).integer());
    auto n = size_t(t.count());
    switch (t.dtype()) {
        case INT8: return Val::Ten(tensor::build(to, n, t.data<int8_t>()));
        case UINT8: return Val::Ten(tensor::build(to, n, t.data<uint8_t>()));
        case INT16: return Val::Ten(tensor::build(to, n, t.data<int16_t>()));
        case UINT16: return Val::Ten(tensor::build(to, n, t.data<uint16_t>()));
        case INT32: return Val::Ten(tensor::build(to, n, t.data<int32_t>()));
        case UINT32: return Val::Ten(tensor::build(to, n, t.data<uint32_t>()));
        case INT64: return Val::Ten(tensor::build(to, n, t.data<int64_t>()));
        case UINT64: return Val::Ten(tensor::build(to, n, t.data<uint64_t>()));
        case FLOAT32: return Val::Ten(tensor::build(to, n, t.data<float>()));
        case FLOAT64: return Val::Ten(tensor::build(to, n, t.data<double>()));
        default: throw std::runtime_error("rpc: no builder");
    }
}

// ------------------------------------------------------------------------------------ half floats
Val do_f16(const Val &q) {  // [op, a FLOAT16, b FLOAT16]
    auto op = q.at(1).str();
    auto &ta = q.at(2).ten();
    auto &tb = q.at(3).ten();
    auto a = static_cast<const float16 *>(ta.data());
    auto b = static_cast<const float16 *>(tb.data());
    int n = ta.count();
    if (op.size() == 1 && std::string("+-*/~").find(op) != std::string::npos) {
        Tensor o(MemoryDevice(CPU), FLOAT16, Shape({n}));
        auto p = static_cast<float16 *>(o.data());
        for (int i = 0; i < n; ++i) {
            switch (op[0]) {
                case '+': p[i] = a[i] + b[i]; break;
                case '-': p[i] = a[i] - b[i]; break;
                case '*': p[i] = a[i] * b[i]; break;
                case '/': p[i] = a[i] / b[i]; break;
                default: p[i] = -a[i];
            }
        }
        return Val::Ten(o);
    }
    Tensor o(MemoryDevice(CPU), UINT8, Shape({n}));
    auto p = o.data<uint8_t>();
    for (int i = 0; i < n; ++i) {
        if (op == "<") p[i] = a[i] < b[i];
        else if (op == ">") p[i] = a[i] > b[i];
        else if (op == "<=") p[i] = a[i] <= b[i];
        else if (op == ">=") p[i] = a[i] >= b[i];
        else if (op == "==") p[i] = a[i] == b[i];
        else p[i] = a[i] != b[i];
    }
    return Val::Ten(o);
}

// ------------------------------------------------------------------------------------ fixed point
template<typename U, int Q>
struct SinkOps {
    using N = sink<U, Q>;
    using Sg = typename _signed<U>::T;
    template<typename X>
    static Tensor to(const Tensor &c) {  // codes -> X
        Tensor o(MemoryDevice(CPU), dtypeid<X>::id, Shape({c.count()}));
        for (int i = 0; i < c.count(); ++i) o.data<X>()[i] = X(N::from_fixed(U(c.data<int64_t>()[i])));
        return o;
    }
    template<typename X>
    static Tensor from(const Tensor &v) {  // X -> codes
        Tensor o(MemoryDevice(CPU), INT64, Shape({v.count()}));
        for (int i = 0; i < v.count(); ++i) o.data<int64_t>()[i] = int64_t(Sg(N(v.data<X>()[i]).value));
        return o;
    }
    static Val run(const std::string &what, const Tensor &a, const Tensor &b, int64_t dt) {
#define EACH(F, ...) \
        switch (dt) { \
            case INT8: return Val::Ten(F<int8_t>(__VA_ARGS__)); case UINT8: return Val::Ten(F<uint8_t>(__VA_ARGS__)); \
            case INT16: return Val::Ten(F<int16_t>(__VA_ARGS__)); case UINT16: return Val::Ten(F<uint16_t>(__VA_ARGS__)); \
            case INT32: return Val::Ten(F<int32_t>(__VA_ARGS__)); case UINT32: return Val::Ten(F<uint32_t>(__VA_ARGS__)); \
            case INT64: return Val::Ten(F<int64_t>(__VA_ARGS__)); case UINT64: return Val::Ten(F<uint64_t>(__VA_ARGS__)); \
            case FLOAT32: return Val::Ten(F<float>(__VA_ARGS__)); case FLOAT64: return Val::Ten(F<double>(__VA_ARGS__)); \
            default: throw std::runtime_error("rpc: sink type"); }
        if (what == "to") { EACH(to, a) }
        if (what == "from") { EACH(from, a) }
#undef EACH
        Tensor o(MemoryDevice(CPU), INT64, Shape({a.count()}));
        auto p = o.data<int64_t>();
        for (int i = 0; i < a.count(); ++i) {
            N x = N::from_fixed(U(a.data<int64_t>()[i])), y = N::from_fixed(U(b.data<int64_t>()[i]));
            if (what == "+") p[i] = Sg((x + y).value);
            else if (what == "-") p[i] = Sg((x - y).value);
            else if (what == "*") p[i] = Sg((x * y).value);
            else if (what == "/") p[i] = Sg((x / y).value);
            else if (what == "~") p[i] = Sg((-x).value);
            else if (what == "<") p[i] = x < y;
            else if (what == ">") p[i] = x > y;
            else if (what == "<=") p[i] = x <= y;
            else if (what == ">=") p[i] = x >= y;
            else if (what == "==") p[i] = x == y;
            else if (what == "!=") p[i] = x != y;
            else if (what == "max") p[i] = Sg(N::Max().value);
            else if (what == "min") p[i] = Sg(N::Min().value);
            else throw std::runtime_error("rpc: sink operation");
        }
        return Val::Ten(o);
    }
};
Val do_sink(const Val &q) {  // [bits, Q, what, a, b, dtype]
    int bits = int(q.at(1).integer()), Q = int(q.at(2).integer());
    auto what = q.at(3).str();
    auto &a = q.at(4).ten();
    auto &b = q.at(5).ten();
    int64_t dt = q.at(6).integer();
#define K(B, QQ) if (bits == B && Q == QQ) return SinkOps<uint##B##_t, QQ>::run(what, a, b, dt);
    K(8, 0) K(8, 1) K(8, 2) K(8, 3) K(8, 4) K(8, 5) K(8, 6) K(8, 7)
    K(16, 0) K(16, 5) K(16, 8) K(16, 15) K(32, 0) K(32, 13) K(32, 16) K(32, 30) K(64, 0) K(64, 20)
#undef K
    throw std::runtime_error("rpc: sink kind");
}

// -------------------------------------------------------------------------------------------- AES
Val do_aes(const Val &q) {  // [mode, key, iv, data, encrypt, calls]
    auto mode = q.at(1).str(), key = q.at(2).str(), iv = q.at(3).str(), data = q.at(4).str();
    bool enc = q.at(5).integer() != 0;
    // exact-size heap copies, so that reading past them is seen
    std::unique_ptr<uint8_t[]> k(new uint8_t[key.size()]), v(new uint8_t[iv.size()]), d(new uint8_t[data.size()]);
    std::memcpy(k.get(), key.data(), key.size());
    std::memcpy(v.get(), iv.data(), iv.size());
    std::memcpy(d.get(), data.data(), data.size());
    AES_ctx c;
    std::memset(&c, 0, sizeof(c));
    if (mode == "ecb") {
        AES_init_ctx(&c, k.get(), uint32_t(key.size()));
        for (size_t i = 0; i + 16 <= data.size(); i += 16) (enc ? AES_ECB_encrypt : AES_ECB_decrypt)(&c, d.get() + i);
    } else {
        AES_init_ctx_iv(&c, k.get(), uint32_t(key.size()), iv.empty() ? nullptr : v.get(), uint32_t(iv.size()));
        size_t at = 0;
        for (auto &n : q.at(6).list()) {  // the buffer in several calls
            auto len = uint32_t(n.integer());
            if (mode == "cbc") (enc ? AES_CBC_encrypt_buffer : AES_CBC_decrypt_buffer)(&c, d.get() + at, len);
            else AES_CTR_xcrypt_buffer(&c, d.get() + at, len);
            at += len;
        }
    }
    return Val::Str(std::string(reinterpret_cast<char *>(d.get()), data.size()));
}
Val do_enc_write(const Val &q) {  // [path, key, chunks, close] -> [returned sizes]
    Val out = Val::List();
    EncryptedFileStreamWriter w(q.at(1).str(), q.at(2).str());
    if (!w.is_open()) throw Exception("not open");
    for (auto &c : q.at(3).list()) {
        auto &s = c.str();
        std::unique_ptr<char[]> p(new char[s.size()]);
        std::memcpy(p.get(), s.data(), s.size());
        out.add(Val::Int(int64_t(w.write(p.get(), s.size()))));
    }
    if (q.at(4).integer()) w.close();
    return out;
}
Val do_enc_read(const Val &q) {  // [path, key, sizes] -> [[bytes...], error or None]
    Val got = Val::List(), out = Val::List(), err;
    EncryptedFileStreamReader r(q.at(1).str(), q.at(2).str());
    if (!r.is_open()) throw Exception("not open");
    for (auto &n : q.at(3).list()) {
        auto size = size_t(n.integer());
        std::unique_ptr<char[]> p(new char[size]);
        std::memset(p.get(), 0xAA, size);
        try {
            auto k = r.read(p.get(), size);
            if (k > size) { err = Val::Str("returned " + std::to_string(k) + " for " + std::to_string(size)); break; }
            for (size_t i = k; i < size; ++i)
                if (p[i] != char(0xAA)) { err = Val::Str("wrote past the returned length"); break; }
            got.add(Val::Str(std::string(p.get(), k)));
        } catch (const Exception &e) {
            got.add(Val());
        }
    }
    return out.add(got).add(err);
}
Val do_enc_module(const Val &q) {  // [path, key, plain path]: module from a plain file through the encrypted stream and back
    auto m = Module::Load(q.at(3).str());
    {
        EncryptedFileStreamWriter w(q.at(1).str(), q.at(2).str());
        Module::Save(w, m);
    }
    EncryptedFileStreamReader r(q.at(1).str(), q.at(2).str());
    auto again = Module::Load(r);
    Module::Save(q.at(4).str(), again);
    return Val::Int(int64_t(again->outputs().size()));
}

}  // namespace

int main(int argc, char **argv) {
    std::map<std::string, std::function<Val(const Val &)>> h;
    h["cast"] = do_cast; h["clone"] = do_clone; h["array"] = do_array; h["scalar"] = do_scalar; h["build"] = do_build;
    h["f16"] = do_f16; h["sink"] = do_sink;
    h["aes"] = do_aes; h["enc_write"] = do_enc_write; h["enc_read"] = do_enc_read; h["enc_module"] = do_enc_module;
    return rpc::serve(argc, argv, h);
}
