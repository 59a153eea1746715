// The C++ interface (include/api/cpp) under the same calls as the C interface: every function of the
// table is replaced by the class that wraps it; a thrown ts::api::Exception stands for the error
// value, its text for the message.
#define CAPI_EXTRA cpp_extra
#include "capi.cpp"
#include "api/cpp/tennis.h"
#include "api/cpp/operator.h"
#include "api/cpp/program.h"
#include "api/cpp/intime.h"
#include "api/cpp/graphics2d.h"
#include <unistd.h>

namespace cpp = ts::api;

struct Skip {};                 // the C++ interface has no such call

static bool same(const Val &a, const Val &b) {
    if (a.tag != b.tag || a.i != b.i || a.f != b.f || a.s != b.s || a.l.size() != b.l.size()) return false;
    for (size_t k = 0; k < a.l.size(); ++k) if (!same(a.l[k], b.l[k])) return false;
    return true;
}
static void need(bool x) { if (!x) throw Skip(); }

// ---------------------------------------------------------------- objects
template<typename W> struct Raw;
template<> struct Raw<cpp::Tensor> { using t = ts_Tensor; };
template<> struct Raw<cpp::Module> { using t = ts_Module; };
template<> struct Raw<cpp::Program> { using t = ts_Program; };
template<> struct Raw<cpp::Workbench> { using t = ts_Workbench; };
template<> struct Raw<cpp::ImageFilter> { using t = ts_ImageFilter; };

static std::map<int64_t, std::shared_ptr<void>> g_held;

template<typename W> static W &get(const Val &v) {
    static thread_local std::deque<W> nothing;
    if (v.none()) {
        if (nothing.size() > 64) nothing.pop_front();
        nothing.emplace_back(nullptr);
        return nothing.back();
    }
    object<typename Raw<W>::t>(v);
    std::lock_guard<std::mutex> g(g_lock);
    return *static_cast<W *>(g_held.at(v.integer()).get());
}
static cpp::Tensor &T(const Val &v) { return get<cpp::Tensor>(v); }
static cpp::Module &M(const Val &v) { return get<cpp::Module>(v); }
static cpp::Program &P(const Val &v) { return get<cpp::Program>(v); }
static cpp::Workbench &W(const Val &v) { return get<cpp::Workbench>(v); }
static cpp::ImageFilter &F(const Val &v) { return get<cpp::ImageFilter>(v); }

template<typename X> static void keep(Ran &r, int64_t out, X x) {
    note(r);
    if (x == nullptr) { r.v = Val::Int(0); return; }
    if (!(x != nullptr)) odd("!= nullptr");
    r.v = Val::Int(1);
    // copies share the object
    X copy(x), other(nullptr);
    other = copy;
    if (other.get_raw() != x.get_raw()) odd("copy of a handle");
    std::lock_guard<std::mutex> g(g_lock);
    g_objs[out] = Obj{char(Kind<typename Raw<X>::t>::c), static_cast<void *>(x.get_raw())};
    g_held[out] = std::make_shared<X>(std::move(x));
}

// ---------------------------------------------------------------- arguments
static std::string str(const Val &v) { need(!v.none()); need(v.str().find('\0') == std::string::npos); return v.str(); }
static std::vector<int32_t> ints(const Val &v, const Val &n, bool none = false) {
    std::vector<int32_t> x;
    if (none && (v.none() || v.size() == 0 && n.integer() == 0)) return x;
    need(!v.none());
    for (auto &i : v.list()) x.push_back(int32_t(i.integer()));
    need(int64_t(x.size()) == n.integer() && !x.empty());       // the pointer of an empty vector may be missing
    return x;
}
static std::vector<float> reals(const Val &v, const Val &n) {
    need(!v.none());
    std::vector<float> x;
    for (auto &i : v.list()) x.push_back(float(i.number()));
    need(int64_t(x.size()) == n.integer() && !x.empty());
    return x;
}
static std::vector<cpp::Tensor> tensors(const Val &v, const Val &n) {
    need(!v.none());
    std::vector<cpp::Tensor> x;
    for (auto &i : v.list()) x.push_back(T(i));
    need(int64_t(x.size()) == n.integer() && !x.empty());
    return x;
}
template<typename E> static E en(const Val &v) { auto i = int32_t(v.integer()); E e; std::memcpy(&e, &i, sizeof(e)); return e; }
static cpp::DTYPE dt(const Val &v) { return cpp::DTYPE(en<ts_DTYPE>(v)); }
static cpp::Device device(const Val &v) {
    need(!v.none() && !v.at(0).none());
    cpp::Device a(str(v.at(0)), int(v.at(1).integer())), b;
    b = a;                      // a device keeps its own text
    a = cpp::Device("elsewhere", -7);
    cpp::Device c(b);
    b = cpp::Device("nowhere");
    c = c;
    return c;
}
static int64_t g_turn = 0;
static std::mutex g_turn_lock;
static int turn(int n) { std::lock_guard<std::mutex> g(g_turn_lock); return int(g_turn++ % n); }    // overloads take turns
static int method(const Val &v) { auto m = int(v.integer()); return m; }

using In = const Val &;
static void def(const std::string &name, std::function<void(Ran &, int64_t, In)> f) {
    fns()[name] = [f](Ran &r, int64_t out, const Val &a) {
        try {
            g_inside = true;
            f(r, out, a);
            g_inside = false;
        } catch (const Skip &) {
            g_inside = false;
            throw;
        } catch (const cpp::Exception &e) {
            g_inside = false;
            r.v = Val::Int(0);
            r.message = e.what();
        }
    };
}
static void done(Ran &r) { note(r); r.v = Val::Int(1); }

// ---------------------------------------------------------------- streams
struct Pieces : cpp::StreamReaderV2 {
    std::string data; size_t at = 0, chunk = 0; uint64_t rewinds = 0;
    uint64_t read(void *to, uint64_t n) override {
        size_t k = std::min<size_t>(n, data.size() - at);
        if (chunk) k = std::min(k, chunk);
        if (k) std::memcpy(to, data.data() + at, k);
        at += k;
        return k;
    }
    void rewind() override { at = 0; ++rewinds; }
};
struct Temporary {
    std::string path;
    explicit Temporary(const std::string &bytes) {
        char p[] = "/tmp/cppapiXXXXXX";
        int f = mkstemp(p);
        if (f < 0 || write(f, bytes.data(), bytes.size()) != ssize_t(bytes.size())) throw std::runtime_error("capi: temporary file");
        close(f);
        path = p;
    }
    ~Temporary() { unlink(path.c_str()); }
};

// ---------------------------------------------------------------- operators
struct Before { virtual ~Before() = default; int64_t pad[3] = {1, 2, 3}; };

class Echo : public cpp::Operator {
public:
    uint64_t magic = 0x5105105105105105ull;
    int mode = 0, inits = 0;
    Echo() { ++g_live; ++g_made; }
    ~Echo() override { check(); magic = 0; --g_live; }
    void check() const { if (magic != 0x5105105105105105ull) { odd("operator object"); std::abort(); } }

    void init(const cpp::OperatorParams &params, ts_OperatorContext *context) override {
        check();
        ++inits;
        if (!context) odd("no context in init");
        if (params.get("no_such_parameter") != nullptr) odd("a parameter that is not there");
        if (*ts_last_error_message()) odd(std::string("a missing parameter leaves the message ") + ts_last_error_message());
        auto m = params.get(std::string("mode"));
        if (m != nullptr) mode = cpp::tensor::to_int(m);
        if (mode == 7) Throw("plugin: init refused");
    }
    std::vector<std::pair<cpp::DTYPE, cpp::Shape>> infer(const std::vector<cpp::Tensor> &, ts_OperatorContext *) override {
        check();
        // what g_proto tells, by the types of the interface
        std::vector<std::pair<cpp::DTYPE, cpp::Shape>> r;
        size_t k = 1;
        if (g_proto.empty()) { ts_set_error_message("plugin: infer refused"); return r; }
        for (int i = 0; i < g_proto[0]; ++i) {
            auto d = ts_DTYPE(g_proto[k++]);
            auto n = g_proto[k++];
            cpp::Shape s(g_proto.begin() + k, g_proto.begin() + k + n);
            k += n;
            r.emplace_back(d, s);
        }
        return r;
    }
    static cpp::Tensor copy(const cpp::Tensor &t) {
        return cpp::Tensor(cpp::Tensor::InFlow::HOST, t.dtype(), t.sizes(), t.data());
    }
    static std::vector<cpp::Tensor> echo(const cpp::Tensor &t) {
        if (t.packed()) return t.unpack();
        return {copy(t)};
    }
    std::vector<cpp::Tensor> run(const std::vector<cpp::Tensor> &args, ts_OperatorContext *context) override {
        check();
        ++g_runs;
        if (!inits) odd("run before init");
        if (!context) odd("no context in run");
        switch (mode) {
            default: return echo(args.back());
            case 1: return args;
            case 2: ts_set_error_message("plugin: run refused"); return {};
            case 3: Throw("plugin: thrown"); return {};
            case 4: Throw("plugin: thrown", "file.c", 7); return {};
            case 5: return {};
            case 6: {
                try { args[0].reshape({3, 1, 1, 1, 99}); odd("impossible reshape"); } catch (const cpp::Exception &) {}
                auto out = echo(args.back());
                try { args[0].reshape({3, 1, 1, 1, 99}); odd("impossible reshape"); } catch (const cpp::Exception &) {}
                return out;
            }
            case 8: ts_Operator_Throw(nullptr); return {};
            case 9: ts_Operator_ThrowV2(nullptr, "file.c", 7); return {};
        }
    }
};
struct Second : Before, Echo { int64_t after = 4; };      // the operator is not the first base

// ---------------------------------------------------------------- small things
template<typename N> static Val build_as(int how, ts_DTYPE want, const std::string &raw, const std::vector<int32_t> &shape) {
    std::vector<N> v(raw.size() / sizeof(N));
    if (!v.empty()) std::memcpy(v.data(), raw.data(), v.size() * sizeof(N));
    cpp::Tensor t(nullptr);
    switch (how) {
        case 0: t = cpp::tensor::from(v); break;
        case 1: t = cpp::tensor::from(v.at(0)); break;
        case 2: t = cpp::tensor_builder<N>::build(v, shape); break;
        case 3: t = cpp::tensor_builder<N>::build(v.data(), v.size(), shape); break;
        case 4: t = cpp::tensor::build(cpp::DTYPE(want), v); break;
        case 5: t = cpp::tensor::build(cpp::DTYPE(want), v.at(0)); break;
        case 6: t = cpp::tensor::build(cpp::DTYPE(want), cpp::Shape(shape), v); break;
        case 7: t = cpp::tensor::build(cpp::DTYPE(want), cpp::Shape(shape), v.data()); break;
        case 8: t = cpp::tensor::build(cpp::DTYPE(want), v.size(), v.data()); break;
        case 9: t = cpp::tensor::from(std::initializer_list<N>{v.at(0), v.at(1)}); break;
        case 10: t = cpp::tensor_builder<N>::build({v.at(0), v.at(1)}, std::vector<int>{2, 1}); break;
        case 11: t = cpp::tensor::build(cpp::DTYPE(want), cpp::Shape{1, 2}, std::initializer_list<N>{v.at(0), v.at(1)}); break;
        case 12: t = cpp::tensor::build(cpp::DTYPE(want), std::initializer_list<N>{v.at(0), v.at(1)}); break;
    }
    // elements, by index
    for (size_t k = 0; k < size_t(t.count()) && t.dtype() == cpp::dtypeid<N>::id; ++k)
        if (std::memcmp(&t.data<N>(k), &v.at(k), sizeof(N)) || std::memcmp(&t.data<N>(int(k)), t.data<N>() + k, sizeof(N))) odd("element by index");
    return value_of(t.get_raw());
}

template<typename N> static Val numbers(const std::vector<N> &v) { Val r = Val::List(); for (auto x : v) r.add(Val::Float(double(x))); return r; }

template<typename N> static Val affine(const Val &steps, const Val &points) {
    auto A = ts::affine::identity<N>();
    auto n = [](const Val &v, size_t k) { return N(v.at(k).number()); };
    for (auto &s : steps.list()) {
        auto &w = s.at(0).str();
        ts::Trans2D<N> B;
        if (w == "rotate") B = ts::affine::rotate<N>(n(s, 1));
        else if (w == "translate") B = ts::affine::translate<N>(n(s, 1), n(s, 2));
        else if (w == "scale") B = ts::affine::scale<N>(n(s, 1), n(s, 2));
        else if (w == "scale1") B = ts::affine::scale<N>(n(s, 1));
        else if (w == "shear") B = ts::affine::shear<N>(n(s, 1), n(s, 2));
        else if (w == "shear_x") B = ts::affine::shear_x<N>(n(s, 1));
        else if (w == "shear_y") B = ts::affine::shear_y<N>(n(s, 1));
        else if (w == "reflect") B = ts::affine::reflect<N>(n(s, 1) != 0, n(s, 2) != 0);
        else if (w == "origin") B = ts::affine::reflect_about_origin<N>();
        else if (w == "x_axis") B = ts::affine::reflect_about_x_axis<N>(true, true);
        else if (w == "y_axis") B = ts::affine::reflect_about_y_axis<N>(true, true);
        else throw std::runtime_error("capi: transformation");
        if (s.at(s.size() - 1).integer() == 1) ts::stack(A, B); else A = ts::dot(B, A);
    }
    auto I = ts::affine::inverse(A);
    Val out = Val::List(), m = Val::List(), v = Val::List(), p = Val::List();
    for (size_t k = 0; k < 9; ++k) { m.add(Val::Float(A.data(k))); v.add(Val::Float(I.data(k / 3, k % 3))); }
    for (auto &x : points.list()) {
        auto a = ts::transform(A, ts::Vec2D<N>(N(x.at(0).number()), N(x.at(1).number())));
        auto b = ts::transform(I, ts::Vec3D<N>(a.x(), a.y()));
        p.add(Val::List().add(Val::Float(a.data(0))).add(Val::Float(a.data(1))).add(Val::Float(b.x())).add(Val::Float(b.y())).add(Val::Float(b.z())));
    }
    return out.add(m).add(v).add(p);
}

static void cpp_extra(std::map<std::string, rpc::Handler> &h) {
    // tensors
    def("ts_new_Tensor", [](Ran &r, int64_t o, In a) {
        auto s = ints(a.at(0), a.at(1), true);
        auto raw = a.at(3).none() ? nullptr : a.at(3).str().data();
        Arena ar;
        auto copy = Arg<const void *>::get(ar, a.at(3));
        (void) raw;
        keep(r, o, cpp::Tensor(dt(a.at(2)), s, copy));
    });
    def("ts_new_Tensor_in_flow", [](Ran &r, int64_t o, In a) {
        auto s = ints(a.at(1), a.at(2), true);
        Arena ar;
        auto copy = Arg<const void *>::get(ar, a.at(4));
        if (turn(2)) keep(r, o, cpp::Tensor(en<cpp::Tensor::InFlow>(a.at(0)), dt(a.at(3)), s, copy));
        else keep(r, o, cpp::Tensor(en<ts_InFlow>(a.at(0)), dt(a.at(3)), s, copy));
    });
    def("ts_Tensor_shape", [](Ran &r, int64_t, In a) {
        auto &t = T(a.at(0));
        auto s = t.sizes();
        note(r);
        if (a.at(0).none()) { if (!s.empty()) r.v = Val::Int(1); return; }
        r.v = Val::List();
        for (size_t k = 0; k < s.size(); ++k) {
            r.v.add(Val::Int(s[k]));
            if (t.size(int(k)) != s[k] || t.size(k) != s[k]) odd("size(i)");
        }
        for (int k : {-1, int(s.size())}) {
            try { t.size(k); odd("size out of range"); } catch (const cpp::Exception &e) {}
            try { t.size(size_t(k)); odd("size out of range"); } catch (const cpp::Exception &e) {}
        }
    });
    def("ts_Tensor_shape_size", [](Ran &r, int64_t, In a) { auto n = T(a.at(0)).dims(); note(r); r.v = Val::Int(n); });
    def("ts_Tensor_dtype", [](Ran &r, int64_t, In a) { auto n = T(a.at(0)).dtype(); note(r);
        int32_t v; static_assert(sizeof(n.raw) == sizeof(v), "enum"); std::memcpy(&v, &n.raw, sizeof(v)); r.v = Val::Int(v); });
    def("ts_Tensor_data", [](Ran &r, int64_t, In a) {
        auto &t = T(a.at(0));
        const cpp::Tensor &c = t;
        auto p = turn(2) ? t.data<char>() : c.data<char>();
        note(r);
        if (a.at(0).none()) { if (p) r.v = Val::Int(1); return; }
        r.v = value_of(t.get_raw(), false).at(0).at(2);
        auto type = t.dtype();
        int32_t code;
        std::memcpy(&code, &type.raw, sizeof(code));
        auto width = code > 13 ? 0 : size_t(cpp::type_bytes(type));   
        auto n = size_t(t.count()) * width;
        if (width && n != r.v.str().size()) odd("count()");
        if (width && n && std::memcmp(p, r.v.str().data(), n)) odd("data()");
    });
    def("ts_Tensor_clone", [](Ran &r, int64_t o, In a) { keep(r, o, T(a.at(0)).clone()); });
    def("ts_Tensor_sync_cpu", [](Ran &r, int64_t, In a) { T(a.at(0)).sync_cpu(); done(r); });
    def("ts_Tensor_cast", [](Ran &r, int64_t o, In a) { keep(r, o, turn(2) ? T(a.at(0)).cast(dt(a.at(1))) : cpp::tensor::cast(dt(a.at(1)), T(a.at(0)))); });
    def("ts_Tensor_reshape", [](Ran &r, int64_t o, In a) { keep(r, o, T(a.at(0)).reshape(ints(a.at(1), a.at(2)))); });
    def("ts_Tensor_view_in_flow", [](Ran &r, int64_t o, In a) {
        keep(r, o, turn(2) ? T(a.at(0)).view(en<ts_InFlow>(a.at(1))) : T(a.at(0)).view(en<cpp::Tensor::InFlow>(a.at(1))));
    });
    def("ts_Tensor_field", [](Ran &r, int64_t o, In a) {
        auto &t = T(a.at(0));
        auto i = int(a.at(1).integer());
        if (t != nullptr && i >= 0 && i < t.fields_count() && turn(2)) keep(r, o, t.unpack().at(size_t(i)));
        else keep(r, o, t.field(i));
    });
    def("ts_Tensor_packed", [](Ran &r, int64_t, In a) { auto n = T(a.at(0)).packed(); note(r); r.v = Val::Int(n); });
    def("ts_Tensor_fields_count", [](Ran &r, int64_t, In a) { auto n = T(a.at(0)).fields_count(); note(r); r.v = Val::Int(n); });
    def("ts_Tensor_pack", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::Tensor::Pack(tensors(a.at(0), a.at(1)))); });
    def("ts_Tensor_slice", [](Ran &r, int64_t o, In a) { keep(r, o, T(a.at(0)).slice(int32_t(a.at(1).integer()))); });
    def("ts_Tensor_slice_v2", [](Ran &r, int64_t o, In a) { keep(r, o, T(a.at(0)).slice(int32_t(a.at(1).integer()), int32_t(a.at(2).integer()))); });
    def("ts_Tensor_save", [](Ran &r, int64_t, In a) {
        auto p = str(a.at(0));
        if (turn(2)) cpp::tensor::save(p, T(a.at(1))); else cpp::tensor::save(p, T(a.at(1)).get_raw());
        done(r);
    });
    def("ts_Tensor_load", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::tensor::load(str(a.at(0)))); });
    def("value", [](Ran &r, int64_t, In a) { r.v = value_of(T(a.at(0)).get_raw()); });

    // modules
    def("ts_Module_Load", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::Module::Load(str(a.at(0)), en<ts_SerializationFormat>(a.at(1)))); });
    def("ts_Module_LoadV2", [](Ran &r, int64_t o, In a) {
        Arena ar;
        auto key = Arg<const void *>::get(ar, a.at(1));
        keep(r, o, cpp::Module::LoadV2(str(a.at(0)), key, int32_t(a.at(2).integer()), en<ts_SerializationFormat>(a.at(3))));
    });
    def("ts_Module_LoadFromStream", [](Ran &r, int64_t o, In a) {
        need(!a.at(0).none() && a.at(2).integer());
        auto f = en<ts_SerializationFormat>(a.at(3));
        auto &data = a.at(0).str();
        auto chunk = size_t(a.at(1).integer());
        switch (chunk ? 0 : turn(4)) {
            case 0: { Pieces p; p.data = data; p.chunk = chunk; keep(r, o, cpp::Module::Load(p, f)); break; }
            case 1: { Arena ar; cpp::BufferReader b(Arg<const void *>::get(ar, a.at(0)), data.size()); keep(r, o, cpp::Module::Load(b, f)); break; }
            case 2: { Temporary t(data); cpp::FileStreamReader s(t.path); keep(r, o, cpp::Module::Load(s, f)); break; }
            case 3: { Temporary t(data); cpp::FileStreamReaderV2 s; s.open(t.path); keep(r, o, cpp::Module::Load(s, f)); break; }
        }
    });
    def("ts_Module_LoadFromStreamV2", [](Ran &r, int64_t o, In a) {
        need(!a.at(0).none() && a.at(2).integer() && a.at(3).integer());
        Arena ar;
        auto key = Arg<const void *>::get(ar, a.at(4));
        auto n = int32_t(a.at(5).integer());
        auto f = en<ts_SerializationFormat>(a.at(6));
        auto chunk = size_t(a.at(1).integer());
        if (chunk || turn(2)) { Pieces p; p.data = a.at(0).str(); p.chunk = chunk; keep(r, o, cpp::Module::LoadV2(p, key, n, f)); }
        else { Temporary t(a.at(0).str()); cpp::FileStreamReaderV2 s(t.path); keep(r, o, cpp::Module::LoadV2(s, key, n, f)); }
    });
    def("ts_Module_Fusion", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::Module::Fusion(M(a.at(0)), int32_t(a.at(1).integer()), M(a.at(2)), int32_t(a.at(3).integer()))); });

    // programs
    def("ts_Program_Compile", [](Ran &r, int64_t o, In a) {
        Arena ar;
        auto raw = Arg<const ts_Device *>::get(ar, a.at(1));
        if (raw && raw->type && turn(2)) {
            if (turn(2)) keep(r, o, cpp::Program::Compile(M(a.at(0)), device(a.at(1))));
            else keep(r, o, cpp::Program::Compile(M(a.at(0)).get_raw(), device(a.at(1))));
        } else keep(r, o, cpp::Program::Compile(M(a.at(0)), raw));
    });
    def("ts_Program_Compile_v2", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::Program::Compile(M(a.at(0)), device(a.at(1)), str(a.at(2)))); });
    def("ts_Program_clone", [](Ran &r, int64_t o, In a) { keep(r, o, P(a.at(0)).clone()); });
    def("ts_Program_input_count", [](Ran &r, int64_t, In a) { auto n = P(a.at(0)).input_count(); note(r); r.v = Val::Int(n); });
    def("ts_Program_output_count", [](Ran &r, int64_t, In a) { auto n = P(a.at(0)).output_count(); note(r); r.v = Val::Int(n); });
    def("ts_Program_set_operator_param", [](Ran &r, int64_t, In a) { P(a.at(0)).set_operator_param(str(a.at(1)), str(a.at(2)), T(a.at(3))); done(r); });

    // workbenches
    def("ts_new_Workbench", [](Ran &r, int64_t o, In a) {
        Arena ar;
        auto raw = Arg<const ts_Device *>::get(ar, a.at(0));
        if (raw && raw->type && turn(2)) keep(r, o, cpp::Workbench(device(a.at(0)))); else keep(r, o, cpp::Workbench(raw));
    });
    def("ts_Workbench_Load", [](Ran &r, int64_t o, In a) {
        Arena ar;
        auto raw = Arg<const ts_Device *>::get(ar, a.at(1));
        if (raw && raw->type && turn(2)) {
            if (turn(2)) keep(r, o, cpp::Workbench::Load(M(a.at(0)), device(a.at(1))));
            else keep(r, o, cpp::Workbench::Load(M(a.at(0)).get_raw(), device(a.at(1))));
        } else keep(r, o, cpp::Workbench::Load(M(a.at(0)), raw));
    });
    def("ts_Workbench_Load_v2", [](Ran &r, int64_t o, In a) { keep(r, o, cpp::Workbench::Load(M(a.at(0)), device(a.at(1)), str(a.at(2)))); });
    def("ts_Workbench_clone", [](Ran &r, int64_t o, In a) { keep(r, o, W(a.at(0)).clone()); });
    def("ts_Workbench_input", [](Ran &r, int64_t, In a) {
        auto i = int(a.at(1).integer());
        if (turn(2)) W(a.at(0)).input(i, T(a.at(2))); else W(a.at(0)).input(i, T(a.at(2)).get_raw());
        done(r);
    });
    def("ts_Workbench_input_by_name", [](Ran &r, int64_t, In a) {
        auto n = str(a.at(1));
        if (turn(2)) W(a.at(0)).input(n, T(a.at(2))); else W(a.at(0)).input(n, T(a.at(2)).get_raw());
        done(r);
    });
    def("ts_Workbench_run", [](Ran &r, int64_t, In a) { W(a.at(0)).run(); done(r); });
    def("ts_Workbench_output", [](Ran &r, int64_t, In a) {
        auto i = int(a.at(1).integer());
        auto &t = T(a.at(2));
        auto k = turn(3);
        if (k == 0) W(a.at(0)).output(i, t); else W(a.at(0)).output(i, t.get_raw());
        done(r);
        if (k == 2) {
            auto x = W(a.at(0)).output(i);
            if (!same(value_of(x.get_raw()), value_of(t.get_raw()))) odd("output(slot)");
        }
    });
    def("ts_Workbench_output_by_name", [](Ran &r, int64_t, In a) {
        auto n = str(a.at(1));
        auto &t = T(a.at(2));
        auto k = turn(3);
        if (k == 0) W(a.at(0)).output(n, t); else W(a.at(0)).output(n, t.get_raw());
        done(r);
        if (k == 2) {
            auto x = W(a.at(0)).output(n);
            if (!same(value_of(x.get_raw()), value_of(t.get_raw()))) odd("output(name)");
        }
    });
    def("ts_Workbench_set_computing_thread_number", [](Ran &r, int64_t, In a) { W(a.at(0)).set_computing_thread_number(int(a.at(1).integer())); done(r); });
    def("ts_Workbench_bind_filter", [](Ran &r, int64_t, In a) {
        auto i = int(a.at(1).integer());
        if (turn(2)) W(a.at(0)).bind_filter(i, F(a.at(2))); else W(a.at(0)).bind_filter(i, F(a.at(2)).get_raw());
        done(r);
    });
    def("ts_Workbench_bind_filter_by_name", [](Ran &r, int64_t, In a) {
        auto n = str(a.at(1));
        if (turn(2)) W(a.at(0)).bind_filter(n, F(a.at(2))); else W(a.at(0)).bind_filter(n, F(a.at(2)).get_raw());
        done(r);
    });
    def("ts_Workbench_setup_context", [](Ran &r, int64_t, In a) { W(a.at(0)).setup_context(); done(r); });
    def("ts_Workbench_setup_device", [](Ran &r, int64_t, In a) { W(a.at(0)).setup_device(); done(r); });
    def("ts_Workbench_setup_runtime", [](Ran &r, int64_t, In a) { W(a.at(0)).setup_runtime(); done(r); });
    def("ts_Workbench_setup", [](Ran &r, int64_t, In a) {
        if (turn(2)) W(a.at(0)).setup(P(a.at(1))); else W(a.at(0)).setup(P(a.at(1)).get_raw());
        done(r);
    });
    def("ts_Workbench_compile", [](Ran &r, int64_t o, In a) { keep(r, o, turn(2) ? W(a.at(0)).compile(M(a.at(1))) : W(a.at(0)).compile(M(a.at(1)).get_raw())); });
    def("ts_Workbench_compile_v2", [](Ran &r, int64_t o, In a) { keep(r, o, W(a.at(0)).compile(M(a.at(1)), str(a.at(2)))); });
    def("ts_Workbench_input_count", [](Ran &r, int64_t, In a) { auto n = W(a.at(0)).input_count(); note(r); r.v = Val::Int(n); });
    def("ts_Workbench_output_count", [](Ran &r, int64_t, In a) { auto n = W(a.at(0)).output_count(); note(r); r.v = Val::Int(n); });
    def("ts_Workbench_run_hook", [](Ran &r, int64_t, In a) {
        need(!a.at(1).none());
        std::vector<std::string> n;
        for (auto &x : a.at(1).list()) n.push_back(str(x));
        need(int64_t(n.size()) == a.at(2).integer() && !n.empty());
        W(a.at(0)).run_hook(n);
        done(r);
    });
    def("ts_Workbench_set_operator_param", [](Ran &r, int64_t, In a) { W(a.at(0)).set_operator_param(str(a.at(1)), str(a.at(2)), T(a.at(3))); done(r); });
    def("ts_Workbench_summary", [](Ran &r, int64_t, In a) { auto s = W(a.at(0)).summary(); note(r); r.v = Val::Str(s); });
    def("ts_Workbench_set_cpu_mode", [](Ran &r, int64_t, In a) {
        auto ok = turn(2) ? W(a.at(0)).set_cpu_mode(en<ts_CpuPowerMode>(a.at(1))) : W(a.at(0)).set_cpu_mode(en<cpp::CpuPowerMode>(a.at(1)));
        note(r);
        r.v = Val::Int(ok);
    });

    // immediate operators
    namespace it = cpp::intime;
    using IR = it::ResizeMethod;
    def("ts_intime_transpose", [](Ran &r, int64_t o, In a) { keep(r, o, it::transpose(T(a.at(0)), ints(a.at(1), a.at(2)))); });
    def("ts_intime_sigmoid", [](Ran &r, int64_t o, In a) { keep(r, o, it::sigmoid(T(a.at(0)))); });
    def("ts_intime_gather", [](Ran &r, int64_t o, In a) { keep(r, o, it::gather(T(a.at(0)), T(a.at(1)), int32_t(a.at(2).integer()))); });
    def("ts_intime_concat", [](Ran &r, int64_t o, In a) { keep(r, o, it::concat(tensors(a.at(0), a.at(1)), int32_t(a.at(2).integer()))); });
    def("ts_intime_softmax", [](Ran &r, int64_t o, In a) {
        bool s = a.at(2).integer() != 0;
        auto d = int32_t(a.at(1).integer());
        keep(r, o, s && turn(2) ? it::softmax(T(a.at(0)), d) : it::softmax(T(a.at(0)), d, s));
    });
    def("ts_intime_pad", [](Ran &r, int64_t o, In a) {
        auto &p = T(a.at(1));
        auto v = float(a.at(2).number());
        if (p != nullptr && p.dtype() == cpp::INT32 && p.dims() == 2 && p.size(1) == 2 && p.count() && turn(2)) {
            std::vector<it::DimPadding> d;
            for (int k = 0; k < p.size(0); ++k) d.emplace_back(p.data<int32_t>(2 * k), p.data<int32_t>(2 * k + 1));
            keep(r, o, it::pad(T(a.at(0)), d, v));
        } else keep(r, o, it::pad(T(a.at(0)), p, v));
    });
    def("ts_intime_cast", [](Ran &r, int64_t o, In a) { keep(r, o, it::cast(T(a.at(0)), dt(a.at(1)))); });
    def("ts_intime_resize2d", [](Ran &r, int64_t o, In a) { keep(r, o, it::resize2d(T(a.at(0)), T(a.at(1)), en<IR>(a.at(2)))); });
    def("ts_intime_matmul", [](Ran &r, int64_t o, In a) {
        bool t = a.at(2).integer() != 0;
        keep(r, o, !t && turn(2) ? it::matmul(T(a.at(0)), T(a.at(1))) : it::matmul(T(a.at(0)), T(a.at(1)), t));
    });
    auto affine_args = [](const cpp::Tensor &s, const cpp::Tensor &m, std::array<int32_t, 2> &size, std::array<float, 9> &mat) {
        int k = 0;
        if (s != nullptr && s.dtype() == cpp::INT32 && s.dims() == 1 && s.count() == 2) { k |= 1; size = {s.data<int32_t>(0), s.data<int32_t>(1)}; }
        if (m != nullptr && m.dtype() == cpp::FLOAT32 && m.dims() == 2 && m.size(0) == 3 && m.size(1) == 3) { k |= 2; std::copy(m.data<float>(), m.data<float>() + 9, mat.begin()); }
        return k;
    };
    def("ts_intime_affine_sample2d", [=](Ran &r, int64_t o, In a) {
        auto &x = T(a.at(0)), &s = T(a.at(1)), &m = T(a.at(2));
        auto d = int32_t(a.at(3).integer());
        auto v = float(a.at(4).number());
        auto w = en<IR>(a.at(5));
        std::array<int32_t, 2> S; std::array<float, 9> A;
        switch (affine_args(s, m, S, A) & turn(4)) {
            case 0: keep(r, o, it::affine_sample2d(x, s, m, d, v, w)); break;
            case 1: keep(r, o, it::affine_sample2d(x, S, m, d, v, w)); break;
            case 2: keep(r, o, it::affine_sample2d(x, s, A, d, v, w)); break;
            case 3: keep(r, o, it::affine_sample2d(x, S, A, d, v, w)); break;
        }
    });
    def("ts_intime_affine_on_sample2d", [=](Ran &r, int64_t o, In a) {
        auto &x = T(a.at(0)), &s = T(a.at(1)), &m = T(a.at(2));
        auto d = int32_t(a.at(3).integer());
        auto w = en<IR>(a.at(4));
        std::array<int32_t, 2> S; std::array<float, 9> A;
        switch (affine_args(s, m, S, A) & turn(4)) {
            case 0: keep(r, o, it::affine_on_sample2d(x, s, m, d, w)); break;
            case 1: keep(r, o, it::affine_on_sample2d(x, S, m, d, w)); break;
            case 2: keep(r, o, it::affine_on_sample2d(x, s, A, d, 0, w)); break;
            case 3: keep(r, o, it::affine_on_sample2d(x, S, A, d, 0, w)); break;
        }
    });
    def("ts_intime_memcpy", [](Ran &r, int64_t, In a) {
        Arena ar;
        void *dp = const_cast<void *>(Arg<const void *>::get(ar, a.at(1)));
        auto sp = Arg<const void *>::get(ar, a.at(4));
        auto n = !dp && !sp ? it::memcpy(T(a.at(0)), a.at(2).integer(), T(a.at(3)), a.at(5).integer(), a.at(6).integer())
                            : it::memcpy(T(a.at(0)), dp, a.at(2).integer(), T(a.at(3)), sp, a.at(5).integer(), a.at(6).integer());
        note(r);
        r.v = Val::List().add(Val::Int(n)).add(dp ? Val::Str(std::string(static_cast<char *>(dp), a.at(1).str().size())) : Val());
    });

    // image filters
    using FR = cpp::ImageFilter::ResizeMethod;
    def("ts_new_ImageFilter", [](Ran &r, int64_t o, In a) {
        Arena ar;
        auto raw = Arg<const ts_Device *>::get(ar, a.at(0));
        bool plain = raw && raw->type && std::string(raw->type) == "cpu" && raw->id == 0;
        if (plain && !turn(3)) keep(r, o, cpp::ImageFilter());
        else if (raw && raw->type && turn(2)) keep(r, o, cpp::ImageFilter(device(a.at(0))));
        else keep(r, o, cpp::ImageFilter(raw));
    });
#define STEP(name, expr) def("ts_ImageFilter_" name, [](Ran &r, int64_t, In a) { auto &f = F(a.at(0)); auto i = [&](size_t k) { return int(a.at(k).integer()); }; auto n = [&](size_t k) { return float(a.at(k).number()); }; (void) i; (void) n; expr; done(r); })
    STEP("clear", f.clear());
    STEP("compile", f.compile());
    STEP("to_float", f.to_float());
    STEP("scale", f.scale(n(1)));
    STEP("sub_mean", f.sub_mean(reals(a.at(1), a.at(2))));
    STEP("div_std", f.div_std(reals(a.at(1), a.at(2))));
    STEP("resize", f.resize(i(1), i(2)));
    STEP("resize_scalar", f.resize(i(1)));
    STEP("center_crop", if (i(1) == i(2) && turn(2)) f.center_crop(i(1)); else f.center_crop(i(1), i(2)));
    STEP("channel_swap", f.channel_swap(ints(a.at(1), a.at(2))));
    STEP("to_chw", f.to_chw());
    STEP("prewhiten", f.prewhiten());
    STEP("letterbox", if (i(1) == i(2) && turn(2)) { if (n(3) == 0 && turn(2)) f.letterbox(i(1)); else f.letterbox(i(1), n(3)); } else f.letterbox(i(1), i(2), n(3)));
    STEP("divided", f.divide(i(1), i(2), n(3)));
    STEP("resize_v2", if (turn(2)) f.resize(i(1), i(2), en<ts_ResizeMethod>(a.at(3))); else f.resize(i(1), i(2), en<FR>(a.at(3))));
    STEP("resize_scalar_v2", if (turn(2)) f.resize(i(1), en<ts_ResizeMethod>(a.at(2))); else f.resize(i(1), en<FR>(a.at(2))));
    STEP("letterbox_v2", if (i(1) == i(2) && turn(2)) { if (turn(2)) f.letterbox(i(1), n(3), en<ts_ResizeMethod>(a.at(4))); else f.letterbox(i(1), n(3), en<FR>(a.at(4))); }
                         else if (turn(2)) f.letterbox(i(1), i(2), n(3), en<ts_ResizeMethod>(a.at(4))); else f.letterbox(i(1), i(2), n(3), en<FR>(a.at(4))));
    STEP("force_color", f.force_color());
    STEP("force_gray", f.force_gray());
    STEP("force_gray_v2", if (a.at(1).none() || a.at(1).size() == 0) f.force_gray(std::vector<float>()); else f.force_gray(reals(a.at(1), a.at(2))));
    STEP("norm_image", f.norm_image(n(1)));
#undef STEP
    def("ts_ImageFilter_run", [](Ran &r, int64_t o, In a) { keep(r, o, turn(2) ? F(a.at(0)).run(T(a.at(1))) : F(a.at(0)).run(T(a.at(1)).get_raw())); });
    def("ts_ImageFilter_module", [](Ran &r, int64_t o, In a) { keep(r, o, F(a.at(0)).module()); });

    // release
    for (auto n : {"Tensor", "Module", "Program", "Workbench", "ImageFilter"})
        def(std::string("ts_free_") + n, [](Ran &r, int64_t, In a) {
            need(!a.at(0).none());
            std::shared_ptr<void> last;
            {
                std::lock_guard<std::mutex> g(g_lock);
                last = std::move(g_held.at(a.at(0).integer()));
                g_held.erase(a.at(0).integer());
                g_objs.erase(a.at(0).integer());
            }
            last.reset();
            note(r);
        });
    def("ts_setup", [](Ran &r, int64_t, In) { ts_setup(); done(r); });

    // ---------------------------------------------------------------- handlers
    h["register"] = [](const Val &) {
        cpp::RegisterOperator<Echo>("cpu", "capi_echo");
        cpp::RegisterOperator<Second>("cpu", "capi_ex");
        return Val::Int(0);
    };
    // [[thread, out, function, args, did something?]...]; ends before a call that did something and is not there in C++
    h["history"] = [](const Val &q) {
        Val r = Val::List();
        for (auto &c : q.at(1).list()) {
            Val one = Val::List().add(c.at(1)).add(c.at(2)).add(c.at(3)), a;
            auto &t = runner(c.at(0).integer());
            t.start([&] { a = call(one); });
            t.wait();
            r.add(a);
            if (c.at(4).integer() && a.at(0).s == "harness") break;
        }
        return r;
    };
    h["drop"] = [](const Val &) {
        std::lock_guard<std::mutex> g(g_lock);
        g_objs.clear();
        g_held.clear();
        return Val::Int(0);
    };
    h["turns"] = [](const Val &q) { g_turn = q.at(1).integer(); return Val::Int(0); };
    // dtype -> [bytes, text, width of the declared type, id of that type]
    h["table"] = [](const Val &) {
        Val r = Val::List();
        for (int k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13}) {
            cpp::DTYPE d(en<ts_DTYPE>(Val::Int(k)));
            r.add(Val::List().add(Val::Int(k)).add(Val::Int(cpp::type_bytes(d))).add(Val::Str(cpp::type_str(d))));
        }
        Val w = Val::List();
#define ROW(X) w.add(Val::List().add(Val::Int(X)).add(Val::Int(sizeof(cpp::dtype<X>::declare))).add(Val::Int(cpp::dtypeid<cpp::dtype<X>::declare>::id)).add(Val::Int(std::is_signed<cpp::dtype<X>::declare>::value)).add(Val::Int(std::is_floating_point<cpp::dtype<X>::declare>::value)))
        ROW(TS_INT8); ROW(TS_UINT8); ROW(TS_INT16); ROW(TS_UINT16); ROW(TS_INT32); ROW(TS_UINT32); ROW(TS_INT64); ROW(TS_UINT64); ROW(TS_FLOAT32); ROW(TS_FLOAT64); ROW(TS_CHAR8);
#undef ROW
        return Val::List().add(r).add(w);
    };
    // how, element type, wanted type, bytes, shape -> [[dtype, shape, bytes]...] | text of the exception
    h["build"] = [](const Val &q) {
        int how = int(q.at(1).integer());
        auto want = en<ts_DTYPE>(q.at(3));
        auto &raw = q.at(4).str();
        std::vector<int32_t> shape;
        for (auto &x : q.at(5).list()) shape.push_back(int32_t(x.integer()));
        try {
            switch (q.at(2).integer()) {
                case 1: return build_as<int8_t>(how, want, raw, shape);
                case 2: return build_as<uint8_t>(how, want, raw, shape);
                case 3: return build_as<int16_t>(how, want, raw, shape);
                case 4: return build_as<uint16_t>(how, want, raw, shape);
                case 5: return build_as<int32_t>(how, want, raw, shape);
                case 6: return build_as<uint32_t>(how, want, raw, shape);
                case 7: return build_as<int64_t>(how, want, raw, shape);
                case 8: return build_as<uint64_t>(how, want, raw, shape);
                case 10: return build_as<float>(how, want, raw, shape);
                case 11: return build_as<double>(how, want, raw, shape);
                case 13: return build_as<char>(how, want, raw, shape);
            }
            throw std::runtime_error("capi: type");
        } catch (const cpp::Exception &e) { return Val::Str(e.what()); }
    };
    // what, tensor, dtype -> the numbers
    h["convert"] = [](const Val &q) {
        auto &w = q.at(1).str();
        auto t = q.at(2).ten();
        std::vector<int32_t> s(t.sizes().begin(), t.sizes().end());
        cpp::Tensor x(ts_DTYPE(t.dtype()), s, t.data());
        auto before = value_of(x.get_raw());
        Val r;
        namespace tt = cpp::tensor;
        try {
            if (w == "int") r = numbers(std::vector<int>{tt::to_int(x)});
            else if (w == "uint") r = numbers(std::vector<unsigned>{tt::to_uint(x)});
            else if (w == "float") r = numbers(std::vector<float>{tt::to_float(x)});
            else if (w == "double") r = numbers(std::vector<double>{tt::to_double(x)});
            else if (w == "string") r = Val::Str(tt::to_string(x));
            else if (w == "ints") r = numbers(tt::array::to_int(x));
            else if (w == "uints") r = numbers(tt::array::to_uint(x));
            else if (w == "floats") r = numbers(tt::array::to_float(x));
            else if (w == "doubles") r = numbers(tt::array::to_double(x));
            else if (w == "clone") {
                auto c = tt::clone(ts_DTYPE(q.at(3).integer()), x);
                r = value_of(c.get_raw());
                if (c.data() && c.data() == x.data()) odd("clone shares the memory");
            } else if (w == "text") {
                std::string b(x.data<char>(), size_t(x.count()));
                auto y = q.at(3).integer() ? tt::from(b) : tt::from(b.c_str());
                r = value_of(y.get_raw());
            }
        } catch (const cpp::Exception &e) { r = Val::List().add(Val::Str("refused")); }
        if (!same(value_of(x.get_raw()), before)) odd("the tensor itself changed");
        return r;
    };
    h["oddities"] = [](const Val &) {
        std::lock_guard<std::mutex> g(g_odd_lock);
        Val o = Val::List();
        for (auto &s : g_odd) o.add(Val::Str(s));
        g_odd.clear();
        return o;
    };
    h["blocks"] = [](const Val &) {
#if defined(__SANITIZE_ADDRESS__)
        return Val::Int(g_blocks.load());
#else
        return Val::Int(0);
#endif
    };
    // double?, steps, points -> [matrix, inverse, points and back]
    h["affine"] = [](const Val &q) { return q.at(1).integer() ? affine<double>(q.at(2), q.at(3)) : affine<float>(q.at(2), q.at(3)); };
    // kind, bytes, actions [read n | rewind | reopen | write bytes] -> what each reads
    h["stream"] = [](const Val &q) {
        int kind = int(q.at(1).integer());
        auto &data = q.at(2).str();
        Val r = Val::List();
        Temporary f(data);
        Arena ar;
        auto mem = Arg<const void *>::get(ar, q.at(2));
        cpp::FileStreamReader one;
        cpp::FileStreamReaderV2 two;
        cpp::BufferReader buffer(mem, data.size());
        if (kind == 0) one.open(f.path);
        if (kind == 1) two.open(f.path);
        for (auto &s : q.at(3).list()) {
            auto &w = s.at(0).str();
            if (w == "read") {
                auto n = size_t(s.at(1).integer());
                auto p = static_cast<char *>(ar.take(n));
                // as the C side calls it
                uint64_t k = kind == 0 ? cpp::StreamReader::C(static_cast<cpp::StreamReader *>(&one), p, n)
                           : kind == 1 ? cpp::StreamReader::C(static_cast<cpp::StreamReader *>(static_cast<cpp::StreamReaderV2 *>(&two)), p, n)
                                       : cpp::StreamReader::C(static_cast<cpp::StreamReader *>(&buffer), p, n);
                r.add(k <= n ? Val::Str(std::string(p, size_t(k))) : Val::Int(int64_t(k)));
            } else if (w == "rewind") {
                if (kind == 0) { one.close(); one.open(f.path); }
                if (kind == 1) cpp::StreamReaderV2::C(static_cast<cpp::StreamReaderV2 *>(&two));
                if (kind == 2) buffer.reset();
                r.add(Val::Int(kind == 2 ? int64_t(buffer.size()) : kind == 0 ? one.is_open() : two.is_open()));
            }
        }
        return r;
    };
    // path, pieces -> what each write answers
    h["write"] = [](const Val &q) {
        cpp::FileStreamWriter w(q.at(1).str());
        Val r = Val::List();
        if (!w.is_open()) return r;
        for (auto &s : q.at(2).list()) {
            Arena ar;
            auto p = Arg<const void *>::get(ar, s);
            r.add(Val::Int(int64_t(cpp::StreamWriter::C(static_cast<cpp::StreamWriter *>(&w), static_cast<const char *>(p), s.str().size()))));
        }
        w.close();
        return r;
    };
}
