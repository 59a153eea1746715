// Execution server for the C interface: every exported function is called exactly as a C program
// would, from a chosen thread, with arguments in exactly sized buffers.  What comes back is the
// value, the calling thread's error message, and whether anything was thrown across the boundary.
#include "rpc.h"
#include "api/tennis.h"
#include "api/operator.h"
#include "api/program.h"
#include "api/intime.h"
#include "global/operator_factory.h"
#include "global/setup.h"
#include "runtime/stack.h"
#include "runtime/workbench.h"
#include "core/device_context.h"

#include <condition_variable>
#include <thread>
#include <deque>
#include <algorithm>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif

using rpc::Val;

// ---------------------------------------------------------------- objects
struct Obj { char type; void *p; };
static std::mutex g_lock;
static std::map<int64_t, Obj> g_objs;

template<typename X> struct Kind;
template<> struct Kind<ts_Tensor> { enum { c = 'T' }; };
template<> struct Kind<ts_Module> { enum { c = 'M' }; };
template<> struct Kind<ts_Program> { enum { c = 'P' }; };
template<> struct Kind<ts_Workbench> { enum { c = 'W' }; };
template<> struct Kind<ts_ImageFilter> { enum { c = 'F' }; };

template<typename X> static X *object(const Val &v) {
    if (v.none()) return nullptr;
    std::lock_guard<std::mutex> g(g_lock);
    auto it = g_objs.find(v.integer());
    if (it == g_objs.end() || it->second.type != char(Kind<X>::c)) throw std::runtime_error("capi: no such object");
    return static_cast<X *>(it->second.p);
}

// ---------------------------------------------------------------- arguments
struct Arena {
    std::vector<void *> b;
    void *take(size_t n) { void *p = std::malloc(n ? n : 1); b.push_back(p); return p; }
    template<typename T> T *copy(const std::vector<T> &v) {
        auto p = static_cast<T *>(take(v.size() * sizeof(T)));
        if (!v.empty()) std::memcpy(p, v.data(), v.size() * sizeof(T));
        return p;
    }
    ~Arena() { for (auto p : b) std::free(p); }
};

template<typename A, typename = void> struct Arg;
template<> struct Arg<int32_t> { static int32_t get(Arena &, const Val &v) { return int32_t(v.integer()); } };
template<> struct Arg<int64_t> { static int64_t get(Arena &, const Val &v) { return v.integer(); } };
template<> struct Arg<float> { static float get(Arena &, const Val &v) { return float(v.number()); } };
template<typename E> struct Arg<E, typename std::enable_if<std::is_enum<E>::value>::type> {
    static E get(Arena &, const Val &v) { auto i = int32_t(v.integer()); E e; std::memcpy(&e, &i, sizeof(e)); return e; }
};
template<> struct Arg<const char *> {
    static const char *get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        std::vector<char> s(v.str().begin(), v.str().end());
        s.push_back(0);
        return a.copy(s);
    }
};
template<> struct Arg<const void *> {
    static const void *get(Arena &a, const Val &v) { return v.none() ? nullptr : a.copy(std::vector<char>(v.str().begin(), v.str().end())); }
};
template<> struct Arg<const int32_t *> {
    static const int32_t *get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        std::vector<int32_t> x;
        for (auto &i : v.list()) x.push_back(int32_t(i.integer()));
        return a.copy(x);
    }
};
template<> struct Arg<const float *> {
    static const float *get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        std::vector<float> x;
        for (auto &i : v.list()) x.push_back(float(i.number()));
        return a.copy(x);
    }
};
template<> struct Arg<const ts_Device *> {
    static const ts_Device *get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        ts_Device d{Arg<const char *>::get(a, v.at(0)), int32_t(v.at(1).integer())};
        return a.copy(std::vector<ts_Device>(1, d));
    }
};
template<> struct Arg<ts_Tensor **> {
    static ts_Tensor **get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        std::vector<ts_Tensor *> x;
        for (auto &i : v.list()) x.push_back(object<ts_Tensor>(i));
        return a.copy(x);
    }
};
template<> struct Arg<const ts_Tensor *const *> {
    static const ts_Tensor *const *get(Arena &a, const Val &v) { return Arg<ts_Tensor **>::get(a, v); }
};
template<> struct Arg<const char **> {
    static const char **get(Arena &a, const Val &v) {
        if (v.none()) return nullptr;
        std::vector<const char *> x;
        for (auto &i : v.list()) x.push_back(Arg<const char *>::get(a, i));
        return a.copy(x);
    }
};
template<typename X> struct Arg<X *, typename std::enable_if<Kind<typename std::remove_const<X>::type>::c != 0>::type> {
    static X *get(Arena &, const Val &v) { return object<typename std::remove_const<X>::type>(v); }
};

// ---------------------------------------------------------------- results
struct Ran {
    Val v;
    std::string message;
    bool no_message = false;
};

static void note(Ran &r) {
    auto m = ts_last_error_message();
    if (m) r.message = m; else r.no_message = true;
}

template<typename X> static typename std::enable_if<Kind<X>::c != 0>::type result(Ran &r, int64_t out, X *p) {
    note(r);
    r.v = Val::Int(p != nullptr);
    if (p) { std::lock_guard<std::mutex> g(g_lock); g_objs[out] = Obj{char(Kind<X>::c), const_cast<void *>(static_cast<const void *>(p))}; }
}
static void result(Ran &r, int64_t, int32_t v) { note(r); r.v = Val::Int(v); }
static void result(Ran &r, int64_t, int64_t v) { note(r); r.v = Val::Int(v); }
static void result(Ran &r, int64_t, ts_DTYPE v) { note(r); int32_t i; std::memcpy(&i, &v, 4); r.v = Val::Int(i); }
static void result(Ran &r, int64_t, const char *v) { note(r); if (v) r.v = Val::Str(v); }

using Fn = std::function<void(Ran &, int64_t, const Val &)>;
static std::map<std::string, Fn> &fns() { static auto m = new std::map<std::string, Fn>; return *m; }

template<typename... A, size_t... I>
static std::tuple<A...> unpack(Arena &a, const Val &args, std::index_sequence<I...>) { return std::tuple<A...>{Arg<A>::get(a, args.at(I))...}; }

template<typename R, typename... A> struct Invoke {
    template<size_t... I> static void go(Ran &r, int64_t out, R (*f)(A...), std::tuple<A...> &t, std::index_sequence<I...>) { result(r, out, f(std::get<I>(t)...)); }
};
template<typename... A> struct Invoke<void, A...> {
    template<size_t... I> static void go(Ran &r, int64_t, void (*f)(A...), std::tuple<A...> &t, std::index_sequence<I...>) { f(std::get<I>(t)...); note(r); }
};

static thread_local bool g_inside = false;      // between entering and leaving a function of the interface

template<typename R, typename... A> static void bind(const std::string &name, R (*f)(A...)) {
    fns()[name] = [f](Ran &r, int64_t out, const Val &args) {
        Arena a;
        if (args.size() != sizeof...(A)) throw std::runtime_error("capi: argument count");
        auto t = unpack<A...>(a, args, std::index_sequence_for<A...>{});
        g_inside = true;
        Invoke<R, A...>::go(r, out, f, t, std::index_sequence_for<A...>{});
        g_inside = false;
    };
}

template<typename X> static void bind_free(const std::string &name, void (*f)(const X *)) {
    fns()[name] = [f](Ran &r, int64_t, const Val &args) {
        X *p = object<X>(args.at(0));
        if (p) { std::lock_guard<std::mutex> g(g_lock); g_objs.erase(args.at(0).integer()); }
        g_inside = true;
        f(p);
        g_inside = false;
        note(r);
    };
}

// ---------------------------------------------------------------- streams
struct Source {
    std::string data;
    size_t at = 0, chunk = 0;
    uint64_t calls = 0, rewinds = 0;
};
static uint64_t source_read(void *o, char *to, uint64_t n) {
    auto s = static_cast<Source *>(o);
    ++s->calls;
    size_t k = std::min<size_t>(n, s->data.size() - s->at);
    if (s->chunk) k = std::min(k, s->chunk);
    if (k) std::memcpy(to, s->data.data() + s->at, k);
    s->at += k;
    return k;
}
static void source_rewind(void *o) { auto s = static_cast<Source *>(o); s->at = 0; ++s->rewinds; }

// ---------------------------------------------------------------- tensor values through the interface
static int width(int dt) {
    static const int w[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8, 8, 1, 2, 4, 1, 2, 4, 8, 16, 1, 4, 8, 16, 1, 1, 1, 1, 1, 1, 1, 1};
    return dt >= 0 && dt < int(sizeof(w) / sizeof(w[0])) ? w[dt] : 0;
}
static Val value_of(ts_Tensor *t, bool top = true) {
    Val out = Val::List();
    int n = top ? ts_Tensor_fields_count(t) : 1;
    if (top && n > 1) {
        for (int k = 0; k < n; ++k) {
            auto f = ts_Tensor_field(t, k);
            if (!f) throw std::runtime_error("capi: field is not there");
            out.add(value_of(f, false).at(0));
            ts_free_Tensor(f);
        }
        return out;
    }
    int dt = ts_Tensor_dtype(t), nd = ts_Tensor_shape_size(t);
    auto sh = ts_Tensor_shape(t);
    Val s = Val::List();
    int64_t c = width(dt);
    for (int k = 0; k < nd; ++k) { s.add(Val::Int(sh[k])); c *= sh[k] < 0 ? 0 : sh[k]; }
    auto p = static_cast<const char *>(ts_Tensor_data(t));
    return out.add(Val::List().add(Val::Int(dt)).add(s).add(Val::Str(c && p ? std::string(p, size_t(c)) : std::string())));
}

// ---------------------------------------------------------------- operators written against the interface
// The parameter "mode" tells what an instance does; live instances and oddities are counted.
static std::atomic<int64_t> g_live{0}, g_made{0}, g_runs{0}, g_refuse_new{0};
static std::mutex g_odd_lock;
static std::vector<std::string> g_odd;
static void odd(const std::string &s) { std::lock_guard<std::mutex> g(g_odd_lock); g_odd.push_back(s); }

struct Plug { uint64_t magic = 0x5105105105105105ull; int mode = 0; int init = 0; };

static void *plug_new() {
    if (g_refuse_new.load()) { ts_set_error_message("plugin: no instance"); return nullptr; }
    ++g_live; ++g_made;
    return new Plug;
}
static Plug *plug(const void *o) {
    auto p = static_cast<Plug *>(const_cast<void *>(o));
    if (!p || p->magic != 0x5105105105105105ull) { odd("operator object"); std::abort(); }
    return p;
}
static void plug_free(const void *o) { auto p = plug(o); p->magic = 0; --g_live; delete p; }
static ts_bool plug_setup(void *o, const ts_OperatorParams *dict, ts_OperatorContext *context) {
    auto p = plug(o);
    ++p->init;
    if (!context) odd("no context in init");
    auto none = ts_OperatorParams_get(dict, "no_such_parameter");
    if (none) { odd("a parameter that is not there"); ts_free_Tensor(none); }
    if (*ts_last_error_message()) odd(std::string("a missing parameter leaves the message ") + ts_last_error_message());
    auto m = ts_OperatorParams_get(dict, "mode");
    if (m) {
        auto v = value_of(m);
        ts_free_Tensor(m);
        if (v.at(0).at(2).str().size() >= 4) std::memcpy(&p->mode, v.at(0).at(2).str().data(), 4);
    }
    if (p->mode == 10) {        // wrong calls inside an operator are answered like all others
        if (ts_OperatorParams_get(dict, nullptr)) odd("parameter without a name");
        if (!*ts_last_error_message()) odd("no message for a parameter without a name");
        if (ts_OperatorParams_get(nullptr, "mode")) odd("parameter of nothing");
        if (!*ts_last_error_message()) odd("no message for a parameter of nothing");
    }
    if (p->mode == 7) { ts_set_error_message("plugin: init refused"); return 0; }
    return 1;
}
static void plug_init(void *o, const ts_OperatorParams *d, ts_OperatorContext *c) { if (!plug_setup(o, d, c)) ts_Operator_Throw("plugin: init refused"); }

static ts_Tensor *copy_of(ts_Tensor *t) {
    auto v = value_of(t);
    if (v.size() > 1) return ts_Tensor_clone(t);
    std::vector<int32_t> s;
    for (auto &x : v.at(0).at(1).list()) s.push_back(int32_t(x.integer()));
    return ts_new_Tensor_in_flow(TS_HOST, s.data(), int32_t(s.size()), ts_DTYPE(v.at(0).at(0).integer()), v.at(0).at(2).str().data());
}
static ts_Tensor *plug_run(void *o, int32_t argc, ts_Tensor **argv, ts_OperatorContext *context) {
    auto p = plug(o);
    ++g_runs;
    if (!p->init) odd("run before init");
    if (!context) odd("no context in run");
    switch (p->mode) {
        default: return copy_of(argv[argc - 1]);
        case 1: return ts_Tensor_pack(argv, argc);
        case 2: ts_set_error_message("plugin: run refused"); return nullptr;
        case 3: ts_Operator_Throw("plugin: thrown"); return nullptr;
        case 4: ts_Operator_ThrowV2("plugin: thrown", "file.c", 7); return nullptr;
        case 5: return nullptr;
        case 6: {       // a failure the operator deals with itself
            int32_t bad[] = {3, 1, 1, 1, 99};
            auto r = ts_Tensor_reshape(argv[0], bad, 5);
            if (r) { odd("impossible reshape"); ts_free_Tensor(r); }
            auto out = copy_of(argv[argc - 1]);
            r = ts_Tensor_reshape(argv[0], bad, 5);
            return out;
        }
        case 8: ts_Operator_Throw(nullptr); return nullptr;
        case 9: ts_Operator_ThrowV2(nullptr, "file.c", 7); return nullptr;
    }
}
static thread_local std::vector<int32_t> g_proto;
static ts_Tensor *plug_infer(void *o, int32_t argc, ts_Tensor **argv, ts_OperatorContext *) {
    auto p = plug(o);
    (void) p; (void) argc; (void) argv;
    if (g_proto.empty()) { ts_set_error_message("plugin: infer refused"); return nullptr; }
    int32_t n = int32_t(g_proto.size());
    return ts_new_Tensor(&n, 1, TS_INT32, g_proto.data());
}

// ---------------------------------------------------------------- threads
struct Runner {
    std::mutex m;
    std::condition_variable c;
    std::function<void()> job;
    bool busy = false, stop = false;
    std::thread t;
    Runner() : t([this] {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            c.wait(l, [this] { return busy || stop; });
            if (stop) return;
            l.unlock(); job(); l.lock();
            busy = false;
            c.notify_all();
        }
    }) {}
    void start(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); busy = true; c.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [this] { return !busy; }); }
    void end() { { std::unique_lock<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); }
};
static std::vector<std::unique_ptr<Runner>> g_threads;
static Runner &runner(int64_t k) {
    while (int64_t(g_threads.size()) <= k) g_threads.emplace_back(new Runner);
    return *g_threads[size_t(k)];
}

// one call [out, function, args] -> [what, value, message]
static Val call(const Val &c) {
    Val r = Val::List();
    Ran ran;
    g_inside = false;
    auto it = fns().find(c.at(1).str());
    if (it == fns().end()) return r.add(Val::Str("harness")).add(Val::Str("unknown function")).add(Val());
    try {
        it->second(ran, c.at(0).none() ? -1 : c.at(0).integer(), c.at(2));
        return r.add(Val::Str(ran.no_message ? "nomessage" : "ok")).add(ran.v).add(Val::Str(ran.message));
    } catch (const std::exception &e) {
        return r.add(Val::Str(g_inside ? "thrown" : "harness")).add(Val::Str(e.what())).add(Val());
    } catch (...) {
        return r.add(Val::Str(g_inside ? "thrown" : "harness")).add(Val::Str("something")).add(Val());
    }
}

#if defined(__SANITIZE_ADDRESS__)
static std::atomic<int64_t> g_blocks{0};
static void on_malloc(const volatile void *p, size_t) { if (p) ++g_blocks; }
static void on_free(const volatile void *p) { if (p) --g_blocks; }
#endif

#ifdef CAPI_EXTRA      // the same interface, through another layer
static void CAPI_EXTRA(std::map<std::string, rpc::Handler> &h);
#endif

int main(int argc, char **argv) {
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    ts_setup();
    rpc::Alloc::me().limit = uint64_t(1) << 30;
    rpc::Alloc::me().track = false;
    rpc::Alloc::install();

#define F(f) bind(#f, f)
    F(ts_setup);
    F(ts_new_Tensor); F(ts_Tensor_shape_size); F(ts_Tensor_dtype); F(ts_Tensor_clone); F(ts_Tensor_sync_cpu); F(ts_Tensor_cast);
    F(ts_Tensor_reshape); F(ts_new_Tensor_in_flow); F(ts_Tensor_view_in_flow); F(ts_Tensor_field); F(ts_Tensor_packed); F(ts_Tensor_fields_count);
    F(ts_Tensor_pack); F(ts_Tensor_slice); F(ts_Tensor_slice_v2); F(ts_Tensor_save); F(ts_Tensor_load);
    F(ts_Module_Load); F(ts_Module_LoadV2); F(ts_Module_Fusion);
    F(ts_Program_Compile); F(ts_Program_Compile_v2); F(ts_Program_clone); F(ts_Program_input_count); F(ts_Program_output_count); F(ts_Program_set_operator_param);
    F(ts_Workbench_Load); F(ts_Workbench_Load_v2); F(ts_Workbench_clone); F(ts_Workbench_input); F(ts_Workbench_input_by_name); F(ts_Workbench_run); F(ts_Workbench_output);
    F(ts_Workbench_output_by_name); F(ts_Workbench_set_computing_thread_number); F(ts_Workbench_bind_filter); F(ts_Workbench_bind_filter_by_name); F(ts_new_Workbench);
    F(ts_Workbench_setup_context); F(ts_Workbench_setup); F(ts_Workbench_compile); F(ts_Workbench_compile_v2); F(ts_Workbench_setup_device); F(ts_Workbench_setup_runtime);
    F(ts_Workbench_input_count); F(ts_Workbench_output_count); F(ts_Workbench_run_hook); F(ts_Workbench_set_operator_param); F(ts_Workbench_summary); F(ts_Workbench_set_cpu_mode);
    F(ts_intime_transpose); F(ts_intime_sigmoid); F(ts_intime_gather); F(ts_intime_concat); F(ts_intime_softmax); F(ts_intime_pad); F(ts_intime_cast); F(ts_intime_resize2d);
    F(ts_intime_affine_sample2d); F(ts_intime_affine_on_sample2d); F(ts_intime_matmul);
    F(ts_new_ImageFilter); F(ts_ImageFilter_clear); F(ts_ImageFilter_compile); F(ts_ImageFilter_to_float); F(ts_ImageFilter_scale); F(ts_ImageFilter_sub_mean); F(ts_ImageFilter_div_std);
    F(ts_ImageFilter_resize); F(ts_ImageFilter_resize_scalar); F(ts_ImageFilter_center_crop); F(ts_ImageFilter_channel_swap); F(ts_ImageFilter_to_chw); F(ts_ImageFilter_prewhiten);
    F(ts_ImageFilter_run); F(ts_ImageFilter_letterbox); F(ts_ImageFilter_divided); F(ts_ImageFilter_resize_v2); F(ts_ImageFilter_resize_scalar_v2); F(ts_ImageFilter_letterbox_v2);
    F(ts_ImageFilter_force_color); F(ts_ImageFilter_force_gray); F(ts_ImageFilter_force_gray_v2); F(ts_ImageFilter_norm_image); F(ts_ImageFilter_module);
    F(ts_last_error_message); F(ts_set_error_message);
#undef F
    bind_free("ts_free_Tensor", ts_free_Tensor);
    bind_free("ts_free_Module", ts_free_Module);
    bind_free("ts_free_Program", ts_free_Program);
    bind_free("ts_free_Workbench", ts_free_Workbench);
    bind_free("ts_free_ImageFilter", ts_free_ImageFilter);

    fns()["ts_Tensor_shape"] = [](Ran &r, int64_t, const Val &a) {
        auto t = object<ts_Tensor>(a.at(0));
        g_inside = true;
        auto p = ts_Tensor_shape(t);
        note(r);
        if (t) {
            int n = ts_Tensor_shape_size(t);
            r.v = Val::List();
            if (n > 0 && !p) throw std::runtime_error("no shape");
            for (int k = 0; k < n; ++k) r.v.add(Val::Int(p[k]));
        } else if (p) r.v = Val::Int(1);
        g_inside = false;
    };
    fns()["ts_Tensor_data"] = [](Ran &r, int64_t, const Val &a) {
        auto t = object<ts_Tensor>(a.at(0));
        g_inside = true;
        auto p = ts_Tensor_data(t);
        note(r);
        g_inside = false;
        if (!t) { if (p) r.v = Val::Int(1); return; }
        r.v = value_of(t, false).at(0).at(2);
    };
    // the value of a tensor, as a reader of the interface finds it
    fns()["refuse"] = [](Ran &, int64_t, const Val &a) { g_refuse_new = a.at(0).integer(); };   // new operators refuse to be set up
    fns()["value"] = [](Ran &r, int64_t, const Val &a) { r.v = value_of(object<ts_Tensor>(a.at(0))); };
    // dst, bytes of a buffer of the caller|None, shift, src, bytes|None, shift, size -> [copied, the buffer]
    fns()["ts_intime_memcpy"] = [](Ran &r, int64_t, const Val &a) {
        Arena ar;
        auto d = object<ts_Tensor>(a.at(0));
        auto s = object<ts_Tensor>(a.at(3));
        void *dp = const_cast<void *>(Arg<const void *>::get(ar, a.at(1)));
        auto sp = Arg<const void *>::get(ar, a.at(4));
        g_inside = true;
        auto n = ts_intime_memcpy(d, dp, a.at(2).integer(), s, sp, a.at(5).integer(), a.at(6).integer());
        g_inside = false;
        note(r);
        r.v = Val::List().add(Val::Int(n)).add(dp ? Val::Str(std::string(static_cast<char *>(dp), a.at(1).str().size())) : Val());
    };
    // bytes|None, chunk, reader?, format
    fns()["ts_Module_LoadFromStream"] = [](Ran &r, int64_t out, const Val &a) {
        Source s;
        if (!a.at(0).none()) s.data = a.at(0).str();
        s.chunk = size_t(a.at(1).integer());
        Arena ar;
        g_inside = true;
        result(r, out, ts_Module_LoadFromStream(a.at(0).none() ? nullptr : &s, a.at(2).integer() ? source_read : nullptr, Arg<ts_SerializationFormat>::get(ar, a.at(3))));
        g_inside = false;
    };
    // bytes|None, chunk, reader?, rewind?, key|None, key size, format
    fns()["ts_Module_LoadFromStreamV2"] = [](Ran &r, int64_t out, const Val &a) {
        Source s;
        if (!a.at(0).none()) s.data = a.at(0).str();
        s.chunk = size_t(a.at(1).integer());
        Arena ar;
        auto key = Arg<const void *>::get(ar, a.at(4));
        g_inside = true;
        result(r, out, ts_Module_LoadFromStreamV2(a.at(0).none() ? nullptr : &s, a.at(2).integer() ? source_read : nullptr, a.at(3).integer() ? source_rewind : nullptr,
                                                  key, int32_t(a.at(5).integer()), Arg<ts_SerializationFormat>::get(ar, a.at(6))));
        g_inside = false;
    };
    // device|None, op|None, mask of the functions given, ex?
    fns()["ts_Operator_Register"] = [](Ran &r, int64_t, const Val &a) {
        Arena ar;
        auto dev = Arg<const char *>::get(ar, a.at(0)), op = Arg<const char *>::get(ar, a.at(1));
        auto m = a.at(2).integer();
        g_inside = true;
        if (a.at(3).integer())
            ts_Operator_RegisterEx(dev, op, m & 1 ? plug_new : nullptr, m & 2 ? plug_free : nullptr, m & 4 ? plug_setup : nullptr, m & 8 ? plug_infer : nullptr, m & 16 ? plug_run : nullptr);
        else
            ts_Operator_Register(dev, op, m & 1 ? plug_new : nullptr, m & 2 ? plug_free : nullptr, m & 4 ? plug_init : nullptr, m & 8 ? plug_infer : nullptr, m & 16 ? plug_run : nullptr);
        g_inside = false;
        note(r);
    };
    // op, mode, inputs, what infer answers -> the prototypes
    fns()["infer"] = [](Ran &r, int64_t, const Val &a) {
        g_proto.clear();
        for (auto &x : a.at(3).list()) g_proto.push_back(int32_t(x.integer()));
        ts::Workbench bench(ts::ComputingDevice(ts::CPU));
        ts::ctx::bind<ts::DeviceContext> _device(bench.device());
        ts::ctx::bind<ts::RuntimeContext> _runtime(bench.runtime());
        auto op = ts::OperatorCreator::Create(ts::CPU, a.at(0).str());
        if (!op) throw std::runtime_error("capi: no such operator");
        op->set("mode", ts::tensor::build(ts::INT32, int32_t(a.at(1).integer())));
        Val answer = Val::List();
        try {
            op->init();
            ts::Stack stack(ts::MemoryDevice(ts::CPU));
            for (auto &x : a.at(2).list()) stack.push(x.ten());
            std::vector<ts::Tensor::Prototype> protos;
            op->infer(stack, protos);
            for (auto &p : protos) {
                Val s = Val::List();
                for (auto d : p.sizes()) s.add(Val::Int(d));
                answer.add(Val::List().add(Val::Int(int(p.dtype()))).add(s));
            }
            r.v = answer;
        } catch (const ts::Exception &e) {
            r.v = Val::Str(e.what());
        }
    };

    std::map<std::string, rpc::Handler> h;
    h["call"] = [](const Val &q) {          // thread, out, function, args
        Val c = Val::List().add(q.at(2)).add(q.at(3)).add(q.at(4)), r;
        auto &t = runner(q.at(1).integer());
        t.start([&] { r = call(c); });
        t.wait();
        return r;
    };
    h["message"] = [](const Val &q) {
        Val r;
        auto &t = runner(q.at(1).integer());
        t.start([&] { auto m = ts_last_error_message(); if (m) r = Val::Str(m); });
        t.wait();
        return r;
    };
    // [[thread, [call...]]...]: the lists run at the same time -> results per list
    h["together"] = [](const Val &q) {
        auto &l = q.at(1).list();
        std::vector<Val> res(l.size());
        std::atomic<int> ready{0};
        for (size_t k = 0; k < l.size(); ++k) {
            auto &t = runner(l[k].at(0).integer());
            t.start([&, k] {
                ++ready;
                while (ready < int(l.size())) std::this_thread::yield();
                res[k] = Val::List();
                for (auto &c : l[k].at(1).list()) res[k].add(call(c));
            });
        }
        for (size_t k = 0; k < l.size(); ++k) runner(l[k].at(0).integer()).wait();
        Val r = Val::List();
        for (auto &x : res) r.add(x);
        return r;
    };
    // [[thread, out, function, args]...], times -> live heap blocks after each time
    h["repeat"] = [](const Val &q) {
        auto n = q.at(2).integer();
        std::vector<int64_t> live(size_t(n), -1);
        for (int64_t k = 0; k < n; ++k) {
            for (auto &t : g_threads) t->end();
            g_threads.clear();      // no thread may still use a workbench of the last time
            for (auto &c : q.at(1).list()) {
                Val one = Val::List().add(c.at(1)).add(c.at(2)).add(c.at(3));
                auto &t = runner(c.at(0).integer());
                t.start([&] { call(one); });
                t.wait();
                t.start([] {});         // lets go of the call
                t.wait();
            }
#if defined(__SANITIZE_ADDRESS__)
            live[size_t(k)] = g_blocks.load();
#endif
        }
        Val r = Val::List();
        for (auto x : live) r.add(Val::Int(x));
        return r;
    };
    h["plugins"] = [](const Val &q) {       // refuse new instances? -> [live, made, runs, oddities]
        if (q.size() > 1) g_refuse_new = q.at(1).integer();
        std::lock_guard<std::mutex> g(g_odd_lock);
        Val o = Val::List();
        for (auto &s : g_odd) o.add(Val::Str(s));
        g_odd.clear();
        return Val::List().add(Val::Int(g_live)).add(Val::Int(g_made)).add(Val::Int(g_runs)).add(o);
    };
    h["objects"] = [](const Val &) {
        std::lock_guard<std::mutex> g(g_lock);
        Val r = Val::List();
        for (auto &o : g_objs) r.add(Val::Int(o.first));
        return r;
    };
    h["fresh"] = [](const Val &) {          // new threads: nothing bound, no message
        for (auto &t : g_threads) t->end();
        g_threads.clear();
        return Val::Int(0);
    };
#ifdef CAPI_EXTRA
    CAPI_EXTRA(h);
#endif
    int rc = rpc::serve(argc, argv, h);
    for (auto &t : g_threads) t->end();
    return rc;
}
