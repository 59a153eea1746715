"""C22: the C interface reports every failure as an error value and never lets it escape."""
import os, tempfile
import numpy as np
import graphs
from graphs import Grower, one, reach, same, text, i32_, i32, s32, f32
from checks.c13 import Graph
from runner import Check
from tsx import T, Packed, TsError, NP, ITEM

CPU = ["cpu", 0]
DTS = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13]
ODD_DEVICES = [["cpu", 1], ["gpu", 0], ["", 0], [None, 0], ["cpu", -1], ["nonsense", 3]]
BIG = 2 ** 31 - 1


class Stop(Exception):
    pass


class Item:
    def __init__(self, kind, **k):
        self.kind = kind
        self.roots = set()
        self.__dict__.update(k)


class Net:
    """a graph with operators written against the interface"""

    def __init__(self, rng):
        self.nodes = [["p", "a0", "", [], []]]
        shape = [int(x) for x in rng.integers(1, 5, int(rng.integers(2, 5)))]
        self.shape = shape
        for k in range(1, int(rng.integers(1, 4))):
            self.nodes.append(["p", "a%d" % k, "", [], []])
        for k in range(int(rng.integers(1, 6))):
            o = str(rng.choice(["capi_echo", "capi_ex", "capi_ex", "abs", "sub", "_transpose"]))
            c = list(range(len(self.nodes)))
            a = [int(rng.choice(c)) for _ in range(int(rng.integers(1, 4)))]
            name = "n%d" % len(self.nodes)
            if o.startswith("capi"):
                mode = int(rng.choice([0, 0, 0, 6, 6, 10, 2, 3, 4, 5, 7, 8, 9] if rng.random() < 0.6 else [0, 6]))
                self.nodes.append(["o", name, o, [["mode", i32_(mode)]], a])
            elif o == "sub":
                self.nodes.append(["o", name, o, [], [a[0], a[-1]]])
            elif o == "_transpose":
                self.nodes.append(["o", name, o, [["permute", s32(list(range(len(shape))))]], a[:1]])
            else:
                self.nodes.append(["o", name, o, [], a[:1]])
        ops = [i for i, n in enumerate(self.nodes) if n[0] == "o"]
        self.outs = [ops[-1]] + [int(rng.choice(ops)) for _ in range(int(rng.integers(0, 3)))]
        self.live = reach(self.nodes, self.outs)
        self.names = [n[1] for i, n in enumerate(self.nodes) if n[0] == "p" and i in self.live]
        self.exact = True
        self.tols = None
        self.plugs = [n[1] for i, n in enumerate(self.nodes) if n[2].startswith("capi") and i in self.live]

    def make(self, n, rng):
        return T.of(rng.integers(-9, 10, self.shape).astype(np.float32))


def mode_of(n):
    return int(dict(n[3])["mode"].np.reshape(-1)[0])


class Prog:
    def __init__(self, g, order, nodes=None, filters=None):
        self.g, self.order = g, order
        self.nodes = nodes if nodes is not None else [[a, b, c, [list(p) for p in ps], e] for a, b, c, ps, e in g.nodes]
        self.filters = filters if filters is not None else {}
        self.sure = True

    def clone(self):
        p = Prog(self.g, self.order, [[a, b, c, [list(q) for q in ps], e] for a, b, c, ps, e in self.nodes], dict(self.filters))
        p.sure = self.sure
        return p


def value_to(v):
    f = [T(dt, [int(x) for x in sh], raw) for dt, sh, raw in v]
    return f[0] if len(f) == 1 else Packed(f)


FILTER = {"to_float": [], "to_chw": [], "prewhiten": [], "force_color": [], "force_gray": []}


class Sim:
    def __init__(self, chk, ctx, out, rng, threads, base, dir_):
        self.chk, self.out, self.rng = chk, out, rng
        self.api, self.ref = ctx.server(name="capi"), ctx.server()
        self.threads = list(threads)
        self.o, self.next = {}, base
        self.msg = {t: b"" for t in self.threads}
        self.bound = {t: None for t in self.threads}    # workbench whose context the thread uses; 0: unknown
        self.log, self.story = [], []
        self.dir = dir_
        self.live = self.api.call("plugins")[0]
        self.graphs = []
        self.refusing = False
        self.t = self.threads[0]

    # ------------------------------------------------------------------ calls
    def tell(self):
        return "\n".join(self.story[-30:])

    def fail(self, key, msg):
        self.out.bad(key, "%s\n%s" % (msg, self.tell()))
        raise Stop

    def raw(self, f, args, out=None):
        self.log.append([self.t, out, f, args])
        short = repr(args)
        self.story.append("%s: %s%s%s" % (self.t, "%s = " % out if out is not None else "", f, short if len(short) < 200 else short[:200] + "..."))
        what, v, m = self.api.call("call", self.t, out, f, args)
        self.story[-1] += " -> %r %r" % (v if not isinstance(v, (bytes, list)) else "...", m)
        if what == b"harness":
            raise RuntimeError("harness: %r %s" % (v, self.story[-1]))
        if what == b"thrown":
            self.fail("thrown:" + f, "thrown across the interface: %r" % v)
        if what == b"nomessage":
            self.fail("message:null", "no message at all")
        return v, m

    def call(self, f, args, expect="any", out=None, failed=None, has=None):
        """expect ok/fail/any; failed(value) tells a failure from the value, None: only the message does.  Returns the value, or None after a failure."""
        v, m = self.raw(f, args, out)
        self.out.see("calls")
        bad = failed(v) if failed else bool(m)
        self.msg[self.t] = m
        if bad and not m:
            self.fail("silent:" + f, "failed without a message")
        if not bad and m:
            self.fail("stale:" + f, "succeeded with the message %r" % m)
        if expect == "ok" and bad:
            self.fail("refused:" + f, "a valid call failed: %r" % m)
        if expect == "fail" and not bad:
            self.fail("accepted:" + f, "an invalid call succeeded: %r" % (v,))
        if bad and has and has.encode() not in m:
            self.fail("message:" + f, "the message %r does not tell %r" % (m, has))
        self.out.see("failures reported" if bad else "successes")
        if bad:
            self.out.see("failing " + f)
        if self.rng.random() < 0.08 and len(self.threads) > 1:
            t = self.threads[int(self.rng.integers(len(self.threads)))]
            got = self.api.call("message", t)
            if got != self.msg[t]:
                self.fail("message:thread", "the message of thread %d is %r instead of %r" % (t, got, self.msg[t]))
            self.out.see("messages of other threads")
        return None if bad else v

    def make(self, f, args, expect, item, has=None):
        """a call that creates an object"""
        n = self.next
        self.next += 1
        v = self.call(f, args, expect, out=n, failed=lambda v: v == 0, has=has)
        if v is None:
            return None
        self.o[n] = item
        return n

    def do(self, f, args, expect="any", has=None):
        return self.call(f, args, expect, failed=lambda v: v == 0, has=has)

    # ------------------------------------------------------------------ choosing
    def pick(self, kind, ok=lambda x: True):
        c = [k for k, x in self.o.items() if x.kind == kind and ok(x)]
        return c[int(self.rng.integers(len(c)))] if c else None

    def chance(self, p):
        return self.rng.random() < p

    def tensor(self, ok=lambda x: True):
        n = self.pick("T", lambda x: x.v is not None and not x.dead and ok(x))
        if n is None:
            n = self.new_tensor(valid=True)
            if n is None or not ok(self.o[n]):
                return None
        return n

    def number(self):
        return int(self.rng.choice([0, 1, 2, 3, -1, -2, 5, 100, BIG, -BIG - 1]))

    # ------------------------------------------------------------------ tensors
    def new_tensor(self, valid=False, dt=None, v=None):
        r = self.rng
        if v is None:
            dt = dt or int(r.choice(DTS if self.chance(0.4) else [10, 5]))
            shape = [int(x) for x in r.integers(1, 5, int(r.integers(0, 5)))]
            if self.chance(0.1):
                shape = shape + [0]
            a = r.integers(0, 100, shape)
            v = T(dt, shape, np.asarray(a).astype(NP[dt]).tobytes())
        if valid or self.chance(0.6):
            f = "ts_new_Tensor"
            if v.dt not in DTS:
                return None
            return self.make(f, [list(v.shape), len(v.shape), v.dt, v.raw], "ok", Item("T", v=v, dead=False))
        k = int(r.integers(0, 7))
        if k == 0:
            return self.quick(self.make("ts_new_Tensor", [[int(x) for x in r.integers(1, 4, 9)], int(r.integers(8, 10)), 10, None], "fail", Item("T", v=None, dead=True)))
        if k == 1:
            return self.quick(self.make("ts_new_Tensor", [list(v.shape), -int(r.integers(1, 5)), v.dt, v.raw], "fail", Item("T", v=None, dead=True)))
        if k == 2:
            return self.quick(self.make("ts_new_Tensor", [list(v.shape), len(v.shape), int(r.choice([0, 9, 12, 14, 15])), v.raw], "fail", Item("T", v=None, dead=True)))
        if k == 3:
            return self.quick(self.make("ts_new_Tensor", [[-3, 4], 2, 10, None], "fail" if 0 else "any", Item("T", v=None, dead=True)))
        if k == 4:      # no shape: a scalar
            return self.make("ts_new_Tensor", [None, int(r.integers(-1, 3)), 5, np.int32(7).tobytes()], "ok", Item("T", v=T(5, [], np.int32(7).tobytes()), dead=False))
        if k == 5:      # not initialised
            n = self.make("ts_new_Tensor", [list(v.shape), len(v.shape), v.dt, None], "ok", Item("T", v=None, dead=False))
            self.shape_of(n, v)
            return n
        if k == 6 and self.bound[self.t] != 0:
            ok = self.bound[self.t] is not None
            return self.make("ts_new_Tensor_in_flow", [int(r.integers(0, 2)), list(v.shape), len(v.shape), v.dt, v.raw], "ok" if ok else "any", Item("T", v=v, dead=False))
        return None

    def quick(self, n):
        """an object of unknown content is freed at once"""
        if n is not None:
            self.free(n)
        return None

    def shape_of(self, n, v):
        s = self.call("ts_Tensor_shape", [n], "ok")
        if tuple(s) != tuple(v.shape):
            self.fail("shape", "%r instead of %r" % (s, v.shape))
        if self.call("ts_Tensor_shape_size", [n], "ok") != len(v.shape):
            self.fail("shape_size", "")
        if self.call("ts_Tensor_dtype", [n], "ok") != v.dt:
            self.fail("dtype", "")

    def check(self, n, why="value"):
        x = self.o[n]
        if x.v is None or x.dead:
            return
        v, m = self.raw("value", [n])
        self.msg[self.t] = m
        self.story.pop()
        t = same(x.v, value_to(v))
        if t:
            self.fail("%s:wrong" % why, "object %d: %s" % (n, t))
        self.out.see("values compared")

    def derived(self, n, f, args, expect, v, borrow=False):
        x = self.o[n]
        it = Item("T", v=v, dead=False)
        it.roots = set(x.roots) | ({n} if borrow else set())
        k = self.make(f, args, expect, it)
        if k is not None and v is None:
            return self.quick(k)
        return k

    def tensor_step(self):
        r = self.rng
        a = str(r.choice(["new", "new", "new", "clone", "cast", "reshape", "field", "pack", "pack", "slice", "slice_v2", "save", "load", "sync", "flow", "null", "get", "memcpy"]))
        if a == "new":
            return self.new_tensor()
        n = self.tensor()
        if n is None:
            return
        x = self.o[n]
        packed = isinstance(x.v, Packed)
        if a == "clone":
            self.derived(n, "ts_Tensor_clone", [n], "ok", x.v)
            if self.next - 1 in self.o:
                self.o[self.next - 1].roots = set()
        elif a == "cast":
            dt = int(r.choice(DTS + [0, 9, 14, 15]))
            try:
                v = self.ref.call("cast", x.v, dt) if dt != 9 and not packed else None
            except TsError:
                v = 0
            if v == 0:
                self.quick(self.make("ts_Tensor_cast", [n, dt], "fail", Item("T", v=None, dead=True)))
            else:
                self.derived(n, "ts_Tensor_cast", [n, dt], "ok" if v is not None else "any", v)
        elif a == "reshape" and not packed:
            k = int(r.integers(0, 6))
            c = int(np.prod(x.v.shape, dtype=np.int64))
            s = [int(y) for y in r.permutation(x.v.shape)] + [1] * int(r.integers(0, 2))
            if k <= 2 and len(s) <= 7:
                self.derived(n, "ts_Tensor_reshape", [n, s, len(s)], "ok", T(x.v.dt, s, x.v.raw))
            elif k == 3:
                self.quick(self.make("ts_Tensor_reshape", [n, [c + 1], 1], "fail", Item("T", v=None, dead=True)))
            elif k == 4:
                self.quick(self.make("ts_Tensor_reshape", [n, s, -int(r.integers(1, 9))], "fail", Item("T", v=None, dead=True)))
            else:
                self.quick(self.make("ts_Tensor_reshape", [n, None, int(r.integers(1, 4))], "fail", Item("T", v=None, dead=True)))
        elif a == "field":
            f = list(x.v) if packed else [x.v]
            i = int(r.integers(0, len(f))) if self.chance(0.6) else int(r.choice([-1, -2, len(f), BIG, -BIG - 1]))
            ok = 0 <= i < len(f)
            k = self.derived(n, "ts_Tensor_field", [n, i], "ok" if ok else "fail", f[i] if ok else None)
            if k is not None and self.chance(0.5):
                self.check(k)
        elif a == "pack":
            c = [self.tensor(lambda y: not isinstance(y.v, Packed) and not y.roots) for _ in range(int(r.integers(1, 4)))]
            if any(y is None for y in c):
                return
            if self.chance(0.15):
                c[int(r.integers(len(c)))] = None
                self.quick(self.make("ts_Tensor_pack", [c, len(c)], "fail", Item("T", v=None, dead=True)))
            elif self.chance(0.1):
                self.quick(self.make("ts_Tensor_pack", [c, int(r.choice([0, -1, -BIG - 1]))], "any", Item("T", v=None, dead=True)))
            else:
                v = [self.o[y].v for y in c]
                self.make("ts_Tensor_pack", [c, len(c)], "ok", Item("T", v=v[0] if len(v) == 1 else Packed(v), dead=False))
        elif a == "slice" and not packed:
            d = x.v.shape
            i = int(r.integers(0, d[0])) if d and d[0] and self.chance(0.6) else self.number()
            ok = bool(d) and 0 <= i < d[0]
            v = T.of(x.v.np[i], x.v.dt) if ok else None
            self.derived(n, "ts_Tensor_slice", [n, i], "ok" if ok else "fail", v, borrow=True)
        elif a == "slice_v2" and not packed:
            d = x.v.shape
            b, e = (sorted(int(y) for y in r.integers(0, d[0] + 1, 2)) if d and self.chance(0.7) else (self.number(), self.number()))
            ok = bool(d) and 0 <= b < e <= d[0]
            v = T.of(x.v.np[b:e], x.v.dt) if ok else None
            self.derived(n, "ts_Tensor_slice_v2", [n, b, e], "ok" if ok else "fail", v, borrow=True)
        elif a == "save":
            bad = self.chance(0.3)
            p = str(r.choice([os.path.join(self.dir, "none", "x"), "", self.dir])) if bad else os.path.join(self.dir, "t%d" % n)
            if self.do("ts_Tensor_save", [p, n], "fail" if bad else "ok") is not None and self.chance(0.7):
                k = self.make("ts_Tensor_load", [p], "ok", Item("T", v=x.v, dead=False))
                self.check(k, "saved")
        elif a == "load":
            p = os.path.join(self.dir, "junk%d" % self.next)
            with open(p, "wb") as f:
                f.write(bytes(r.integers(0, 256, int(r.integers(0, 60)), dtype=np.uint8)))
            self.quick(self.make("ts_Tensor_load", [str(r.choice([p, self.dir, "/nonexistent/x", ""]))], "any", Item("T", v=None, dead=True)))
        elif a == "sync":
            self.do("ts_Tensor_sync_cpu", [n], "ok")
        elif a == "flow" and self.bound[self.t] != 0 and not x.roots:
            ok = self.bound[self.t] is not None
            self.derived(n, "ts_Tensor_view_in_flow", [n, int(r.integers(0, 2))], "ok" if ok else "any", x.v)
        elif a == "null":
            self.null_step()
        elif a == "get":
            self.out.see("tensors inspected")
            if not packed:
                self.shape_of(n, x.v)
                if self.call("ts_Tensor_data", [n], "ok") != x.v.raw:
                    self.fail("data", "")
            if (self.call("ts_Tensor_packed", [n], "ok") != 0) != packed:
                self.fail("packed", "")
            if self.call("ts_Tensor_fields_count", [n], "ok") != (len(x.v) if packed else 1):
                self.fail("fields_count", "")
        elif a == "memcpy" and not packed:
            self.memcpy(n)
        if self.chance(0.4) and n in self.o:
            self.check(n)

    def memcpy(self, n):
        r, x = self.rng, self.o[n]
        m = len(x.v.raw)
        ref = self.tensor(lambda y: not isinstance(y.v, Packed))
        if ref is None:
            return
        if m and self.chance(0.7):      # out of the tensor
            b = int(r.integers(0, m))
            k = int(r.integers(0, m - b + 1))
            s = int(r.integers(0, 5))
            buf = b"\xee" * (s + k)
            got = self.call("ts_intime_memcpy", [ref, buf, s, n, None, b, k], "ok" if k else "any")
            if got is not None and (got[0] != k or got[1] != b"\xee" * s + x.v.raw[b:b + k]):
                self.fail("memcpy", "%r" % (got,))
        else:
            self.call("ts_intime_memcpy", [ref, b"", 0, n, None, 0, -int(r.integers(1, 9))], "any")
        self.out.see("memory copies")

    def null_step(self):
        """something required is missing"""
        r = self.rng
        n = self.tensor()
        F = [("ts_Tensor_shape_size", [None]), ("ts_Tensor_dtype", [None]), ("ts_Tensor_shape", [None]), ("ts_Tensor_data", [None]), ("ts_Tensor_packed", [None]), ("ts_Tensor_fields_count", [None]),
             ("ts_Tensor_sync_cpu", [None]), ("ts_Tensor_save", [None, n]), ("ts_Tensor_save", ["x", None]), ("ts_Program_input_count", [None]), ("ts_Program_output_count", [None]),
             ("ts_Program_set_operator_param", [None, "a", "b", n]), ("ts_Workbench_input", [None, 0, n]), ("ts_Workbench_run", [None]), ("ts_Workbench_output", [None, 0, n]),
             ("ts_Workbench_set_computing_thread_number", [None, 1]), ("ts_Workbench_setup_context", [None]), ("ts_Workbench_setup_device", [None]), ("ts_Workbench_setup_runtime", [None]),
             ("ts_Workbench_input_count", [None]), ("ts_Workbench_output_count", [None]), ("ts_Workbench_summary", [None]), ("ts_Workbench_set_cpu_mode", [None, 1]),
             ("ts_ImageFilter_clear", [None]), ("ts_ImageFilter_compile", [None]), ("ts_ImageFilter_scale", [None, 1.0]), ("ts_ImageFilter_sub_mean", [None, [1.0], 1]),
             ("ts_ImageFilter_resize", [None, 1, 1]), ("ts_ImageFilter_norm_image", [None, 1.0]), ("ts_ImageFilter_force_gray_v2", [None, [1.0], 1]), ("ts_ImageFilter_to_float", [None]),
             ("ts_ImageFilter_channel_swap", [None, [0], 1]), ("ts_ImageFilter_letterbox", [None, 1, 1, 0.0]), ("ts_ImageFilter_divided", [None, 1, 1, 0.0])]
        w, f, p = self.pick("W"), self.pick("F"), self.pick("P")
        if w is not None:
            F += [("ts_Workbench_input", [w, 0, None]), ("ts_Workbench_input_by_name", [w, None, n]), ("ts_Workbench_input_by_name", [w, "a", None]), ("ts_Workbench_output", [w, 0, None]),
                  ("ts_Workbench_output_by_name", [w, None, n]), ("ts_Workbench_output_by_name", [w, "a", None]), ("ts_Workbench_bind_filter", [w, 0, None]),
                  ("ts_Workbench_bind_filter_by_name", [w, "a", None]), ("ts_Workbench_bind_filter_by_name", [w, None, f]), ("ts_Workbench_setup", [w, None]), ("ts_Workbench_run_hook", [w, None, 1]),
                  ("ts_Workbench_run_hook", [w, [None], 1]), ("ts_Workbench_run_hook", [w, ["a"], -1]), ("ts_Workbench_set_operator_param", [w, None, "b", n]),
                  ("ts_Workbench_set_operator_param", [w, "a", None, n]), ("ts_Workbench_set_operator_param", [w, "a", "b", None])]
        if p is not None:
            F += [("ts_Program_set_operator_param", [p, None, "b", n]), ("ts_Program_set_operator_param", [p, "a", None, n]), ("ts_Program_set_operator_param", [p, "a", "b", None])]
        if f is not None and self.o[f].steps is not None:
            F += [("ts_ImageFilter_sub_mean", [f, None, 1]), ("ts_ImageFilter_div_std", [f, None, 1]), ("ts_ImageFilter_channel_swap", [f, None, 1]), ("ts_ImageFilter_sub_mean", [f, [1.0], -1]),
                  ("ts_ImageFilter_div_std", [f, [1.0], -1]), ("ts_ImageFilter_channel_swap", [f, [0], -2]), ("ts_ImageFilter_force_gray_v2", [f, [1.0], -1])]
        G = [("ts_Tensor_clone", [None]), ("ts_Tensor_cast", [None, 10]), ("ts_Tensor_reshape", [None, [1], 1]), ("ts_Tensor_view_in_flow", [None, 0]), ("ts_Tensor_field", [None, 0]),
             ("ts_Tensor_pack", [None, 1]), ("ts_Tensor_slice", [None, 0]), ("ts_Tensor_slice_v2", [None, 0, 1]), ("ts_Tensor_load", [None]), ("ts_Module_Load", [None, 0]),
             ("ts_Module_LoadV2", [None, b"k", 1, 0]), ("ts_Module_LoadV2", ["x", None, 1, 0]), ("ts_Module_LoadFromStream", [None, 0, 1, 0]), ("ts_Module_LoadFromStream", [b"", 0, 0, 0]),
             ("ts_Module_LoadFromStreamV2", [None, 0, 1, 1, b"k", 1, 0]), ("ts_Module_LoadFromStreamV2", [b"", 0, 0, 1, b"k", 1, 0]), ("ts_Module_LoadFromStreamV2", [b"", 0, 1, 0, b"k", 1, 0]),
             ("ts_Module_LoadFromStreamV2", [b"", 0, 1, 1, None, 1, 0]), ("ts_Module_Fusion", [None, 0, None, 0]), ("ts_Program_Compile", [None, CPU]), ("ts_Program_Compile_v2", [None, CPU, ""]),
             ("ts_Program_clone", [None]), ("ts_Workbench_Load", [None, CPU]), ("ts_Workbench_Load_v2", [None, CPU, ""]), ("ts_Workbench_clone", [None]), ("ts_Workbench_compile", [None, None]),
             ("ts_intime_transpose", [None, [0], 1]), ("ts_intime_transpose", [n, None, 1]), ("ts_intime_sigmoid", [None]), ("ts_intime_gather", [n, None, 0]), ("ts_intime_gather", [None, n, 0]),
             ("ts_intime_concat", [None, 1, 0]), ("ts_intime_concat", [[n, None], 2, 0]), ("ts_intime_softmax", [None, 0, 0]), ("ts_intime_pad", [n, None, 0.0]), ("ts_intime_pad", [None, n, 0.0]),
             ("ts_intime_cast", [None, 10]), ("ts_intime_resize2d", [None, n, 0]), ("ts_intime_resize2d", [n, None, 0]), ("ts_intime_matmul", [n, None, 0]), ("ts_intime_matmul", [None, n, 0]),
             ("ts_intime_affine_sample2d", [n, n, None, 0, 0.0, 0]), ("ts_intime_affine_on_sample2d", [n, None, n, 0, 0]), ("ts_ImageFilter_run", [None, n]), ("ts_ImageFilter_module", [None])]
        if f is not None:
            G += [("ts_ImageFilter_run", [f, None])]
        m = self.pick("M")
        if m is not None:
            G += [("ts_Program_Compile", [m, None]), ("ts_Program_Compile_v2", [m, None, ""]), ("ts_Program_Compile_v2", [m, CPU, None]), ("ts_Workbench_Load", [m, None]), ("ts_Workbench_Load_v2", [m, CPU, None]), ("ts_Module_Fusion", [m, 0, None, 0])]
        if n is None:
            return
        self.out.see("missing arguments")
        if self.chance(0.5):
            f, a = F[int(r.integers(len(F)))]
            failing = {"ts_Tensor_dtype", "ts_Tensor_shape", "ts_Tensor_data", "ts_Workbench_summary"}
            self.call(f, a, "fail", failed=None if f in failing else lambda v: v == 0)
        else:
            f, a = G[int(r.integers(len(G)))]
            self.make(f, a, "fail", Item("T", v=None, dead=True))
        if self.chance(0.1):
            for z in ("Tensor", "Module", "Program", "Workbench", "ImageFilter"):
                self.call("ts_free_" + z, [None], "ok")

    # ------------------------------------------------------------------ modules, programs, workbenches
    def new_module(self):
        r = self.rng
        if self.graphs and self.chance(0.3):
            g = self.graphs[int(r.integers(len(self.graphs)))]
        else:
            g = Net(r) if self.chance(0.6) else Graph(self.ref, r, 2)
            if not g.nodes:
                return None
            if not hasattr(g, "plugs"):
                g.plugs = []
            self.graphs.append(g)
        order = [str(x) for x in r.permutation(g.names)] if g.names else None
        m = self.ref.call("module_new", g.nodes, g.outs, order)
        data = self.ref.call("module_bytes", m)
        self.ref.call("free", m)
        g.bytes = data
        it = Item("M", g=g, order=order or [])
        k = int(r.integers(0, 6))
        if k <= 2:
            p = os.path.join(self.dir, "m%d" % self.next)
            with open(p, "wb") as f:
                f.write(data)
            if k == 2:
                if self.chance(0.5):
                    self.quick(self.make("ts_Module_Load", [p, 1], "fail", Item("M", g=None)))
                else:
                    return self.make("ts_Module_LoadV2", [p, b"whatever", int(r.choice([8, 0, 3])), 0], "any", it)
            return self.make("ts_Module_Load", [p, 0], "ok", it)
        if k == 3:
            cut = data[:int(r.integers(0, len(data)))]
            self.quick(self.make("ts_Module_LoadFromStream", [cut, int(r.choice([0, 1, 7])), 1, 0], "fail", Item("M", g=None)))
        if k == 4:
            return self.make("ts_Module_LoadFromStreamV2", [data, int(r.choice([0, 1, 100])), 1, 1, b"whatever", int(r.choice([8, 0, -1])), 0], "any", it)
        return self.make("ts_Module_LoadFromStream", [data, int(r.choice([0, 1, 3, 100])), 1, 0], "ok", it)

    def doomed(self, g):
        """an operator of the graph refuses to be set up"""
        return any(n[2].startswith("capi") and mode_of(n) == 7 for i, n in enumerate(g.nodes) if i in g.live)

    def options(self):
        return str(self.rng.choice(["", "", "--no-pack", "--pack --no-filter", "--no-winograd", "--nonsense", "x y z", "--float16" if 0 else ""]))

    def new_program(self):
        r = self.rng
        m = self.pick("M")
        if m is None:
            m = self.new_module()
        if m is None:
            return
        M = self.o[m]
        doomed, odd = self.doomed(M.g) or self.refusing and bool(M.g.plugs), self.chance(0.1)
        dev = ODD_DEVICES[int(r.integers(len(ODD_DEVICES)))] if odd else CPU
        exp = "any" if odd else "fail" if doomed else "ok"
        has = "plugin: " if doomed and not odd and not (self.refusing and self.doomed(M.g)) else None
        k = int(r.integers(0, 6))
        it = Item("P", p=Prog(M.g, M.order))
        if odd:
            it.p.sure = False
        if k <= 1:
            return self.make("ts_Workbench_Load", [m, dev], exp, Item("W", p=it.p, fed={}, ran=None), has)
        if k == 2:
            return self.make("ts_Workbench_Load_v2", [m, dev, self.options()], exp, Item("W", p=it.p, fed={}, ran=None), has)
        if k == 3 and self.bound[self.t] != 0:
            exp = exp if self.bound[self.t] is not None else "any"
            if self.chance(0.5):
                return self.make("ts_Program_Compile", [m, dev], exp, it)
            return self.make("ts_Program_Compile_v2", [m, dev, self.options()], exp, it)
        w = self.pick("W")
        if w is None:
            return self.make("ts_new_Workbench", [None if self.chance(0.5) else CPU], "ok", Item("W", p=None, fed={}, ran=None))
        it.p.sure = True
        exp = "fail" if doomed else "ok"
        has = has if not odd else None
        if k == 4:
            return self.make("ts_Workbench_compile", [w, m], exp, it, has)
        return self.make("ts_Workbench_compile_v2", [w, m, self.options()], exp, it, has)

    def value(self, prog, fed):
        """(values of the nodes, None, None) or (values, kind of failure, text in the message)"""
        vals = {}
        failing = sum(op.startswith("capi") and int(dict(params)["mode"].np.reshape(-1)[0]) not in (0, 6, 10) for i, (_, _, op, params, _) in enumerate(prog.nodes) if i in prog.g.live)
        for i, (kind, name, op, params, ins) in enumerate(prog.nodes):
            if i not in prog.g.live:
                continue
            if kind == "p":
                if name not in fed:
                    return vals, "missing", None
                vals[i] = fed[name]
                if prog.filters.get(name):     # a filter without steps filters nothing
                    vals[i] = self.filtered(prog.filters[name], vals[i])
                    if vals[i] is None:
                        return vals, "filter", None
            elif kind == "c":
                vals[i] = dict(params)["value"]
            elif op.startswith("capi"):
                mode = int(dict(params)["mode"].np.reshape(-1)[0])
                if mode in (0, 6, 10):
                    vals[i] = vals[ins[-1]]
                else:
                    return vals, "plugin", {2: "plugin: run refused", 3: "plugin: thrown", 4: "plugin: thrown"}.get(mode) if failing == 1 and not prog.filters else None
            else:
                vals[i] = one(self.ref, op, params, [vals[k] for k in ins])
                if vals[i] is None:
                    return vals, "refused", None
        return vals, None, None

    def filtered(self, steps, x):
        if not isinstance(x, T) or not 2 <= len(x.shape) <= 4:
            return None
        f = self.ref.call("filter_new")
        try:
            for s, a in steps:
                self.ref.call("filter_step", f, s, a)
            return self.ref.call("filter_run", f, T(x.dt, (1,) + tuple(x.shape) + (1,), x.raw) if len(x.shape) == 2 else x, 1)
        except TsError:
            return None
        finally:
            self.ref.call("free", f)

    def feed(self, w, name):
        W = self.o[w]
        v = W.p.g.make(name, self.rng)
        if isinstance(v, Packed) or v.dt not in DTS:
            h = [self.new_tensor(valid=True, v=f) for f in (v if isinstance(v, Packed) else [v])]
            if any(k is None for k in h):
                return False
            n = self.make("ts_Tensor_pack", [h, len(h)], "ok", Item("T", v=v, dead=False))
            for k in h:
                if self.chance(0.7):
                    self.free(k)
        else:
            n = self.new_tensor(valid=True, v=v)
        if n is None:
            return False
        if self.chance(0.5) and W.p.order:
            self.do("ts_Workbench_input", [w, W.p.order.index(name), n], "ok")
        else:
            self.do("ts_Workbench_input_by_name", [w, name, n], "ok")
        W.fed[name] = v
        if self.chance(0.6):
            self.free(n)
        return True

    def run_bench(self, w, hook=False):
        W, r = self.o[w], self.rng
        if W.p is None:
            if hook:
                self.do("ts_Workbench_run_hook", [w, ["a0"], 1], "fail")
            else:
                self.do("ts_Workbench_run", [w], "fail")
            return
        for n in W.p.g.names:
            if n not in W.fed or self.chance(0.3):
                if self.chance(0.95) and not self.feed(w, n):
                    return
        vals, why, has = self.value(W.p, W.fed)
        exp = "any" if not W.p.sure or why == "missing" or why == "filter" else "fail" if why else "ok"
        names = []
        if hook:
            c = [n[1] for i, n in enumerate(W.p.nodes) if n[0] == "o" and i in vals]
            names = [str(r.choice(c)) for _ in range(int(r.integers(0, 3)))] if c else []
            if self.chance(0.2):
                names.append("no such node")
            ok = self.do("ts_Workbench_run_hook", [w, names, len(names)], exp, has)
        else:
            ok = self.do("ts_Workbench_run", [w], exp, has)
        self.out.see("runs" if ok is not None else "failing runs")
        if why == "plugin":
            self.out.see("failing plugin operators")
        W.ran = None
        if ok is None or why or not W.p.sure:
            return
        W.ran = [vals[o] for o in W.p.g.outs]
        W.hooked = hook
        for k, v in enumerate(W.ran):
            if self.chance(0.8):
                self.output(w, k, v)

    def output(self, w, k, v):
        W = self.o[w]
        n = self.new_tensor(valid=True)
        if n is None:
            return
        # what the tensor held before is gone, and with it what was borrowed from it
        self.dangle(n)
        if self.chance(0.5):
            self.do("ts_Workbench_output", [w, k, n], "ok")
        else:
            name = W.p.g.nodes[W.p.g.outs[k]][1]
            # after run_hook the name of an input is what was fed, before its filter
            if [W.p.g.nodes[o][1] for o in W.p.g.outs].count(name) > 1 or W.hooked and W.p.filters.get(name):
                self.do("ts_Workbench_output", [w, k, n], "ok")
            else:
                self.do("ts_Workbench_output_by_name", [w, name, n], "ok")
        x = self.o[n]
        x.v, x.roots = v, set()
        self.check(n, "output")
        self.out.see("outputs compared")

    def dangle(self, n):
        for x in self.o.values():
            if n in x.roots:
                x.dead = True

    def bench_step(self):
        r = self.rng
        w = self.pick("W")
        if w is None:
            return self.new_program()
        W = self.o[w]
        a = str(r.choice(["run"] * 6 + ["hook", "setup", "setup", "clone", "context", "bad", "bad", "bad", "filter", "param", "count", "threads", "summary", "pclone", "pcount"]))
        if a in ("run", "hook"):
            self.run_bench(w, a == "hook")
        elif a == "setup":
            p = self.pick("P")
            if p is not None:
                P = self.o[p]
                if self.do("ts_Workbench_setup", [w, p], "ok" if P.p.sure else "any") is not None:
                    W.p, W.fed, W.ran = P.p, {}, None
                else:
                    P.p.sure = False
        elif a == "clone":
            sure = W.p is None or W.p.sure and not (self.refusing and W.p.g.plugs)
            p = W.p.clone() if W.p else None
            self.make("ts_Workbench_clone", [w], "ok" if sure else "any", Item("W", p=p, fed={}, ran=None))
        elif a == "pclone":
            p = self.pick("P")
            if p is not None:
                P = self.o[p]
                sure = P.p.sure and not (self.refusing and P.p.g.plugs)
                self.make("ts_Program_clone", [p], "ok" if sure and self.bound[self.t] not in (0, None) else "any", Item("P", p=P.p.clone()))
        elif a == "context":
            self.do("ts_Workbench_" + str(r.choice(["setup_context", "setup_device", "setup_runtime"])), [w], "ok")
            self.bound[self.t] = w
        elif a == "bad":
            n = self.tensor(lambda y: not y.roots)
            if n is None:
                return
            c = len(W.p.order) if W.p else 0
            m = len(W.p.g.outs) if W.p else 0
            i = int(r.choice([-1, c, c + 1, BIG, -BIG - 1]))
            j = int(r.choice([-1, m, m + 1, BIG, -BIG - 1]))
            name = str(r.choice(["no such input", "", "a0 "]))
            f = self.pick("F", lambda x: x.steps is not None)
            L = [("ts_Workbench_input", [w, i, n]), ("ts_Workbench_output", [w, j, n]), ("ts_Workbench_input_by_name", [w, name, n]), ("ts_Workbench_output_by_name", [w, name, n])]
            if f is not None:
                L += [("ts_Workbench_bind_filter", [w, i, f]), ("ts_Workbench_bind_filter_by_name", [w, name, f])]
            f, a = L[int(r.integers(len(L)))]
            self.do(f, a, "fail")
            self.check(n, "untouched")
            self.out.see("bad slots and names")
        elif a == "filter" and W.p and W.p.order:
            f = self.pick("F", lambda x: x.steps is not None)
            if f is None:
                return self.new_filter()
            n = str(r.choice(W.p.order))
            ok = self.do("ts_Workbench_bind_filter" if self.chance(0.5) else "ts_Workbench_bind_filter_by_name", [w, n, f], "any") if 0 else None
            if self.chance(0.5):
                ok = self.do("ts_Workbench_bind_filter", [w, W.p.order.index(n), f], "any")
            else:
                ok = self.do("ts_Workbench_bind_filter_by_name", [w, n, f], "any")
            if ok is not None:
                W.p.filters[n] = list(self.o[f].steps)
                self.out.see("filters bound")
            else:
                self.out.see("filters refused")
        elif a == "param":
            n = self.tensor(lambda y: not y.roots)
            if n is None:
                return
            who = self.pick("P") if self.chance(0.4) else w
            X = self.o.get(who)
            if X is None or X.p is None:
                return
            fn = "ts_Workbench_set_operator_param" if X.kind == "W" else "ts_Program_set_operator_param"
            if X.p.g.plugs and self.chance(0.7):
                node = str(r.choice(X.p.g.plugs))
                mode = int(r.choice([0, 2, 3, 6, 10]))
                k = self.new_tensor(valid=True, v=i32_(mode))
                if X.kind == "P" and self.bound[self.t] in (0, None):
                    return
                self.do(fn, [who, node, "mode", k], "ok" if X.p.sure and X.kind == "W" else "any")
                for q in X.p.nodes:
                    if q[1] == node:
                        q[3] = [["mode", i32_(mode)]]
                if X.kind != "W" and self.msg[self.t]:
                    X.p.sure = False
                self.free(k)
                self.out.see("parameters changed")
            else:
                self.do(fn, [who, "no such node", "mode", n], "any")
        elif a == "count":
            c = self.call("ts_Workbench_input_count", [w], "ok")
            m = self.call("ts_Workbench_output_count", [w], "ok")
            if W.p and (c, m) != (len(W.p.order), len(W.p.g.outs)):
                self.fail("counts", "%r" % ((c, m),))
        elif a == "pcount":
            p = self.pick("P", lambda x: x.p.sure)
            if p is not None:
                c = self.call("ts_Program_input_count", [p], "ok")
                m = self.call("ts_Program_output_count", [p], "ok")
                if (c, m) != (len(self.o[p].p.order), len(self.o[p].p.g.outs)):
                    self.fail("counts", "%r" % ((c, m),))
        elif a == "threads":
            self.do("ts_Workbench_set_computing_thread_number", [w, int(r.choice([1, 2, 3, 0]))], "ok")
        elif a == "summary":
            if not self.call("ts_Workbench_summary", [w], "ok"):
                self.fail("summary", "")

    # ------------------------------------------------------------------ image filters
    def new_filter(self):
        dev = [None, CPU, CPU][int(self.rng.integers(3))]
        return self.make("ts_new_ImageFilter", [dev], "ok", Item("F", steps=[]))

    def filter_step(self):
        r = self.rng
        f = self.pick("F", lambda x: x.steps is not None)
        if f is None or self.chance(0.15):
            f = self.new_filter()
        F = self.o[f]
        k = int(r.integers(0, 20))
        side = lambda: int(r.choice([1, 2, 3, 5]))
        if k <= 3:
            s = str(r.choice(list(FILTER)))
            if self.do("ts_ImageFilter_" + s, [f], "any") is not None:
                F.steps.append([s, []])
        elif k == 4:
            if self.do("ts_ImageFilter_scale", [f, 0.5], "ok") is not None:
                F.steps.append(["scale", [0.5]])
        elif k == 5:
            s = str(r.choice(["sub_mean", "div_std"]))
            v = [float(x) for x in r.integers(1, 9, int(r.integers(1, 4)))]
            if self.do("ts_ImageFilter_" + s, [f, v, len(v)], "ok") is not None:
                F.steps.append([s, [v]])
        elif k == 6:
            w, h, m = side(), side(), int(r.integers(0, 3))
            if self.chance(0.5):
                m = 0
                ok = self.do("ts_ImageFilter_resize", [f, w, h], "ok")
            else:
                ok = self.do("ts_ImageFilter_resize_v2", [f, w, h, m], "ok")
            F.steps.append(["resize", [w, h, m]])
        elif k == 7:
            w, m = side(), int(r.integers(0, 3))
            if self.chance(0.5):
                m = 0
                self.do("ts_ImageFilter_resize_scalar", [f, w], "ok")
            else:
                self.do("ts_ImageFilter_resize_scalar_v2", [f, w, m], "ok")
            F.steps.append(["resize_short", [w, m]])
        elif k == 8:
            w, h = side(), side()
            if self.chance(0.4):
                h = w
            self.do("ts_ImageFilter_center_crop", [f, w, h], "ok")
            F.steps.append(["center_crop", [w, h]])
        elif k == 9:
            v = [int(x) for x in r.integers(0, 3, int(r.integers(1, 4)))]
            if self.do("ts_ImageFilter_channel_swap", [f, v, len(v)], "ok") is not None:
                F.steps.append(["channel_swap", [v]])
        elif k == 10:
            w, h, v, m = side(), side(), float(r.choice([3, 3, 0, -1])), int(r.integers(0, 3))
            if self.chance(0.5):        # the C++ interface has overloads of its own for squares
                h = w
            if self.chance(0.5):
                m = 0
                self.do("ts_ImageFilter_letterbox", [f, w, h, v], "ok")
            else:
                self.do("ts_ImageFilter_letterbox_v2", [f, w, h, v, m], "ok")
            F.steps.append(["letterbox", [w, h, v, m]])
        elif k == 11:
            w, h = side(), side()
            if self.chance(0.3):
                h = w
            self.do("ts_ImageFilter_divided", [f, w, h, 2.0], "ok")
            F.steps.append(["divided", [w, h, 2.0]])
        elif k == 12:
            self.do("ts_ImageFilter_norm_image", [f, float(np.float32(1e-5))], "ok")
            F.steps.append(["norm_image", [float(np.float32(1e-5))]])
        elif k == 13:       # documented: without weights the default ones
            v = [float(np.float32(x)) for x in (0.25, 0.25, 0.5)]
            m = int(r.integers(0, 3))
            self.do("ts_ImageFilter_force_gray_v2", [f, [None, [], v][m], [3, 0, 3][m]], "ok")
            F.steps.append(["force_gray", [v] if m == 2 else []])
        elif k == 14:
            self.do("ts_ImageFilter_clear", [f], "ok")
            F.steps = []
        elif k == 15:
            s, a = [("resize_v2", [int(r.choice([0, -1, -BIG])), side(), 0]), ("resize_v2", [side(), side(), 3]), ("center_crop", [-2, 0]), ("letterbox", [0, -1, 0.0]),
                    ("divided", [0, 0, 0.0]), ("divided", [-3, 2, 0.0]), ("resize_scalar", [-1]), ("channel_swap", [[-1, 7], 2]), ("sub_mean", [[], 0]), ("div_std", [[0.0], 1])][int(r.integers(10))]
            self.do("ts_ImageFilter_" + s, [f] + a, "any")
            F.steps = None
            self.image(f)
        elif k == 16:
            ok = self.bound[self.t] not in (0, None)
            if self.bound[self.t] != 0:
                self.do("ts_ImageFilter_compile", [f], "any")
        elif k == 17:
            self.quick(self.make("ts_ImageFilter_module", [f], "any", Item("M", g=None)))
        else:
            self.image(f)

    def image(self, f):
        if self.bound[self.t] == 0:
            return
        r, F = self.rng, self.o[f]
        c = int(r.choice([1, 3, 3, 3, 2]))
        s = [int(r.integers(1, 3))] * int(r.integers(0, 2)) + [int(x) for x in r.integers(1, 6, 2)] + [c]
        x = T.of(r.integers(0, 200, s).astype(np.uint8 if self.chance(0.5) else np.float32))
        n = self.new_tensor(valid=True, v=x)
        if n is None:
            return
        want = self.filtered(F.steps, x) if F.steps is not None else 0
        if want is None or F.steps is None or self.bound[self.t] is None:
            k = self.make("ts_ImageFilter_run", [f, n], "fail" if want is None else "any", Item("T", v=None, dead=True))
            if k is not None:
                self.free(k)
            return
        k = self.make("ts_ImageFilter_run", [f, n], "ok", Item("T", v=want, dead=False))
        if self.chance(0.5):
            self.free(n)
        self.check(k, "filter")
        self.out.see("filters run")

    # ------------------------------------------------------------------ immediate operators
    def intime_step(self):
        r = self.rng
        if self.bound[self.t] == 0:
            return
        bound = self.bound[self.t] is not None
        n = self.tensor(lambda y: not isinstance(y.v, Packed))
        if n is None:
            return
        x = self.o[n].v
        d = len(x.shape)
        a = str(r.choice(["transpose", "sigmoid", "gather", "concat", "softmax", "pad", "cast", "matmul", "resize2d", "affine"]))
        axis = int(r.integers(-d, d)) if d and self.chance(0.8) else int(r.choice([-9, 9, d, -d - 1]))
        tmp = []
        def aux(v):
            k = self.new_tensor(valid=True, v=v)
            tmp.append(k)
            return k
        if a == "transpose":
            p = [int(y) for y in r.permutation(d)] if self.chance(0.7) else [int(y) for y in r.integers(-2, 5, int(r.integers(0, 5)))]
            op, ps, xs, f, args = "_transpose", [["permute", s32(p)]], [x], "ts_intime_transpose", [n, p, len(p)]
            if self.chance(0.1):
                self.quick(self.make(f, [n, p, -int(r.integers(1, 4))], "fail", Item("T", v=None, dead=True)))
                return
        elif a == "sigmoid":
            if x.dt in (1, 3, 5, 7) and len(x.raw) and x.np.min() == np.iinfo(x.np.dtype).min:
                return          # has no negative in its type
            op, ps, xs, f, args = "sigmoid", [], [x], "ts_intime_sigmoid", [n]
        elif a == "gather":
            top = x.shape[axis] if d and -d <= axis < d else 3
            i = s32(r.integers(0, max(1, top), int(r.integers(1, 4))) if self.chance(0.8) else [top, -top - 1, 9])
            op, ps, xs, f, args = "gather", [["axis", i32_(axis)]], [x, i], "ts_intime_gather", [n, aux(i), axis]
        elif a == "concat":
            m = int(r.integers(0, 4))
            c = [n] * m if self.chance(0.7) else [self.tensor(lambda y: not isinstance(y.v, Packed)) for _ in range(m)]
            op, ps, xs, f, args = "concat", [["dim", i32_(axis)]], [self.o[k].v for k in c], "ts_intime_concat", [c, m, axis]
            if self.chance(0.1):
                args[1] = -3
                op = None
        elif a == "softmax":
            if x.dt not in (10, 11):
                return
            sm = int(r.integers(0, 2))
            op, ps, xs, f, args = "softmax", [["dim", i32_(axis)], ["smooth", T.of(bool(sm))]], [x], "ts_intime_softmax", [n, axis, sm]
        elif a == "pad":
            p = s32(r.integers(-1, 3, [d, 2])) if d and self.chance(0.8) else s32(r.integers(-1, 3, [int(r.integers(1, 4)), 2]))
            op, ps, xs, f, args = "pad", [["padding_value", f32(2)]], [x, p], "ts_intime_pad", [n, aux(p), 2.0]
        elif a == "cast":
            dt = int(r.choice(DTS + [15, 0]))
            op, ps, xs, f, args = "_cast", [["dtype", i32_(dt)]], [x], "ts_intime_cast", [n, dt]
        elif a == "matmul":
            t = int(r.integers(0, 2))
            k = self.tensor(lambda y: not isinstance(y.v, Packed))
            op, ps, xs, f, args = "inner_prod", [["transpose", T.of(bool(t))]], [x, self.o[k].v], "ts_intime_matmul", [n, k, t]
        elif a == "resize2d":
            s = s32([-1] + [int(y) for y in r.integers(1, 5, 2)] + [-1]) if self.chance(0.8) else s32(r.integers(-2, 4, int(r.integers(1, 5))))
            t = int(r.integers(0, 3)) if self.chance(0.9) else 3
            op, ps, xs, f, args = "_resize2d", [["type", i32_(t)]], [x, s], "ts_intime_resize2d", [n, aux(s), t]
            if t not in (0, 1, 2):
                op = None
        else:
            s, m = s32(r.integers(1, 5, 2)), f32([[1, 0, 0], [0, 1, 0], [0, 0, 1]])
            op, ps, xs, f, args = None, [], [], "ts_intime_affine_sample2d", [n, aux(s), aux(m), int(r.integers(-1, d + 1)), 0.0, int(r.integers(0, 3))]
        want = 0
        if op is not None:
            want = one(self.ref, op, ps, xs)
            if want is None and a == "concat" and len(xs) == 1:
                want = 0    # the reference checks the inputs before, these functions do not; a single tensor stays as it is
        exp = "any" if want == 0 or not bound else "fail" if want is None else "ok"
        if want is not None and want != 0:
            it = Item("T", v=want, dead=False)
            it.roots = set(self.o[n].roots)
            for k in (args[0] if f == "ts_intime_concat" else args[:2] if f == "ts_intime_matmul" else []):
                it.roots |= self.o[k].roots
            k = self.make(f, args, exp, it)
            if k is not None:
                self.check(k, "intime:" + a)
                self.out.see("immediate operators")
        else:
            self.quick(self.make(f, args, exp, Item("T", v=None, dead=True)))
        for k in tmp:
            if k is not None:
                self.free(k)

    # ------------------------------------------------------------------ messages, plugins, release
    def misc_step(self):
        r = self.rng
        k = int(r.integers(0, 5))
        if k == 0:
            s = "message of thread %d" % self.t
            self.raw("ts_set_error_message", [s])
            self.msg[self.t] = s.encode()
            v, m = self.raw("ts_last_error_message", [])
            if v != self.msg[self.t]:
                self.fail("message:set", "%r instead of %r" % (v, s))
            self.out.see("messages set")
        elif k == 1:
            self.call("ts_set_error_message", [None], "any")
        elif k == 2:
            m = int(r.integers(0, 32))
            dev, op = ("cpu" if self.chance(0.8) else None), ("capi_spare" if self.chance(0.8) else None)
            bad = dev is None or op is None or (m & 23) != 23
            self.call("ts_Operator_Register", [dev, op, m, int(r.integers(0, 2))], "fail" if bad else "ok")
            self.out.see("registrations")
        elif k == 3:
            self.refusing = self.chance(0.4)
            self.raw("refuse", [int(self.refusing)])
        else:
            self.do("ts_setup", [], "ok")

    def free(self, n):
        x = self.o[n]
        name = {"T": "Tensor", "M": "Module", "P": "Program", "W": "Workbench", "F": "ImageFilter"}[x.kind]
        if x.kind == "W":
            b = [t for t in self.threads if self.bound[t] == n]
            if b:
                self.t = b[0]
                for t in b[1:]:
                    self.bound[t] = 0       # its thread has to choose another one
                self.bound[b[0]] = None
        self.call("ts_free_" + name, [n], "ok")
        del self.o[n]
        if x.kind == "T":
            self.dangle(n)
        self.out.see("objects released")

    def free_step(self):
        c = list(self.o)
        if len(c) > 3:
            n = c[int(self.rng.integers(len(c)))]
            self.free(n)

    def play(self, steps):
        acts = [self.tensor_step, self.null_step, self.new_module, self.new_program, self.bench_step, self.filter_step, self.intime_step, self.misc_step, self.free_step]
        p = np.array([5, 2.5, 1.5, 2.5, 7, 3, 2.5, 1, 2.5])
        focus = int(self.rng.integers(0, 8))
        if focus < 2:       # mostly image filters or immediate operators, with a workbench to run them
            p *= 0.1
            p[5 + focus] = 12
            w = self.make("ts_new_Workbench", [CPU], "ok", Item("W", p=None, fed={}, ran=None))
            for t in self.threads:
                self.t = t
                if w is not None:
                    self.do("ts_Workbench_setup_context", [w], "ok")
                    self.bound[t] = w
        for _ in range(steps):
            self.t = self.threads[int(self.rng.integers(len(self.threads)))]
            acts[int(self.rng.choice(len(acts), p=p / p.sum()))]()
            if self.chance(0.15):
                n = self.pick("T", lambda x: x.v is not None and not x.dead)
                if n is not None:
                    self.check(n, "later")

    def finish(self):
        for n in self.rng.permutation(np.array(list(self.o), np.int64)):
            n = int(n)
            if n in self.o and self.chance(0.3) and self.o[n].kind == "T":
                self.check(n, "later")
            self.free(n)
        if self.refusing:
            self.raw("refuse", [0])
        live, made, runs, odd = self.api.call("plugins")
        if odd:
            self.fail("plugin:" + odd[0].decode()[:40], "%r" % odd)
        if live != self.live:
            self.fail("plugin:leak", "%d operators never freed" % (live - self.live))
        self.out.see("plugin operators", made)


class CHECK(Check):
    builds = {"asan": ["tsx", "capi"]}
    rule = ("histories of up to 60 calls over the whole C interface from 1 to 3 threads: valid calls with known results, missing pointers, negative and excessive counts, unknown names, types and "
            "devices, truncated files and streams, operators registered through the interface that fail in every way, objects freed in any order. Each call: nothing thrown, value and message "
            "agree, other threads' messages unchanged, values as the reference server computes them. Then several histories at the same time on threads of their own with the same answers, and "
            "histories repeated while the number of live heap blocks may not keep growing. distinct = different sequences of functions")

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("history", 2000 * k), ("together", 200 * k), ("leak", 120 * k), ("infer", 150 * k)]

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["failures reported", "values compared", "messages of other threads", "missing arguments", "runs", "failing runs", "failing plugin operators",
                                                  "outputs compared", "bad slots and names", "filters bound", "filters run", "immediate operators", "registrations", "plugin operators",
                                                  "messages set", "memory copies", "parameters changed", "histories at the same time", "histories repeated"]

    def gen(self, group, rng, i, tier):
        if group == "infer":
            k = int(rng.integers(0, 4))
            protos = [[int(rng.choice(DTS)), [int(x) for x in rng.integers(-1, 6, int(rng.integers(0, 5)))]] for _ in range(int(rng.integers(1, 4)))]
            enc = [len(protos)]
            for dt, s in protos:
                enc += [dt, len(s)] + s
            bad = False
            if k == 1 and len(enc) > 1:
                enc, bad = enc[:int(rng.integers(0, len(enc)))], True
            elif k == 2:
                enc, bad = [int(rng.choice([0, -1, len(protos) + 1, BIG, -BIG]))] + enc[1:], True
            elif k == 3:
                enc[2] = int(rng.choice([-1, -5, BIG, 8]))
                bad = True
            return dict(protos=protos, enc=enc, bad=bad, ex=bool(rng.random() < 0.5))
        return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(5, 61)), threads=int(rng.integers(1, 4)))

    def setup(self, ctx):
        api = ctx.server(name="capi")
        api.call("fresh")
        api.call("plugins", 0)
        for op, ex in (("capi_echo", 0), ("capi_ex", 1)):
            api.call("call", 0, None, "ts_Operator_Register", ["cpu", op, 31, ex])
        return api

    def run(self, ctx, group, case, out):
        api = self.setup(ctx)
        if group == "infer":
            return self.infer(api, case, out)
        api.call("fresh")
        ctx.server().call("reset")
        rng = np.random.default_rng(case["seed"])
        with tempfile.TemporaryDirectory(prefix="c22") as d:
            try:
                if group == "together":
                    return self.together(ctx, api, rng, case, out, d)
                s = Sim(self, ctx, out, rng, range(case["threads"]), 1000, d)
                s.play(case["steps"])
                s.finish()
                out.sig = tuple(x[2] for x in s.log)
                if group == "leak":
                    self.leak(api, s, out)
            except Stop:
                pass

    def leak(self, api, s, out):
        rep = [[t, o, f, a] for t, o, f, a in s.log]
        live = api.call("repeat", rep, 5)
        out.see("histories repeated")
        if live[1] < live[2] < live[3] < live[4]:
            out.bad("leak", "live heap blocks after each repetition: %r\n%s" % (live, s.tell()))

    def together(self, ctx, api, rng, case, out, d):
        logs = []
        for t in range(3):
            s = Sim(self, ctx, out, rng, [t], 100000 * (t + 1), os.path.join(d, str(t)))
            os.mkdir(s.dir)
            s.play(case["steps"] // 2 + 3)
            s.finish()
            logs.append([[o, f, a] for _, o, f, a in s.log if f not in ("ts_Operator_Register", "ts_setup", "refuse")])
        # the same alone, for the answers, then at the same time
        api.call("fresh")
        alone = [api.call("together", [[t, l]])[0] for t, l in enumerate(logs)]
        for _ in range(3):
            api.call("fresh")
            both = api.call("together", [[t, l] for t, l in enumerate(logs)])
            for t, (a, b) in enumerate(zip(alone, both)):
                for k, (x, y) in enumerate(zip(a, b)):
                    f = logs[t][k][1]
                    if y[0] != x[0]:
                        out.bad("together:what:" + f, "%r instead of %r" % (y, x))
                        return
                    if bool(x[2]) != bool(y[2]) or f == "ts_last_error_message" and y[1] != x[1]:
                        out.bad("together:message:" + f, "%r instead of %r\n%r" % (y, x, logs[t][k]))
                        return
                    if y[1] != x[1] and f not in ("ts_Workbench_summary",):
                        out.bad("together:value:" + f, "%r instead of %r\n%r" % (y, x, logs[t][k]))
                        return
            out.see("histories at the same time", len(logs))
        out.sig = tuple(f for l in logs for _, f, _ in l)

    def infer(self, api, case, out):
        """what an operator's infer answers reaches the caller as documented"""
        what, v, m = api.call("call", 0, None, "infer", ["capi_ex" if case["ex"] else "capi_echo", 0, [f32([1, 2])], case["enc"]])
        out.sig = (len(case["enc"]), case["bad"], case["enc"][0] if case["enc"] else None)
        if what != b"ok":
            out.bad("infer:thrown", "%r" % v)
        elif case["bad"]:
            if not isinstance(v, bytes):
                out.bad("infer:accepted", "%r for %r" % (v, case["enc"]))
        elif isinstance(v, bytes):
            out.bad("infer:refused", "%r for %r" % (v, case["enc"]))
        elif [[dt, list(s)] for dt, s in v] != case["protos"]:
            out.bad("infer:wrong", "%r for %r" % (v, case["enc"]))
