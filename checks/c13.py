"""C13: workbench runs are repeatable, isolated and addressable by name or slot."""
import numpy as np
import graphs
import layout
import opspec
import ops.all
from graphs import Grower, one, reach, same, text, i32_, i32, s32, f32
from checks.c11 import Dag
from runner import Check
from tsx import T, Packed, TsError, NP

OPTIONS = ["", "", "", "--no-pack", "--pack", "--no-filter", "--no-winograd"]
FILTERS = [[("to_float", [])], [("to_float", []), ("scale", [2.0])], [("channel_swap", [[0]])], [("to_chw", [])], [("to_float", []), ("to_chw", [])],
           [("resize", [3, 2, 0])], [("to_float", []), ("sub_mean", [[1.0]])], []]


class Net(Grower):
    """networks that accept any extents and stay whole numbers, so that any whole input has one exact result"""

    def __init__(self, srv, rng):
        Grower.__init__(self, srv, rng)
        self.chan = int(rng.choice([1, 2, 3, 8, 9]))

    def image(self, rng, most=5):
        n, h, w = int(rng.integers(1, 4)), int(rng.integers(3, 9)), int(rng.integers(3, 9))
        return T.of(rng.integers(-most, most + 1, [n, self.chan, h, w]).astype(np.float32))

    def cap(self, i):
        lo = self.op("relu_max", {"max": f32(5)}, [i])
        return lo

    def build(self, steps):
        rng = self.rng
        top = self.param(self.image(rng))
        flat = False
        for _ in range(steps):
            v = self.vals[top]
            c = v.shape[1]
            k = None
            if flat:
                o = str(rng.choice(["inner", "gemm", "relu", "sub", "argmax", "bias"]))
                if o == "inner":
                    m = int(rng.choice([1, 4, 8, 9]))
                    t = bool(rng.random() < 0.5)
                    k = self.op("inner_prod", {"transpose": T.of(t)}, [top, self.whole_weight([m, c] if t else [c, m])])
                elif o == "gemm":
                    m = int(rng.choice([1, 4, 8, 9]))
                    k = self.op("gemm", {"transB": T.of(True)}, [top, self.whole_weight([m, c]), self.whole_weight([m])])
                elif o == "sub":
                    k = self.op("sub", {}, [top, top])
                elif o == "argmax":
                    k = self.op("argmax", {"dim": i32_(1)}, [top])
                    if k is not None:
                        return k
                elif o == "bias":
                    k = self.op("add_bias", {"dim": i32_(1)}, [top, self.whole_weight([c])])
                else:
                    k = self.op("relu", {}, [top])
                if k is not None and o in ("inner", "gemm"):
                    k = self.cap(k)
                top = top if k is None else k
                continue
            o = str(rng.choice(["conv", "conv", "conv", "conv_v2", "deep", "bias", "prelu", "scale", "pool", "branch", "chunk", "pad", "flip", "gather", "global", "count", "fail", "leaky", "limit"]))
            if o in ("conv", "conv_v2", "deep"):
                kh = int(rng.integers(1, 4))
                w = self.whole_weight([int(rng.choice([1, 2, 8, 9])) if o != "deep" else 1, c, kh, kh])
                p = {"format": T.of("NCHW"), "stride": s32([1, 1, 1, 1] if rng.random() < 0.7 else [1, 1, 2, 1]), "dilation": s32([1, 1, 1, 1]), "padding_value": f32(0)}
                pad = s32([[0, 0], [0, 0], [kh - 1, kh - 1], [kh - 1, 0]])
                if o == "conv_v2":
                    k = self.op("conv2d_v2", p, [top, self.const(pad), w])
                else:
                    k = self.op("conv2d" if o == "conv" else "depthwise_conv2d", dict(p, padding=pad), [top, w])
                k = None if k is None else self.cap(k)
            elif o == "bias":
                k = self.op("add_bias", {"dim": i32_(1)}, [top, self.whole_weight([c])])
            elif o == "prelu":
                k = self.op("prelu", {"dim": i32_(1)}, [top, self.whole_weight([c])])
            elif o == "scale":
                k = self.op("batch_scale", {"dim": i32_(1)}, [top, self.whole_weight([c]), self.whole_weight([c])])
                k = None if k is None else self.cap(k)
            elif o == "pool":
                k = self.op("pooling2d", {"format": T.of("NCHW"), "type": i32_(0), "padding": s32([[0, 0]] * 4), "padding_type": i32_(0), "ksize": i32(1, 1, 2, 2), "stride": i32(1, 1, int(rng.integers(1, 3)), 1)}, [top])
            elif o == "branch":
                a = self.op("abs", {}, [top])
                b = self.op("floor", {}, [top if rng.random() < 0.5 else a])
                k = self.op("concat", {"dim": i32_(int(rng.integers(0, 3)))}, [a, b, top][:int(rng.integers(2, 4))]) if rng.random() < 0.6 and c < 20 else self.op("maximum", {}, [a, top])
            elif o == "chunk" and c > 1:
                j = self.op("chunk", {"chunks": i32_(2), "dim": i32_(1)}, [top])
                if j is not None and isinstance(self.vals[j], Packed):
                    f = int(rng.integers(0, 2))
                    k = self.add("o", "_field", [["offset", i32_(f)]], [j], self.vals[j][f])
            elif o == "pad":
                k = self.op("pad", {"padding_value": f32(float(rng.integers(-3, 4)))}, [top, self.const(s32([[0, 0], [0, 0], [1, 0], [0, 2]]))])
            elif o == "flip":
                k = self.op("_transpose", {"permute": s32([0, 1, 3, 2])}, [top])
            elif o == "gather":
                k = self.op("gather", {"axis": i32_(1)}, [top, self.const(s32(rng.integers(0, c, int(rng.integers(1, 4)))))])
            elif o == "global":
                j = self.op("global_pooling2d", {"format": T.of("NCHW"), "type": i32_(0)}, [top])
                k = None if j is None else self.op("flatten", {"dim": i32_(1)}, [j])
                flat = k is not None
            elif o == "count":
                k = self.op("verif_count", {}, [top])
            elif o == "fail":
                k = self.add("o", "verif_fail", [], [top], v)
            elif o == "leaky":
                k = self.op("leaky_relu", {"scale": f32(2)}, [top])
                k = None if k is None else self.cap(k)
            else:
                k = self.op("floor", {}, [top])
            top = top if k is None else k
        return top

    def whole_weight(self, shape):
        c = [i for i, n in enumerate(self.nodes) if n[0] == "c" and self.vals[i].shape == tuple(shape) and self.vals[i].dt == 10]
        if c and self.rng.random() < 0.5:
            return int(self.rng.choice(c))
        return self.const(T.of(self.rng.integers(-2, 3, shape).astype(np.float32)))


class Plain(Grower):
    """without sums of products, for which other inputs could round differently"""

    def g_conv(self):
        return self.g_move()

    g_inner = g_gemm = g_conv


class Graph:
    """nodes, outputs, and how to make inputs for it"""

    def __init__(self, srv, rng, k):
        self.k = k
        if k == 0:
            g = Dag(rng)
            g.leaf(1)
            for _ in range(int(rng.integers(1, 14))):
                g.step()
            if rng.random() < 0.4:
                g.add("o", "verif_fail", [], [0], g.vals[0])
            self.nodes = g.nodes
            self.outs = [int(rng.integers(0, len(g.nodes))) for _ in range(int(rng.integers(1, 4)))] + [len(g.nodes) - 1]
            self.make = lambda n, rng: T.of(rng.integers(-9, 10, 1 if rng.random() < 0.8 else int(rng.integers(2, 4))).astype(
                np.float64 if rng.random() < 0.7 else np.float32))
        elif k == 1:
            g = Net(srv, rng)
            top = g.build(int(rng.integers(1, 9)))
            self.nodes = g.nodes
            c = [i for i, n in enumerate(g.nodes) if n[0] == "o"] or [0]
            self.outs = [top] + [int(rng.choice(c)) for _ in range(int(rng.integers(0, 3)))]
            self.make = lambda n, rng: g.image(rng)
        else:
            g = Plain(srv, rng, weights=0.4) if k == 2 else Grower(srv, rng, weights=0.5)
            bad, steps = 0, int(rng.integers(1, 11))
            while steps > 0 and bad < 60:
                if g.grow() is None:
                    bad += 1
                else:
                    steps -= 1
            self.nodes, self.outs = g.nodes, g.outputs(4) if g.nodes else []
            vals = {n[1]: v for n, v in zip(g.nodes, g.vals)}
            self.make = (lambda n, rng: vals[n]) if k == 3 else (lambda n, rng: self.other(vals[n], rng))
        self.tols = [g.leaf[o] for o in self.outs] if k == 3 else None
        self.exact = k != 3
        for i, n in enumerate(self.nodes):
            n[1] = "%s%d" % ("abcd"[k], i)
        if k in (2, 3):
            vals = {n[1]: v for n, v in zip(g.nodes, g.vals)}
            if k == 3:
                self.make = lambda n, rng: vals[n]
            else:
                self.make = lambda n, rng: self.other(vals[n], rng)
        self.live = reach(self.nodes, self.outs)
        self.names = [self.nodes[i][1] for i in sorted(self.live) if self.nodes[i][0] == "p"]
        # nodes that depend on an input: what is left is computed when the program is compiled
        self.varies = set()
        for i in sorted(self.live):
            if self.nodes[i][0] == "p" or any(j in self.varies for j in self.nodes[i][4]):
                self.varies.add(i)

    @staticmethod
    def other(v, rng):
        """another input of the same shape and type"""
        if isinstance(v, Packed) or v.dt in (9, 22) or v.dt not in NP or rng.random() < 0.3:
            return v
        a = v.np.reshape(-1).copy()
        if a.size > 1:
            a = a[rng.permutation(a.size)]      # the same values elsewhere: still fit for indexes and extents
        return T.of(a.reshape(v.shape), v.dt)


class Prog:
    def __init__(self, graph, order, nodes=None, filters=None):
        self.g, self.order = graph, order
        self.nodes = nodes if nodes is not None else [[a, b, c, [list(p) for p in ps], e] for a, b, c, ps, e in graph.nodes]
        self.filters = dict(filters or {})

    def clone(self):
        return Prog(self.g, self.order, [[a, b, c, [list(p) for p in ps], e] for a, b, c, ps, e in self.nodes], self.filters)


class Bench:
    def __init__(self, h, prog, n):
        self.h, self.prog, self.fed, self.got, self.hooked = h, prog, {}, None, {}


SET = {"leaky_relu": ("scale", lambda r: f32(float(r.integers(1, 5)))), "relu_max": ("max", lambda r: f32(float(r.integers(1, 6)))),
       "pad": ("padding_value", lambda r: f32(float(r.integers(-3, 4)))), "chunk": ("chunks", lambda r: i32_(2)), "argmax": ("dim", lambda r: i32_(r.integers(0, 2))),
       "concat": ("dim", lambda r: i32_(r.integers(0, 2))), "max": ("dim", lambda r: i32_(r.integers(-1, 1))), "_transpose": ("permute", lambda r: s32([0, 1, 2, 3]))}


def flat(params):
    return sorted((k, layout.key(v)) for k, v in params)


STATEFUL = ("conv", "depthwise", "pooling", "winograd", "resize_", "sample", "matmul", "lstm", "batch_norm", "dcn", "yolo")


class CHECK(Check):
    rule = ("one or two workbenches with one to three programs each (scheduling graphs of cheap operators, networks of any extents in whole numbers, graphs grown over the operator "
            "library), and a history of up to 40 actions: inputs by name or slot, runs, failing runs, runs with inputs missing, hooks, parameter changes, filters bound and unbound, "
            "programs switched, launched offline, shared between workbenches and cloned, workbenches cloned and destroyed, single operators, outputs held. Each output is compared with the "
            "node by node values of the program's nodes on the inputs in force; held outputs and inputs are compared again after the rest of the history and after all workbenches are gone. "
            "distinct = different graphs and actions")

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("history", 1500 * k), ("networks", 1000 * k), ("again", 4000 * k)]

    def gen(self, group, rng, i, tier):
        if group == "again":
            return self.gen_again(rng)
        return dict(seed=int(rng.integers(1 << 40)), actions=int(rng.integers(5, 41)), threads=int(rng.choice([1, 2, 4])))

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["operator runs again", "operator runs refused again", "runs compared", "failed runs reported", "held values compared", "hooked values compared", "filtered runs", "parameters changed",
                                                  "cloned workbenches", "cloned programs", "offline launches", "single operators", "runs after a failure", "inputs by name", "inputs by slot",
                                                  "shared programs", "runs with other extents", "inputs unchanged", "missing inputs"]

    def run(self, ctx, group, case, out):
        self.srv = srv = ctx.server()
        srv.call("reset")
        if group == "again":
            return self.again(srv, case, out)
        self.log, self.out = [], out
        try:
            self.play(group, case)
        except TsError as e:
            out.bad("%s:error:%s" % (group, e.kind), "%s: %s\n%s" % (e.kind, e.msg, self.tell()))

    # ------------------------------------------------------------------ one operator object, many runs
    def gen_again(self, rng):
        names = sorted(opspec.SPECS)
        # operators that keep something from one run to the next come up more often
        p = np.array([8.0 if n.startswith(STATEFUL) else 4.0 if opspec.SPECS[n].family == "C01" else 1.0 for n in names])
        s = opspec.SPECS[str(rng.choice(names, p=p / p.sum()))]
        cases = [opspec.make_case(s, rng, threads=1)]
        keys = sorted(k for k, _ in cases[0]["params"])
        for _ in range(12):
            c = opspec.make_case(s, rng, threads=1)
            if sorted(k for k, _ in c["params"]) == keys and len(cases) < 4:
                cases.append(c)
        steps = []
        for _ in range(int(rng.integers(3, 10))):
            if steps and rng.random() < 0.4:
                steps.append([steps[-1][0], 0, int(rng.random() < 0.5)])
            else:
                k = int(rng.integers(len(cases)))
                # other inputs with the parameters that are set already need no new set-up
                other = not steps or flat(cases[k]["params"]) != flat(cases[steps[-1][0]]["params"])
                steps.append([k, int(other or rng.random() < 0.3), int(rng.random() < 0.5)])
        return dict(spec=s.name, cases=cases, steps=steps)

    def again(self, srv, case, out):
        s, cases = opspec.SPECS[case["spec"]], case["cases"]
        fresh = {}
        got = srv.call("op_seq", s.op, 1, [[setup, cases[k]["params"], cases[k]["inputs"], infer if s.infer else 0] for k, setup, infer in case["steps"]])
        out.sig = (s.name, tuple(map(tuple, case["steps"])), tuple(opspec.case_sig(c) for c in cases))
        for n, ((k, setup, infer), r) in enumerate(zip(case["steps"], got)):
            if k not in fresh:
                fresh[k] = srv.call("op", s.op, cases[k]["params"], cases[k]["inputs"], 1, 0)[0], opspec.expectation(cases[k])
            w, (kind, exp) = fresh[k]
            if kind == "any" or kind == "ok" and any(isinstance(e, opspec.Pred) or getattr(e, "mask", None) is not None for e in exp):
                out.see("operator runs without an expected value")
                continue
            out.see("operator runs again" if w[0] == b"ok" else "operator runs refused again")
            if (r[0] == b"ok") != (w[0] == b"ok"):
                out.bad("again:%s:status" % s.name, "step %d of %r: %r instead of %r" % (n, case["steps"], r[:2], w[:2]))
                return
            if r[0] == b"ok":
                t = same(w[3][0], r[3][0], None)
                if t:
                    out.bad("again:%s:value" % s.name, "step %d of %r: %s" % (n, case["steps"], t))
                    return

    def tell(self):
        return "\n".join(self.log[-40:]) + "\n" + "\n---\n".join(text(g.nodes, g.outs) for g in self.graphs)

    def act(self, txt):
        self.log.append(txt)

    def fail(self, key, msg):
        self.out.bad(key, msg + "\n" + self.tell())
        raise StopIteration

    # ------------------------------------------------------------------ the expected value of a run
    def value(self, prog, fed):
        """(outputs, None, values by node) or (None, name of the node that refuses, ...)"""
        vals, failed = {}, None
        for i, (kind, name, op, params, ins) in enumerate(prog.nodes):
            if i not in prog.g.live:
                continue
            if kind == "p":
                vals[i] = fed[name]
                if prog.filters.get(name):
                    x = vals[i]
                    if not isinstance(x, T) or not 2 <= len(x.shape) <= 4:
                        return None, "filter", vals
                    f = self.srv.call("filter_new")
                    for s, a in prog.filters[name]:
                        self.srv.call("filter_step", f, s, a)
                    try:
                        vals[i] = self.srv.call("filter_run", f, T(x.dt, (1,) + tuple(x.shape) + (1,), x.raw) if len(x.shape) == 2 else x, 1)
                    except TsError:
                        return None, "filter", vals
                    finally:
                        self.srv.call("free", f)
            elif kind == "c":
                vals[i] = dict(params)["value"]
            elif op == "verif_fail":
                x = vals[ins[0]]
                if isinstance(x, T) and x.dt == 10 and len(x.raw) and x.np.reshape(-1)[0] < 0:
                    return None, "verif_fail", vals
                vals[i] = x
            else:
                vals[i] = one(self.srv, op, params, [vals[k] for k in ins])
                if vals[i] is None:
                    return None, name, vals
        return [vals[o] for o in prog.g.outs], None, vals

    # ------------------------------------------------------------------ the history
    def play(self, group, case):
        rng = np.random.default_rng(case["seed"])
        srv, out = self.srv, self.out
        try:
            self.steps(group, case, rng)
        except StopIteration:
            pass

    def compile(self, rng, g, bench=None):
        order = [str(x) for x in rng.permutation(g.names)] if g.names and rng.random() < 0.7 else None
        m = self.srv.call("module_new", g.nodes, g.outs, order)
        o = str(rng.choice(OPTIONS))
        if order is None:
            order = [x.decode() if isinstance(x, bytes) else x for x in self.srv.call("module_desc", m)[1]]
        self.modules.append((m, self.srv.call("module_bytes", m)))
        return m, o, order

    def steps(self, group, case, rng):
        srv, out = self.srv, self.out
        kinds = [1] if group == "networks" else [0, 0, 1, 2, 3]
        self.graphs, self.modules = [], []
        self.held, self.keeps = [], []
        for _ in range(int(rng.integers(1, 4))):
            g = Graph(srv, rng, int(rng.choice(kinds)))
            if g.nodes:
                self.graphs.append(g)
        if not self.graphs:
            return
        progs, benches = [], []       # (handle, Prog)
        self.act("%d graphs" % len(self.graphs))

        def newbench(g):
            m, o, order = self.compile(rng, g)
            b = srv.call("wb_new", m, o, case["threads"])
            benches.append(Bench(b, Prog(g, order), 0))
            self.act("bench %d: graph %d options %r" % (len(benches) - 1, self.graphs.index(g), o))
        newbench(self.graphs[0])
        ran = failed = 0
        pick = lambda c: c[int(rng.integers(len(c)))]
        acts = ["input"] * 5 + ["run"] * 6 + ["hold"] * 2 + ["hook", "hook", "param", "param", "filter", "switch", "switch", "launch", "share", "clone", "progclone", "destroy", "op", "fail", "missing",
                                                             "newbench", "summary", "threads", "unfilter"]
        for _ in range(case["actions"]):
            a = str(pick(acts))
            bi = int(rng.integers(len(benches)))
            b = benches[bi]
            if b.h is None:
                continue
            g = b.prog.g if b.prog else None
            if a == "newbench":
                newbench(pick(self.graphs))
            elif a == "input":
                if g and g.names:
                    self.give(rng, b, str(pick(g.names)))
            elif a in ("run", "hook", "fail", "missing"):
                if g is None:
                    continue
                if a != "missing":
                    for n in g.names:
                        if n not in b.fed or (a == "run" and rng.random() < 0.2):
                            self.give(rng, b, n)
                if a == "fail":
                    f = [n for i, n in enumerate(b.prog.nodes) if n[2] == "verif_fail" and i in g.live]
                    if not f or g.k != 1:
                        continue
                    n = g.names[0]
                    x = b.fed[n].np.copy()
                    x.reshape(-1)[0] = -5
                    self.put(rng, b, n, T.of(x))
                if a == "missing":
                    if all(n in b.fed for n in g.names):
                        continue
                    self.act("run %d with inputs missing" % bi)
                    try:
                        srv.call("wb_run", b.h)
                    except TsError as e:
                        if e.kind != "ts":
                            self.fail("missing:" + e.kind, e.msg)
                    out.see("missing inputs")
                    b.got = None
                    continue
                ok = self.execute(rng, b, bi, hook=a == "hook")
                ran += ok is True
                out.see("runs after a failure", int(ok is True and failed))
                failed = ok is None
                if ok is False:
                    return
            elif a == "hold" and b.got is not None:
                k = int(rng.integers(len(b.got)))
                self.held.append((srv.call("wb_hold", b.h, k), b.got[k], b.prog.g.tols[k] if b.prog.g.tols else None, "bench %d output %d" % (bi, k)))
                self.act("hold output %d of %d" % (k, bi))
            elif a == "param" and g is not None:
                self.change(rng, b, bi)
            elif a in ("filter", "unfilter") and g is not None and g.names:
                n = str(pick(g.names))
                steps = pick(FILTERS) if a == "filter" else None
                by = b.prog.order.index(n) if rng.random() < 0.5 else n
                h = None
                if steps is not None:
                    h = srv.call("filter_new")
                    for s, x in steps:
                        srv.call("filter_step", h, s, x)
                srv.call("wb_filter", b.h, by, h)
                b.prog.filters[n] = steps
                self.act("filter %r on %r of %d" % (steps, by, bi))
                if h is not None and rng.random() < 0.5:
                    if rng.random() < 0.5:
                        srv.call("filter_step", h, "scale", [3.0])     # extending it later does not reach the workbench
                    srv.call("free", h)
            elif a == "switch":
                k = rng.random()
                if progs and k < 0.6:
                    ph, p = pick(progs)
                else:
                    gg = pick(self.graphs)
                    m, o, order = self.compile(rng, gg)
                    ph, p = srv.call("prog_new", b.h, m, o), Prog(gg, order)
                    progs.append((ph, p))
                srv.call("wb_setup", b.h, ph)
                self.act("bench %d runs graph %d" % (bi, self.graphs.index(p.g)))
                b.prog, b.fed, b.got, b.hooked = p, {}, None, {}
                out.see("shared programs", int(sum(x.prog is p and x.h is not None for x in benches) > 1))
            elif a == "share" and progs and len(benches) > 1:
                ph, p = pick(progs)
                for x in benches:
                    if x.h is not None:
                        srv.call("wb_setup", x.h, ph)
                        x.prog, x.fed, x.got, x.hooked = p, {}, None, {}
                self.act("all run graph %d" % self.graphs.index(p.g))
            elif a == "progclone" and progs:
                ph, p = pick(progs)
                progs.append((srv.call("prog_clone", ph), p.clone()))
                self.act("program cloned")
                out.see("cloned programs")
                if rng.random() < 0.3 and len(progs) > 1:
                    srv.call("free", ph)
                    progs.remove((ph, p))
                    self.act("the original is freed")
            elif a == "clone":
                c = Bench(srv.call("wb_clone", b.h), b.prog.clone() if b.prog else None, 0)
                benches.append(c)
                self.act("bench %d is a clone of %d" % (len(benches) - 1, bi))
                out.see("cloned workbenches")
            elif a == "destroy" and sum(x.h is not None for x in benches) > 1:
                srv.call("free", b.h)
                b.h = None
                self.act("bench %d destroyed" % bi)
            elif a == "launch" and progs:
                ph, p = pick(progs)
                if self.launch(rng, b, bi, ph, p) is False:
                    return
            elif a == "op":
                x = T.of(rng.integers(-5, 6, [2, 3, 4, 4]).astype(np.float32))
                op, ps, xs = pick([("abs", [], [x]), ("sub", [], [x, x]), ("_transpose", [["permute", s32([3, 2, 1, 0])]], [x]), ("chunk", [["chunks", i32_(3)], ["dim", i32_(1)]], [x]),
                                   ("conv2d", [["format", T.of("NCHW")], ["stride", s32([1, 1, 1, 1])], ["dilation", s32([1, 1, 1, 1])], ["padding", s32([[0, 0]] * 4)], ["padding_value", f32(0)]],
                                    [x, T.of(rng.integers(-2, 3, [2, 3, 2, 2]).astype(np.float32))])])
                self.act("%s on bench %d" % (op, bi))
                want = one(srv, op, ps, xs)
                got = srv.call("wb_op", b.h, op, ps, xs, int(rng.integers(0, 2)))
                if len(got) != 1:
                    self.fail("op:count", "%d results of one operator" % len(got))
                t = same(want, got[0])
                if t:
                    self.fail("op:value", t)
                out.see("single operators")
            elif a == "summary":
                if not srv.call("wb_summary", b.h):
                    self.fail("summary", "empty")
            elif a == "threads":
                srv.call("wb_threads", b.h, int(rng.integers(1, 5)))
            if rng.random() < 0.1:
                for x in benches:
                    if x.h is not None:
                        n = srv.call("wb_counts", x.h)
                        p = x.prog
                        if n[2] != 0 or p and (n[0] != len(p.order) or n[1] != len(p.g.outs)):
                            self.fail("counts", "inputs, outputs, stack size, threads %r" % (n,))
            if self.held and rng.random() < 0.3:
                self.recheck(pick(self.held))
        for x in benches:
            if x.h is not None and rng.random() < 0.7:
                srv.call("free", x.h)
        for ph, p in progs:
            if rng.random() < 0.7:
                srv.call("free", ph)
        for m, bytes_ in self.modules:
            if srv.call("module_bytes", m) != bytes_:
                self.fail("module", "a module changed")
        for h in self.held:
            self.recheck(h)
        for h, v in self.keeps:
            t = same(v, srv.call("tensor_get", h))
            if t:
                self.fail("input-modified", t)
            out.see("inputs unchanged")
        if ran:
            out.sig = tuple(self.log) + tuple((n[2], tuple(n[4])) for g in self.graphs for n in g.nodes)

    def recheck(self, h):
        t = same(h[1], self.srv.call("tensor_get", h[0]), h[2])
        if t:
            self.fail("held", "%s, held: %s" % (h[3], t))
        self.out.see("held values compared")

    def give(self, rng, b, n):
        x = b.prog.g.make(n, rng)
        if b.prog.g.k == 1 and n in b.fed:
            self.out.see("runs with other extents", int(x.shape != b.fed[n].shape))
        self.put(rng, b, n, x)

    def put(self, rng, b, n, x):
        by = b.prog.order.index(n) if rng.random() < 0.5 else n
        self.out.see("inputs by slot" if isinstance(by, int) else "inputs by name")
        if rng.random() < 0.3:
            h = self.srv.call("tensor_keep", x)
            self.keeps.append((h, x))
            self.srv.call("wb_input", b.h, by, h)
        else:
            self.srv.call("wb_input", b.h, by, x)
        b.fed[n] = x
        self.act("input %r: %s" % (by, x))
        if rng.random() < 0.3:
            by = b.prog.order.index(n) if rng.random() < 0.5 else n
            t = same(x, self.srv.call("wb_get_input", b.h, by))
            if t:
                self.fail("input-read", t)

    def execute(self, rng, b, bi, hook):
        """True: compared, None: failed as it should or not judged, False: violation"""
        srv, out, g = self.srv, self.out, b.prog.g
        want, refuses, vals = self.value(b.prog, b.fed)
        judged = refuses in (None, "verif_fail")
        if not g.exact and (b.prog.filters and any(b.prog.filters.values())):
            want, judged = None, False
        names = []
        b.got, b.hooked = None, {}
        if hook:
            names = [n[1] for i, n in enumerate(g.nodes) if n[0] != "c" and rng.random() < 0.4] + (["nowhere"] if rng.random() < 0.2 else [])
        self.act("run %d%s -> %s" % (bi, " with hooks %r" % (names,) if hook else "", refuses))
        try:
            got = srv.call("wb_hook", b.h, names) if hook else srv.call("wb_run", b.h)
        except TsError as e:
            if e.kind != "ts":
                self.fail("run:" + e.kind, e.msg)
            if judged and refuses is None:
                self.fail("run:rejected", e.msg)
            if refuses == "verif_fail":
                if "verif_fail" not in e.msg:
                    self.fail("run:message", e.msg)
                out.see("failed runs reported")
            n = srv.call("wb_counts", b.h)
            if n[2] != 0:
                self.fail("stack", "%d values left after a failed run" % n[2])
            return None
        if refuses == "verif_fail":
            self.fail("run:not-reported", "a failing operator")
        if not judged:
            return None
        if want is None:
            return None
        byname = {n[1]: i for i, n in enumerate(g.nodes)}
        seen = {}
        for k, o in enumerate(g.outs):
            seen.setdefault(g.nodes[o][1], k)
        tol = g.tols or [None] * len(g.outs)
        for k, o in enumerate(g.outs):
            n = g.nodes[o][1]
            # a hooked name is found first: for an input that is the tensor that was given
            by = n if seen[n] == k and rng.random() < 0.4 and not (hook and g.nodes[o][0] == "p") else k
            t = same(want[k], srv.call("wb_output", b.h, by), tol[k])
            if t:
                self.fail("value:%s" % (g.nodes[o][2] or g.nodes[o][0]), "bench %d output %r: %s" % (bi, by, t))
            out.see("runs compared")
        if any(b.prog.filters.values()):
            out.see("filtered runs")
        if hook:
            for n, v in zip(names, got):
                i = byname.get(n)
                missing = isinstance(v, bytes)
                if i is None:
                    if not missing:
                        self.fail("hook:unknown", n)
                    continue
                kind, _, op, _, _ = g.nodes[i]
                if i not in g.live:
                    if not missing:
                        self.fail("hook:dead", n)
                    continue
                w = b.fed[n] if kind == "p" else vals[i]
                if missing:
                    # operators that the compiler evaluates, renames or expands have no run to watch
                    if kind == "p" or g.k == 0 and i in g.varies and op not in ("_field", "_pack"):
                        self.fail("hook:missing:%s" % (op or kind), "%s: %s" % (n, v))
                    continue
                if g.exact or kind == "p":
                    t = same(w, v)
                    if t:
                        self.fail("hook:value:%s" % (op or kind), "%s: %s" % (n, t))
                    out.see("hooked values compared")
        b.got = want
        return True

    def change(self, rng, b, bi):
        srv, g = self.srv, b.prog.g
        c = [i for i in g.varies if g.nodes[i][2] in SET and any(p[0] == SET[g.nodes[i][2]][0] for p in b.prog.nodes[i][3])]
        if not c or rng.random() < 0.1:
            srv.call("wb_param", b.h, "nowhere", "scale", f32(3))
            return
        i = int(rng.choice(c))
        name, make = SET[g.nodes[i][2]]
        v = make(rng)
        if g.nodes[i][2] == "_transpose" and len([p for p in b.prog.nodes[i][3] if p[0] == "permute"][0][1].np.reshape(-1)) != 4:
            return
        self.act("param %s %s.%s = %r" % (bi, g.nodes[i][1], name, v))
        try:
            srv.call("wb_param", b.h, g.nodes[i][1], name, v)
        except TsError as e:
            self.act("refused: " + e.msg)
            raise
        for p in b.prog.nodes[i][3]:
            if p[0] == name:
                p[1] = v
        self.out.see("parameters changed")

    def launch(self, rng, b, bi, ph, p):
        srv, out, g = self.srv, self.out, p.g
        fed = {n: g.make(n, rng) for n in g.names}
        want, refuses, _ = self.value(p, fed)
        named = rng.random() < 0.5 and bool(g.names)
        args = [[str(n), fed[str(n)]] for n in rng.permutation(g.names)] if named else [fed[n] for n in p.order]
        bad = rng.random() < 0.1
        if bad:
            args = args[:-1] if args and rng.random() < 0.5 else args + args[:1] or [f32(1)]
            named = False
            args = [x[1] if isinstance(x, list) else x for x in args]
        self.act("launch graph %d on bench %d -> %s" % (self.graphs.index(g), bi, refuses))
        try:
            got = srv.call("wb_launch", b.h, ph, args)
        except TsError as e:
            if e.kind != "ts" or (refuses is None and not bad and (g.exact or not any(p.filters.values()))):
                self.fail("launch:error:" + e.kind, e.msg)
            out.see("failed runs reported", int(refuses == "verif_fail"))
            return
        if bad or refuses == "verif_fail":
            self.fail("launch:not-reported", "arguments %r" % (args,))
        if refuses or not g.exact and any(p.filters.values()):
            return
        if len(got) != len(g.outs):
            self.fail("launch:count", "%d outputs" % len(got))
        for k, o in enumerate(g.outs):
            t = same(want[k], got[k], g.tols[k] if g.tols else None)
            if t:
                self.fail("launch:value", "output %d: %s" % (k, t))
        out.see("offline launches")
