"""C12: compile options and compilation itself never change a model's meaning."""
import numpy as np
import graphs
from graphs import Grower, evaluate, reach, same, text, i32_, f32, s32
from checks.c11 import grown, module, feed
from runner import Check
from tsx import T, Packed, TsError

PLAIN = ["--pack", "--no-pack", "--no-filter", "-no-flt", "--no-float16", "-no-fp16", "--winograd", "-win", "--no-winograd", "-no-win"]
JUNK = ["--bogus", "-x", "pack", "--packed", "--no-pac", "=", "-", "--", "---pack", "--pack=1", "--PACK", "名", "-v", "-v:", "-v:a", "-v:foo:bar", "-V:gpu:tpu",
        "-v:a:b:c", "-v::", "%s%n", "\\d+(", "\x01"]
TYPES = {10: np.float32, 11: np.float64}


def options(rng, filt, half):
    k = PLAIN + (["--filter", "-flt"] if filt else []) + (["--float16", "-fp16"] if half else [])
    t = [str(rng.choice(JUNK if rng.random() < 0.25 else k)) for _ in range(int(rng.integers(0, 5)))]
    if rng.random() < 0.02:
        t.append("-" + "q" * int(rng.choice([300, 3000])))
    s = ""
    for x in t:
        s += str(rng.choice([" ", "  ", "\t", "\n", " \r "])) + x
    return s if rng.random() < 0.3 else s.strip(" \t\r\n")


def tiny(x):
    """a value the filter option would flush"""
    if isinstance(x, Packed):
        return any(tiny(f) for f in x)
    if not isinstance(x, T) or x.dt not in TYPES:
        return False
    a = np.abs(x.np.astype(np.float64))
    return bool(((a > 0) & (a < np.finfo(np.float32).eps)).any())


def has_half(x):
    return any(f.dt == 9 for f in (x if isinstance(x, Packed) else [x]))


class Shared(Grower):
    """weights that several nodes use, already packed kernels, and normalisations of computed variances"""

    def weight(self, shape, dt=10, most=3):
        c = [i for i, n in enumerate(self.nodes) if n[0] == "c" and self.vals[i].shape == tuple(shape) and self.vals[i].dt == dt]
        if c and self.rng.random() < 0.6:
            self.shared += 1
            return int(self.rng.choice(c))
        a = self.rng.integers(-most, most + 1, shape)
        return self.source(T.of(a.astype(graphs.NP[dt]), dt), 0.08)

    def op(self, op, params, inputs, leaf=None):
        if op in ("conv2d", "conv2d_v2", "inner_prod") and self.rng.random() < 0.15:
            w = inputs[2] if op == "conv2d_v2" else inputs[1]
            if self.vals[w].dt == 10 and (op != "inner_prod" or "transpose" not in params):
                params = dict(params)
                params["kernel_packed"] = T.of(True)
                self.shared += 0
        return Grower.op(self, op, params, inputs, leaf)

    def grow(self):
        rng = self.rng
        if not self.nodes:
            return self.source(self.fresh([[2, 3, 4, 4], [1, 2, 5, 5], [3, 4], [4, 4]][int(rng.integers(4))], 10), 1)
        k = rng.random()
        if k < 0.6:
            return getattr(self, "g_" + str(rng.choice(["conv", "conv", "inner", "inner", "gemm", "gemm", "use", "variance"])))()
        return Grower.grow(self)

    def attached(self):
        return None if self.rng.random() < 0.6 else Grower.attached(self)

    def g_use(self):
        """a weight in an ordinary role, too"""
        c = [i for i, n in enumerate(self.nodes) if n[0] == "c" and self.vals[i].dt == 10 and len(self.vals[i].raw)]
        if not c:
            return None
        i = int(self.rng.choice(c))
        return self.op(str(self.rng.choice(["relu", "abs", "_copy", "flatten"])), {}, [i]) if self.rng.random() < 0.6 else self.op("add", {}, [i, i])

    def g_variance(self):
        rng = self.rng
        i = self.any(lambda v: graphs.is_f(v) and len(v.shape) >= 2)
        if i is None or self.half:
            return None
        v = self.vals[i]
        c = v.shape[1]
        dt = v.dt
        vec = lambda lo: T.of(rng.integers(lo, 6, c).astype(graphs.NP[dt]), dt)
        var = self.const(vec(1))
        k = rng.random()
        if k < 0.3:
            var = self.op("abs", {}, [var])
        elif k < 0.5:
            var = self.op("mul", {}, [var, self.const(T.of(np.array([0.5], graphs.NP[dt]), dt))])
        elif k < 0.6:
            var = self.op("_cast", {"dtype": i32_(dt)}, [var])
        if var is None:
            return None
        p = {"dim": i32_(1)}
        if rng.random() < 0.6:
            p["epsilon"] = f32(0.25)
        if rng.random() < 0.3:
            self.add("o", "add", [], [var, var], T.of((self.vals[var].np * 2).astype(graphs.NP[dt]), dt))
        k = self.op("batch_norm", p, [i, self.const(vec(-3)), var]) if rng.random() < 0.6 else \
            self.op("fused_batch_norm", p, [i, self.const(vec(-3)), var, self.const(vec(-2)), self.const(vec(-2))])
        return k


class CHECK(Check):
    rule = ("options cases: a graph grown over the operator library and compiled 3 to 5 times from the same module under random option strings (packing, filter, half precision, unknown and "
            "malformed words); weights cases: kernels shared between convolutions, products and ordinary operators, already packed kernels, computed variances; half cases: graphs of whole numbers "
            "that half precision represents, compiled with --float16; filter cases: constants around the threshold. Every program is run on the same inputs and compared with the node by node "
            "values; the serialised module has to be the same bytes after every compilation and to load into the same model. distinct = different graph structure and options")

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("options", 500 * k), ("weights", 900 * k), ("half", 400 * k), ("filter", 600 * k), ("words", 150 * k)]

    def gen(self, group, rng, i, tier):
        if group == "words":
            return dict(words=self.strings(rng))
        return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(1, 13)), threads=int(rng.choice([1, 2, 4])))

    def strings(self, rng):
        k = int(rng.integers(0, 5))
        names = ["cpu", "gpu", "a", "b", "CPU", " cpu", "_cpu_", "-cpu", "cuda", ""]
        w = ["-v:%s:%s" % (rng.choice(names), rng.choice(names)) for _ in range(int(rng.integers(1, 4)))]
        if k == 0:
            w = ["-v:cpu:a", "-v:a:%s" % rng.choice(["cpu", "a", "b"])]
        if k == 1:
            w = ["-" + str(rng.choice(["v:", "x", ""])) + "y" * int(rng.choice([10, 1000, 20000]))]
        return " ".join(str(x) for x in w)

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["shared weights", "packed kernels", "computed variances", "modules unchanged", "modules reloaded", "options seen", "declared input types"]

    def run(self, ctx, group, case, out):
        srv = ctx.server()
        srv.call("reset")
        self.what = ""
        try:
            if group in ("filter", "words"):
                return getattr(self, group)(srv, case, out)
            return self.graph(srv, group, case, out)
        except TsError as e:
            out.bad("%s:error:%s" % (group, e.kind), "%s: %s\n%s" % (e.kind, e.msg, self.what))

    def graph(self, srv, group, case, out):
        rng = np.random.default_rng(case["seed"])
        g = (Grower(srv, rng, half=True, weights=0.7) if group == "half" else Shared(srv, rng, weights=0.6) if group == "weights" else Grower(srv, rng, weights=0.6))
        steps, bad = case["steps"], 0
        while steps > 0 and bad < 60:
            if g.grow() is None:
                bad += 1
            else:
                steps -= 1
        nodes, outs = g.nodes, g.outputs()
        if not nodes:
            return
        want, tols = [g.vals[o] for o in outs], [g.leaf[o] for o in outs]
        live = reach(nodes, outs)
        filt = not any(tiny(g.vals[i]) for i in live)
        half = group == "half" or not any(has_half(g.vals[i]) for i in live)
        byname = {n[1]: i for i, n in enumerate(nodes)}
        given = self.declare(rng, g, [n for n in live if nodes[n][0] == "p"]) if rng.random() < 0.4 else {}
        value = lambda n: given.get(byname[n], g.vals[byname[n]])
        out.see("declared input types", len(given))
        m, names, order = module(srv, rng, nodes, outs)
        before = srv.call("module_bytes", m)
        seen, benches = [], []
        for k in range(int(rng.integers(3, 6))):
            o = options(rng, filt, half)
            if group == "half" and k % 2 == 0:
                o += " --float16"
            if group == "weights" and k < 2:
                o = ["--pack", "--no-pack"][k ^ (case["seed"] & 1)] + " " + o.replace("--no-pack", "").replace("--pack", "")
            self.what = "options %r after %r\n%s" % (o, seen, text(nodes, outs))
            seen.append(o)
            if k and rng.random() < 0.2:
                m2 = srv.call("module_load", before)[0]
                bytes2 = srv.call("module_bytes", m2)
                out.see("modules reloaded")
            else:
                m2, bytes2 = m, before
            if benches and rng.random() < 0.3:
                w = benches[int(rng.integers(len(benches)))][0]
                p = srv.call("prog_new", w, m2, o)
                srv.call("wb_setup", w, p)
            else:
                w = srv.call("wb_new", m2, o, case["threads"])
                benches.append([w])
            if srv.call("module_bytes", m2) != bytes2:
                out.bad(group + ":module-changed", self.what)
                return
            out.see("modules unchanged")
            feed(srv, rng, w, names, order, value)
            srv.call("wb_run", w)
            for j, q in enumerate(outs):
                t = same(want[j], srv.call("wb_output", w, j), tols[j])
                if t:
                    out.bad("%s:value:%s" % (group, nodes[q][2] or nodes[q][0]), "output %d: %s\n%s" % (j, t, self.what))
                    return
                out.see("compared outputs")
        # the first program still is what it was
        w = benches[0][0]
        feed(srv, rng, w, names, order, value)
        srv.call("wb_run", w)
        for j, q in enumerate(outs):
            t = same(want[j], srv.call("wb_output", w, j), tols[j])
            if t:
                out.bad("%s:value-later" % group, "output %d: %s\n%s" % (j, t, self.what))
                return
        out.see("options seen", len(set(seen)))
        out.see("shared weights", g.shared)
        out.see("packed kernels", sum(1 for i in live if any(p[0] == "kernel_packed" for p in nodes[i][3])))
        out.see("computed variances", sum(1 for i in live if nodes[i][2] == "batch_norm" and nodes[nodes[i][4][2]][0] == "o"))
        out.sig = tuple((n[0], n[2], tuple(n[4])) for n in nodes) + tuple(outs) + tuple(seen)

    def declare(self, rng, g, params):
        """inputs with a declared type are given with another one that represents the same values"""
        given = {}
        for i in params:
            v = g.vals[i]
            if isinstance(v, Packed) or rng.random() < 0.4:
                continue
            g.nodes[i][3] = [["#dtype", i32_(v.dt)]]
            to = int(rng.choice([2, 3, 4, 5, 6, 7, 10, 11]))
            with np.errstate(all="ignore"):
                a = v.np.astype(graphs.NP[to])
                if v.dt in graphs.NP and to in graphs.NP and v.dt != 9 and (a.astype(v.np.dtype).tobytes() == v.np.tobytes()):
                    given[i] = T.of(a, to)
        return given

    def filter(self, srv, case, out):
        """constants below the threshold become zero, all others stay, and only with the option"""
        rng = np.random.default_rng(case["seed"])
        dt = int(rng.choice([10, 10, 11, 5, 2]))
        n = int(rng.integers(1, 30))
        if dt in TYPES:
            t = TYPES[dt]
            eps = np.finfo(t).eps
            pool = [0.0, -0.0, eps, -eps, np.nextafter(t(eps), t(0)), -np.nextafter(t(eps), t(0)), np.nextafter(t(eps), t(1)), eps / 2, -eps / 3, np.finfo(t).tiny, -np.finfo(t).tiny, eps * 1.5, -2 * eps, 1.0, -1.0,
                    1e-3, -1e-5, 1e-6, np.inf, -np.inf, np.nan, 3e38, np.finfo(t).smallest_subnormal, 1e-7, 1.2e-7, -1.2e-7]
            a = np.array([pool[int(k)] for k in rng.integers(0, len(pool), n)], t)
            z = np.where(np.abs(a) < eps, t(0), a)
        else:
            a = rng.integers(0, 5, n).astype(graphs.NP[dt])
            z = a
        nodes = [["p", "x", "", [], []], ["c", "k", "", [["value", T.of(a, dt)]], []], ["o", "j", "concat", [["dim", i32_(0)]], [0, 1]], ["o", "v", "_copy", [], [1]]]
        outs = [2, 1, 3]
        x = T.of(a[::-1].copy(), dt)
        m = srv.call("module_new", nodes, outs, None)
        before = srv.call("module_bytes", m)
        for k in range(3):
            o = str(rng.choice(["--filter", "-flt", "--filter --no-pack", "--no-filter --filter", "", "--filter --no-filter", "--no-filter", "-flt -no-flt", "--no-pack"]))
            on = o in ("--filter", "-flt", "--filter --no-pack", "--no-filter --filter")
            c = z if on else a
            self.what = "options %r constant %r" % (o, T.of(a, dt))
            w = srv.call("wb_new", m, o, 1)
            srv.call("wb_input", w, 0, x)
            srv.call("wb_run", w)
            for j, v in enumerate([np.concatenate([x.np, c]), c, c]):
                t = same(T.of(v, dt), srv.call("wb_output", w, j))
                if t:
                    out.bad("filter:value", "output %d: %s\n%s" % (j, t, self.what))
            if srv.call("module_bytes", m) != before:
                out.bad("filter:module-changed", self.what)
            out.see("flushed constants", int((a != z).sum()) if on else 0)
        out.sig = (dt, a.tobytes())

    def words(self, srv, case, out):
        """device mappings and long words: an error or the plain result, never a hang"""
        nodes = [["p", "x", "", [], []], ["c", "k", "", [["value", T.of(np.float32([1, 2]))]], []], ["o", "s", "sub", [], [0, 1]]]
        m = srv.call("module_new", nodes, [2], None)
        out.sig = case["words"]
        self.what = repr(case["words"])
        try:
            w = srv.call("wb_new", m, case["words"], 1)
        except TsError as e:
            if e.kind != "ts" or ("-v:cpu:" not in case["words"].lower().replace(" ", "")):
                out.bad("words:error:" + e.kind, "%s\n%s" % (e.msg, self.what))
            out.see("reported options")
            return
        srv.call("wb_input", w, 0, T.of(np.float32([5, 9])))
        try:
            srv.call("wb_run", w)
        except TsError as e:
            if "-v:cpu:" not in case["words"].lower():
                out.bad("words:run:" + e.kind, "%s\n%s" % (e.msg, self.what))
            return
        t = same(T.of(np.float32([4, 7])), srv.call("wb_output", w, 0))
        if t:
            out.bad("words:value", t + self.what)
        out.see("ignored options")
