"""C26: functions that build graphs and functions that run operators at once do what the operator they name does."""
import numpy as np
from graphs import one, same, whole, i32_, s32, f32
from runner import Check
from tsx import T, TsError

NOW = ["resize2d", "add", "sub", "mul", "div", "transpose", "sigmoid", "gather", "concat", "softmax", "pad", "cast", "affine_sample2d", "affine_on_sample2d", "matmul", "broadcast"]
F32, F64, I32, I64, U8 = 10, 11, 5, 7, 2


def small(v, n):
    return v.dt in (F32, F64, I32, I64, U8) and (v.np.size == 0 or bool((np.isfinite(v.np) & (np.abs(v.np.astype(np.float64)) <= n)).all()))


class Prog:
    """leaves and steps with the values the operators themselves give"""

    def __init__(self, srv, rng):
        self.srv, self.rng = srv, rng
        self.leaves, self.steps, self.vals, self.ops = [], [], [], []

    def leaf(self, v):
        self.leaves.append(v)
        return ("l", len(self.leaves) - 1)

    def get(self, r):
        return self.leaves[r[1]] if r[0] == "l" else self.vals[r[1]]

    def shape(self):
        r = self.rng
        return [int(r.integers(1, 5)) for _ in range(int(r.choice([1, 2, 2, 3, 3, 4, 4])))]

    def fresh(self, shape=None, dt=None):
        r = self.rng
        shape = self.shape() if shape is None else shape
        dt = int(r.choice([F32, F32, F32, F64, I32, U8])) if dt is None else dt
        a = r.integers(0 if dt == U8 else -9, 10, shape)
        return self.leaf(T.of(a.astype({F32: np.float32, F64: np.float64, I32: np.int32, I64: np.int64, U8: np.uint8}[dt]), dt))

    def pick(self, ok=lambda v: True, make=None):
        c = [("l", i) for i, v in enumerate(self.leaves) if ok(v)] + [("s", i) for i, v in enumerate(self.vals) if v is not None and ok(v)] * 2
        if c and self.rng.random() < 0.8:
            return c[int(self.rng.integers(len(c)))]
        return (make or self.fresh)()

    def ints(self, a):
        return self.leaf(T.of(np.array(a, np.int32)))

    def step(self, fn, wild):
        """one call; wild arguments may be refused"""
        r = self.rng
        refs, ints, sizes, floats, matrix, v = [], [], [], [], None, 0
        op, params = fn, {}
        odd = wild and r.random() < 0.5
        num, dft = int(r.random() < 0.5), r.random() < 0.3
        if fn in ("add", "sub", "mul", "div"):
            ok = lambda x: x.dt in (F32, F64) or small(x, 1000) if fn != "div" else x.dt in (F32, F64)
            a = self.pick(ok, lambda: self.fresh(dt=F32))
            x = self.get(a)
            s = [n if r.random() < 0.8 else 1 for n in x.shape][int(len(x.shape) > 1 and r.integers(0, 2)):] if not odd else self.shape()
            b = self.pick(lambda y: y.dt == x.dt and ok(y) and list(y.shape) == s, lambda: self.fresh(s, x.dt if not odd else None))
            refs = [a, b] if r.random() < 0.5 or fn == "div" else [b, a]
        elif fn == "transpose":
            a = self.pick()
            n = len(self.get(a).shape)
            sizes = [int(x) for x in r.permutation(n)]
            if odd:
                sizes = [int(x) for x in r.integers(0, n + 1, int(r.integers(1, n + 2)))]
            refs, op, params = [a], "_transpose", dict(permute=s32(sizes))
        elif fn == "sigmoid":
            refs = [self.pick(lambda x: x.dt in (F32, F64), lambda: self.fresh(dt=F32))]
        elif fn == "softmax":
            a = self.pick(lambda x: x.dt in (F32, F64), lambda: self.fresh(dt=F32))
            n = len(self.get(a).shape)
            ints = [int(r.integers(-n, n)) if not odd else int(r.integers(-n - 2, n + 3)), 1 if dft else int(r.integers(0, 2))]
            v, refs, params = 4 * dft, [a], dict(dim=i32_(ints[0]), smooth=i32_(ints[1]))
        elif fn == "gather":
            a = self.pick()
            s = self.get(a).shape
            ax = int(r.integers(0, len(s)))
            k = [int(x) for x in r.integers(0, s[ax], int(r.integers(1, 5)))] if s[ax] else [0]
            if odd:
                k[0] = s[ax] + int(r.integers(0, 3))
            ints = [ax - (len(s) if r.random() < 0.3 else 0)]
            v, sizes, refs, params = num, k, [a], dict(axis=i32_(ints[0]))
            extra = [T.of(np.array(k, np.int32))]
            if not num:
                refs.append(self.leaf(extra[0]))
        elif fn == "concat":
            a = self.pick()
            x = self.get(a)
            d = int(r.integers(0, max(1, len(x.shape))))
            refs = [a]
            for _ in range(int(r.integers(0, 4))):
                s = list(x.shape)
                s[d] = int(r.integers(1, 4))
                if odd:
                    s[int(r.integers(len(s)))] += 1
                refs.append(self.pick(lambda y: y.dt == x.dt and list(y.shape) == s, lambda: self.fresh(s, x.dt) if x.dt in (F32, F64, I32, U8) else a))
            ints = [d - (len(x.shape) if r.random() < 0.3 else 0)]
            params = dict(dim=i32_(ints[0]))
        elif fn == "pad":
            a = self.pick()
            n = len(self.get(a).shape)
            sizes = [int(x) for x in r.integers(0, 3, 2 * n)]
            if odd:
                sizes = sizes[2:] or [1, 1, 1, 1]
            floats = [0.0 if dft else float(r.integers(-3, 4)) if self.get(a).dt != U8 else float(r.integers(0, 4))]
            v, refs, params = num + 4 * dft, [a], dict(padding_value=f32(floats[0]))
            extra = [T.of(np.array(sizes, np.int32).reshape(-1, 2))]
            if not num:
                refs.append(self.leaf(extra[0]))
        elif fn == "cast":
            a = self.pick(lambda x: small(x, 100))
            x = self.get(a)
            neg = x.np.size and (x.np < 0).any()
            ints = [int(r.choice([F32, F64, I32, I64] + ([] if neg else [U8])))]
            refs, op, params = [a], "_cast", dict(dtype=i32_(ints[0]))
        elif fn == "resize2d":
            a = self.pick(lambda x: len(x.shape) >= 2 and x.dt in (F32, F64, U8), lambda: self.fresh([1, int(r.integers(1, 6)), int(r.integers(1, 6)), int(r.integers(1, 4))], F32))
            s = list(self.get(a).shape)
            d = int(r.integers(0, len(s) - 1))
            sizes = [int(r.integers(1, 7)) if k in (d, d + 1) else -1 for k in range(len(s))]
            if odd:
                sizes[int(r.integers(len(s)))] = -1
                sizes = sizes[:int(r.integers(1, len(s) + 1))]
            ints = [0 if dft else int(r.integers(0, 3))]
            op, v, refs, params = "_resize2d", num + 4 * dft, [a], dict(type=i32_(ints[0]))
            extra = [T.of(np.array(sizes, np.int32))]
            if not num:
                refs.append(self.leaf(extra[0]))
        elif fn in ("affine_sample2d", "affine_on_sample2d"):
            a = self.pick(lambda x: len(x.shape) >= 2 and x.dt in (F32, F64, U8), lambda: self.fresh([int(r.integers(1, 6)), int(r.integers(1, 6)), int(r.integers(1, 4))], F32))
            n = len(self.get(a).shape)
            d = int(r.integers(0, n - 1)) if not odd else int(r.integers(-n - 1, n + 1))
            sizes = [int(x) for x in r.integers(1, 6, 2)]
            m = np.eye(3, dtype=np.float32)
            m[:2] += r.choice([0, 0, 0.5, -0.25, 1], [2, 3]).astype(np.float32)
            ints = [d - (n if r.random() < 0.3 and not odd else 0), int(r.integers(0, 3))]
            op, params = "affine_sample2d", dict(dim=i32_(ints[0]), type=i32_(ints[1]))
            refs = [a]
            extra = [T.of(np.array(sizes, np.int32)), T.of(m)]
            if fn == "affine_sample2d":
                floats = [float(r.integers(0, 9))]
                params["outer_value"] = f32(floats[0])
            mat = int(r.random() < 0.5)
            matrix = extra[1]
            if not num:
                refs.append(self.leaf(extra[0]))
            if not mat:
                refs.append(self.leaf(extra[1]))
            v = num + 2 * mat
        elif fn == "matmul":
            ok = lambda x: len(x.shape) == 2 and x.dt == F32 and whole(x, 500) is not None
            a = self.pick(ok, lambda: self.fresh(self.pair(), F32))
            k = self.get(a).shape[1] + int(odd)
            t = 0 if dft else int(r.integers(0, 2))
            s = [int(r.integers(1, 5)), k] if t else [k, int(r.integers(1, 5))]
            b = self.pick(lambda y: ok(y) and list(y.shape) == s, lambda: self.fresh(s, F32))
            ints, refs, op, params, v = [t], [a, b], "inner_prod", dict(transpose=i32_(t)), 4 * dft
        elif fn == "broadcast":
            a = self.pick()
            s = list(self.get(a).shape)
            sizes = [int(r.integers(1, 4)) if k == 1 else k for k in s]
            if r.random() < 0.5:
                sizes = [int(r.integers(1, 3))] + sizes
            if odd:
                sizes[int(r.integers(len(sizes)))] += 1
            refs, v = [a], num
            extra = [T.of(np.array(sizes, np.int32))]
            if not num:
                refs.append(self.leaf(extra[0]))
        xs = [self.get(q) for q in refs]
        if fn in ("gather", "pad", "resize2d", "broadcast") and num:
            xs = xs + extra
        if fn.startswith("affine"):
            xs = [xs[0], extra[0], extra[1]]
        y = one(self.srv, op, [[k, p] for k, p in params.items()], xs)
        if y is not None and (y.np.size > 4000 or len(y.shape) > 6):
            return
        self.steps.append([fn, refs, ints, sizes, floats, matrix, v, extra if (v & 3) else None])
        self.vals.append(y)

    def pair(self):
        return [int(x) for x in self.rng.integers(1, 5, 2)]


class CHECK(Check):
    builds = {"asan": ["tsx", "front"]}
    rule = ("programs of up to twelve calls of the sixteen functions, arguments from earlier calls, inputs and constants, sizes, indexes, paddings and matrices as tensors or as numbers, defaults "
            "left out, some of them refused. Each program runs at once on one workbench (results are compared when all calls are over, with the inputs, and with the other value on the stack), as a "
            "graph of the symbol functions, as a graph of the front end functions and saved and loaded again; every value is compared bit for bit with what the named operator gives. copy: memory copied "
            "with offsets and sizes. distinct = different programs")
    assumptions = ["affine sampling is called with a dimension"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("now", 1200 * k), ("symbol", 900 * k), ("frontend", 900 * k), ("copy", 300 * k)]

    def must_see(self, tier):
        return (["calls at once of " + f for f in NOW] + ["symbol nodes of " + f for f in NOW] + ["frontend nodes of " + f for f in NOW] +
                ["calls refused", "graphs refused", "graphs reloaded", "unnamed constants", "inputs unchanged", "copies", "copies refused"])

    def gen(self, group, rng, i, tier):
        return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(1, 13)))

    def run(self, ctx, group, case, out):
        rng = np.random.default_rng(case["seed"])
        if group == "copy":
            return self.copy(ctx.server("asan", "front"), rng, out)
        p = Prog(ctx.server(), rng)
        wild = rng.random() < (0.4 if group == "now" else 0.12)
        n = 1 if rng.random() < 0.3 else case["steps"]
        for _ in range(n):
            p.step(str(rng.choice(NOW)), wild)
        if not p.steps:
            return
        srv = ctx.server("asan", "front")
        if group == "symbol":           # everything is a node
            for s in p.steps:
                if s[6] & 3:
                    fn, refs, extra = s[0], s[1], s[7]
                    if fn.startswith("affine"):
                        rest = refs[1:]
                        a = p.leaf(extra[0]) if s[6] & 1 else rest.pop(0)
                        b = p.leaf(extra[1]) if s[6] & 2 else rest.pop(0)
                        s[1] = [refs[0], a, b]
                    else:
                        s[1] = refs + [p.leaf(extra[0])]
                    s[6] &= 4
        for s in p.steps:       # forms there are not
            if s[0] == {"frontend": "gather", "now": "pad"}.get(group) and s[6] & 1:
                s[1], s[6] = s[1] + [p.leaf(s[7][0])], s[6] & 4
        L = len(p.leaves)
        names = ["n%d" % i for i in range(len(p.steps))]
        steps = [[s[0], names[i], [q[1] + (L if q[0] == "s" else 0) for q in s[1]], s[2], s[3], [f32(x) for x in s[4]], s[5], s[6]] for i, s in enumerate(p.steps)]
        tell = lambda: "\n%s\nleaves %r" % ("\n".join(repr(s) for s in steps), p.leaves)
        out.sig = (group, tuple((s[0], tuple(s[2]), tuple(s[3]), tuple(s[4]), s[7]) for s in steps), tuple((x.dt, tuple(x.shape)) for x in p.leaves))
        if group == "now":
            return self.now(srv, p, steps, rng, out, tell)
        # what an output depends on
        need = {}
        for i, s in enumerate(p.steps):
            need[i] = {i}.union(*[need[q[1]] for q in s[1] if q[0] == "s"]) if s[1] else {i}
        outs = [int(x) for x in rng.choice(len(steps), int(rng.integers(1, min(4, len(steps)) + 1)), replace=False)]
        flags = [int(rng.choice([0, 0, 1])) if group == "symbol" else int(rng.choice([0, 0, 1, 2, 3])) for _ in p.leaves]
        for i, s in enumerate(p.steps):     # sizes, indexes and matrices also as inputs
            pass
        through = int(rng.random() < 0.3)
        want_fail = any(p.vals[j] is None for o in outs for j in need[o])
        try:
            got = srv.call("graph", int(group == "frontend"), p.leaves, flags, steps, outs, through)
        except TsError as e:
            if e.kind != "ts":
                raise
            if not want_fail:
                out.bad("%s:refused" % group, e.msg + tell())
                return
            out.see("graphs refused")
            return
        if want_fail:
            # a failing call that another value does not need is never run
            out.bad("%s:accepted" % group, "outputs %r" % outs + tell())
            return
        out.see("graphs reloaded", through)
        out.see("unnamed constants", sum(f > 1 for f in flags))
        for k, o in enumerate(outs):
            for which, g in (("slot", got[2 * k]), ("name", got[2 * k + 1])):
                m = same(p.vals[o], g)
                if m:
                    out.bad("%s:%s" % (group, p.steps[o][0] if len(need[o]) == 1 else "program"), "output %d by %s: %s" % (o, which, m) + tell())
                    return
        for i in set().union(*[need[o] for o in outs]):
            out.see("%s nodes of %s" % (group, p.steps[i][0]))

    def now(self, srv, p, steps, rng, out, tell):
        got, leaves, kept = srv.call("now", p.leaves, steps, int(rng.choice([1, 1, 2, 4])))
        bad = set()
        for i, (s, (status, msg, g)) in enumerate(zip(p.steps, got)):
            if any(q[0] == "s" and q[1] in bad for q in s[1]):
                bad.add(i)
                continue
            want = p.vals[i]
            if s[0] == "concat" and len(s[1]) == 1:
                want = p.get(s[1][0])
            if s[0] == "cast" and p.get(s[1][0]).dt == s[2][0]:
                want = p.get(s[1][0])
            if (status == b"ok") != (want is not None):
                out.bad("now:%s:status" % s[0], "call %d: %s %s" % (i, status, msg) + tell())
                return
            if want is None:
                if status != b"ts":
                    out.bad("now:%s:status" % s[0], "call %d: %s %s" % (i, status, msg) + tell())
                    return
                out.see("calls refused")
                bad.add(i)
                continue
            m = same(want, g)
            if m:
                out.bad("now:%s" % s[0], "call %d: %s" % (i, m) + tell())
                return
            out.see("calls at once of " + s[0])
        for k, (a, b) in enumerate(zip(p.leaves, leaves)):
            if same(a, b):
                out.bad("now:input", "input %d changed" % k + tell())
                return
        if not kept:
            out.bad("now:stack", "the stack of the workbench changed" + tell())
            return
        out.see("inputs unchanged")

    def copy(self, srv, rng, out):
        n, m = int(rng.integers(1, 60)), int(rng.integers(1, 60))
        dst, src = (T.of(rng.integers(0, 256, k).astype(np.uint8)) for k in (n, m))
        size = int(rng.integers(0, min(n, m) + 1))
        d, s = int(rng.integers(0, n - size + 1)), int(rng.integers(0, m - size + 1))
        if rng.random() < 0.15:
            size = -int(rng.integers(1, 50))
        where = int(rng.integers(0, 4))
        out.sig = ("copy", n, m, size, d, s, where)
        try:
            k, got = srv.call("copy", dst, d, src, s, size, where)
        except TsError as e:
            if size >= 0 or e.kind != "ts":
                out.bad("copy:refused", e.msg)
            else:
                out.see("copies refused")
            return
        want = dst.np.copy()
        if size < 0:
            out.bad("copy:negative", "accepted")
            return
        want[d:d + size] = src.np[s:s + size]
        if k != size or not np.array_equal(want, got.np):
            out.bad("copy", "%d of %d bytes" % (k, size))
            return
        out.see("copies")
