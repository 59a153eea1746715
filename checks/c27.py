"""C27: the C++ interface behaves as the C interface it wraps."""
import os, re, tempfile
import numpy as np
from checks import c22
from checks.c22 import Stop, DTS
from graphs import f32
from runner import Check
from tsx import T, NP, ITEM

NAMES = {0: "void", 1: "int8", 2: "uint8", 3: "int16", 4: "uint16", 5: "int32", 6: "uint32", 7: "int64", 8: "uint64", 10: "float32", 11: "float64", 13: "char8"}
BYTES = {0: 0, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 10: 4, 11: 8, 13: 1}
THREAD = re.compile(rb"in thread: \d+")
SILENT = ("ts_Workbench_summary",)      # tells times


class Sim(c22.Sim):
    """a history of the C interface that remembers what each call answered"""

    def __init__(self, *a):
        self.answers = []
        super().__init__(*a)

    def raw(self, f, args, out=None):
        v, m = super().raw(f, args, out)
        self.answers.append((v, m))
        return v, m

    def play(self, steps):
        super().play(steps)
        for _ in range(int(self.rng.integers(0, 4))):
            self.t = self.threads[int(self.rng.integers(len(self.threads)))]
            self.affine()

    def misc_step(self):
        k = int(self.rng.integers(0, 4))
        if k <= 1:
            s = "message of thread %d" % self.t
            self.raw("ts_set_error_message", [s])
            self.msg[self.t] = s.encode()
            self.raw("ts_last_error_message", [])
        elif k == 2 and self.o:
            w = self.pick("W")
            if w is not None:
                self.call("ts_Workbench_set_cpu_mode", [w, int(self.rng.integers(0, 3))], "any")
        else:
            self.affine()

    def affine(self):
        """affine sampling in all its overloads"""
        r = self.rng
        if self.bound[self.t] is None:
            w = self.pick("W")
            if w is None:
                return
            self.do("ts_Workbench_setup_context", [w], "ok")
            self.bound[self.t] = w
        if self.bound[self.t] == 0:
            return
        s = [int(x) for x in r.integers(1, 6, 4)]
        x = self.new_tensor(valid=True, v=T.of(r.integers(0, 50, s).astype(np.float32)))
        k = self.new_tensor(valid=True, v=T.of(r.integers(1, 6, 2).astype(np.int32)))
        m = self.new_tensor(valid=True, v=f32([[float(y) for y in r.normal(1, 0.3, 3)], [float(y) for y in r.normal(0.5, 0.3, 3)], [0, 0, 1]]))
        if None in (x, k, m):
            return
        t, d = int(r.integers(0, 3)), int(r.integers(-4, 4))
        if r.random() < 0.5:
            a = ["ts_intime_affine_sample2d", [x, k, m, d, float(r.integers(-3, 4)), t]]
        else:
            a = ["ts_intime_affine_on_sample2d", [x, k, m, d, t]]
        n = self.make(a[0], a[1], "any", c22.Item("T", v=None, dead=True))
        if n is not None:
            v, q = self.raw("value", [n])
            self.msg[self.t] = q
            self.out.see("affine samples")
            self.free(n)
        for n in (x, k, m):
            self.free(n)


class CHECK(Check):
    builds = {"asan": ["tsx", "capi", "cppapi"]}
    rule = ("histories of up to 60 calls over the whole interface from 1 to 3 threads, first through the C functions (judged by C22's model), then through the classes that wrap them, overloads "
            "taking turns: same values, a ts::api::Exception with the C interface's message for each failure and none without, operators as C++ classes (also with another first base), handles "
            "copied and released, no object and no heap block left.  Conversions, builders, tables and streams against numpy and byte strings, 2D transformations against numpy. "
            "distinct = different sequences of functions or parameters")
    assumptions = ["a missing name cannot be told through std::string, and the pointer of an empty vector counts as missing; what the C++ interface has no call for is skipped",
                   "tensor::load answers a null tensor; scalars are taken from tensors with elements; a matrix to be inverted is affine with a determinant above 1e-3"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("history", 1800 * k), ("leak", 80 * k), ("infer", 100 * k), ("build", 500 * k), ("convert", 500 * k), ("stream", 250 * k), ("write", 60 * k), ("affine", 400 * k), ("table", 1)]

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["calls compared", "exceptions compared", "values compared", "operators in C++", "handles released", "affine samples", "histories repeated", "rewinds", "short reads"]

    def gen(self, group, rng, i, tier):
        if group == "infer":
            return dict(protos=[[int(rng.choice(DTS)), [int(x) for x in rng.integers(-1, 6, int(rng.integers(0, 5)))]] for _ in range(int(rng.integers(1, 4)))], ex=bool(rng.random() < 0.5))
        return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(5, 61)), threads=int(rng.integers(1, 4)))

    def run(self, ctx, group, case, out):
        if group in ("history", "leak"):
            with tempfile.TemporaryDirectory(prefix="c27") as d:
                return self.history(ctx, case, out, d, group == "leak")
        srv = ctx.server(name="cppapi")
        rng = np.random.default_rng(case.get("seed", 0))
        getattr(self, group)(srv, rng, case, out)
        odd = srv.call("oddities")
        if odd:
            out.bad("%s:odd:%s" % (group, odd[0].decode()[:40]), "%r" % odd)

    # ------------------------------------------------------------------ histories
    def history(self, ctx, case, out, d, leak):
        api = ctx.server(name="capi")
        api.call("fresh")
        api.call("plugins", 0)
        for op in ("capi_echo", "capi_ex"):
            api.call("call", 0, None, "ts_Operator_Register", ["cpu", op, 31, 0])
        ctx.server().call("reset")
        rng = np.random.default_rng(case["seed"])
        s = Sim(self, ctx, out, rng, range(case["threads"]), 1000, d)
        try:
            s.play(case["steps"])
            s.finish()
        except Stop:
            return
        out.sig = tuple(x[2] for x in s.log)
        srv = ctx.server(name="cppapi")
        srv.call("fresh")
        srv.call("oddities")
        srv.call("register")
        srv.call("turns", case["seed"] % 1000)
        log = [[t, o, f, a, int(not m and a != [None])] for (t, o, f, a), (v, m) in zip(s.log, s.answers)]
        live0, made0 = srv.call("plugins")[:2]
        if leak:
            blocks = []
            for _ in range(5):
                srv.call("fresh")
                srv.call("history", log)
                srv.call("fresh")
                srv.call("drop")
                blocks.append(srv.call("blocks"))
            out.see("histories repeated")
            if blocks[1] < blocks[2] < blocks[3] < blocks[4]:
                out.bad("leak", "live heap blocks after each repetition: %r\n%s" % (blocks, "\n".join(s.story[-30:])))
            return
        got, followed = srv.call("history", log), True
        for k, ((t, o, f, a), (v, m), (what, w, n)) in enumerate(zip(s.log, s.answers, got)):
            tell = lambda: "call %d: %s%r" % (k, f, a if len(repr(a)) < 300 else "...")
            if what == b"harness" and w == b"something":        # no such call in C++
                if log[k][4]:
                    followed = False
                    out.see("histories the C++ interface cannot follow")
                    break
                continue
            if what == b"harness":
                raise RuntimeError("harness: %r %s" % (w, tell()))
            if what != b"ok":
                out.bad("what:" + f, "%r %r\n%s" % (what, w, tell()))
                break
            out.see("calls compared")
            if m:
                out.see("exceptions compared")
            if THREAD.sub(b"", n) != THREAD.sub(b"", m):
                out.bad("message:" + f, "%r instead of %r\n%s" % (n, m, tell()))
                break
            if os.environ.get("TRACE"): print(t, o, f, a if len(repr(a))<200 else "...", v if len(repr(v))<100 else "...", m[:80], "|", w if len(repr(w))<100 else "...")
            if w != v and f not in SILENT:
                out.bad("value:" + f, "%s instead of %s\n%s" % (repr(w)[:300], repr(v)[:300], tell()))
                break
            if f == "value":
                out.see("values compared")
            if f.startswith("ts_free"):
                out.see("handles released")
        srv.call("fresh")
        live, made, runs, odd = srv.call("plugins")
        out.see("operators in C++", made - made0)
        left = srv.call("objects")
        if odd:
            out.bad("odd:%s" % odd[0].decode()[:40], "%r\n%s" % (odd, "\n".join(s.story[-30:])))
        srv.call("drop")
        if followed and k == len(log) - 1:
            if left:
                out.bad("left", "objects %r" % left)
            if live != live0:
                out.bad("operators", "%d operators never freed" % (live - live0))

    def infer(self, srv, rng, case, out):
        srv.call("register")
        enc = [len(case["protos"])]
        for dt, s in case["protos"]:
            enc += [dt, len(s)] + s
        what, v, m = srv.call("call", 0, None, "infer", ["capi_ex" if case["ex"] else "capi_echo", 0, [f32([1, 2])], enc])
        out.sig = repr(case["protos"])
        if what != b"ok" or isinstance(v, bytes) or [[dt, list(s)] for dt, s in v] != case["protos"]:
            out.bad("infer:wrong", "%r %r for %r" % (what, v, case["protos"]))

    # ------------------------------------------------------------------ tables, builders, conversions
    def table(self, srv, rng, case, out):
        names, types = srv.call("table")
        for dt, n, s in names:
            if n != BYTES.get(dt, 0):
                out.bad("table:bytes", "type %d has %d bytes" % (dt, n))
            if s.decode() != NAMES.get(dt, "unknown"):
                out.bad("table:name", "type %d is called %r" % (dt, s))
        for dt, n, back, signed, real in types:
            x = np.dtype(NP[dt])
            if dt == 13:
                if (n, back) != (1, 13):
                    out.bad("table:type", "char")
            elif n != x.itemsize or back != dt or bool(real) != (x.kind == "f") or bool(signed) != (x.kind in "if"):
                out.bad("table:type", "type %d: %r" % (dt, (n, back, signed, real)))
        out.sig = "table"

    def build(self, srv, rng, case, out):
        how = int(rng.integers(0, 13))
        dt, want = int(rng.choice(DTS[:-1])), int(rng.choice(DTS[:-1]))
        shape = [int(x) for x in rng.integers(0 if rng.random() < 0.1 else 1, 5, int(rng.integers(0, 5)))]
        n = int(np.prod(shape, dtype=np.int64)) if how in (2, 3, 6, 7) else 2 if how >= 9 else int(rng.integers(1, 9))
        bad = how in (2, 3, 6) and rng.random() < 0.2
        if bad:
            n += 1 if n == 0 or rng.random() < 0.5 else -1
        if how == 7 and rng.random() < 0.3:
            n += 2          # more than asked for
        v = rng.integers(0, 100, n).astype(NP[dt])
        if np.dtype(NP[dt]).kind == "f" and np.dtype(NP[want]).kind == "f":
            v = (v / 4).astype(NP[dt])
        got = srv.call("build", how, dt, want, v.tobytes(), shape)
        out.sig = (how, dt, want, tuple(shape))
        if bad:
            if not isinstance(got, bytes):
                out.bad("build:accepted", "%d elements as %r" % (n, shape))
            return
        if isinstance(got, bytes):
            return out.bad("build:refused", "%r: how %d, %d elements of type %d as %r %r" % (got, how, n, dt, want, shape))
        rt = want if how in (4, 5, 6, 7, 8, 11, 12) else dt
        if how in (1, 5):
            v, rs = v[:1], [1]
        elif how in (10, 11):
            rs = [2, 1] if how == 10 else [1, 2]
        elif how in (2, 3, 6, 7):
            rs = shape
            v = v[:int(np.prod(shape, dtype=np.int64))]
        else:
            rs = [len(v)]
        (gt, gs, graw), = got
        if (gt, list(gs), graw) != (rt, rs, v.astype(NP[rt]).tobytes()):
            out.bad("build:wrong", "how %d: %r instead of %r" % (how, (gt, gs, graw), (rt, rs, v)))

    def convert(self, srv, rng, case, out):
        w = str(rng.choice(["int", "uint", "float", "double", "string", "ints", "uints", "floats", "doubles", "clone", "text"]))
        dt, to = int(rng.choice(DTS[:-1])), int(rng.choice(DTS[:-1]))
        out.sig = (w, dt, to)
        if w in ("string", "text"):
            t = bytes(rng.integers(1, 128, int(rng.integers(1, 40)), dtype=np.uint8))
            x = T(13, [len(t)], t)
            got = srv.call("convert", w, x, int(rng.integers(0, 2)))
            if w == "string":
                if got != t:
                    out.bad("convert:string", "%r instead of %r" % (got, t))
            elif [[a, list(b), c] for a, b, c in got] != [[13, [len(t)], t]]:
                out.bad("convert:text", "%r instead of %r" % (got, t))
            return
        many = w.endswith("s") or w == "clone"
        shape = [int(x) for x in rng.integers(0 if many and rng.random() < 0.1 else 1, 4, int(rng.integers(0, 4)))]
        v = rng.integers(0, 100, shape).astype(NP[dt])
        if np.dtype(NP[dt]).kind in "if" and w not in ("uint", "uints") and np.dtype(NP[to]).kind in "if":
            v = (v.astype(np.int64) - 50).astype(NP[dt])
        if np.dtype(NP[dt]).kind == "f" and w in ("float", "floats", "double", "doubles"):
            v = v / NP[dt](8)
        v = np.asarray(v, dtype=NP[dt])
        x = T(dt, shape, v.tobytes())
        got = srv.call("convert", w, x, to)
        if w == "clone":
            if [[a, list(b), c] for a, b, c in got] != [[to, shape, v.astype(NP[to]).tobytes()]]:
                out.bad("convert:clone", "%r instead of %r" % (got, (to, shape, v)))
            return
        kind = {"i": np.int32, "u": np.uint32, "f": np.float32, "d": np.float64}[w[0]]
        want = [float(y) for y in v.astype(kind).reshape(-1)]
        if not many:
            want = want[:1]
        if [float(y) for y in got] != want:
            out.bad("convert:" + w, "%r instead of %r" % (got, want))

    # ------------------------------------------------------------------ streams
    def stream(self, srv, rng, case, out):
        kind = int(rng.integers(0, 3))
        data = bytes(rng.integers(0, 256, int(rng.choice([0, 1, 5, 100, 5000, 20000])), dtype=np.uint8))
        acts, want, at = [], [], 0
        for _ in range(int(rng.integers(1, 12))):
            if rng.random() < 0.25:
                acts.append(["rewind"])
                want.append(len(data) if kind == 2 else 1)
                at = 0
                out.see("rewinds")
            else:
                n = int(rng.choice([0, 1, 3, len(data) // 2, len(data), len(data) + 1, len(data) + 9000]))
                acts.append(["read", n])
                want.append(data[at:at + n])
                if at + n > len(data):
                    out.see("short reads")
                at = min(len(data), at + n)
        got = srv.call("stream", kind, data, acts)
        out.sig = (kind, len(data), tuple(map(tuple, acts)))
        for a, g, w in zip(acts, got, want):
            if g != w:
                return out.bad("stream:%s:%s" % (["file", "file V2", "buffer"][kind], a[0]), "%r: %s bytes instead of %s\n%r of %d" % (a, len(g) if isinstance(g, bytes) else g, len(w) if isinstance(w, bytes) else w, acts, len(data)))

    def write(self, srv, rng, case, out):
        with tempfile.TemporaryDirectory(prefix="c27") as d:
            bad = rng.random() < 0.2
            p = os.path.join(d, "no", "x") if bad else os.path.join(d, "x")
            pieces = [bytes(rng.integers(0, 256, int(rng.choice([0, 1, 10, 9000])), dtype=np.uint8)) for _ in range(int(rng.integers(1, 8)))]
            got = srv.call("write", p, pieces)
            out.sig = (bad, tuple(map(len, pieces)))
            if bad:
                if got:
                    out.bad("write:open", "%r" % (got,))
                return
            if got != [len(x) for x in pieces]:
                out.bad("write:count", "%r instead of %r" % (got, [len(x) for x in pieces]))
            with open(p, "rb") as f:
                if f.read() != b"".join(pieces):
                    out.bad("write:bytes", "%r" % [len(x) for x in pieces])

    # ------------------------------------------------------------------ transformations
    def affine(self, srv, rng, case, out):
        double = int(rng.random() < 0.5)
        steps, A = [], np.eye(3)
        for _ in range(int(rng.integers(0, 6))):
            w = str(rng.choice(["rotate", "translate", "scale", "scale1", "shear", "shear_x", "shear_y", "reflect", "origin", "x_axis", "y_axis"]))
            a, b = (float(x) for x in rng.uniform(0.3, 2.0, 2))
            if w in ("rotate", "translate"):
                a, b = (float(x) for x in rng.uniform(-180, 180, 2))
            if w == "reflect":
                a, b = float(rng.integers(0, 2)), float(rng.integers(0, 2))
            if w == "shear" and abs(a * b - 1) < 0.2:
                b = -b
            c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
            B = {"rotate": [[c, -s, 0], [s, c, 0]], "translate": [[1, 0, a], [0, 1, b]], "scale": [[a, 0, 0], [0, b, 0]], "scale1": [[a, 0, 0], [0, a, 0]], "shear": [[1, a, 0], [b, 1, 0]],
                 "shear_x": [[1, a, 0], [0, 1, 0]], "shear_y": [[1, 0, 0], [a, 1, 0]], "reflect": [[-1 if a else 1, 0, 0], [0, -1 if b else 1, 0]], "origin": [[-1, 0, 0], [0, -1, 0]],
                 "x_axis": [[1, 0, 0], [0, -1, 0]], "y_axis": [[-1, 0, 0], [0, 1, 0]]}[w]
            A = np.array(B + [[0, 0, 1]]) @ A
            steps.append([w] + {"scale1": [a], "rotate": [a], "shear_x": [a], "shear_y": [a], "origin": [], "x_axis": [], "y_axis": []}.get(w, [a, b]) + [int(rng.integers(0, 2))])
        out.sig = (double, tuple(s[0] for s in steps))
        if abs(np.linalg.det(A)) < 1e-3 or np.linalg.cond(A[:2, :2]) > 1e3:
            return
        pts = [[float(x) for x in rng.uniform(-100, 100, 2)] for _ in range(3)]
        m, i, p = srv.call("affine", double, steps, pts)
        tol = 1e-9 if double else 3e-4
        size = 1 + np.abs(A).max()
        I = np.linalg.inv(A)
        if np.abs(np.array(m).reshape(3, 3) - A).max() > tol * size:
            out.bad("affine:matrix", "%r instead of %r: %r" % (m, A, steps))
        isize = (1 + np.abs(I).max()) * size
        if np.abs(np.array(i).reshape(3, 3) - I).max() > tol * isize:
            out.bad("affine:inverse", "%r instead of %r: %r" % (i, I, steps))
        for (x, y), (a, b, c, d, e) in zip(pts, p):
            w = A @ [x, y, 1]
            if max(abs(a - w[0]), abs(b - w[1])) > tol * size * 300:
                out.bad("affine:point", "%r instead of %r: %r" % ((a, b), w, steps))
            if max(abs(c - x), abs(d - y), abs(e - 1)) > tol * isize * 300:
                out.bad("affine:back", "%r instead of %r: %r" % ((c, d, e), (x, y), steps))
