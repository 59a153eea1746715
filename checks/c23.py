"""C23: element-type conversion keeps every value the target can represent, through every route."""
import math
from fractions import Fraction
import numpy as np
from runner import Check
from opspec import R
from tsx import T, TsError, NP, NAME

INT = {1: (-2**7, 2**7 - 1), 2: (0, 2**8 - 1), 3: (-2**15, 2**15 - 1), 4: (0, 2**16 - 1), 5: (-2**31, 2**31 - 1), 6: (0, 2**32 - 1),
       7: (-2**63, 2**63 - 1), 8: (0, 2**64 - 1), 13: (-2**7, 2**7 - 1), 14: (0, 2**16 - 1), 15: (0, 2**32 - 1), 21: (0, 1)}
FLT = {9: (10, -14, 65504.0), 10: (23, -126, float(np.finfo(np.float32).max)), 11: (52, -1022, float(np.finfo(np.float64).max))}
TYPES = sorted(INT) + sorted(FLT)
ROUTES = {5: "int", 6: "uint", 10: "float", 11: "double", 21: "bool"}
BUILD = {1, 2, 3, 4, 5, 6, 7, 8, 10, 11}


def exact(t):
    """exact python values of a tensor"""
    a = t.np.ravel()
    if t.dt == 13:
        a = a.view(np.int8)
    if t.dt in FLT:
        return [float(x) for x in a.astype(np.float64)]
    return [int(x) for x in a]


def neighbours(v, dt):
    """the values of dt next to the finite value v (equal when v is representable); None outside dt's range"""
    if dt in INT:
        lo, hi = INT[dt]
        if not (math.trunc(v) >= lo and math.trunc(v) <= hi):
            return None
        f, c = math.floor(v), math.ceil(v)
        return max(f, lo), min(c, hi)
    bits, emin, top = FLT[dt]
    if abs(v) > Fraction(top):
        return None
    if v == 0:
        return Fraction(0), Fraction(0)
    x = Fraction(v)
    e = math.frexp(float(v))[1] - 1
    while Fraction(2) ** e > abs(x):
        e -= 1
    while Fraction(2) ** (e + 1) <= abs(x):
        e += 1
    q = Fraction(2) ** (max(e, emin) - bits)
    f = math.floor(x / q) * q
    return f, (f if f == x else f + q)


def value_pool(dt, rng, n):
    """n values of type dt, on and next to the places where a conversion can go wrong"""
    if dt in INT:
        lo, hi = (0, 1) if dt == 21 else INT[dt]
        if dt == 21:
            return np.array(rng.integers(0, 2, n), np.uint8)
        base = [0, 1, -1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 65503, 65504, 65505, 65519, 65535, 2**23, 2**24, 2**24 + 1, 2**24 + 2, 2**24 + 3,
                2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, 2**53 + 3, 2**63 - 1, 2**63, 2**64 - 1, lo, hi, lo + 1, hi - 1, 2049, 2051, 4098, 4099]
        out = []
        while len(out) < n:
            if rng.random() < 0.4:
                v = int(base[int(rng.integers(len(base)))]) * int(rng.choice([1, 1, -1]))
            else:
                v = int(rng.integers(0, 2**62)) >> int(rng.integers(0, 63))
                v = v * int(rng.choice([1, -1])) + int(rng.integers(-2, 3))
                if dt in (7, 8) and rng.random() < 0.3:
                    v = v * 4 + int(rng.integers(4))
            if lo <= v <= hi:
                out.append(v)
        return np.array(out, dtype=object).astype(np.int8 if dt == 13 else NP[dt]).view(NP[dt])
    bits, emin, top = FLT[dt]
    t = NP[dt]
    out = []
    ints = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**53, 2**62, 2**63, 65504]
    while len(out) < n:
        r = rng.random()
        with np.errstate(all="ignore"):
            if r < 0.25:
                v = t(float(ints[int(rng.integers(len(ints)))]) * rng.choice([1, -1]) + float(rng.choice([0, 0, 0.5, -0.5, 0.25, 0.999, 1e-3])))
                for _ in range(int(rng.integers(0, 3))):
                    v = np.nextafter(v, t(rng.choice([-np.inf, np.inf])), dtype=t)
            elif r < 0.5:           # around the half precision numbers
                h = np.array([rng.integers(0, 65536)], np.uint16).view(np.float16)[0]
                v = t(h)
                if dt != 9:
                    k = int(rng.integers(0, 4))
                    if k == 1:
                        v = np.nextafter(v, t(rng.choice([-np.inf, np.inf])), dtype=t)
                    elif k == 2:
                        v = t((float(h) + float(np.nextafter(h, np.float16(np.inf)))) / 2)
            elif r < 0.7:           # any bit pattern
                raw = rng.bytes(np.dtype(t).itemsize)
                v = np.frombuffer(raw, t)[0]
            elif r < 0.85:          # every order of magnitude
                v = t(rng.choice([1, -1]) * (1 + rng.random()) * 2.0 ** int(rng.integers(-30, 64)))
            elif r < 0.92 and dt == 11:  # around the single precision numbers, also subnormal ones
                f = np.frombuffer(rng.bytes(4), np.float32)[0]
                v = np.float64(f)
                if rng.random() < 0.5:
                    v = np.nextafter(v, rng.choice([-np.inf, np.inf]))
            else:
                v = t(rng.choice([1, -1]) * rng.random() * 2.0 ** int(rng.integers(-160 if dt != 9 else -26, 8)))
        if np.isfinite(v):
            out.append(v)
    return np.array(out, t)



class CHECK(Check):
    id = "C23"
    builds = {"asan": ["val", "tsx"]}
    rule = ("every element of every conversion is compared with the exact rational value: equal when representable, otherwise one of the two "
            "neighbouring representable values; monotone over each tensor; identical bits through cast/clone/build/operator/accessors; "
            "half floats exhaustively, fixed point codes exhaustively for 8 bits")
    assumptions = ["values outside the target's range and non-finite values have no specified result and are not judged (they must not fault)",
                   "BOOLEAN holds 0 or 1; a number in [0,2) converts to one of its neighbours, to_bool() of a representable number is number != 0"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 12
        return [("pair", 4500 * k), ("halves", 64), ("halfmath", 60 * k), ("sink", 28 * 12 * k), ("text", 200 * k), ("refuse", 60 * k)]

    def gen(self, group, rng, i, tier):
        if group == "pair":
            src, dst = TYPES[i % len(TYPES)], TYPES[(i // len(TYPES)) % len(TYPES)]
            if i >= 2 * len(TYPES) ** 2 and rng.random() < 0.4:
                src, dst = int(rng.choice([9, 10, 11, 7, 8])), int(rng.choice([9, 9, 10, 11, 5, 7]))
            k = int(rng.integers(0, 10))
            shape = [] if k == 0 else [int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64])) for _ in range(int(rng.integers(1, 4 if k < 8 else 7)))]
            while np.prod(shape, dtype=np.int64) > 400:
                shape[int(np.argmax(shape))] = 2
            n = int(np.prod(shape, dtype=np.int64))
            pool = value_pool(src, rng, max(n, 1))[:n]
            if dst in INT and rng.random() < 0.6 and n:        # keep most values inside the target
                lo, hi = INT[dst]
                vals = [float(x) if src in FLT else int(x) for x in (pool.view(np.int8) if src == 13 else pool)]
                alt = value_pool(dst, rng, n)
                alt = alt.view(np.int8) if dst == 13 else alt
                for q in range(n):
                    if not (lo <= vals[q] <= hi):
                        a = int(alt[q])
                        if src in FLT:
                            with np.errstate(all="ignore"):
                                x = NP[src](a)
                            if np.isfinite(x):
                                pool[q] = x
                        elif INT[src][0] <= a <= INT[src][1]:
                            pool[q] = np.array([a], np.int8).view(np.uint8)[0] if src == 13 else a
            return dict(t=T(src, shape, pool.tobytes()), dst=dst, threads=int(rng.choice([1, 4])))
        if group == "halves":
            return dict(block=i)
        if group == "halfmath":
            n = 400
            def some():
                a = np.frombuffer(rng.bytes(2 * n), np.uint16).copy()
                small = rng.random(n) < 0.5
                a[small] = (np.float16(rng.normal(size=n) * 10)).view(np.uint16)[small]
                a[(a & 0x7C00) == 0x7C00] &= 0x83FF
                return a
            a, b = some(), some()
            same = rng.random(n) < 0.1
            b[same] = a[same]
            b[rng.random(n) < 0.05] ^= 0x8000
            return dict(a=a.tobytes(), b=b.tobytes())
        if group == "sink":
            kinds = [(8, q) for q in range(8)] + [(16, 0), (16, 5), (16, 8), (16, 15), (32, 0), (32, 13), (32, 16), (32, 30), (64, 0), (64, 20)]
            bits, q = kinds[i % len(kinds)]
            return dict(bits=bits, q=q, seed=int(rng.integers(2**62)))
        if group == "text":
            k = int(rng.integers(0, 5))
            if k == 0:
                return dict(kind="int", s=str(int(rng.integers(-2**31, 2**31))))
            if k == 1:
                return dict(kind="uint", s=str(int(rng.integers(0, 2**32))))
            if k == 2:
                return dict(kind=str(rng.choice(["float", "double"])), s=repr(float(np.float32(rng.normal() * 10.0 ** int(rng.integers(-20, 20))))))
            if k == 3:
                return dict(kind="bool", s=str(rng.choice(["true", "True", "TRUE", "false", "False", "no", "tru", ""])))
            return dict(kind="string", s="".join(chr(int(c)) for c in rng.integers(1, 128, int(rng.integers(0, 40)))))
        return dict(dt=int(rng.choice([16, 17, 18, 19, 20, 12, 0])), dst=int(rng.choice(TYPES)), back=bool(rng.integers(2)))

    def run(self, ctx, group, case, out):
        srv = ctx.server("asan", "val")
        getattr(self, group)(ctx, srv, case, out)

    # ---------------------------------------------------------------------------------- conversions
    def judge(self, key, src, got, dst, shape, out):
        if got.dt != dst or tuple(got.shape) != tuple(shape):
            out.bad(key + ":shape", "%s%s became %s%s" % (NAME[src.dt], src.shape, NAME.get(got.dt, got.dt), got.shape))
            return
        v, w = exact(src), exact(got) if all(np.isfinite(got.np.ravel().astype(np.float64))) or dst in INT else None
        if w is None:
            w = [float(x) for x in got.np.ravel().astype(np.float64)]
        inrange = []
        for k, (a, b) in enumerate(zip(v, w)):
            nb = neighbours(a, dst)
            if nb is None:
                out.see("values outside the target")
                continue
            if isinstance(b, float) and not math.isfinite(b):
                out.bad(key + ":value", "%s %r became %r" % (NAME[src.dt], a, b))
                return
            if b != nb[0] and b != nb[1]:
                out.bad(key + ":value", "%s %r at %d became %s %r, neighbours %r %r" % (NAME[src.dt], a, k, NAME[dst], b, float(nb[0]), float(nb[1])))
                return
            if a and b and (a < 0) != (b < 0):
                out.bad(key + ":sign", "%r became %r" % (a, b))
            inrange.append((a, b))
        out.see("values converted", len(inrange))
        inrange.sort(key=lambda p: p[0])
        for (a, b), (c, d) in zip(inrange, inrange[1:]):
            if b > d or (a == c and b != d):
                out.bad(key + ":order", "%r -> %r but %r -> %r" % (a, b, c, d))
                return

    def pair(self, ctx, srv, case, out):
        t, dst = case["t"], case["dst"]
        key = "%s-%s" % (NAME[t.dt], NAME[dst])
        got = srv.call("cast", t, dst)
        self.judge(key, t, got, dst, t.shape, out)
        others = [("clone", lambda: srv.call("clone", t, dst))]
        if t.dt in BUILD:
            def built():
                r = srv.call("build", t, dst)
                if tuple(r.shape) != (int(np.prod(t.shape, dtype=np.int64)),):
                    out.bad(key + ":build-shape", r.shape)
                return T(r.dt, t.shape, r.raw)
            others.append(("build", built))
        others.append(("operator", lambda: self.op(ctx, "_cast", [["dtype", T.of(np.int32(dst))]], t, case)))
        if dst == 10:
            others.append(("to_float", lambda: self.op(ctx, "to_float", [], t, case)))
        n = int(np.prod(t.shape, dtype=np.int64))
        for nm, f in others:
            r = f()
            out.see("route " + nm)
            if r != got:
                out.bad(key + ":" + nm, "differs from tensor::cast: %r and %r of %r" % (r, got, t))
        if dst in ROUTES:
            r = srv.call("array", t, ROUTES[dst])
            if dst == 21:
                w = (got.np.ravel() != 0).astype(np.uint8)
                v = exact(t)
                ok = [k for k in range(n) if neighbours(v[k], 21) is not None]
                if r.np.size != n or any(r.np.ravel()[k] != w[k] for k in ok):
                    out.bad(key + ":array", "%r of %r" % (r, t))
            elif r.raw != got.raw:
                out.bad(key + ":array", "%r and %r of %r" % (r, got, t))
            if n and not (t.dt == 13 and len(t.shape) == 1):
                s = srv.call("scalar", t, ROUTES[dst])
                w = got.np.ravel()[0]
                if dst == 21:
                    if neighbours(exact(t)[0], 21) is not None and s != int(w != 0):
                        out.bad(key + ":scalar", "%r of %r" % (s, t))
                elif not (s == w or (s != s and w != w)):
                    out.bad(key + ":scalar", "%r of %r" % (s, t))
        # back again: what the target can hold exactly survives a second conversion
        back = srv.call("cast", got, t.dt)
        v, w, x = t.np.ravel(), exact(t), exact(back) if t.dt in INT else [float(q) for q in back.np.ravel().astype(np.float64)]
        for k in range(n):
            nb = neighbours(w[k], dst)
            if nb is not None and nb[0] == w[k] == nb[1] and x[k] != w[k]:
                out.bad(key + ":back", "%r came back as %r" % (w[k], x[k]))
                break
        out.sig = (t.dt, dst, t.shape, t.raw)

    def op(self, ctx, name, params, t, case):
        r = R(ctx.server("asan", "tsx").call("op", name, params, [t], case["threads"], 0, [])[0])
        return r.outputs[0] if r.ok else "%s %s" % (r.status, r.msg)

    # --------------------------------------------------------------------------------- half floats
    def halves(self, ctx, srv, case, out):
        codes = (np.arange(1024, dtype=np.uint32) + 1024 * case["block"]).astype(np.uint16)
        codes = codes[(codes & 0x7C00) != 0x7C00]
        if not len(codes):
            out.sig = case["block"]
            return
        t = T(9, (len(codes),), codes.tobytes())
        for dst in (10, 11):
            w = srv.call("cast", t, dst)
            true = codes.view(np.float16).astype(NP[dst])
            if w.raw != true.tobytes():
                k = int(np.nonzero(w.np.view(np.uint32 if dst == 10 else np.uint64) != true.view(np.uint32 if dst == 10 else np.uint64))[0][0])
                out.bad("half:%s" % NAME[dst], "%#06x is %r, not %r" % (codes[k], float(true[k]), float(w.np[k])))
            back = srv.call("cast", w, 9)
            if back.raw != t.raw:
                k = int(np.nonzero(back.np.view(np.uint16) != codes)[0][0])
                out.bad("half:round-trip", "%#06x came back as %#06x" % (codes[k], back.np.view(np.uint16)[k]))
        out.see("half precision codes", len(codes))
        # numbers strictly between neighbours
        a = np.sort(codes.view(np.float16).astype(np.float64))
        for f in (0.001, 0.3, 0.5, 0.75, 0.999):
            m = a[:-1] + (a[1:] - a[:-1]) * f
            for dt in (10, 11):
                src = T.of(m.astype(NP[dt]))
                self.judge("half:between", src, srv.call("cast", src, 9), 9, src.shape, out)
        out.sig = case["block"]

    def halfmath(self, ctx, srv, case, out):
        a, b = np.frombuffer(case["a"], np.float16), np.frombuffer(case["b"], np.float16)
        ta, tb = T(9, a.shape, case["a"]), T(9, b.shape, case["b"])
        x, y = a.astype(np.float64), b.astype(np.float64)
        for op in "+-*/~":
            r = srv.call("f16", op, ta, tb).np.astype(np.float64)
            with np.errstate(all="ignore"):
                true = {"+": x + y, "-": x - y, "*": x * y, "/": x / y, "~": -x}[op]
            for k in range(len(x)):
                if op == "/" and y[k] == 0 or not abs(true[k]) <= 65504:
                    continue
                e = max(-14, math.floor(math.log2(abs(true[k]))) if true[k] else -14)
                ulp = 2.0 ** (e - 10)
                if op == "~":
                    ulp = 0
                if not abs(r[k] - true[k]) <= ulp:
                    out.bad("half:arith", "%r %s %r gave %r" % (x[k], op, y[k], r[k]))
                    break
            out.see("half precision operations", len(x))
        for op, f in (("<", np.less), (">", np.greater), ("<=", np.less_equal), (">=", np.greater_equal), ("==", np.equal), ("!=", np.not_equal)):
            r = srv.call("f16", op, ta, tb).np
            w = f(x, y)
            if (r != w).any():
                k = int(np.nonzero(r != w)[0][0])
                out.bad("half:compare", "%r %s %r gave %d" % (x[k], op, y[k], r[k]))
        out.sig = case["a"]

    # --------------------------------------------------------------------------------- fixed point
    def sink(self, ctx, srv, case, out):
        bits, q = case["bits"], case["q"]
        key = "sink%dq%d" % (bits, q)
        rng = np.random.default_rng(case["seed"])
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        z = T.of(np.zeros(1, np.int64))
        if bits == 8:
            codes = np.arange(-128, 128, dtype=np.int64)
        else:
            codes = np.array([lo, lo + 1, -1, 0, 1, hi - 1, hi] + [int(rng.integers(lo, hi, endpoint=True)) >> int(rng.integers(0, bits)) for _ in range(250)], dtype=np.int64)
        if bits == 64:
            codes = codes >> 12        # what a double can hold
        t = T.of(codes)
        for dt in (11, 10):
            v = srv.call("sink", bits, q, "to", t, z, dt).np
            true = (codes.astype(np.float64) / 2.0 ** q)
            fits = np.ones(len(codes), bool) if dt == 11 else np.abs(codes) <= 2**24
            if (v.astype(np.float64) != true)[fits].any():
                k = int(np.nonzero((v.astype(np.float64) != true) & fits)[0][0])
                out.bad(key + ":to", "code %d is %r, got %r" % (codes[k], true[k], v[k]))
            back = srv.call("sink", bits, q, "from", T.of(v[fits]), z, dt).np
            if (back != codes[fits]).any():
                k = int(np.nonzero(back != codes[fits])[0][0])
                out.bad(key + ":round-trip", "%d became %d" % (codes[fits][k], back[k]))
            # other numbers: one of the neighbouring codes, and in order
            m = np.sort(rng.uniform(lo / 2.0 ** q * 0.99, hi / 2.0 ** q * 0.99, 200).astype(NP[dt]) if bits < 64 else rng.normal(size=200).astype(NP[dt]) * 1000)
            c = srv.call("sink", bits, q, "from", T.of(m), z, dt).np
            e = m.astype(np.float64) * 2.0 ** q
            slack = 1 if dt == 11 else 1 + np.abs(e) * 2.0 ** -23
            if (np.abs(c - e) > slack).any() or (np.diff(c) < 0).any():
                out.bad(key + ":from", "numbers out of order or more than one unit off")
        for dt in (1, 2, 3, 4, 5, 6, 7, 8):
            ilo, ihi = INT[dt]
            mlo, mhi = max(ilo, -(2 ** (bits - 1 - q)) if q < bits else 0), min(ihi, (hi >> q))
            if mhi < mlo:
                continue
            n = np.unique(np.array([mlo, mhi, 0] + [min(mhi, max(mlo, int(rng.integers(-2**62, 2**62)) >> int(rng.integers(0, 62)))) for _ in range(60)], dtype=object))
            n = np.array([int(x) for x in n if mlo <= int(x) <= mhi], dtype=object).astype(NP[dt])
            c = srv.call("sink", bits, q, "from", T.of(n), z, dt).np
            if any(int(a) != int(b) << q for a, b in zip(c, n)):
                out.bad(key + ":from-int", "%s" % [(int(a), int(b)) for a, b in zip(n, c) if int(b) != int(a) << q][:3])
            r = srv.call("sink", bits, q, "to", T.of(c), z, dt).np
            if any(int(a) != int(b) for a, b in zip(r, n)):
                out.bad(key + ":to-int", "%s" % [(int(a), int(b)) for a, b in zip(n, r) if a != b][:3])
        a = codes[rng.integers(0, len(codes), 600)]
        b = codes[rng.integers(0, len(codes), 600)]
        if bits == 64:
            a, b = a >> 22, b >> 22
        ta, tb = T.of(a), T.of(b)
        for op in "+-*/~":
            r = srv.call("sink", bits, q, op, ta, tb, 0).np
            for x, y, w in zip(a, b, r):
                x, y, w = int(x), int(y), int(w)
                if op == "/" and y == 0:
                    continue
                true = {"+": Fraction(x + y), "-": Fraction(x - y), "*": Fraction(x * y, 2 ** q), "/": Fraction(x * 2 ** q, y or 1), "~": Fraction(-x)}[op]
                if not lo <= math.floor(true) or not math.ceil(true) <= hi:
                    continue
                out.see("fixed point operations")
                if abs(w - true) >= 1:
                    out.bad(key + ":arith", "%d %s %d gave %d, exactly %s" % (x, op, y, w, float(true)))
                    break
        for op, f in (("<", np.less), (">", np.greater), ("<=", np.less_equal), (">=", np.greater_equal), ("==", np.equal), ("!=", np.not_equal)):
            r = srv.call("sink", bits, q, op, ta, tb, 0).np
            if (r != f(a, b)).any():
                k = int(np.nonzero(r != f(a, b))[0][0])
                out.bad(key + ":compare", "%d %s %d gave %d" % (a[k], op, b[k], r[k]))
        if bits < 64:
            if int(srv.call("sink", bits, q, "max", z, z, 0).np[0]) != hi or int(srv.call("sink", bits, q, "min", z, z, 0).np[0]) != lo:
                out.bad(key + ":limits", "")
        out.sig = (bits, q, case["seed"])

    # ---------------------------------------------------------------------------------------- text
    def text(self, ctx, srv, case, out):
        k, s = case["kind"], case["s"]
        r = srv.call("scalar", T.of(s), k)
        want = {"int": lambda: int(s), "uint": lambda: int(s), "float": lambda: float(np.float32(float(s))), "double": lambda: float(s),
                "bool": lambda: int(s.lower() == "true"), "string": lambda: s.encode()}[k]()
        if r != want:
            out.bad("text:" + k, "%r read as %r" % (s, r))
        out.see("text " + k)
        out.sig = (k, s)

    def refuse(self, ctx, srv, case, out):
        from tsx import ITEM
        t = T(case["dt"], [3], b"\x01" * (3 * ITEM[case["dt"]]))
        a, b = (t, case["dst"]) if not case["back"] else (T.of(np.int32([1, 2, 3])), t.dt)
        try:
            r = srv.call("cast", a, b)
            out.bad("refuse", "%s converted to %s: %r" % (NAME[a.dt], NAME[b], r))
        except TsError as e:
            if e.kind != "ts":
                out.bad("refuse:kind", "%s %s" % (e.kind, e.msg))
        out.see("refused")
        out.sig = (a.dt, b)
