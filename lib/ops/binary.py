"""add sub mul div mod maximum pow equal where broadcast"""
import numpy as np
from opspec import *

# documented result types: never narrower than either operand, independent of the order
_TABLE = {}


def result_type(a, b):
    if a == b:
        return a
    f = {9: 1, 10: 2, 11: 3}
    if a in f or b in f:
        if a in f and b in f:
            return a if f[a] > f[b] else b
        x, i = (a, b) if a in f else (b, a)
        w = 0 if i == 21 else {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8}[i]
        if x == 11 or w == 8:
            return 11
        if x == 10 or w == 4:
            return 10
        return 9
    if a == 21:
        return b
    if b == 21:
        return a
    w = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8}
    s = (a % 2 == 1) or (b % 2 == 1)
    m = max(w[a], w[b])
    if (min(a, b), max(a, b)) in ((2, 4), (2, 8)):
        s = True        # the promotion table picks the signed type here
    return {1: 1, 2: 3, 4: 5, 8: 7}[m] + (0 if s else 1)


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    o = []
    for x, y in zip(a, b):
        if x != y and x != 1 and y != 1:
            raise Reject("shapes do not broadcast")
        o.append(y if x == 1 else x)
    return o


def pair(rng, n=2, reject=0.04, maxn=2500):
    """n shapes that (mostly) broadcast together"""
    out = rshape(rng, 0, 6, maxn=maxn, zero=0.02)
    shapes = []
    for k in range(n):
        m = rng.random()
        s = list(out)
        if m < 0.3:
            pass
        elif m < 0.45:
            s = [1] * int(rng.integers(0, len(out) + 1))
        elif m < 0.65 and out:
            d = int(rng.integers(len(out)))
            s = [1] * len(out)
            s[d] = out[d]
            if rng.random() < 0.5:
                s = s[d:]
        else:
            s = [1 if rng.random() < 0.4 else x for x in out]
            if rng.random() < 0.4:
                s = s[int(rng.integers(0, len(out) + 1)):]
        shapes.append(s)
    if rng.random() < reject and out:
        k, s = int(rng.integers(n)), None
        if shapes[k]:
            d = int(rng.integers(len(shapes[k])))
            shapes[k][d] = shapes[k][d] + 1
    return shapes


ALLT = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11]


def dtypes(rng):
    if rng.random() < 0.6:
        a = pick(rng, [10, 10, 10, 11, 5, 5] + ALLT)
        return a, a
    return pick(rng, ALLT + [9, 21]), pick(rng, ALLT + [9, 21])


def lim(op, dt):
    """largest magnitude that keeps signed arithmetic in range"""
    w = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8}.get(dt, 0)
    bits = 8 * w - 1
    if op == "mul":
        return 2 ** (bits // 2) - 1
    return 2 ** (bits - 1) - 1


def nonzero(a):
    return np.where(a == 0, np.ones_like(a), a)


def conv(x, dt):
    return x.np.astype(NP[dt])


def arith(op):
    class A:
        @staticmethod
        def gen(rng):
            da, db = dtypes(rng)
            r = result_type(da, db)
            sa, sb = pair(rng)
            m = None
            if r in INTS:
                m = min(lim(op, d) for d in (da, db, r) if d in INTS) if any(d in INTS for d in (da, db, r)) else 1
            # values are representable in the common type: non-negative for signed/unsigned mixes of unequal sign
            def v(d, s):
                if d in (9, 10, 11):
                    a = rvals(rng, 10 if d != 11 else 11, s, special=d != 9)
                    return np.round(a).astype(NP[d]) if op == "mod" or d == 9 else a
                if d == 21:
                    return rvals(rng, 21, s)
                mm = m if m is not None else 2 ** 20
                if rng.random() < 0.3:
                    mm = min(mm, 9)
                lo = 0 if (r in (2, 4, 6, 8) and d % 2 == 1) else None
                return rvals(rng, d, s, mag=mm, lo=lo)
            a, b = v(da, sa), v(db, sb)
            if op in ("div", "mod") and rng.random() < 0.8:
                b = nonzero(b)
            return {}, [T.of(a, da), T.of(b, db)]

        @staticmethod
        def ref(p, x):
            a, b = x
            r = result_type(a.dt, b.dt)
            sh = bshape(a.shape, b.shape)
            if r not in NUM or (op == "mod" and r in FLT):
                raise Unspecified("type")
            A_, B_ = np.broadcast_to(conv(a, r), sh), np.broadcast_to(conv(b, r), sh)
            if op == "add":
                o = A_ + B_
            elif op == "sub":
                o = A_ - B_
            elif op == "mul":
                o = A_ * B_
            elif op == "maximum":
                o = np.where(A_ > B_, A_, B_)
            elif op == "div":
                info = np.finfo(NP[r]) if r in FLT else np.iinfo(NP[r])
                d = nonzero(B_)
                if r in FLT:
                    q = A_ / d
                else:
                    q = np.abs(A_) // np.abs(d)
                    q = np.where((A_ < 0) != (d < 0), -q, q) if r % 2 == 1 else q
                o = np.where(B_ == 0, np.where(A_ > 0, NP[r](info.max), NP[r](info.min)), q).astype(NP[r])
            else:
                if (B_ == 0).any():
                    raise Unspecified("remainder of a division by zero")
                o = np.fmod(A_, B_)
            return Exp(np.asarray(o, dtype=NP[r]), r)
    return A


for _op in ("add", "sub", "mul", "div", "mod", "maximum"):
    spec(_op, family="C01", weight=2.0)(arith(_op))


@spec("pow", family="C01")
class Pow:
    @staticmethod
    def gen(rng):
        dt = pick(rng, [10, 10, 11, 5])
        sh = rshape(rng)
        y = pick(rng, [0.0, 1.0, 2.0, 3.0, 0.5, -1.0, -2.0, 1.5, 2.5, 4.0])
        if y == int(y) and y >= 0 and rng.random() < 0.5:
            x = rvals(rng, dt, sh, special=False) if dt != 5 else rvals(rng, 5, sh, mag=20)
        else:
            x = np.abs(rvals(rng, dt, sh, special=False)) + 0.05 if dt != 5 else rvals(rng, 5, sh, mag=20)
        return {"y": T.of(np.array(y, dtype=np.float32))}, [T.of(x.astype(NP[dt]), dt)]

    @staticmethod
    def ref(p, x):
        if x[0].dt not in FLT:
            raise Unspecified("type")
        a = np.power(x[0].np.astype(np.float64), p.f("y"))
        return Exp(a.astype(NP[x[0].dt]), rtol=2e-6 if x[0].dt == 10 else 1e-12)


@spec("equal", family="C01", weight=1.5)
class Equal:
    @staticmethod
    def gen(rng):
        da, db = dtypes(rng)
        sa, sb = pair(rng)
        f = lambda d, s: (rng.integers(0, 3, s).astype(NP[d]))
        return {}, [T.of(f(da, sa), da), T.of(f(db, sb), db)]

    @staticmethod
    def ref(p, x):
        a, b = x
        sh = bshape(a.shape, b.shape)
        if result_type(a.dt, b.dt) not in NUM:
            raise Unspecified("type")
        A_, B_ = np.broadcast_to(a.np.astype(np.float64), sh), np.broadcast_to(b.np.astype(np.float64), sh)
        o = (A_ == B_)
        return Exp((o if a.dt != 21 and b.dt != 21 else o).astype(np.uint8), 21)


@spec("where", family="C01", weight=1.5)
class Where:
    @staticmethod
    def gen(rng):
        dc = pick(rng, [21, 21, 2, 5, 10])
        d = pick(rng, ALLT)
        sc, sa, sb = pair(rng, 3)
        d2 = d if rng.random() > 0.03 else pick(rng, ALLT)
        c = rng.integers(0, 2, sc).astype(NP[dc])
        return {}, [T.of(c, dc), T.of(rvals(rng, d, sa), d), T.of(rvals(rng, d2, sb), d2)]

    @staticmethod
    def ref(p, x):
        c, a, b = x
        sh = bshape(bshape(c.shape, a.shape), b.shape)
        if a.dt != b.dt:
            raise Unspecified("mixed types")
        o = np.where(np.broadcast_to(c.np != 0, sh), np.broadcast_to(a.np, sh), np.broadcast_to(b.np, sh))
        return Exp(np.asarray(o, dtype=NP[a.dt]), a.dt)


@spec("broadcast", family="C01", weight=1.5)
class Broadcast:
    @staticmethod
    def gen(rng):
        d = pick(rng, ALLT + [21])
        out = rshape(rng, 1, 6, zero=0.02)
        s = [1 if rng.random() < 0.5 else x for x in out]
        if rng.random() < 0.4:
            s = s[int(rng.integers(0, len(out) + 1)):]
        if rng.random() < 0.06 and s:
            s[int(rng.integers(len(s)))] += 1
        return {}, [T.of(rvals(rng, d, s), d), T.of(np.array(out, dtype=np.int32))]

    @staticmethod
    def ref(p, x):
        a, sh = x[0], [int(v) for v in x[1].np]
        o = bshape(a.shape, sh)
        if o != sh or 0 in sh:
            # the documentation lets a target extent of 1 take the input's extent
            raise Unspecified("target is smaller than the input")
        return Exp(np.ascontiguousarray(np.broadcast_to(a.np, sh)), a.dt)
