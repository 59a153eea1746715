"""Data movement: every element ends bit-exactly where the numpy / ONNX / TensorFlow definition puts it."""
import numpy as np
from opspec import *

MOVE = NUM + [21]


def mtype(rng):
    return int(pick(rng, [10, 10, 11, 5, 2]) if rng.random() < 0.4 else pick(rng, MOVE))


def fill(rng, dt, shape):
    """arbitrary bit patterns"""
    n = int(np.prod(shape, dtype=np.int64))
    if dt == 21:
        return T.of(rng.integers(0, 2, n).astype(np.uint8).reshape(shape), 21)
    return T(dt, shape, rng.integers(0, 256, n * np.dtype(NP[dt]).itemsize, dtype=np.uint8).tobytes())


def mv(x, a):
    """bit-exact expectation; types outside the listed numeric ones may be declined"""
    if np.ndim(a) > 7:
        raise Unspecified("more dimensions than a shape holds")
    e = Exp(np.ascontiguousarray(a).reshape(np.shape(a)), x.dt, bits=True)
    return e if x.dt in NUM else OrReject([e])


def mvs(x, l):
    r = [Exp(np.ascontiguousarray(a).reshape(np.shape(a)), x.dt, bits=True) for a in l]
    return r if x.dt in NUM else OrReject(r)


def count(sh):
    return int(np.prod(sh, dtype=np.int64))


def itensor(rng, v, i64=0.2):
    """an integer list as host tensor"""
    return T.of(np.array(v, np.int64)) if rng.random() < i64 and len(v) else T.of(np.array(v, np.int32))


def ints(x):
    return [int(v) for v in x.np.reshape(-1)]


def refactor(rng, n):
    """a random shape of n elements"""
    sh = []
    while n > 1 and len(sh) < 5:
        ds = [d for d in range(2, n + 1) if n % d == 0]
        d = int(pick(rng, ds))
        sh.append(d)
        n //= d
    for _ in range(int(rng.integers(0, 3))):
        sh.insert(int(rng.integers(0, len(sh) + 1)), 1)
    if n > 1:
        sh.append(n)
    return sh


# ------------------------------------------------------------------------------------------ new shape
def reshape_gen(rng):
    sh = rshape(rng, 0, 5, zero=0.03)
    n = count(sh)
    r = rng.random()
    if n == 0:
        to = list(sh) if r < 0.5 else [0] + [int(pick(rng, [1, 2, 3])) for _ in range(int(rng.integers(0, 3)))]
        if r > 0.8:
            to[int(rng.integers(len(to)))] = -1
    else:
        to = refactor(rng, n)
        if to and r < 0.5:
            to[int(rng.integers(len(to)))] = -1
        elif r < 0.6:
            k = min(len(to), len(sh))
            for i in range(k):
                if to[i] == sh[i] and rng.random() < 0.7:
                    to[i] = 0
        elif r < 0.75:
            to = [0 if rng.random() < 0.5 else d for d in sh]
            if to and rng.random() < 0.5:
                i = int(rng.integers(len(to)))
                to = to[:i] + [-1]
        elif r < 0.82 and to:
            to[int(rng.integers(len(to)))] += 1
        elif r < 0.87:
            to = to + [-1, -1]
        elif r < 0.9:
            to = to + [0]
        elif r < 0.93 and to:
            to[int(rng.integers(len(to)))] = int(pick(rng, [-2, -7, 1 << 30]))
    return fill(rng, mtype(rng), sh), to


def reshape_ref(x, to):
    if sum(1 for d in to if d < 0) > 1:
        raise Reject("several inferred extents")
    if any(d < -1 for d in to):
        raise Unspecified("negative extent")
    out = []
    for i, d in enumerate(to):
        if d == 0 and i >= len(x.shape):
            raise Unspecified("0 beyond the input")
        out.append(x.shape[i] if d == 0 else d)
    known = count([d for d in out if d != -1])
    n = count(x.shape)
    if n == 0:
        raise Unspecified("no elements")
    if -1 in out:
        if known == 0 or n % known:
            raise Reject("not divisible")
        out[out.index(-1)] = n // known
    if count(out) != n:
        raise Reject("element count")
    r = mv(x, x.np.reshape(out))
    return r


@spec("_reshape", family="C06", weight=1.5)
class Reshape:
    @staticmethod
    def gen(rng):
        x, to = reshape_gen(rng)
        return {"shape": np.array(to, np.int32)}, [x]

    @staticmethod
    def ref(p, x):
        return reshape_ref(x[0], p.l("shape"))


@spec("_reshape_v2", family="C06", weight=1.5)
class ReshapeV2:
    @staticmethod
    def gen(rng):
        x, to = reshape_gen(rng)
        return {}, [x, itensor(rng, to)]

    @staticmethod
    def ref(p, x):
        return reshape_ref(x[0], ints(x[1]))


@spec("flatten", family="C06")
class Flatten:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 5, zero=0.03)
        ps = {}
        if rng.random() < 0.7:
            ps["dim"] = int(rng.integers(-len(sh), len(sh) + 3)) if rng.random() < 0.95 else int(pick(rng, [-9, -100, -2147483648]))
        return ps, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        sh = list(x[0].shape)
        d = p.i("dim", 1)
        if d < 0:
            d += len(sh)
            if d < 0:
                raise Reject("dim")
        if d + 1 <= len(sh):
            out = sh[:d] + [count(sh[d:])]
        else:
            out = sh + [1] * (d + 1 - len(sh))
        return mv(x[0], x[0].np.reshape(out))


@spec("flatten2d", family="C06")
class Flatten2D:
    gen = Flatten.gen

    @staticmethod
    def ref(p, x):
        sh = list(x[0].shape)
        d = p.i("dim", 1)
        if d < 0:
            d += len(sh)
            if d < 0:
                raise Unspecified("dim")
        d = min(d, len(sh))
        return mv(x[0], x[0].np.reshape([count(sh[:d]), count(sh[d:])]))


@spec("squeeze", family="C06")
class Squeeze:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 6, ext=[1, 1, 1, 2, 3, 4], zero=0.02)
        ps = {}
        if rng.random() < 0.7:
            ones = [i for i, d in enumerate(sh) if d == 1]
            ax = [i for i in ones if rng.random() < 0.6]
            if rng.random() < 0.08:
                ax = sorted(set(ax + [int(rng.integers(0, len(sh) + 1))]))
            neg = rng.random() < 0.3
            ax = [a - len(sh) if neg else a for a in ax]
            if rng.random() < 0.03:
                ax = ax + [-len(sh) - 1]
            if len(ax) == 1 or not neg:
                ps["axes"] = np.array(ax, np.int32)
            elif ax:
                ps["axes"] = np.array(ax[:1], np.int32)
        return ps, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        ax = p.l("axes", [])
        if not ax:
            return mv(x[0], a.reshape([d for d in a.shape if d != 1]))
        for k in ax:
            if not -a.ndim <= k < a.ndim or a.shape[k] != 1:
                raise Reject("axis")
        return mv(x[0], np.squeeze(a, axis=tuple(ax)))


@spec("unsqueeze", family="C06")
class Unsqueeze:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 4)
        n = len(sh)
        ax = []
        for _ in range(int(rng.integers(0, 4))):
            n += 1
            k = int(rng.integers(0, n))
            ax.append(k - n if rng.random() < 0.25 else k)
        if rng.random() < 0.05:
            ax.append(int(pick(rng, [n + 1, n + 5, -n - 2, -n - 9])))
        v = np.array(ax, np.int32)
        return {"axes": v.reshape(()) if len(ax) == 1 and rng.random() < 0.3 else v}, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        lenient = False
        for k in p.l("axes"):
            if not -a.ndim - 1 <= k <= a.ndim:
                raise Reject("axis")
            lenient |= k == -a.ndim - 1
            a = np.expand_dims(a, k)
        r = mv(x[0], a)
        return OrReject(r if isinstance(r, list) else [r]) if lenient else r


@spec("_expand", family="C06")
class Expand:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 4)
        d = int(rng.integers(0, 7)) if rng.random() < 0.97 else -1
        ps = {}
        for k in ("front", "end"):
            if rng.random() < 0.5:
                ps[k] = int(rng.integers(-1, 4))
        if rng.random() < 0.5:
            ps["inverse"] = bool(rng.random() < 0.5)
        return ps, [fill(rng, mtype(rng), sh), T.of(np.array(d, np.int32))]

    @staticmethod
    def ref(p, x):
        sh, d = list(x[0].shape), ints(x[1])[0]
        if d <= len(sh):
            if d == len(sh):
                return mv(x[0], x[0].np)
            if d < 0:
                raise Reject("negative")
            raise Unspecified("documented to return x, implemented as rejection")
        need = d - len(sh)
        f, e, inv = p.i("front", -1), p.i("end", -1), p.b("inverse", False)
        order = [("e", e), ("f", f)] if inv else [("f", f), ("e", e)]
        for side, lim in order:
            k = need if lim < 0 else min(need, lim)
            sh = [1] * k + sh if side == "f" else sh + [1] * k
            need -= k
        if need:
            raise Reject("limits")
        return mv(x[0], x[0].np.reshape(sh))


# ------------------------------------------------------------------------------------------ permutations
@spec("_transpose", family="C06", weight=2)
class Transpose:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 6)
        if rng.random() < 0.15:
            sh = sh[:4] + [2] * (4 - len(sh))
        n = len(sh)
        r = rng.random()
        if r < 0.12:
            return {}, [fill(rng, mtype(rng), sh)]
        pm = [int(v) for v in rng.permutation(n)]
        if r < 0.25 and n >= 2:     # one swap: the cases with special layouts
            i, j = sorted(int(v) for v in rng.choice(n, 2, replace=False))
            pm = list(range(n))
            pm[i], pm[j] = pm[j], pm[i]
        elif r < 0.4 and n == 4:
            pm = pick(rng, [[0, 2, 3, 1], [0, 3, 1, 2]])
            if rng.random() < 0.6:      # image layouts have kernels of their own
                sh = [int(rng.integers(1, 3)), int(rng.integers(1, 9)), int(rng.integers(1, 9)), 3] if pm[1] == 3 else \
                     [int(rng.integers(1, 3)), 3, int(rng.integers(1, 9)), int(rng.integers(1, 12))]
                if rng.random() < 0.6:
                    return {"permute": np.array(pm, np.int32)}, [fill(rng, pick(rng, [10, 10, 2, 11]), sh)]
        elif r < 0.48:
            m = int(rng.integers(n, n + 3))
            pm = [int(v) for v in rng.permutation(m)]
        elif r < 0.54 and n:
            k = int(rng.integers(n))
            pm[k] = int(pick(rng, [-1, n, pm[(k + 1) % n], 1 << 30]))
        elif r < 0.57 and n:
            pm = pm[:-1]
        return {"permute": np.array(pm, np.int32)}, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        if "permute" not in p:
            if a.ndim == 2:
                return mv(x[0], a.T)
            raise Unspecified("matrix transposition of another tensor")
        pm = p.l("permute")
        if not pm and a.ndim:
            raise Unspecified("default permutation")
        if len(pm) < a.ndim:
            raise Reject("permutation too short")
        if sorted(pm) != list(range(len(pm))):
            raise Reject("not a permutation")
        a = a.reshape((1,) * (len(pm) - a.ndim) + a.shape)
        return mv(x[0], a.transpose(pm))


@spec("_dimshuffle", family="C06")
class DimShuffle:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5)
        d = int(rng.integers(len(sh)))
        s = [int(v) for v in rng.integers(0, sh[d], int(rng.integers(1, 7)))]
        if rng.random() < 0.06:
            s[int(rng.integers(len(s)))] = int(pick(rng, [sh[d], -1, sh[d] + 5, -2147483648]))
        if rng.random() < 0.04:
            d = int(pick(rng, [len(sh), -1, 9, -9]))
        return {"dim": d, "shuffle": np.array(s, np.int32)}, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, d, s = x[0].np, p.i("dim"), p.l("shuffle")
        if not -a.ndim <= d < a.ndim:
            raise Reject("dim")
        n = a.shape[d]
        if any(not 0 <= k < n for k in s):
            if d < 0:
                raise Unspecified("negative dim")
            raise Reject("shuffle index")
        r = mv(x[0], np.take(a, s, axis=d))
        return OrReject(r if isinstance(r, list) else [r]) if d < 0 else r


# ------------------------------------------------------------------------------------------ joining and splitting
@spec("concat", family="C06", weight=1.5)
class Concat:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5, maxn=800)
        d = int(rng.integers(len(sh)))
        dt = mtype(rng)
        xs = []
        for _ in range(int(rng.integers(1, 6))):
            s = list(sh)
            s[d] = int(rng.integers(1, 6)) if rng.random() < 0.96 else 0
            xs.append(s)
        r = rng.random()
        dts = [dt] * len(xs)
        if len(xs) > 1:
            k = int(rng.integers(len(xs)))
            if r < 0.04:
                q = int(rng.integers(len(sh)))
                xs[k][q] += 1
            elif r < 0.06:
                dts[k] = mtype(rng)
            elif r < 0.08:
                xs[k] = xs[k] + [1]
        dim = d - len(sh) if rng.random() < 0.3 else d
        if r > 0.97:
            dim = int(pick(rng, [len(sh), -len(sh) - 1, 100, -2147483648]))
        return {"dim": dim}, [fill(rng, t, s) for t, s in zip(dts, xs)]

    @staticmethod
    def ref(p, x):
        d, n = p.i("dim"), len(x[0].shape)
        if not -n <= d < n:
            if len(x) == 1:
                raise Unspecified("single input")
            raise Reject("dim")
        for v in x[1:]:
            if v.dt != x[0].dt or len(v.shape) != n or any(
                    a != b for i, (a, b) in enumerate(zip(v.shape, x[0].shape)) if i != d % n):
                raise Reject("operands")
        return mv(x[0], np.concatenate([v.np for v in x], axis=d))


@spec("stack", family="C06")
class Stack:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 4, maxn=500)
        dt = mtype(rng)
        k = int(rng.integers(1, 6))
        xs = [fill(rng, dt, sh) for _ in range(k)]
        r = rng.random()
        if k > 1 and r < 0.04:
            xs[-1] = fill(rng, mtype(rng), sh)
        elif k > 1 and r < 0.08:
            xs[-1] = fill(rng, dt, list(sh) + [1])
        ps = {}
        if rng.random() < 0.8:
            ps["axis"] = int(rng.integers(-len(sh) - 1, len(sh) + 1)) if r < 0.96 else int(pick(rng, [len(sh) + 1, -len(sh) - 2, 77]))
        return ps, xs

    @staticmethod
    def ref(p, x):
        ax, n = p.i("axis", 0), len(x[0].shape)
        if not -n - 1 <= ax <= n:
            raise Reject("axis")
        if any(v.dt != x[0].dt or v.shape != x[0].shape for v in x):
            raise Reject("operands")
        return mv(x[0], np.stack([v.np for v in x], axis=ax))


@spec("split", family="C06", weight=1.5)
class Split:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5)
        d = int(rng.integers(len(sh)))
        sp, left = [], sh[d]
        while left:
            k = int(rng.integers(0 if rng.random() < 0.1 else 1, left + 1))
            sp.append(k)
            left -= k
        r = rng.random()
        if r < 0.05:
            sp[int(rng.integers(len(sp)))] += int(pick(rng, [1, 2, 50]))
        elif r < 0.09:
            sp = sp + [-1, 1]
        elif r < 0.12 and len(sp) > 1:
            sp = sp[:-1]
        ax = d - len(sh) if rng.random() < 0.3 else d
        if r > 0.97:
            ax = int(pick(rng, [len(sh), -len(sh) - 1]))
        return {"axis": ax}, [fill(rng, mtype(rng), sh), itensor(rng, sp)]

    @staticmethod
    def ref(p, x):
        a, ax, sp = x[0].np, p.i("axis"), ints(x[1])
        if not -a.ndim <= ax < a.ndim:
            raise Reject("axis")
        if any(k < 0 for k in sp):
            raise Reject("negative size")
        s = sum(sp)
        if s > a.shape[ax]:
            raise Reject("sizes exceed the extent")
        parts = [np.take(a, range(sum(sp[:i]), sum(sp[:i + 1])), axis=ax) for i in range(len(sp))]
        r = mvs(x[0], parts)
        if s < a.shape[ax]:
            raise Reject("sizes do not cover the extent")
        return r


@spec("chunk", family="C06")
class Chunk:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5)
        d = int(rng.integers(len(sh)))
        c = int(rng.integers(1, sh[d] + 1)) if rng.random() < 0.95 else int(pick(rng, [sh[d] + 1, 0, -1, 99]))
        ps = {"chunks": c}
        if rng.random() < 0.8:
            ps["dim"] = (d - len(sh) if rng.random() < 0.4 else d) if rng.random() < 0.96 else int(pick(rng, [len(sh), -len(sh) - 1]))
        elif len(sh) >= 2:
            ps["chunks"] = int(rng.integers(1, sh[-2] + 1))
        return ps, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, c, d = x[0].np, p.i("chunks"), p.i("dim", -2)
        if c < 1:
            raise Reject("chunks")
        if not -a.ndim <= d < a.ndim:
            raise Reject("dim")
        if a.shape[d] < c:
            raise Unspecified("fewer elements than chunks")
        # torch.chunk: equal parts, the last one may be smaller, fewer parts when they cover x already
        n = -(-a.shape[d] // c)
        return mvs(x[0], [np.take(a, range(o, min(o + n, a.shape[d])), axis=d) for o in range(0, a.shape[d], n)])


# ------------------------------------------------------------------------------------------ slices
BIG = [2147483647, -2147483648, 1 << 20, -(1 << 20)]


def begin_size(rng):
    sh = rshape(rng, 0, 5, zero=0.02)
    b, s = [], []
    for d in sh:
        k = int(rng.integers(0, max(1, d)))
        b.append(k)
        s.append(-1 if rng.random() < 0.2 else int(rng.integers(0 if rng.random() < 0.1 else 1, max(1, d - k) + 1)))
    r = rng.random()
    if sh and r < 0.08:
        i = int(rng.integers(len(sh)))
        m = int(rng.integers(5))
        if m == 0:
            b[i] = int(pick(rng, [-1, sh[i], sh[i] + 3]))
        elif m == 1:
            s[i] += int(pick(rng, [1, 5, 100]))
        elif m == 2:
            s[i] = 2147483647
        elif m == 3:
            b = b[:-1]
        else:
            s = s + [1]
    return fill(rng, mtype(rng), sh), b, s


def begin_size_ref(x, b, s):
    a = x.np
    if len(b) != a.ndim or len(s) != a.ndim:
        raise Reject("lengths")
    ix = []
    edge = False
    for d, k, n in zip(a.shape, b, s):
        if k == d and n in (0, -1):
            edge = True
        elif not 0 <= k < d:
            raise Reject("begin")
        if n < -1:
            raise Unspecified("size")
        e = d if n == -1 else k + n
        if e > d:
            raise Reject("size")
        ix.append(slice(k, e))
    r = mv(x, a[tuple(ix)])
    return OrReject(r if isinstance(r, list) else [r]) if edge else r


@spec("slice", family="C06", weight=1.5)
class Slice:
    @staticmethod
    def gen(rng):
        x, b, s = begin_size(rng)
        return {"begin": np.array(b, np.int32), "size": np.array(s, np.int32)}, [x]

    @staticmethod
    def ref(p, x):
        return begin_size_ref(x[0], p.l("begin"), p.l("size"))


@spec("slice_v2", family="C06", weight=1.5)
class SliceV2:
    @staticmethod
    def gen(rng):
        x, b, s = begin_size(rng)
        return {}, [x, itensor(rng, b), itensor(rng, s)]

    @staticmethod
    def ref(p, x):
        return begin_size_ref(x[0], ints(x[1]), ints(x[2]))


def bound(rng, d):
    return int(rng.integers(-d - 3, d + 4)) if rng.random() < 0.9 else int(pick(rng, BIG))


def step(rng):
    r = rng.random()
    return 1 if r < 0.4 else int(pick(rng, [2, 3, -1, -1, -2, -3, 5, -7, 2147483647, -2147483647]))


@spec("slice_v3", family="C06", weight=3)
class SliceV3:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5, zero=0.02)
        n = len(sh)
        k = int(rng.integers(1, n + 1))
        ax = sorted(int(v) for v in rng.choice(n, k, replace=False))
        explicit = rng.random() < 0.6
        if not explicit:
            ax = list(range(k))
        st = [bound(rng, sh[a]) for a in ax]
        en = [bound(rng, sh[a]) for a in ax]
        if rng.random() < 0.5:   # mostly non-empty
            for i, a in enumerate(ax):
                u, v = sorted(int(q) for q in rng.integers(0, sh[a] + 1, 2))
                st[i], en[i] = (u - sh[a] if rng.random() < 0.3 and u < sh[a] else u), (v - sh[a] if rng.random() < 0.3 and v < sh[a] else v)
        steps = [step(rng) for _ in ax]
        for i, a in enumerate(ax):
            if steps[i] < 0 and rng.random() < 0.6:
                st[i], en[i] = max(st[i], en[i]), min(st[i], en[i])
        ins = [itensor(rng, st, 0.4), itensor(rng, en, 0.4)]
        r = rng.random()
        if explicit or rng.random() < 0.5:
            a2 = [a - n if rng.random() < 0.3 else a for a in ax]
            if r < 0.04:
                a2[int(rng.integers(k))] = int(pick(rng, [n, -n - 1, 40]))
            elif r < 0.08 and k > 1:
                a2 = a2[::-1]
            elif r < 0.1:
                a2 = a2 + [0]
            ins.append(itensor(rng, a2))
            if rng.random() < 0.7:
                if r > 0.97:
                    steps[int(rng.integers(k))] = 0
                ins.append(itensor(rng, steps))
        if r > 0.985:
            ins[0] = itensor(rng, st[:-1])
        return {}, [fill(rng, mtype(rng), sh)] + ins

    @staticmethod
    def ref(p, x):
        a, st, en = x[0].np, ints(x[1]), ints(x[2])
        ax = ints(x[3]) if len(x) > 3 else list(range(len(st)))
        sp = ints(x[4]) if len(x) > 4 else [1] * len(ax)
        if not st:
            raise Unspecified("empty")
        if not len(st) == len(en) == len(ax) == len(sp) or any(not -a.ndim <= k < a.ndim for k in ax):
            raise Reject("parameters")
        nx = [k % a.ndim for k in ax]
        if 0 in sp:
            raise Reject("step")
        if len(set(nx)) != len(nx):
            raise Reject("repeated axis")
        ix = [slice(None)] * a.ndim
        for k, s, e, t in zip(nx, st, en, sp):
            ix[k] = onnx_slice(a.shape[k], s, e, t)
        r = mv(x[0], a[tuple(ix)])
        return OrReject(r if isinstance(r, list) else [r]) if nx != sorted(nx) else r


def onnx_slice(d, s, e, t):
    """start and end of Python's slice (a negative value counts from the end)"""
    return slice(s, e, t)


@spec("strided_slice", family="C06", weight=3)
class StridedSlice:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 5, zero=0.02)
        items = []
        left = list(range(len(sh)))
        d = 0
        # a TensorFlow index expression: slices, integers, None, at most one ellipsis
        tail = int(rng.integers(0, len(sh) + 1))
        ell = rng.random() < 0.35
        head = int(rng.integers(0, len(sh) - tail + 1)) if ell else len(sh) - tail if rng.random() < 0.5 else int(rng.integers(0, len(sh) - tail + 1))
        dims = list(range(head)) + (["..."] + list(range(len(sh) - tail, len(sh))) if ell else [])
        seq = []
        for q in dims:
            while rng.random() < 0.12:
                seq.append(None)
            seq.append(q)
        while rng.random() < 0.12 or not seq:
            seq.append(None)
        b, e, s = [], [], []
        m = dict(begin_mask=0, end_mask=0, ellipsis_mask=0, new_axis_mask=0, shrink_axis_mask=0)
        for i, q in enumerate(seq):
            bit = 1 << i
            if q == "...":
                m["ellipsis_mask"] |= bit
                b.append(0), e.append(0), s.append(1)
            elif q is None:
                m["new_axis_mask"] |= bit
                z = int(rng.integers(0, 2))
                b.append(0 if rng.random() < 0.7 else 3), e.append(z), s.append(1)
            elif rng.random() < 0.25 and sh[q]:
                m["shrink_axis_mask"] |= bit
                k = int(rng.integers(-sh[q], sh[q])) if rng.random() < 0.95 else int(pick(rng, [sh[q], -sh[q] - 1]))
                b.append(k), e.append(k + 1 if rng.random() < 0.7 else bound(rng, sh[q])), s.append(1)
            else:
                t = step(rng)
                u, v = bound(rng, sh[q]), bound(rng, sh[q])
                if rng.random() < 0.6:
                    u, v = (int(w) for w in rng.integers(0, sh[q] + 1, 2))
                    u, v = (min(u, v), max(u, v)) if t > 0 else (max(u, v), min(u, v))
                b.append(u), e.append(v), s.append(t)
                if rng.random() < 0.2:
                    m["begin_mask"] |= bit
                if rng.random() < 0.2:
                    m["end_mask"] |= bit
        r = rng.random()
        if r < 0.02:
            s[int(rng.integers(len(s)))] = 0
        elif r < 0.04:
            m["ellipsis_mask"] |= 1 << int(rng.integers(len(s)))
        elif r < 0.07:
            b, e, s = b + [0], e + [1], s + [1]
        elif r < 0.08:
            b = b[:-1]
        ps = {"begin": np.array(b, np.int32), "end": np.array(e, np.int32)}
        if any(t != 1 for t in s) or rng.random() < 0.5:
            ps["stride"] = np.array(s, np.int32)
        for k, v in m.items():
            if v or rng.random() < 0.3:
                ps[k] = v
        return ps, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        b, e = p.l("begin"), p.l("end")
        s = p.l("stride", [1] * len(b))
        if not len(b) == len(e) == len(s):
            raise Reject("lengths")
        if len(b) > 7 or a.ndim + len(b) > 8:
            raise Unspecified("more dimensions than a shape holds")
        if not b:
            raise Unspecified("no index")
        mask = {k: p.i(k + "_mask", 0) for k in ("begin", "end", "ellipsis", "new_axis", "shrink_axis")}
        if bin(mask["ellipsis"] & ((1 << len(b)) - 1)).count("1") > 1:
            raise Reject("two ellipses")
        n_index = sum(1 for i in range(len(b)) if not (mask["ellipsis"] | mask["new_axis"]) >> i & 1)
        if n_index > a.ndim:
            raise Reject("too many indices")
        ix, d = [], 0
        strange = False
        for i in range(len(b)):
            bit = lambda k: mask[k] >> i & 1
            if bit("ellipsis"):
                ix.append(Ellipsis)
                d = a.ndim - sum(1 for j in range(i + 1, len(b)) if not mask["new_axis"] >> j & 1)
            elif bit("new_axis"):
                ix.append(None)
                strange |= bool(bit("shrink_axis"))
            elif bit("shrink_axis"):
                k = b[i]
                if not -a.shape[d] <= k < a.shape[d]:
                    raise Reject("index")
                if s[i] <= 0 or bit("begin"):
                    strange = True
                ix.append(k)
                d += 1
            else:
                if s[i] == 0:
                    raise Reject("stride")
                ix.append(slice(None if bit("begin") else b[i], None if bit("end") else e[i], s[i]))
                d += 1
        if strange:
            raise Unspecified("mask combination")
        return mv(x[0], a[tuple(ix)])



# ------------------------------------------------------------------------------------------ gather and scatter
def indices(rng, shape, d, bad=0.05):
    v = rng.integers(0, d, count(shape)).reshape(shape) if d else np.zeros(shape, np.int64)
    if rng.random() < 0.3:
        v = np.where(rng.random(shape) < 0.5, v, v - d)
    if v.size and rng.random() < bad:
        f = v.reshape(-1).copy()
        f[int(rng.integers(f.size))] = int(pick(rng, [d, -d - 1, d + 7, 1 << 30, -(1 << 30)]))
        v = f.reshape(shape)
    return T.of(v.astype(np.int64 if rng.random() < 0.2 else np.int32))


@spec("gather", family="C06", weight=1.5)
class Gather:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 4, maxn=1000)
        ax = int(rng.integers(len(sh)))
        i = indices(rng, rshape(rng, 0, 3, maxn=30), sh[ax])
        ps = {}
        if ax or rng.random() < 0.5:
            ps["axis"] = ax - len(sh) if rng.random() < 0.4 else ax
        if rng.random() < 0.03:
            ps["axis"] = int(pick(rng, [len(sh), -len(sh) - 1]))
        return ps, [fill(rng, mtype(rng), sh), i]

    @staticmethod
    def ref(p, x):
        a, i, ax = x[0].np, x[1].np, p.i("axis", 0)
        if not -a.ndim <= ax < a.ndim:
            raise Reject("axis")
        if i.size and (i.min() < -a.shape[ax] or i.max() >= a.shape[ax]):
            raise Reject("index")
        return mv(x[0], np.take(a, i, axis=ax))


@spec("gather_elements", family="C06", weight=1.5)
class GatherElements:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 4, maxn=1000)
        ax = int(rng.integers(len(sh)))
        ish = list(sh)
        ish[ax] = 1 if rng.random() < 0.4 else int(rng.integers(1, 6))
        if rng.random() < 0.25:
            for k in range(len(sh)):
                if k != ax:
                    ish[k] = int(rng.integers(1, sh[k] + 1))
        r = rng.random()
        if r < 0.04:
            k = int(rng.integers(len(sh)))
            ish[k] = sh[k] + 1
        elif r < 0.06:
            ish = ish + [1]
        i = indices(rng, ish, sh[ax])
        ps = {}
        if ax or rng.random() < 0.5:
            ps["axis"] = ax - len(sh) if rng.random() < 0.4 else ax
        if r > 0.97:
            ps["axis"] = int(pick(rng, [len(sh), -len(sh) - 1]))
        return ps, [fill(rng, mtype(rng), sh), i]

    @staticmethod
    def ref(p, x):
        a, i, ax = x[0].np, x[1].np.astype(np.int64), p.i("axis", 0)
        if not -a.ndim <= ax < a.ndim:
            raise Reject("axis")
        ax %= a.ndim
        if i.ndim != a.ndim or any(u > v for k, (u, v) in enumerate(zip(i.shape, a.shape)) if k != ax):
            raise Reject("shape of the indices")
        if i.size and (i.min() < -a.shape[ax] or i.max() >= a.shape[ax]):
            raise Reject("index")
        v = a[tuple(slice(None) if k == ax else slice(0, i.shape[k]) for k in range(a.ndim))]
        return mv(x[0], np.take_along_axis(v, i, axis=ax))


@spec("gatherv2", family="C06", weight=1.5)
class GatherV2:
    """tf.gather_nd"""
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 4, maxn=1000)
        q = int(rng.integers(1, len(sh) + 1))
        lead = rshape(rng, 0, 2, maxn=12)
        v = np.stack([rng.integers(0, sh[k], count(lead)) for k in range(q)], -1).reshape(lead + [q])
        r = rng.random()
        if v.size and r < 0.08:
            f = v.reshape(-1).copy()
            k = int(rng.integers(f.size))
            f[k] = int(pick(rng, [sh[k % q], -1, -sh[k % q] - 1, 1 << 28]))
            v = f.reshape(v.shape)
        elif r < 0.11:
            v = np.concatenate([v] * 5, -1)
        return {}, [fill(rng, mtype(rng), sh), T.of(v.astype(np.int64 if rng.random() < 0.2 else np.int32))]

    @staticmethod
    def ref(p, x):
        a, i = x[0].np, x[1].np.astype(np.int64)
        if i.ndim < 1 or i.shape[-1] > a.ndim:
            raise Reject("depth")
        q = i.shape[-1]
        neg = False
        for k in range(q):
            if i.size and (i[..., k].min() < -a.shape[k] or i[..., k].max() >= a.shape[k]):
                raise Reject("index")
            neg |= bool((i[..., k] < 0).any())
        r = mv(x[0], a[tuple(i[..., k] for k in range(q))])
        return OrReject(r if isinstance(r, list) else [r]) if neg else r


@spec("scatter_nd", family="C06")
class ScatterND:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 4, maxn=1000)
        k = int(rng.integers(1, sh[0] + 1))
        v = rng.permutation(sh[0])[:k].astype(np.int32)
        if rng.random() < 0.15:
            v = rng.integers(0, sh[0], k).astype(np.int32)
        up = [k] + sh[1:]
        r = rng.random()
        if r < 0.06:
            v[int(rng.integers(k))] = int(pick(rng, [sh[0], -sh[0] - 1, 1 << 20, -(1 << 20)]))
        elif r < 0.08:
            v[int(rng.integers(k))] = -1
        elif r < 0.11:
            up[0] = max(1, k - 1) if k > 1 else 2
        elif r < 0.14 and len(up) > 1:
            up[1] += 1
        ish = [k, 1] if rng.random() < 0.7 else [k]
        dt = mtype(rng)
        x = fill(rng, dt, sh)
        if r > 0.97 and len(sh) > 1:      # two-dimensional index tuples
            i = np.stack([rng.integers(0, sh[0], k), rng.integers(0, sh[1], k)], -1).astype(np.int32)
            return {}, [x, T.of(i), fill(rng, dt, [k] + sh[2:])]
        return {}, [x, T.of(v.reshape(ish)), fill(rng, dt if r < 0.95 else mtype(rng), up)]

    @staticmethod
    def ref(p, x):
        a, i, u = x[0].np.copy(), x[1].np, x[2].np
        if x[1].dt != 5 or x[0].dt != x[2].dt:
            raise Reject("types")
        q = 1 if i.ndim == 1 else i.shape[-1]
        v = i.reshape(-1, q)
        lead = i.shape if i.ndim == 1 else i.shape[:-1]
        if q > a.ndim or u.shape != tuple(lead) + a.shape[q:]:
            raise Reject("updates")
        for k in range(q):
            if v.size and (v[:, k].min() < -a.shape[k] or v[:, k].max() >= a.shape[k]):
                raise Reject("index")
        us = u.reshape((len(v),) + a.shape[q:])
        for t, w in zip(v, us):
            a[tuple(t)] = w
        e = mv(x[0], a)
        return OrReject(e if isinstance(e, list) else [e]) if q > 1 or (v < 0).any() else e


# ------------------------------------------------------------------------------------------ replication
def tile_gen(rng):
    sh = rshape(rng, 0, 4, maxn=300)
    n = int(rng.integers(0, 6)) if rng.random() < 0.4 else len(sh)
    r = [int(rng.integers(1, 4)) for _ in range(n)]
    if n and rng.random() < 0.06:
        r[int(rng.integers(n))] = int(pick(rng, [0, -1]))
    return fill(rng, mtype(rng), sh), r


def tile_ref(x, r):
    if any(k < 0 for k in r):
        raise Reject("negative repeats")
    return mv(x, np.tile(x.np, r) if r else x.np)


@spec("tile", family="C06")
class Tile:
    @staticmethod
    def gen(rng):
        x, r = tile_gen(rng)
        return {"repeats": np.array(r, np.int32)}, [x]

    @staticmethod
    def ref(p, x):
        return tile_ref(x[0], p.l("repeats"))


@spec("tile_v2", family="C06")
class TileV2:
    @staticmethod
    def gen(rng):
        x, r = tile_gen(rng)
        return {}, [x, itensor(rng, r)]

    @staticmethod
    def ref(p, x):
        return tile_ref(x[0], ints(x[1]))


@spec("broadcast", family="C06", weight=2)
class Broadcast:
    @staticmethod
    def gen(rng):
        out = rshape(rng, 0, 5, maxn=1500, ext=[1, 2, 3, 4, 5, 7, 8])
        x = [d if rng.random() < 0.55 else 1 for d in out]
        y = [d if xd == 1 or rng.random() < 0.6 else 1 for d, xd in zip(out, x)]
        if rng.random() < 0.3:
            while x and x[0] == 1 and rng.random() < 0.8:
                x = x[1:]
        elif rng.random() < 0.2:
            while y and y[0] == 1 and rng.random() < 0.8:
                y = y[1:]
        if x and y and rng.random() < 0.04:
            y[int(rng.integers(len(y)))] += 1
        if y and rng.random() < 0.02:
            y[int(rng.integers(len(y)))] = 0
        return {}, [fill(rng, mtype(rng), x), itensor(rng, y)]

    @staticmethod
    def ref(p, x):
        y = ints(x[1])
        if any(d < 0 for d in y):
            raise Unspecified("negative extent")
        try:
            sh = np.broadcast_shapes(x[0].shape, tuple(y))
        except ValueError:
            raise Reject("shapes")
        r = mv(x[0], np.broadcast_to(x[0].np, sh))
        return OrReject(r if isinstance(r, list) else [r]) if 0 in sh else r


# ------------------------------------------------------------------------------------------ blocks
def block_ref(x):
    if len(x.shape) != 4:
        raise Reject("dims")


@spec("space_to_batch4d", family="C06")
class SpaceToBatch:
    @staticmethod
    def gen(rng):
        bh, bw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        N, C = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        H, W = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        pd = [int(v) for v in rng.integers(0, 4, 4)]
        pd[1] += -(H + pd[0] + pd[1]) % bh
        pd[3] += -(W + pd[2] + pd[3]) % bw
        r = rng.random()
        if r < 0.04:
            pd[int(rng.integers(4))] += 1
        elif r < 0.08:
            k = int(rng.integers(4))
            pd[k] -= (bh if k < 2 else bw) * int(rng.integers(1, 4))
        elif r < 0.1:
            bh = int(pick(rng, [0, -1]))
        sh = [N, C, H, W] if r < 0.97 else [C, H, W]
        return {"padding": np.array(pd, np.int32).reshape(2, 2), "block_shape": np.array([bh, bw], np.int32)}, [fill(rng, mtype(rng), sh)]

    @staticmethod
    def ref(p, x):
        block_ref(x[0])
        (t, b, l, r), (bh, bw) = p.l("padding"), p.l("block_shape")
        if bh < 1 or bw < 1 or min(t, b, l, r) < 0:
            raise Reject("parameters")
        a = np.pad(x[0].np, [(0, 0), (0, 0), (t, b), (l, r)])
        N, C, H, W = a.shape
        if H % bh or W % bw:
            raise Reject("not divisible")
        a = a.reshape(N, C, H // bh, bh, W // bw, bw).transpose(3, 5, 0, 1, 2, 4)
        return mv(x[0], a.reshape(N * bh * bw, C, H // bh, W // bw))


@spec("batch_to_space4d", family="C06")
class BatchToSpace:
    @staticmethod
    def gen(rng):
        bh, bw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        N, C = int(rng.integers(1, 4)) * bh * bw, int(rng.integers(1, 4))
        H, W = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        t, l = int(rng.integers(0, H * bh)), int(rng.integers(0, W * bw))
        b, q = int(rng.integers(0, H * bh - t)), int(rng.integers(0, W * bw - l))
        cr = [t, b, l, q]
        r = rng.random()
        if r < 0.04:
            cr[int(rng.integers(4))] += 30
        elif r < 0.08:
            cr[int(rng.integers(4))] = -int(rng.integers(1, 5))
        elif r < 0.12:
            N += 1
        elif r < 0.14:
            bw = 0
        return {"crop": np.array(cr, np.int32).reshape(2, 2), "block_shape": np.array([bh, bw], np.int32)}, \
            [fill(rng, mtype(rng), [N, C, H, W] if r < 0.97 else [N, H, W])]

    @staticmethod
    def ref(p, x):
        block_ref(x[0])
        (t, b, l, r), (bh, bw) = p.l("crop"), p.l("block_shape")
        if bh < 1 or bw < 1 or min(t, b, l, r) < 0:
            raise Reject("parameters")
        N, C, H, W = x[0].shape
        if N % (bh * bw) or H * bh < t + b or W * bw < l + r:
            raise Reject("extents")
        n = N // (bh * bw)
        a = x[0].np.reshape(bh, bw, n, C, H, W).transpose(2, 3, 4, 0, 5, 1).reshape(n, C, H * bh, W * bw)
        r = mv(x[0], a[:, :, t:H * bh - b, l:W * bw - r])
        return r


# ------------------------------------------------------------------------------------------ crops
def window(a, start, size):
    """a[start:start+size] with zeros outside"""
    for d, (s, n) in enumerate(zip(start, size)):
        lo, hi = max(0, s), min(a.shape[d], s + n)
        part = np.take(a, range(lo, max(lo, hi)), axis=d)
        pd = [(0, 0)] * a.ndim
        pd[d] = (min(n, max(0, lo - s)), 0)
        pd[d] = (pd[d][0], n - pd[d][0] - part.shape[d])
        a = np.pad(part, pd)
    return a


def croptype(rng):
    return int(pick(rng, [10, 10, 11, 5, 2, 1, 3, 8, 7, 4, 6]))


@spec("_limit", family="C06")
class Limit:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 5)
        n = int(rng.integers(0, len(sh) + 1)) if rng.random() < 0.95 else len(sh) + 1
        lim = [int(pick(rng, [-1, -1, 1, 2, 3, 4, 6, 9, 20])) for _ in range(n)]
        return {"shape": np.array(lim, np.int32)}, [fill(rng, croptype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, lim = x[0].np, p.l("shape")
        if len(lim) > a.ndim:
            raise Reject("too many extents")
        lim = [-1] * (a.ndim - len(lim)) + lim
        size = [d if k < 0 else min(d, k) for d, k in zip(a.shape, lim)]
        # the odd row of a centred crop may go to either side
        start = [(d - k) // 2 for d, k in zip(a.shape, size)]
        return mv(x[0], window(a, start, size))


@spec("crop_nd", family="C06")
class CropND:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5, maxn=1000)
        size = [max(1, d + int(rng.integers(-3, 4))) if rng.random() < 0.85 else -1 for d in sh]
        ps = {}
        if rng.random() < 0.6:
            ps["shift"] = np.array([int(rng.integers(-3, 4)) for _ in sh], np.int32)
        r = rng.random()
        if r < 0.03:
            size = size[:-1]
        elif r < 0.05 and "shift" in ps:
            ps["shift"] = np.array([0] * (len(sh) + 1), np.int32)
        return ps, [fill(rng, croptype(rng), sh), itensor(rng, size)]

    @staticmethod
    def ref(p, x):
        a, size, shift = x[0].np, ints(x[1]), p.l("shift")
        if len(size) != a.ndim or (shift and len(shift) != a.ndim):
            raise Reject("lengths")
        keep = list(size)
        size = [d if k <= 0 else k for d, k in zip(a.shape, size)]
        if shift:
            start = shift
        else:
            # padding on the front truncates towards zero, as the implementation's division does
            start = [-int((k - d) / 2) for d, k in zip(a.shape, size)]
        if any(s >= d or s + n <= 0 for s, n, d in zip(start, size, a.shape)):
            raise Unspecified("no overlap")
        return mv(x[0], window(a, start, size))


@spec("crop_to", family="C06")
class CropTo:
    @staticmethod
    def gen(rng):
        n = int(rng.integers(1, 6)) if rng.random() < 0.4 else 4
        sh = [int(pick(rng, [1, 2, 3, 4, 5, 6])) for _ in range(n)]
        ysh = [int(rng.integers(1, d + 1)) for d in sh]
        ps = {}
        ax = int(rng.integers(-n, n)) if rng.random() < 0.7 else None
        if ax is not None:
            ps["axis"] = ax
        a = 2 if ax is None else ax % n
        if rng.random() < 0.7 and a < n:
            ps["offset"] = np.array([int(rng.integers(0, sh[k] - ysh[k] + 1)) for k in range(a, n)], np.int32)
        r = rng.random()
        if r < 0.03:
            ps["axis"] = int(pick(rng, [n, -n - 1]))
        elif r < 0.06:
            ysh = ysh[:-1]
        elif r < 0.09 and "offset" in ps:
            ps["offset"] = np.array([0] * (n + 1), np.int32)
        elif r < 0.12 and "offset" in ps:
            o = np.array(ps["offset"])
            o[int(rng.integers(o.size))] += int(pick(rng, [1, -1, 8]))
            ps["offset"] = o
        return ps, [fill(rng, croptype(rng), sh), fill(rng, croptype(rng), ysh)]

    @staticmethod
    def ref(p, x):
        a, y, ax, off = x[0].np, x[1].shape, p.i("axis", 2), p.l("offset")
        n = a.ndim
        if len(y) != n or not -n <= ax < n:
            raise Reject("dims")
        ax %= n
        if off and len(off) != n - ax:
            raise Reject("offset")
        start = [0] * ax + (off or [0] * (n - ax))
        size = list(a.shape[:ax]) + list(y[ax:])
        if any(s < 0 or s + k > d for s, k, d in zip(start, size, a.shape)):
            raise Unspecified("outside the input")
        return mv(x[0], window(a, start, size))


# ------------------------------------------------------------------------------------------ shapes and generators
@spec("_shape", family="C06", weight=0.4)
class ShapeOf:
    @staticmethod
    def gen(rng):
        return {}, [fill(rng, mtype(rng), rshape(rng, 0, 6, zero=0.05))]

    @staticmethod
    def ref(p, x):
        return Exp(np.array(x[0].shape, np.int32).reshape(len(x[0].shape)), 5)


@spec("_dims", family="C06", weight=0.4)
class DimsOf:
    gen = ShapeOf.gen

    @staticmethod
    def ref(p, x):
        return Exp(np.array(len(x[0].shape), np.int32), 5)


@spec("_copy", family="C06", weight=0.4)
class Copy:
    gen = ShapeOf.gen

    @staticmethod
    def ref(p, x):
        return mv(x[0], x[0].np)


@spec("range", family="C06", weight=1.5)
class Range:
    @staticmethod
    def gen(rng):
        dt = int(pick(rng, NUM))
        t = np.dtype(NP[dt])
        if t.kind == "u":
            s, d = int(rng.integers(0, 60)), int(rng.integers(1, 9))
            l = int(rng.integers(0, 120))
        else:
            s, l, d = int(rng.integers(-60, 60)), int(rng.integers(-60, 60)), int(rng.integers(-8, 9))
            if d and (l - s) * d < 0 and rng.random() < 0.8:
                s, l = l, s
        if rng.random() < 0.03:
            d = 0
        f = [s, l, d]
        if t.kind == "f" and rng.random() < 0.5:
            f = [s / 4, l / 4, d / 8]
        sh = [() if rng.random() < 0.6 else (1,) for _ in f]
        dts = [dt] * 3
        r = rng.random()
        if r < 0.03:
            dts[int(rng.integers(3))] = int(pick(rng, NUM))
        if r > 0.98:
            return {}, [T.of(np.array([f[0]] * 2).astype(t), dt), T.of(np.array(f[1]).astype(t), dt), T.of(np.array(f[2]).astype(t), dt)]
        return {}, [T.of(np.array(v).astype(np.int64 if NP[q] != t and np.dtype(NP[q]).kind != "f" else np.float64).astype(NP[q]).reshape(h), q)
                    for v, h, q in zip(f, sh, dts)]

    @staticmethod
    def ref(p, x):
        if any(count(v.shape) != 1 for v in x):
            raise Reject("not scalars")
        if len({v.dt for v in x}) != 1:
            raise Unspecified("different types")
        s, l, d = (v.np.reshape(-1)[0].item() for v in x)
        if d == 0:
            raise Reject("zero delta")
        n = max(0, int(np.ceil((l - s) / d)))
        e = Exp(np.array([s + i * d for i in range(n)], NP[x[0].dt]).reshape(n), x[0].dt)
        return OrReject([e]) if n == 0 else e


@spec("constant_of_shape", family="C06")
class ConstantOfShape:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 0, 5, zero=0.05)
        ps = {}
        if rng.random() < 0.75:
            dt = mtype(rng)
            v = fill(rng, dt, ())
            ps["value"] = T(v.dt, (1,) if rng.random() < 0.5 else (), v.raw)
        r = rng.random()
        if sh and r < 0.04:
            sh[int(rng.integers(len(sh)))] = -1
        if r > 0.97:
            ps["value"] = T(10, (0,), b"")
        elif r > 0.95:
            ps["value"] = fill(rng, 10, (2,))
        return ps, [itensor(rng, sh)]

    @staticmethod
    def ref(p, x):
        sh = ints(x[0])
        v = p.get("value", T.of(np.float32(0)))
        if count(v.shape) != 1:
            raise Reject("value is not a single element") if count(v.shape) == 0 and count(sh) else Unspecified("value")
        if any(d < 0 for d in sh):
            raise Reject("negative extent")
        return Exp(np.full(sh, v.np.reshape(-1)[0], dtype=NP[v.dt]), v.dt, bits=True)
