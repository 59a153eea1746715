"""Matrix products, recurrence, reductions and ranking."""
import numpy as np
from opspec import *
from ops.unary import ftype, tol

DIM = [1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33]


def mm(a, b):
    """product in double and the bound on its rounding"""
    return a.astype(np.float64) @ b.astype(np.float64), np.abs(a).astype(np.float64) @ np.abs(b).astype(np.float64)


def near(v, bound, dt, k=4.0, n=1):
    return Exp(v.astype(NP[dt]), dt, atol=np.asarray(bound) * tol(dt, k) * max(1.0, n) ** 0.5 + 1e-44)


@spec("gemm", family="C05", weight=2)
class Gemm:
    @staticmethod
    def gen(rng):
        dt = ftype(rng)
        M, K, N = (int(pick(rng, DIM)) for _ in range(3))
        if rng.random() < 0.05:
            K = int(pick(rng, [100, 127, 130]))
        ta, tb = rng.random() < 0.5, rng.random() < 0.5
        a = rvals(rng, dt, (K, M) if ta else (M, K), special=False)
        b = rvals(rng, dt, (N, K) if tb else (K, N), special=False)
        csh = pick(rng, [[M, N], [1, N], [M, 1], [1, 1], [N], [1], []])
        r = rng.random()
        if r < 0.03:
            csh = [M + 1, N] if M > 0 else csh
        elif r < 0.05:
            b = b[:, :-1] if b.shape[1] > 1 else b
        elif r < 0.06:
            b = b.reshape(-1)
        elif r < 0.07:
            csh = [1] + csh
        c = rvals(rng, dt, csh, special=False)
        ps = {}
        for k in ("alpha", "beta"):
            if rng.random() < 0.5:
                ps[k] = float(pick(rng, [1.0, 0.0, 0.5, -2.0, 1.5]))
        if ta or rng.random() < 0.3:
            ps["transA"] = T.of(bool(ta)) if rng.random() < 0.5 else np.int32(ta)
        if tb or rng.random() < 0.3:
            ps["transB"] = T.of(bool(tb)) if rng.random() < 0.5 else np.int32(tb)
        return ps, [a, b, c]

    @staticmethod
    def ref(p, x):
        a, b, c = x
        if len(a.shape) != 2 or len(b.shape) != 2 or len(c.shape) > 2:
            raise Reject("dims")
        A = a.np.T if p.b("transA") else a.np
        B = b.np.T if p.b("transB") else b.np
        if A.shape[1] != B.shape[0] or a.dt != b.dt:
            raise Reject("inner extent")
        al, be = p.f("alpha", 1.0), p.f("beta", 1.0)
        try:
            C = np.broadcast_to(c.np, (A.shape[0], B.shape[1])).astype(np.float64)
        except ValueError:
            raise Reject("bias shape")
        if a.dt not in FLT:
            raise Reject("type")
        v, t = mm(A, B)
        return near(al * v + be * C, abs(al) * t + np.abs(be * C), a.dt, n=A.shape[1])


@spec("inner_prod", family="C05", weight=2)
class InnerProd:
    @staticmethod
    def gen(rng):
        dt = ftype(rng)
        M, K, N = (int(pick(rng, DIM)) for _ in range(3))
        tr = rng.random() < 0.5
        a = rvals(rng, dt, (M, K), special=False)
        m = rng.random()
        if m < 0.3 and K % 2 == 0:
            a = a.reshape(M, 2, K // 2)
        elif m < 0.4:
            a = a.reshape(M, K, 1, 1)
        elif m < 0.5 and K == 1:
            a = a.reshape(M)
        b = rvals(rng, dt, (N, K) if tr else (K, N), special=False)
        r = rng.random()
        if r < 0.03:
            b = np.concatenate([b, b], axis=1 if tr else 0)
        elif r < 0.04:
            b = b.reshape(1, *b.shape)
        elif r < 0.05:
            a = a.reshape(-1)[0]
        elif r < 0.06:
            a = a.astype(np.int32)
            b = b.astype(np.int32)
        return ({"transpose": T.of(bool(tr))} if tr or rng.random() < 0.4 else {}), [a, b]

    @staticmethod
    def ref(p, x):
        a, b = x
        if len(a.shape) == 0 or len(b.shape) != 2 or a.dt != b.dt:
            raise Reject("dims or type")
        A = a.np.reshape(a.shape[0], -1)
        B = b.np.T if p.b("transpose") else b.np
        if A.shape[1] != B.shape[0]:
            raise Reject("inner extent")
        if a.dt not in FLT:
            raise Reject("type")
        v, t = mm(A, B)
        return near(v, t, a.dt, n=A.shape[1])


@spec("matmul", family="C05")
class MatMul:
    @staticmethod
    def gen(rng):
        dt = ftype(rng)
        M, K, N = (int(pick(rng, DIM)) for _ in range(3))
        a, b = rvals(rng, dt, (M, K), special=False), rvals(rng, dt, (K, N), special=False)
        m = rng.random()
        if m < 0.2:
            a, b = a[None, None], b[None, None]
        elif m < 0.4:
            a = np.stack([a, -a]) if m < 0.3 else np.stack([a, a, -a])[None]
        elif m < 0.45:
            a = a[0]
        elif m < 0.47:
            b = b[:, 0]
        elif m < 0.49:
            b = np.concatenate([b, b])
        elif m < 0.51:
            b = b[None]
        elif m < 0.53:
            a, b = np.stack([a, a])[None], np.stack([b, b])[None]
        elif m < 0.55:
            b = b[None, None]
        return {}, [a, b]

    @staticmethod
    def ref(p, x):
        a, b = x
        A, B = a.np, b.np
        if A.ndim == 0 or B.ndim == 0:
            raise Reject("scalar")
        try:
            v, t = mm(A, B)
        except ValueError:
            raise Reject("extents")
        if v.ndim == 0:
            raise Unspecified("vectors")
        e = near(v, t, a.dt, n=A.shape[-1])
        plain = B.ndim == 2 or (A.ndim == 4 and B.ndim == 4 and A.shape[:2] == (1, 1) and B.shape[:2] == (1, 1))
        return [e] if plain else OrReject([e])


def lstm_ref(x, w, r, b, h, c, hs, rev):
    n = x.shape[0]
    wi, wo, wf, wc = (w[i * hs:(i + 1) * hs] for i in range(4))
    ri, ro, rf, rc = (r[i * hs:(i + 1) * hs] for i in range(4))
    bi, bo, bf, bc = (b[i * hs:(i + 1) * hs] + b[(i + 4) * hs:(i + 5) * hs] for i in range(4))
    s = lambda v: 1 / (1 + np.exp(-v))
    ys = np.zeros((n,) + h.shape)
    for k in range(n):
        t = n - 1 - k if rev else k
        i = s(x[t] @ wi.T + h @ ri.T + bi)
        o = s(x[t] @ wo.T + h @ ro.T + bo)
        f = s(x[t] @ wf.T + h @ rf.T + bf)
        g = np.tanh(x[t] @ wc.T + h @ rc.T + bc)
        c = f * c + i * g
        h = o * np.tanh(c)
        ys[t] = h
    return ys, h, c


@spec("LSTM", family="C05", weight=0.6)
class LSTM:
    @staticmethod
    def gen(rng):
        dt = 10 if rng.random() < 0.85 else 11
        d = pick(rng, ["forward", "reverse", "bidirectional"])
        D = 2 if d == "bidirectional" else 1
        S, B, I, H = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 10)), int(rng.integers(1, 9))
        f = lambda *sh: rng.normal(0, 0.7, sh).astype(NP[dt])
        ins = [f(S, B, I), f(D, 4 * H, I), f(D, 4 * H, H), f(D, 8 * H), f(D, B, H), f(D, B, H)]
        if dt == 10:
            for k in (4, 5):
                if rng.random() < 0.3:
                    ins[k] = np.zeros(0, np.float32) if rng.random() < 0.5 else np.zeros((), np.float32)
        m = rng.random()
        if m < 0.02:
            ins[1] = ins[1][:, :-1]
        elif m < 0.04:
            ins[3] = ins[3][:, :-1]
        elif m < 0.06:
            ins[2] = ins[2][:, :, :-1]
        return {"direction": d, "hidden_size": np.int32(H)}, ins

    @staticmethod
    def ref(p, x):
        d, H = p.s("direction"), p.i("hidden_size")
        X, W, R, B = (t.np.astype(np.float64) for t in x[:4])
        D = 2 if d == "bidirectional" else 1
        if W.shape != (D, 4 * H, X.shape[2]) or R.shape != (D, 4 * H, H) or B.shape != (D, 8 * H):
            raise Reject("weight shapes")
        init = []
        for t in x[4:]:
            init.append(t.np.astype(np.float64) if len(t.shape) == 3 else np.zeros((D, X.shape[1], H)))
        ys, hs, cs = [], [], []
        for k in range(D):
            y, h, c = lstm_ref(X, W[k], R[k], B[k], init[0][k], init[1][k], H, d == "reverse" or k == 1)
            ys.append(y), hs.append(h), cs.append(c)
        dt = x[0].dt
        at = 2e-5 if dt == 10 else 1e-6
        e = lambda v: Exp(v.astype(NP[dt]), dt, atol=at)
        return [e(np.stack(ys, 1)), e(np.stack(hs)), Exp(np.stack(cs).astype(NP[dt]), dt, atol=at * 4)]


def red_in(rng, ints=True):
    dt = pick(rng, [10, 10, 10, 11] + ([1, 2, 3, 4, 5, 5, 6, 7, 8] if ints else []))
    sh = rshape(rng, 1, 5)
    if dt in FLT:
        return T.of(rvals(rng, dt, sh, special=False)), sh
    return T.of(rvals(rng, dt, sh, mag=100 if dt < 5 or rng.random() < 0.5 else 100000), dt), sh


def axis_of(rng, n):
    d = int(rng.integers(n))
    if rng.random() < 0.03:
        return pick(rng, [n, -n - 1])
    return d - n if rng.random() < 0.4 else d


def reduce_ref(x, dims, keep, mean):
    v = x.np
    n = v.ndim
    if not dims or any(d < -n or d >= n for d in dims):
        raise Reject("axis")
    dims = [d % n for d in dims]
    run = all(b == a + 1 for a, b in zip(dims, dims[1:]))
    ax = tuple(sorted(set(dims)))
    if len(ax) != len(dims):
        raise Reject("repeated axis")
    m = int(np.prod([v.shape[a] for a in ax]))
    if x.dt in FLT:
        s = v.astype(np.float64).sum(axis=ax, keepdims=keep)
        t = np.abs(v.astype(np.float64)).sum(axis=ax, keepdims=keep)
        e = near(s / m if mean else s, t / m if mean else t, x.dt, n=m)
    else:
        s = v.astype(np.int64).sum(axis=ax, keepdims=keep)
        i = np.iinfo(v.dtype)
        mask = (s >= i.min) & (s <= i.max)
        if mean:
            s = np.where(s < 0, -(-s // m), s // m)
        e = Exp(s.astype(v.dtype), x.dt, mask=np.asarray(mask))
    return [e] if run else OrReject([e])


@spec("reduce_sum", family="C05")
class ReduceSum:
    @staticmethod
    def gen(rng):
        x, sh = red_in(rng)
        ps = {"dims": np.int32(axis_of(rng, len(sh)))}
        if rng.random() < 0.6:
            ps["keep_dims"] = T.of(rng.random() < 0.5)
        return ps, [x]

    @staticmethod
    def ref(p, x):
        return reduce_ref(x[0], p.l("dims"), p.b("keep_dims", True), False)


@spec("reduce_mean", family="C05", weight=1.5)
class ReduceMean:
    @staticmethod
    def gen(rng):
        x, sh = red_in(rng)
        n = len(sh)
        if rng.random() < 0.4:
            d = np.int32(axis_of(rng, n))
        else:
            a = int(rng.integers(n))
            b = int(rng.integers(a, n))
            d = [k - n if rng.random() < 0.3 else k for k in range(a, b + 1)]
            m = rng.random()
            if m < 0.04:
                d = d + [n]
            elif m < 0.08:
                d = d[::-1]
            elif m < 0.1:
                d = [0, n - 1]
            elif m < 0.12:
                d = [-1, 0]
            d = np.array(d, pick(rng, [np.int32, np.int32, np.int64]))
        ps = {"dims": d}
        if rng.random() < 0.6:
            ps["keep_dims"] = T.of(rng.random() < 0.5)
        return ps, [x]

    @staticmethod
    def ref(p, x):
        return reduce_ref(x[0], p.l("dims"), p.b("keep_dims", True), True)


@spec("max", family="C05")
class Max:
    @staticmethod
    def gen(rng):
        x, sh = red_in(rng)
        ps = {"dim": np.int32(axis_of(rng, len(sh)))}
        if rng.random() < 0.6:
            ps["keep_dims"] = np.int32(rng.integers(0, 2))
        return ps, [x]

    @staticmethod
    def ref(p, x):
        x, d = x[0], p.i("dim")
        n = len(x.shape)
        if d < -n or d >= n:
            raise Reject("axis")
        return Exp(x.np.max(axis=d, keepdims=p.b("keep_dims", True)), x.dt)


def tied(rng, x):
    """few distinct values, so that ties are common"""
    if rng.random() < 0.5:
        v = x.np
        if x.dt in (5, 6, 7, 8, 11) and rng.random() < 0.6:
            # values no narrower type tells apart
            base = int(pick(rng, [1 << 24, -(1 << 24), (1 << 31) - 4, 1 << 16] + ([1 << 53, -(1 << 53), 1 << 62] if x.dt in (7, 8) else [])))
            if x.dt in (6, 8):
                base = abs(base)
            k = np.floor(np.abs(v)).astype(np.int64) % 3
            return T.of(base * (1 + k * 2.0 ** -40) if x.dt == 11 else (np.int64(base) + k).astype(v.dtype), x.dt)
        return T.of((np.round(np.clip(v, -2, 2)) if x.dt in FLT else v % 3).astype(v.dtype), x.dt)
    return x


@spec("argmax", family="C05")
class ArgMax:
    @staticmethod
    def gen(rng):
        x, sh = red_in(rng)
        return {"dim": np.int32(axis_of(rng, len(sh)))}, [tied(rng, x)]

    @staticmethod
    def ref(p, x):
        x, d = x[0], p.i("dim")
        n = len(x.shape)
        if d < -n or d >= n:
            raise Reject("axis")
        d %= n
        v = x.np
        m = v.max(axis=d)

        def f(g, _):
            if ((g < 0) | (g >= v.shape[d])).any():
                return "index out of range"
            got = np.take_along_axis(v, np.expand_dims(g.astype(np.int64), d), d).reshape(m.shape)
            return None if np.array_equal(got, m) else "index of an element that is not maximal"
        return Pred(5, m.shape, f)


@spec("topkv2", family="C05", weight=1.5)
class TopK:
    @staticmethod
    def gen(rng):
        x, sh = red_in(rng)
        if rng.random() < 0.05:
            x, sh = T.of(np.array(1.5, np.float32)), [1]
        k = int(rng.integers(1, sh[-1] + 3))
        if rng.random() < 0.03:
            k = pick(rng, [-1, -5])
        ps = {"number": np.int32(k)}
        if rng.random() < 0.7:
            ps["sorted"] = np.int32(rng.integers(0, 2))
        return ps, [tied(rng, x)]

    @staticmethod
    def ref(p, x):
        x, k = x[0], p.i("number")
        v = x.np
        if k < 0:
            raise (Reject if v.ndim else Unspecified)("negative number")
        if v.ndim == 0:
            return [Exp(v, x.dt), Exp(np.zeros((), np.int32), 5)]
        k = min(k, v.shape[-1])
        want = -np.sort(-v.astype(np.float64), axis=-1)[..., :k] if x.dt in FLT else np.sort(v, axis=-1)[..., ::-1][..., :k]
        srt = bool(p.i("sorted", 0))

        def fv(g, _):
            h = np.sort(g, axis=-1)[..., ::-1] if not srt else g
            return None if np.array_equal(h, want.astype(v.dtype)) else "values are not the largest ones" + (" in descending order" if srt else "")

        def fi(g, al):
            if ((g < 0) | (g >= v.shape[-1])).any():
                return "index out of range"
            if not np.array_equal(np.take_along_axis(v, g.astype(np.int64), -1), al[0]):
                return "index does not address its value"
            s = np.sort(g, axis=-1)
            return None if (s[..., 1:] != s[..., :-1]).all() else "an index appears twice"
        return [Pred(x.dt, want.shape, fv), Pred(5, want.shape, fi)]
