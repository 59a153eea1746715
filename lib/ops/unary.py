"""Element-wise functions, activations and normalisations."""
import math
import numpy as np
from opspec import *

F32EPS = 1.2e-7


def ftype(rng):
    return pick(rng, [10, 10, 10, 11])


def tol(dt, k=8):
    return (F32EPS if dt == 10 else 2.3e-16) * k


def unary(name, f, lo=None, hi=None, ints=(), k=16, big=True, abs_tol=0.0, op=None):
    class U:
        @staticmethod
        def gen(rng):
            dt = ftype(rng) if not ints or rng.random() < 0.7 else pick(rng, ints)
            sh = rshape(rng, 0, 5, zero=0.02)
            if dt in INTS:
                x = rvals(rng, dt, sh, mag=100 if dt not in (1, 2) else 11)
            elif lo is not None:
                x = rvals(rng, dt, sh, lo=lo, hi=hi)
            else:
                x = rvals(rng, dt, sh, special=big)
                if x.size and rng.random() < 0.2:
                    x.reshape(-1)[int(rng.integers(x.size))] = pick(rng, [0.0, -0.0, 1.0, -1.0, 1e-40, 3e38 if big else 30.0])
            return {}, [T.of(x, dt)]

        @staticmethod
        def ref(p, x):
            x = x[0]
            if x.dt in INTS:
                if x.dt not in ints:
                    raise Unspecified("type")
                return Exp(f(x.np.astype(np.int64)).astype(NP[x.dt]), x.dt)
            if x.dt not in FLT:
                raise Unspecified("type")
            v = f(x.np.astype(np.float64))
            return Exp(v.astype(NP[x.dt]), x.dt, rtol=tol(x.dt, k), atol=abs_tol * (1 if x.dt == 10 else 1e-8) + 1e-44)
    spec(name, op=op, family="C02")(U)


_erf = np.vectorize(math.erf, otypes=[np.float64])
unary("relu", lambda x: np.maximum(x, 0), ints=INTS)
unary("sigmoid", lambda x: 1 / (1 + np.exp(-x)), lo=-30, hi=30)
unary("tanh", np.tanh, lo=-12, hi=12, k=32, abs_tol=4e-7)
unary("exp", np.exp, lo=-60, hi=60, k=64)
unary("abs", np.abs, ints=[1, 3, 5, 7])
unary("sqrt", np.sqrt, lo=0, hi=1e4)
unary("rsqrt", lambda x: 1 / np.sqrt(x), lo=1e-3, hi=1e4)
unary("square", lambda x: x * x, ints=[5, 6, 7, 8])
unary("ceil", np.ceil)
unary("floor", np.floor)
unary("erf", lambda x: _erf(x) if np.size(x) else x, lo=-4, hi=4, abs_tol=1e-6)
unary("softplus", lambda x: np.log1p(np.exp(x)), lo=-10, hi=60, abs_tol=2e-7)


@spec("relu_max", family="C02")
class ReluMax:
    @staticmethod
    def gen(rng):
        dt = ftype(rng) if rng.random() < 0.8 else 5
        return {"max": float(pick(rng, [0.0, 1.0, 6.0, 20.0, 0.5]))}, [rt(rng, dt, rshape(rng, 0, 5), **({"mag": 50} if dt == 5 else {}))]

    @staticmethod
    def ref(p, x):
        if x[0].dt not in FLT and x[0].dt not in INTS:
            raise Unspecified("")
        m = NP[x[0].dt](p.f("max"))
        return Exp(np.minimum(np.maximum(x[0].np, NP[x[0].dt](0)), m), x[0].dt)


@spec("leaky_relu", family="C02")
class LeakyRelu:
    @staticmethod
    def gen(rng):
        return {"scale": float(pick(rng, [0.0, 0.1, 0.01, 1.0, 0.3, 2.0, -0.5]))}, [rt(rng, ftype(rng), rshape(rng, 0, 5))]

    @staticmethod
    def ref(p, x):
        s = np.float32(p.f("scale"))
        v = x[0].np.astype(np.float64)
        return Exp(np.where(v > 0, v, v * float(s)).astype(NP[x[0].dt]), rtol=tol(x[0].dt, 4), atol=1e-44)


@spec("hard_sigmoid", family="C02")
class HardSigmoid:
    @staticmethod
    def gen(rng):
        p = {}
        if rng.random() < 0.7:
            p["alpha"] = float(pick(rng, [0.2, 0.1666666, 1.0, 0.01]))
        if rng.random() < 0.7:
            p["beta"] = float(pick(rng, [0.5, 0.0, 0.3]))
        return p, [rt(rng, ftype(rng), rshape(rng, 0, 5), special=False)]

    @staticmethod
    def ref(p, x):
        a, b = np.float32(p.f("alpha", 0.2)), np.float32(p.f("beta", 0.5))
        v = x[0].np.astype(np.float64) * float(a) + float(b)
        return Exp(np.clip(v, 0, 1).astype(NP[x[0].dt]), atol=1e-6)


def dimshape(rng, lo=1, hi=5):
    sh = rshape(rng, lo, hi, maxn=2500)
    return sh, int(rng.integers(len(sh)))


def bc(v, sh, dim):
    return v.reshape([-1 if i == dim else 1 for i in range(len(sh))])


def mis(rng, n, p=0.03):
    return n + 1 if rng.random() < p else n


@spec("prelu", family="C02")
class PRelu:
    @staticmethod
    def gen(rng):
        sh, d = dimshape(rng)
        dt = ftype(rng)
        return {"dim": d}, [rt(rng, dt, sh), rt(rng, dt, [mis(rng, sh[d])], special=False)]

    @staticmethod
    def ref(p, x):
        a, s = x
        d = p.i("dim")
        if s.shape != (a.shape[d],):
            raise Reject("slope shape")
        v = a.np.astype(np.float64)
        return Exp(np.where(v > 0, v, v * bc(s.np.astype(np.float64), a.shape, d)).astype(NP[a.dt]), rtol=tol(a.dt, 4), atol=1e-44)


@spec("softmax", family="C02", weight=1.5)
class Softmax:
    @staticmethod
    def gen(rng):
        sh, d = dimshape(rng)
        dt = ftype(rng)
        p = {"dim": d if rng.random() < 0.6 else d - len(sh)}
        if rng.random() < 0.03:
            p["dim"] = pick(rng, [len(sh), -len(sh) - 1])
        smooth = rng.random() < 0.7
        if not smooth or rng.random() < 0.5:
            p["smooth"] = T.of(smooth)
        k = pick(rng, [1.0, 3.0, 10.0] + ([300.0, 1e4] if smooth else []))
        return p, [T.of((rng.normal(0, k, sh)).astype(NP[dt]), dt)]

    @staticmethod
    def ref(p, x):
        v = x[0].np.astype(np.float64)
        d = p.i("dim")
        if not -v.ndim <= d < v.ndim:
            raise Reject("dim")
        if v.size == 0:
            raise Unspecified("empty")
        e = np.exp(v - v.max(axis=d, keepdims=True))
        o = e / e.sum(axis=d, keepdims=True)
        # exp has a relative error growing with its argument
        return Exp(o.astype(NP[x[0].dt]), atol=3e-7 if x[0].dt == 10 else 1e-14, rtol=3e-5 if x[0].dt == 10 else 1e-12)


@spec("add_bias", family="C02")
class AddBias:
    @staticmethod
    def gen(rng):
        sh, d = dimshape(rng)
        dt = ftype(rng) if rng.random() < 0.8 else 5
        kw = {} if dt != 5 else {"mag": 1000}
        p = {"dim": d}
        if len(sh) == 4 and rng.random() < 0.4:
            f = pick(rng, ["NCHW", "NHWC"])
            p = {"format": S(f)}
            d = f.index("C")
        return p, [rt(rng, dt, sh, **kw), rt(rng, dt, [mis(rng, sh[d])], **kw)]

    @staticmethod
    def ref(p, x):
        a, b = x
        d = p.i("dim") if "dim" in p else p.s("format").index("C")
        if b.shape != (a.shape[d],):
            raise Reject("bias shape")
        return Exp(a.np + bc(b.np, a.shape, d))


def bn_inputs(rng, n):
    sh, d = dimshape(rng)
    dt = ftype(rng)
    c = mis(rng, sh[d])
    return d, dt, [rt(rng, dt, sh, special=False)], c


@spec("batch_norm", family="C02")
class BatchNorm:
    @staticmethod
    def gen(rng):
        d, dt, x, c = bn_inputs(rng, 3)
        p = {"dim": d}
        if rng.random() < 0.7:
            p["epsilon"] = float(pick(rng, [1e-5, 1e-3, 0.1, 0.0]))
        return p, x + [rt(rng, dt, [c], special=False), rt(rng, dt, [c], lo=0.05, hi=4)]

    @staticmethod
    def ref(p, x):
        a, m, v = x[0], x[1], x[2]
        d = p.i("dim")
        if m.shape != (a.shape[d],):
            raise Reject("mean shape")
        eps = float(np.float32(p.f("epsilon", 1e-5)))
        f = lambda t: bc(t.np.astype(np.float64), a.shape, d)
        r = 1 / np.sqrt(f(v) + eps)
        o = (a.np - f(m)) * r
        mag = (np.abs(a.np) + np.abs(f(m))) * r
        if len(x) == 5:
            o = o * f(x[3]) + f(x[4])
            mag = mag * np.abs(f(x[3])) + np.abs(f(x[4]))
        return Exp(o.astype(NP[a.dt]), atol=mag * tol(a.dt, 16))


@spec("fused_batch_norm", family="C02")
class FusedBatchNorm:
    @staticmethod
    def gen(rng):
        p, x = BatchNorm.gen(rng)
        c = list(x[1].shape)
        return p, x + [rt(rng, x[0].dt, c, special=False), rt(rng, x[0].dt, c, special=False)]
    ref = BatchNorm.ref


@spec("batch_scale", family="C02")
class BatchScale:
    @staticmethod
    def gen(rng):
        d, dt, x, c = bn_inputs(rng, 3)
        return {"dim": d}, x + [rt(rng, dt, [c], special=False), rt(rng, dt, [c], special=False)]

    @staticmethod
    def ref(p, x):
        a, s, b = x
        d = p.i("dim")
        if s.shape != (a.shape[d],):
            raise Reject("scale shape")
        f = lambda t: bc(t.np.astype(np.float64), a.shape, d)
        o = a.np * f(s) + f(b)
        return Exp(o.astype(NP[a.dt]), atol=(np.abs(a.np * f(s)) + np.abs(f(b))) * tol(a.dt, 4))


@spec("l2_norm", family="C02")
class L2Norm:
    @staticmethod
    def gen(rng):
        sh, d = dimshape(rng)
        p = {}
        if rng.random() < 0.8:
            p["dim"] = d if rng.random() < 0.6 else d - len(sh)
        if rng.random() < 0.4:
            p["epsilon"] = float(pick(rng, [1e-10, 1e-3, 1.0]))
        return p, [rt(rng, ftype(rng), sh, special=False)]

    @staticmethod
    def ref(p, x):
        v = x[0].np.astype(np.float64)
        o = v / np.sqrt((v * v).sum(axis=p.i("dim", -1), keepdims=True) + float(np.float32(p.f("epsilon", 1e-10))))
        return Exp(o.astype(NP[x[0].dt]), rtol=tol(x[0].dt, 400), atol=1e-30)


def whiten(name, f):
    @spec(name, family="C02")
    class W:
        @staticmethod
        def gen(rng):
            sh = rshape(rng, 1, 5)
            p = {}
            if name == "norm_image" and rng.random() < 0.5:
                p["epsilon"] = float(pick(rng, [1e-5, 1e-2, 1.0]))
            dt = ftype(rng)
            x = rng.normal(rng.normal(0, 3), pick(rng, [0.1, 1, 50]), sh) if rng.random() < 0.8 else np.full(sh, 2.0)
            return p, [T.of(x.astype(NP[dt]), dt)]

        @staticmethod
        def ref(p, x):
            a = x[0].np.astype(np.float64)
            v = a.reshape(a.shape[0], -1)
            m = v.mean(axis=1, keepdims=True)
            s = np.sqrt(((v - m) ** 2).mean(axis=1, keepdims=True))
            o = f(p, v, m, s)
            # the mean is only as exact as the largest element allows
            mag = (np.abs(v) + np.abs(m) + np.abs(v).max(axis=1, keepdims=True, initial=0) * 0.3) * f(p, np.zeros_like(v) + m + 1.0, m, s)
            e = tol(x[0].dt, 8) * (1 if x[0].dt == 10 else 30)
            return Exp(o.reshape(a.shape).astype(NP[x[0].dt]), atol=(mag * e).reshape(a.shape) + 1e-30)


whiten("prewhiten", lambda p, v, m, s: (v - m) / np.maximum(s, 1 / math.sqrt(v.shape[1])))
whiten("norm_image", lambda p, v, m, s: (v - m) / (s + float(np.float32(p.f("epsilon", 1e-5)))))
