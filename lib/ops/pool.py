"""Pooling, padding and the front ends' automatic paddings."""
import math
import numpy as np
from opspec import *
from ops.unary import ftype, tol

BLACK, COPY, LOOP, WHITE = 0, 1, 2, 3


def nd(fmt, h, w, d):
    """4-vector of a format from its spatial part"""
    return [d, d, h, w] if fmt == "NCHW" else [d, h, w, d]


def pads(fmt, t, b, l, r):
    z = [0, 0]
    return np.array([z, z, [t, b], [l, r]] if fmt == "NCHW" else [z, [t, b], [l, r], z], np.int32)


def geometry(rng):
    """ksize, stride, padding and image extents; small images and wide paddings included"""
    m = rng.random()
    if m < 0.3:      # geometries with specialised kernels
        k = int(pick(rng, [2, 3]))
        ks, st = (k, k), (2, 2)
        pd = [int(rng.integers(0, 2)) for _ in range(4)]
    else:
        ks = (int(rng.integers(1, 6)), int(rng.integers(1, 6)))
        st = (int(rng.integers(1, 5)), int(rng.integers(1, 5)))
        pd = [int(rng.integers(0, 4)) if rng.random() < 0.6 else 0 for _ in range(4)]
        if rng.random() < 0.1:
            pd[int(rng.integers(4))] -= int(rng.integers(1, 3))
    H = int(pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 18, 19, 20, 25]))
    W = int(pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 17, 18, 19, 20, 25, 35]))
    H, W = max(H, ks[0] - pd[0] - pd[1]), max(W, ks[1] - pd[2] - pd[3])
    return H, W, ks, st, pd


def pool_ref(x, typ, ptype, ks, st, pd):
    v = x.np.astype(np.float64)
    N, C, H, W = v.shape
    oh = int(math.ceil((H + pd[0] + pd[1] - ks[0]) / st[0] + 1))
    ow = int(math.ceil((W + pd[2] + pd[3] - ks[1]) / st[1] + 1))
    if oh < 1 or ow < 1:
        raise Unspecified("no output")
    y = np.zeros((N, C, oh, ow))
    t = np.zeros((N, C, oh, ow))
    for i in range(oh):
        a0 = i * st[0] - pd[0]
        a, b = max(a0, 0), min(a0 + ks[0], H)
        for j in range(ow):
            c0 = j * st[1] - pd[2]
            c, d = max(c0, 0), min(c0 + ks[1], W)
            if a >= b or c >= d:
                continue
            w = v[:, :, a:b, c:d]
            if typ == 0:
                y[:, :, i, j] = w.max(axis=(2, 3))
            else:
                n = (b - a) * (d - c) if ptype == BLACK else ks[0] * ks[1]
                y[:, :, i, j] = w.sum(axis=(2, 3)) / n
                t[:, :, i, j] = np.abs(w).sum(axis=(2, 3)) / n
    return Exp(y.astype(NP[x.dt]), x.dt, atol=t * tol(x.dt, 4) * (ks[0] * ks[1]) ** 0.5 + (0 if typ == 0 else 1e-44))


def spatial(fmt, v):
    return (v[2], v[3]) if fmt == "NCHW" else (v[1], v[2])


def pool_common(x, fmt, typ, ptype, pd, ks, st):
    if x.dt not in FLT or fmt != "NCHW" or ptype not in (BLACK, WHITE) or typ not in (0, 1):
        raise Reject("type, format or padding type")
    if len(x.shape) != 4 or pd.shape != (4, 2) or len(ks) != 4 or len(st) != 4:
        raise Reject("shapes")
    if pd[:2].any() or ks[0] != 1 or ks[1] != 1 or st[0] != 1 or st[1] != 1:
        raise Reject("batch or channel windows")
    if min(ks) < 1 or min(st) < 1:
        raise Unspecified("")
    return pool_ref(x, typ, ptype, ks[2:], st[2:], [int(q) for q in pd[2:].reshape(-1)])


def pool_gen(rng):
    H, W, ks, st, pd = geometry(rng)
    dt = ftype(rng) if rng.random() < 0.97 else 5
    x = rvals(rng, dt, [int(pick(rng, [1, 1, 2])), int(pick(rng, [1, 2, 3, 5])), H, W], special=False, mag=100 if dt == 5 else None)
    if rng.random() < 0.3:
        x = -np.abs(x)          # a spurious zero would win a maximum
    typ = int(rng.integers(0, 2))
    if rng.random() < 0.02:
        typ = 2
    pt = pick(rng, [BLACK, BLACK, BLACK, WHITE, WHITE, COPY], None) if rng.random() < 0.6 else None
    fmt = "NCHW" if rng.random() < 0.98 else "NHWC"
    P_, K_, S_ = pads(fmt, *pd), nd(fmt, ks[0], ks[1], 1), nd(fmt, st[0], st[1], 1)
    if rng.random() < 0.02:
        pick(rng, [P_[0], K_, S_])[0] += 1
    ps = {"format": fmt, "type": np.int32(typ)}
    if pt is not None:
        ps["padding_type"] = np.int32(pt)
    return ps, T.of(x, dt), P_, np.array(K_, np.int32), np.array(S_, np.int32)


@spec("pooling2d", family="C04", weight=2)
class Pooling2D:
    @staticmethod
    def gen(rng):
        ps, x, p, k, s = pool_gen(rng)
        ps.update(padding=p, ksize=k, stride=s)
        return ps, [x]

    @staticmethod
    def ref(p, x):
        return pool_common(x[0], p.s("format"), p.i("type"), p.i("padding_type", 0), p["padding"].np, p.l("ksize"), p.l("stride"))


@spec("pooling2d_v2", family="C04", weight=2)
class Pooling2DV2:
    @staticmethod
    def gen(rng):
        ps, x, p, k, s = pool_gen(rng)
        if ps["type"] == 0 and rng.random() < 0.3:
            del ps["type"]
        return ps, [x, p, k, s]

    @staticmethod
    def ref(p, x):
        return pool_common(x[0], p.s("format"), p.i("type", 0), p.i("padding_type", 0), x[1].np,
                           [int(v) for v in x[2].np], [int(v) for v in x[3].np])


@spec("global_pooling2d", family="C04", weight=0.5)
class GlobalPooling2D:
    @staticmethod
    def gen(rng):
        dt = ftype(rng)
        x = rvals(rng, dt, [int(pick(rng, [1, 2])), int(pick(rng, [1, 3, 4, 9])), int(rng.integers(1, 14)), int(rng.integers(1, 14))], special=False)
        if rng.random() < 0.4:
            x = -np.abs(x)
        return {"format": "NCHW" if rng.random() < 0.95 else "NHWC", "type": np.int32(rng.integers(0, 2))}, [T.of(x, dt)]

    @staticmethod
    def ref(p, x):
        if p.s("format") != "NCHW":
            raise Reject("format")
        x = x[0]
        return pool_ref(x, p.i("type"), BLACK, x.shape[2:], (1, 1), [0, 0, 0, 0])


@spec("pad", family="C04", weight=2)
class Pad:
    @staticmethod
    def gen(rng):
        dt = pick(rng, [10, 10, 11, 1, 2, 3, 5, 7])
        sh = rshape(rng, 1, 5, maxn=800)
        n = len(sh)
        pd = np.zeros((n, 2), np.int32)
        a = int(rng.integers(n))
        axes = [a] if rng.random() < 0.4 or a + 1 >= n else [a, a + 1]
        if rng.random() < 0.3:
            axes = list(range(n))
        for a in axes:
            pd[a] = rng.integers(0, 4, 2)
            if rng.random() < 0.4:
                pd[a, int(rng.integers(2))] = -int(rng.integers(0, sh[a] + 2))
        ps = {}
        if rng.random() < 0.6:
            ps["padding_value"] = float(pick(rng, [0.0, 1.0, -1.5, 7.0, 100.0] if dt in (10, 11) else [0.0, 1.0, 7.0, 100.0]))
        if rng.random() < 0.02:
            pd = pd[1:] if n > 1 else np.zeros((2, 2), np.int32)
        return ps, [rt(rng, dt, sh), pd]

    @staticmethod
    def ref(p, x):
        x, pd = x
        v, pd = x.np, pd.np
        if pd.shape != (v.ndim, 2):
            raise Reject("padding shape")
        f = np.array(np.float32(p.f("padding_value", 0.0))).astype(v.dtype)
        for a in range(v.ndim):
            l, r = int(pd[a, 0]), int(pd[a, 1])
            n = v.shape[a]
            m = max(n + l + r, 1)
            idx = np.arange(m) - l
            ok = (idx >= 0) & (idx < n)
            sh = list(v.shape)
            sh[a] = m
            y = np.full(sh, f, v.dtype)
            ix = [slice(None)] * v.ndim
            jx = list(ix)
            ix[a], jx[a] = np.where(ok)[0], idx[ok]
            y[tuple(ix)] = v[tuple(jx)]
            v = y
        return Exp(v, x.dt)


# --------------------------------------------------------------------------------- automatic paddings
def auto_inputs(rng, fmt):
    H, W, ks, st, pd = geometry(rng)
    st = tuple(min(s, 4) for s in st)
    x = np.zeros(nd(fmt, H, W, 2), np.float32)
    x = np.zeros([1, 2, H, W] if fmt == "NCHW" else [1, H, W, 2], np.float32)
    static = [int(q) for q in rng.integers(0, 3, 4)] if rng.random() < 0.4 else [0, 0, 0, 0]
    H2, W2 = H + static[0] + static[1], W + static[2] + static[3]
    ks = (min(ks[0], H2), min(ks[1], W2))
    return x, ks, st, static


def axis_same(n, k, s, sp, upper):
    """total output ceil(n/s) of the statically padded extent; the odd element goes last for 'upper'"""
    o = -(-(n + sum(sp)) // s)
    need = (o - 1) * s + k - n - sum(sp)
    half = int(need / 2)
    a, b = (half, need - half) if upper else (need - half, half)
    return sp[0] + a, sp[1] + b


def axis_to(n, k, s, sp, o):
    return sp[0], sp[1] + (o - 1) * s + k - n - sum(sp)


def per_axis(fmt, x, ks, st, static, f):
    H, W = spatial(fmt, x.shape)
    t, b = f(H, ks[0], st[0], static[:2])
    l, r = f(W, ks[1], st[1], static[2:])
    return Exp(pads(fmt, t, b, l, r), 5)


def static_of(p, fmt):
    if "padding" not in p:
        return [0, 0, 0, 0]
    q = p["padding"].np
    return [int(v) for v in (q[2:] if fmt == "NCHW" else q[1:3]).reshape(-1)]


def vin(fmt, t):
    return spatial(fmt, [int(v) for v in t.np])


@spec("_tf_pooling2d_padding", family="C04")
class TfPool:
    @staticmethod
    def gen(rng):
        fmt = pick(rng, ["NCHW", "NHWC"])
        x, ks, st, static = auto_inputs(rng, fmt)
        ps = {"format": fmt, "padding_method": pick(rng, ["SAME", "VALID", "SAME", "VALID", "OTHER"]) if rng.random() < 0.1 else pick(rng, ["SAME", "VALID"])}
        if any(static) or rng.random() < 0.3:
            ps["padding"] = pads(fmt, *static)
        return ps, [x, np.array(nd(fmt, *ks, 1), np.int32), np.array(nd(fmt, *st, 1), np.int32)]

    @staticmethod
    def ref(p, x):
        fmt, m = p.s("format"), p.s("padding_method")
        if m not in ("SAME", "VALID") or fmt not in ("NCHW", "NHWC"):
            raise Reject("method")
        x, ks, st = x[0], vin(fmt, x[1]), vin(fmt, x[2])
        if m == "SAME":
            f = lambda n, k, s, sp: axis_same(n, k, s, sp, True)
        else:
            f = lambda n, k, s, sp: axis_to(n, k, s, sp, -(-(n + sum(sp) - k + 1) // s))
        return per_axis(fmt, x, ks, st, static_of(p, fmt), f)


def conv_gen(rng, methods):
    x, ks, st, static = auto_inputs(rng, "NCHW")
    H, W = x.shape[2:]
    dl = [1, 1] if rng.random() < 0.5 else [int(v) for v in rng.integers(1, 4, 2)]
    ks = tuple(k if (k - 1) * d + 1 <= n + sum(s) else 1 for k, d, n, s in zip(ks, dl, (H, W), (static[:2], static[2:])))
    w = np.zeros([3, 2, *ks], np.float32)
    ps = {"format": "NCHW", "padding_method": pick(rng, methods), "stride": np.array([1, 1, *st], np.int32),
          "dilation": np.array([1, 1, *dl], np.int32)}
    if any(static):
        ps["padding"] = pads("NCHW", *static)
    return ps, [x, w]


@spec("_tf_conv2d_padding", family="C04")
class TfConv:
    @staticmethod
    def gen(rng):
        return conv_gen(rng, ["SAME", "VALID"])

    @staticmethod
    def ref(p, x):
        x, w = x
        st, dl = p.l("stride")[2:], p.l("dilation")[2:]
        ks = [(k - 1) * d + 1 for k, d in zip(w.shape[2:], dl)]
        if p.s("padding_method") == "SAME":
            f = lambda n, k, s, sp: axis_same(n, k, s, sp, True)
        else:
            f = lambda n, k, s, sp: axis_to(n, k, s, sp, -(-(n + sum(sp) - k + 1) // s))
        return per_axis("NCHW", x, ks, st, static_of(p, "NCHW"), f)


def dragon_same(n, k, s, sp, left_small):
    o = (n + s - 1) // s
    need = max(0, (o - 1) * s + k - n)
    l = need // 2 if left_small else need - need // 2
    return l, (o - 1) * s + k - n - l


@spec("_dragon_conv2d_padding", family="C04")
class DragonConv:
    @staticmethod
    def gen(rng):
        return conv_gen(rng, ["SAME", "VALID", "NOTSET", "SAME_UPPER", "SAME_LOWER"])

    @staticmethod
    def ref(p, x):
        x, w = x
        st, dl = p.l("stride")[2:], p.l("dilation")[2:]
        m = p.s("padding_method")
        ks = [(k - 1) * d + 1 for k, d in zip(w.shape[2:], dl)]
        if m in ("VALID", "NOTSET"):
            f = lambda n, k, s, sp: tuple(sp)
        else:
            f = lambda n, k, s, sp: dragon_same(n, k, s, sp, m != "SAME_UPPER")
        return per_axis("NCHW", x, ks, st, static_of(p, "NCHW"), f)


@spec("_dragon_pooling2d_padding", family="C04")
class DragonPool:
    @staticmethod
    def gen(rng):
        x, ks, st, static = auto_inputs(rng, "NCHW")
        ps = {}
        if rng.random() < 0.8:
            ps["auto_pad"] = pick(rng, ["SAME", "VALID", "NOTSET", "SAME_UPPER", "SAME_LOWER"])
        if rng.random() < 0.6:
            ps["ceil"] = T.of(rng.random() < 0.5)
        if any(static):
            ps["padding"] = pads("NCHW", *static)
        return ps, [x, np.array([1, 1, *ks], np.int32), np.array([1, 1, *st], np.int32)]

    @staticmethod
    def ref(p, x):
        m = p.s("auto_pad", "VALID")
        up = p.b("ceil", True)
        x, ks, st = x[0], vin("NCHW", x[1]), vin("NCHW", x[2])

        def valid(n, k, s, sp):
            r = n + sum(sp) - k
            o = (-(-r // s) if up else r // s) + 1
            if (o - 1) * s >= n + sum(sp):
                o -= 1
            return axis_to(n, k, s, sp, o)
        if m in ("VALID", "NOTSET"):
            f = valid
        else:
            f = lambda n, k, s, sp: dragon_same(n, k, s, sp, m == "SAME_UPPER")
        return per_axis("NCHW", x, ks, st, static_of(p, "NCHW"), f)


@spec("_mx_pooling2d_padding", family="C04")
class MxPool:
    @staticmethod
    def gen(rng):
        fmt = pick(rng, ["NCHW", "NHWC"])
        x, ks, st, static = auto_inputs(rng, fmt)
        return {"format": fmt, "valid": np.int32(rng.integers(0, 3)), "padding": pads(fmt, *static)}, \
               [x, np.array(nd(fmt, *ks, 1), np.int32), np.array(nd(fmt, *st, 1), np.int32)]

    @staticmethod
    def ref(p, x):
        fmt = p.s("format")
        x, ks, st = x[0], vin(fmt, x[1]), vin(fmt, x[2])
        if p.i("valid"):
            f = lambda n, k, s, sp: axis_to(n, k, s, sp, (n + sum(sp) - k) // s + 1)
        else:
            f = lambda n, k, s, sp: tuple(sp)
        return per_axis(fmt, x, ks, st, static_of(p, fmt), f)


@spec("_onnx_pooling2d_padding", family="C04")
class OnnxPool:
    @staticmethod
    def gen(rng):
        x, ks, st, static = auto_inputs(rng, "NCHW")
        ps = {}
        if rng.random() < 0.85:
            ps["auto_pad"] = pick(rng, ["NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"])
        if any(static):
            ps["padding"] = pads("NCHW", *static)
        return ps, [x, np.array([1, 1, *ks], np.int32), np.array([1, 1, *st], np.int32)]

    @staticmethod
    def ref(p, x):
        m = p.s("auto_pad", "NOTSET")
        x, ks, st = x[0], vin("NCHW", x[1]), vin("NCHW", x[2])
        if m == "NOTSET":
            f = lambda n, k, s, sp: axis_to(n, k, s, sp, (n + sum(sp) - k) // s + 1)
        elif m == "VALID":
            f = lambda n, k, s, sp: axis_to(n, k, s, sp, -(-(n + sum(sp) - k + 1) // s))
        else:
            f = lambda n, k, s, sp: axis_same(n, k, s, sp, m == "SAME_UPPER")
        return per_axis("NCHW", x, ks, st, static_of(p, "NCHW"), f)
