"""convolution operators against the direct definition"""
import numpy as np
from opspec import *

F32, F64, I8 = 10, 11, 1


def conv_ref(x, w, pad, pv, stride, dil, depthwise=False):
    """x[N,C,H,W] w[O,C,kh,kw] -> (value, magnitude) in float64"""
    x = x.astype(np.float64)
    w = w.astype(np.float64)
    n, c, h, wd = x.shape
    o, wc, kh, kw = w.shape
    (pt, pb), (pl, pr) = pad
    oh = (h + pt + pb - (dil[0] * (kh - 1) + 1)) // stride[0] + 1
    ow = (wd + pl + pr - (dil[1] * (kw - 1) + 1)) // stride[1] + 1
    if oh < 1 or ow < 1:
        raise Unspecified("kernel larger than padded input")

    def padded(a, v):
        p = np.full((n, c, h + max(pt, 0) + max(pb, 0), wd + max(pl, 0) + max(pr, 0)), v)
        p[:, :, max(pt, 0):max(pt, 0) + h, max(pl, 0):max(pl, 0) + wd] = a
        # negative padding crops
        return p[:, :, max(-pt, 0):p.shape[2] - max(-pb, 0), max(-pl, 0):p.shape[3] - max(-pr, 0)]

    oc = c if depthwise else o
    y, mag = np.zeros((n, oc, oh, ow)), np.zeros((n, oc, oh, ow))
    xp = padded(x, pv)
    for i in range(kh):
        for j in range(kw):
            s = xp[:, :, i * dil[0]:i * dil[0] + (oh - 1) * stride[0] + 1:stride[0],
                   j * dil[1]:j * dil[1] + (ow - 1) * stride[1] + 1:stride[1]]
            if depthwise:
                k = w[0, :, i, j].reshape(1, c, 1, 1)
                y += s * k
                mag += np.abs(s * k)
            else:
                y += np.einsum("nchw,oc->nohw", s, w[:, :, i, j])
                mag += np.einsum("nchw,oc->nohw", np.abs(s), np.abs(w[:, :, i, j]))
    return y, mag


def tol(mag, dt, k, f=4.0):
    eps = 1.2e-7 if dt == F32 else 2.3e-16
    tiny = 1e-37 if dt == F32 else 1e-300
    return mag * eps * (f + k) + tiny


CH = [1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17]
SP = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 19, 25]


def geometry(rng, winograd=False, depth=False):
    n = pick(rng, [1, 1, 1, 2, 3])
    c, o = pick(rng, CH), pick(rng, CH)
    if winograd and rng.random() < 0.06:
        c, o, n = 256, 256, 1       # the tile size depends on the channel count
        h, w = pick(rng, [17, 18, 20]), pick(rng, [17, 19, 22])
    else:
        h, w = pick(rng, SP), pick(rng, SP)
    if winograd:
        kh = kw = 3
        s, d = (1, 1), (1, 1)
    else:
        m = rng.random()
        if m < 0.25:
            kh = kw = 1
        elif m < 0.6:
            kh = kw = 3
        else:
            kh, kw = pick(rng, [1, 2, 3, 4, 5, 7]), pick(rng, [1, 2, 3, 4, 5, 7])
        m = rng.random()
        s = (1, 1) if m < 0.45 else (2, 2) if m < 0.7 else (pick(rng, [1, 2, 3, 4]), pick(rng, [1, 2, 3, 4]))
        m = rng.random()
        d = (1, 1) if m < 0.7 else (pick(rng, [1, 2, 3]), pick(rng, [1, 2, 3]))
    m = rng.random()
    if m < 0.25:
        p = [0] * 4
    elif m < 0.45:
        a, b = pick(rng, [0, 1, 2]), pick(rng, [0, 1, 2])
        p = [a, a, b, b]
    else:
        p = [pick(rng, [0, 0, 1, 2, 3, 4]) for _ in range(4)]
    # mostly usable geometry
    if rng.random() < 0.97:
        h = max(h, d[0] * (kh - 1) + 1 - p[0] - p[1])
        w = max(w, d[1] * (kw - 1) + 1 - p[2] - p[3])
    pv = 0.0 if rng.random() < 0.6 else float(np.float32(rng.normal(0, 3)))
    while n * c * h * w > 60000 and n > 1:
        n -= 1
    return n, c, o, h, w, kh, kw, s, d, p, pv


def cparams(s, d, p, pv, rng, fmt="NCHW", pad=True):
    q = dict(format=S(fmt))
    if pad:
        q["padding"] = T.of(np.array([[0, 0], [0, 0], p[:2], p[2:]], np.int32))
    if pv or rng.random() < 0.3:
        q["padding_value"] = np.float32(pv)
    q["stride"] = np.array([1, 1] + list(s), np.int32)
    q["dialations" if rng.random() < 0.1 else "dilation"] = np.array([1, 1] + list(d), np.int32)
    return q


def geo(p, padding=None):
    pd = [int(v) for v in (padding if padding is not None else p["padding"]).np.reshape(-1)]
    if any(pd[:4]):
        raise Reject("padding on batch or channel")
    st = p.l("stride", [1, 1, 1, 1])
    dl = p.l("dilation") or p.l("dialations") or [1, 1, 1, 1]
    if p.s("format") == "NHWC":
        raise Unspecified("NHWC")
    return ((pd[4], pd[5]), (pd[6], pd[7])), p.f("padding_value", 0.0), st[2:], dl[2:]


def vals(rng, dt, shape):
    if rng.random() < 0.15:
        return T.of(rng.integers(-4, 5, shape).astype(NP[dt]), dt)
    return T.of((rng.normal(0, 1, shape) * pick(rng, [1.0, 1.0, 100.0, 0.01])).astype(NP[dt]), dt)


def register(name, v2, depth):
    @spec(name, family="C03", weight=1.0)
    class Conv:
        @staticmethod
        def gen(rng):
            n, c, o, h, w, kh, kw, s, d, p, pv = geometry(rng)
            if depth and rng.random() < 0.5:
                kh = kw = 3
                s = pick(rng, [(1, 1), (2, 2)])
                d = (1, 1)
                h, w = max(h, 3), max(w, 3)
            dt = F32 if rng.random() < 0.8 else F64
            x = vals(rng, dt, (n, c, h, w))
            k = vals(rng, dt, (1 if depth else o, c, kh, kw))
            m = rng.random()
            if m < 0.02:
                k = vals(rng, dt, (k.shape[0], c + 1, kh, kw))
            elif m < 0.03 and depth:
                k = vals(rng, dt, (2, c, kh, kw))
            elif m < 0.04:
                k = vals(rng, F32 + F64 - dt, k.shape)
            q = cparams(s, d, p, pv, rng, pad=not v2)
            pt = T.of(np.array([[0, 0], [0, 0], p[:2], p[2:]], np.int32))
            return q, ([x, pt, k] if v2 else [x, k])

        @staticmethod
        def ref(p, xs):
            x, k = xs[0], xs[-1]
            pad, pv, st, dl = geo(p, xs[1] if v2 else None)
            if x.dt != k.dt:
                raise Reject("element types differ")
            if k.shape[1] != x.shape[1]:
                raise Reject("channels differ")
            if depth and k.shape[0] != 1:
                raise Reject("depth multiplier")
            y, mag = conv_ref(x.np, k.np, pad, pv, st, dl, depth)
            n = (1 if depth else x.shape[1]) * k.shape[2] * k.shape[3]
            return Exp(y.astype(NP[x.dt]), x.dt, atol=tol(mag, x.dt, n))


for _n, _v2, _d in [("conv2d", 0, 0), ("conv2d_v2", 1, 0), ("depthwise_conv2d", 0, 1), ("depthwise_conv2d_v2", 1, 1)]:
    register(_n, _v2, _d)


@spec("transpose_conv2d", family="C03")
class TransposeConv:
    @staticmethod
    def gen(rng):
        n, c, o, h, w, kh, kw, s, d, p, pv = geometry(rng)
        h, w = min(h, 9), min(w, 9)
        p = [pick(rng, [0, 0, 1, 2]) for _ in range(4)] if rng.random() < 0.7 else [0] * 4
        dt = F32 if rng.random() < 0.8 else F64
        x = vals(rng, dt, (n, c, h, w))
        k = vals(rng, dt, (c + (1 if rng.random() < 0.02 else 0), o, kh, kw))
        q = cparams(s, d, p, 0.0, rng)
        return q, [x, k]

    @staticmethod
    def ref(p, xs):
        x, w = xs
        ((pt, pb), (pl, pr)), _, st, dl = geo(p)
        if x.dt != w.dt:
            raise Reject("types")
        if w.shape[0] != x.shape[1]:
            raise Reject("channels")
        n, c, h, wd = x.shape
        _, o, kh, kw = w.shape
        fh, fw = (h - 1) * st[0] + dl[0] * (kh - 1) + 1, (wd - 1) * st[1] + dl[1] * (kw - 1) + 1
        if fh - pt - pb < 1 or fw - pl - pr < 1:
            raise Unspecified("empty output")
        y, mag = np.zeros((n, o, fh, fw)), np.zeros((n, o, fh, fw))
        X, W = x.np.astype(np.float64), w.np.astype(np.float64)
        for i in range(kh):
            for j in range(kw):
                t = np.einsum("nchw,co->nohw", X, W[:, :, i, j])
                m = np.einsum("nchw,co->nohw", np.abs(X), np.abs(W[:, :, i, j]))
                sl = np.s_[:, :, i * dl[0]:i * dl[0] + (h - 1) * st[0] + 1:st[0],
                           j * dl[1]:j * dl[1] + (wd - 1) * st[1] + 1:st[1]]
                y[sl] += t
                mag[sl] += m
        y = y[:, :, pt:fh - pb, pl:fw - pr]
        mag = mag[:, :, pt:fh - pb, pl:fw - pr]
        return Exp(y.astype(NP[x.dt]), x.dt, atol=tol(mag, x.dt, c * kh * kw))


G63 = np.array([[1, 0, 0], [-2 / 9, -2 / 9, -2 / 9], [-2 / 9, 2 / 9, -2 / 9], [1 / 90, 1 / 45, 2 / 45],
                [1 / 90, -1 / 45, 2 / 45], [1 / 45, 1 / 90, 1 / 180], [1 / 45, -1 / 90, 1 / 180], [0, 0, 1]])
G23 = np.array([[1, 0, 0], [.5, .5, .5], [.5, -.5, .5], [0, 0, 1]])


def wino_tol(x, k, pv, y, f63):
    # rounding of the transformed domain is relative to the largest magnitudes of a tile
    m = max(float(np.abs(x).max(initial=0)), abs(pv)) * float(np.abs(k).max(initial=0)) * x.shape[1] * 9
    return m * (3e-5 if f63 else 3e-6) + 1e-37


def wino(name, v2):
    @spec(name, family="C03")
    class Wino:
        @staticmethod
        def gen(rng):
            n, c, o, h, w, kh, kw, s, d, p, pv = geometry(rng, winograd=True)
            sc = pick(rng, [1.0, 1.0, 50.0])
            x = T.of(rng.normal(0, sc, (n, c, h, w)).astype(np.float32), F32)
            k = T.of(rng.normal(0, 1, (o, c, 3, 3)).astype(np.float32), F32)
            q = dict(format=S("NCHW"))
            pt = T.of(np.array([[0, 0], [0, 0], p[:2], p[2:]], np.int32))
            if not v2:
                q["padding"] = pt
            if pv:
                q["padding_value"] = np.float32(pv)
            m = rng.random()
            if m < 0.02:
                k = T.of(rng.normal(0, 1, (o, c + 1, 3, 3)).astype(np.float32), F32)
            elif m < 0.04:
                k = T.of(rng.normal(0, 1, (o, c, pick(rng, [1, 2, 5]), 3)).astype(np.float32), F32)
            return q, ([x, pt, k] if v2 else [x, k])

        @staticmethod
        def ref(p, xs):
            x, k = xs[0], xs[-1]
            pad, pv, st, dl = geo(p, xs[1] if v2 else None)
            if k.shape[1] != x.shape[1] or k.shape[2:] != (3, 3):
                raise Reject("kernel")
            y, _ = conv_ref(x.np, k.np, pad, pv, (1, 1), (1, 1))
            return Exp(y.astype(np.float32), F32, atol=wino_tol(x.np, k.np, pv, y, x.shape[1] * k.shape[0] >= 65536))


wino("conv2d_winograd", 0)
wino("conv2d_winograd_v2", 1)


@spec("winograd_transform_kernel", family="C03", weight=0.4)
class WinoKernel:
    @staticmethod
    def gen(rng):
        o, c = pick(rng, CH), pick(rng, CH)
        q = {}
        m = rng.random()
        if m < 0.7:
            q["winograd_mode"] = S("winograd_f63" if m < 0.35 else "winograd_f23")
        return q, [T.of(rng.normal(0, 1, (o, c, 3, 3)).astype(np.float32), F32)]

    @staticmethod
    def ref(p, xs):
        # the transformed kernel is consumed by conv2d_winograd (see the C03 scenario group); only its shape is public
        e = 8 if p.s("winograd_mode", "winograd_f63") == "winograd_f63" else 4
        return Shape(F32, xs[0].shape[:2] + (e, e))


@spec("conv2d_quantized", family="C03", weight=0.7)
class Quant:
    @staticmethod
    def gen(rng):
        n, c, o, h, w, kh, kw, s, d, p, pv = geometry(rng)
        q = cparams(s, d, p, float(rng.integers(-5, 6)) if rng.random() < 0.3 else 0.0, rng)
        q["dequantize_scales"] = rng.uniform(0.001, 2, o).astype(np.float32)
        x = T.of(rng.integers(-128, 128, (n, c, h, w)).astype(np.int8), I8)
        k = T.of(rng.integers(-127, 128, (o, c, kh, kw)).astype(np.int8), I8)
        if rng.random() < 0.03:
            q["dequantize_scales"] = rng.uniform(0.001, 2, o + 1).astype(np.float32)
        return q, [x, k]

    @staticmethod
    def ref(p, xs):
        x, k = xs
        pad, pv, st, dl = geo(p)
        if k.shape[1] != x.shape[1]:
            raise Reject("channels")
        sc = p["dequantize_scales"].np.astype(np.float64)
        if len(sc) != k.shape[0]:
            raise Reject("scales")
        y, mag = conv_ref(x.np, k.np, pad, pv, st, dl)
        return Exp((y * sc.reshape(1, -1, 1, 1)).astype(np.float32), F32, rtol=1e-6)


@spec("quantize", family="C03", weight=0.4)
class Quantize:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 4)
        if rng.random() < 0.5:
            sh[0] = 1
        dt = F32 if rng.random() < 0.7 else F64
        a = rng.normal(0, pick(rng, [1, 30, 100, 1e4, 1e10]), sh).astype(NP[dt])
        q = dict(quantize_scale=rng.uniform(0.1, 4, sh[0]).astype(np.float32))
        return q, [T.of(a, dt)]

    @staticmethod
    def ref(p, xs):
        x = xs[0]
        sc = p["quantize_scale"].np.reshape(-1)
        if len(sc) != x.shape[0]:
            raise Reject("scales")
        v = x.np * sc.astype(x.np.dtype).reshape([-1] + [1] * (len(x.shape) - 1))
        t = np.abs(v - np.trunc(v))
        tie = np.abs(t - 0.5) < 1e-5 * np.maximum(1, np.abs(v))
        r = np.clip(np.rint(v.astype(np.float64)), -128, 127).astype(np.int8)
        lo = np.clip(np.floor(v.astype(np.float64)), -128, 127).astype(np.int8)
        hi = np.clip(np.ceil(v.astype(np.float64)), -128, 127).astype(np.int8)
        return Exp(r, I8, alt=[np.where(tie, lo, r), np.where(tie, hi, r)])


@spec("dcn_v2_forward", family="C03", weight=0.7)
class DCN:
    @staticmethod
    def gen(rng):
        n, c, o, h, w, kh, kw, s, d, p, pv = geometry(rng)
        h, w = min(h, 9), min(w, 9)
        kh, kw = min(kh, 3), min(kw, 3)
        g = pick(rng, [1, 1, 2])
        c = min(c, 8)
        if g == 2:
            c = 2 * max(1, c // 2)
        p = [p[0], p[0], p[2], p[2]]
        h = max(h, d[0] * (kh - 1) + 1 - 2 * p[0])
        w = max(w, d[1] * (kw - 1) + 1 - 2 * p[2])
        oh = (h + 2 * p[0] - (d[0] * (kh - 1) + 1)) // s[0] + 1
        ow = (w + 2 * p[2] - (d[1] * (kw - 1) + 1)) // s[1] + 1
        q = cparams(s, d, p, 0.0, rng)
        q.pop("padding_value", None)
        if "dialations" in q:
            q["dilation"] = q.pop("dialations")
        if rng.random() < 0.98:
            q["deformable_groups"] = np.int32(g)
        x = T.of(rng.normal(0, 1, (n, c, h, w)).astype(np.float32), F32)
        k = T.of(rng.normal(0, 1, (o, c, kh, kw)).astype(np.float32), F32)
        b = T.of(rng.normal(0, 1, (o,)).astype(np.float32), F32)
        off = rng.normal(0, pick(rng, [0.0, 0.5, 3.0]), (n, g * 2 * kh * kw, oh, ow))
        if rng.random() < 0.3:
            off = np.round(off)
        ms = rng.uniform(0, 1, (n, g * kh * kw, oh, ow))
        m = rng.random()
        if m < 0.02:
            b = T.of(rng.normal(0, 1, (max(o - 1, 1) if o > 1 else 2,)).astype(np.float32), F32)
        elif m < 0.04:
            off = off[:, :-1] if rng.random() < 0.5 else np.concatenate([off, off], 3)[:, :, :, :-1] if ow > 1 else off[:, :-1]
        elif m < 0.06:
            ms = np.concatenate([ms, ms], 0) if rng.random() < 0.5 else np.concatenate([ms, ms], 1)
        elif m < 0.08:
            x = T.of(rng.normal(0, 1, (n, c + 1, h, w)).astype(np.float32), F32)
        return q, [x, k, b, T.of(off.astype(np.float32), F32), T.of(ms.astype(np.float32), F32)]

    @staticmethod
    def ref(p, xs):
        x, w, b, off, ms = [t.np.astype(np.float64) for t in xs]
        ((pt, pb), (pl, pr)), _, st, dl = geo(p)
        if "deformable_groups" not in p:
            raise Reject("deformable_groups is required")
        g = p.i("deformable_groups")
        n, c, h, wd = x.shape
        o, wc, kh, kw = w.shape
        oh = (h + 2 * pt - (dl[0] * (kh - 1) + 1)) // st[0] + 1
        ow = (wd + 2 * pl - (dl[1] * (kw - 1) + 1)) // st[1] + 1
        if oh < 1 or ow < 1:
            raise Unspecified("empty")
        if wc != c or b.shape != (o,) or off.shape != (n, 2 * g * kh * kw, oh, ow) or ms.shape != (n, g * kh * kw, oh, ow):
            raise Reject("shapes")
        y = np.tile(b.reshape(1, o, 1, 1), (n, 1, oh, ow))
        mag = np.abs(y)
        xp = np.zeros((n, c, h + 2, wd + 2))
        xp[:, :, 1:-1, 1:-1] = x
        gy, gx = np.meshgrid(np.arange(oh), np.arange(ow), indexing="ij")
        unsure = np.zeros((n, 1, oh, ow), bool)
        for i in range(kh):
            for j in range(kw):
                for gi in range(g):
                    cs = slice(gi * c // g, (gi + 1) * c // g)
                    kk = i * kw + j
                    for bi in range(n):
                        # positions in single precision, as the operator's inputs are
                        hy = (np.float32(gy * st[0] - pt + i * dl[0]) + xs[3].np[bi, gi * 2 * kh * kw + 2 * kk]).astype(np.float64)
                        hx = (np.float32(gx * st[1] - pl + j * dl[1]) + xs[3].np[bi, gi * 2 * kh * kw + 2 * kk + 1]).astype(np.float64)
                        y0, x0 = np.floor(hy).astype(int), np.floor(hx).astype(int)
                        ly, lx = hy - y0, hx - x0
                        ins = (hy > -1) & (hx > -1) & (hy < h) & (hx < wd)
                        yc0, yc1 = np.clip(y0, -1, h) + 1, np.clip(y0 + 1, -1, h) + 1
                        xc0, xc1 = np.clip(x0, -1, wd) + 1, np.clip(x0 + 1, -1, wd) + 1
                        im = xp[bi, cs]
                        v = ((1 - ly) * (1 - lx) * im[:, yc0, xc0] + (1 - ly) * lx * im[:, yc0, xc1]
                             + ly * (1 - lx) * im[:, yc1, xc0] + ly * lx * im[:, yc1, xc1])
                        v = np.where(ins, v, 0) * ms[bi, gi * kh * kw + kk]
                        y[bi] += np.einsum("chw,oc->ohw", v, w[:, cs, i, j])
                        # weights and samples carry rounding relative to the largest pixel
                        mag[bi] += np.einsum("hw,o->ohw", np.ones((oh, ow)) * np.abs(im).max(initial=0), np.abs(w[:, cs, i, j]).sum(1))
        return Exp(y.astype(np.float32), F32, atol=mag * 1.2e-7 * (16 + c * kh * kw))
