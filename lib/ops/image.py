"""Image resize and sampling: every output pixel is the interpolation of the source at the mapped position."""
import math
import numpy as np
from opspec import *

LINEAR, CUBIC, NEAREST, HARD = range(4)
PIX = [1, 2, 3, 4, 5, 7, 8, 9, 13]


def nhwc(a, d):
    s = a.shape
    return a.reshape((int(np.prod(s[:d], dtype=np.int64)), s[d], s[d + 1], int(np.prod(s[d + 2:], dtype=np.int64))))


def away(v):
    return np.where(v >= 0, np.floor(v + 0.5), -np.floor(-v + 0.5))


def idx(v, n):
    return np.clip(v, 0, n - 1).astype(np.int64)


def lin(img, py, px):
    h, w = img.shape[1:3]
    y, x = np.clip(py, 0, h - 1), np.clip(px, 0, w - 1)
    y0, x0 = np.floor(y).astype(np.int64), np.floor(x).astype(np.int64)
    y1, x1 = np.minimum(y0 + 1, h - 1), np.minimum(x0 + 1, w - 1)
    fy, fx = (y - y0)[None, :, :, None], (x - x0)[None, :, :, None]
    f = img.astype(np.float64)
    return (f[:, y0, x0] * (1 - fy) * (1 - fx) + f[:, y0, x1] * (1 - fy) * fx +
            f[:, y1, x0] * fy * (1 - fx) + f[:, y1, x1] * fy * fx)


def keys(t):
    """Keys' cubic convolution kernel, a = -0.75"""
    t, a = np.abs(t), -0.75
    return np.where(t <= 1, ((a + 2) * t - (a + 3)) * t * t + 1,
                    np.where(t < 2, ((a * t - 5 * a) * t + 8 * a) * t - 4 * a, 0.0))


def anchor(p, n, same=False):
    """(integer position, fraction); a position whose four samples do not fit is moved to the nearest that fits"""
    s = np.floor(p)
    f = p - s
    if same:
        return np.round(p), np.zeros_like(f)
    if n > 3:
        lo, hi = s < 1, s >= n - 3
        s = np.where(hi, n - 3, np.where(lo, np.minimum(1, n - 3), s))
        f = np.where(lo | hi, 0.0, f)
    return s, f


def cub(img, py, px, same=(False, False)):
    h, w = img.shape[1:3]
    sy, fy = anchor(py, h, same[0])
    sx, fx = anchor(px, w, same[1])
    f = img.astype(np.float64)
    r = 0.0
    for i in range(-1, 3):
        for j in range(-1, 3):
            r = r + f[:, idx(sy + i, h), idx(sx + j, w)] * (keys(i - fy) * keys(j - fx))[None, :, :, None]
    return r


def near(img, py, px):
    return img[:, idx(away(py), img.shape[1]), idx(away(px), img.shape[2])]


def hard(img, py, px):
    return img[:, idx(np.trunc(py), img.shape[1]), idx(np.trunc(px), img.shape[2])]


def finish(dt, v):
    """interpolated values in the element type"""
    t = np.dtype(NP[dt])
    if t.kind in "iu":
        i = np.iinfo(t)
        return np.clip(v, float(i.min), float(i.max))
    return v


def amp(a):
    return float(np.abs(a.astype(np.float64)).max()) if a.size else 0.0


def image(rng, dt, sh):
    if dt in FLT:
        return rt(rng, dt, sh, special=False, mag=float(pick(rng, [1.0, 100.0, 1e-3])))
    return rt(rng, dt, sh, mag=1 << 30)


def grid(h, w):
    return np.meshgrid(np.arange(h, dtype=np.float64), np.arange(w, dtype=np.float64), indexing="ij")


def resized(x, d, oh, ow, ty):
    """expected outcome of resizing axes d, d+1 of x"""
    img = nhwc(x.np, d)
    h, w = img.shape[1:3]
    shape = x.shape[:d] + (oh, ow) + x.shape[d + 2:]
    if (h, w) == (oh, ow):
        return Exp(x.np, x.dt, bits=True)
    y, x_ = grid(oh, ow)
    if ty == HARD:
        py, px, eps = y * h / oh, x_ * w / ow, 3e-7 * (max(h, w) + 1)
    else:
        py, px, eps = (y + 0.5) * h / oh - 0.5, (x_ + 0.5) * w / ow - 0.5, 1e-9
    exact = dyadic([h / oh, w / ow]) and max(h, w, oh, ow) < 1 << 12
    if exact:
        eps = 0.0
    if ty in (NEAREST, HARD):
        f = near if ty == NEAREST else hard
        v = [f(img, py + a, px + b).reshape(shape) for a in (0, eps, -eps) for b in (0, eps, -eps)]
        return Exp(v[0], x.dt, alt=v[1:], bits=True)
    v = lin(img, py, px) if ty == LINEAR else cub(img, py, px, (h == oh, w == ow))
    return numeric(x, v.reshape(shape), 0.0, exact=exact and ty == LINEAR)


def dyadic(m):
    k = np.asarray(m, np.float64) * 1024
    return bool((np.abs(k) < 1 << 20).all() and (k == np.round(k)).all())


def numeric(x, v, drift, alt=(), exact=False):
    """tolerance: integers are truncated, floats are rounded; drift = error of the position"""
    m = amp(x.np)
    if x.dt in FLT:
        tol = m * ((4e-7 if x.dt == 10 else 1e-14) * 8 + 4 * drift)
        return Exp(v.astype(NP[x.dt]), x.dt, atol=tol, alt=[a.astype(NP[x.dt]) for a in alt])
    lo, hi = np.iinfo(NP[x.dt]).min, np.iinfo(NP[x.dt]).max
    tol = 1.0 + m * (1e-12 + 4 * drift)
    if exact and m < 1 << 12:
        tol = np.where(v == np.round(v), 0.0, tol)      # nothing to round
    return Exp(Loose.of(finish(x.dt, v)), x.dt, atol=tol, alt=[finish(x.dt, a) for a in alt])


class Loose:
    @staticmethod
    def of(v):
        return v


def ptype(rng):
    return int(pick(rng, [10, 10, 2, 2, 11] + NUM))


def flavour(rng):
    return int(pick(rng, [LINEAR, LINEAR, CUBIC, NEAREST, HARD]))


def img_shape(rng, lo=2, hi=5, maxn=1500):
    n = int(rng.integers(lo, hi + 1))
    d = int(rng.integers(0, n - 1))
    sh = [int(pick(rng, [1, 1, 2, 3, 4])) for _ in range(n)]
    sh[d], sh[d + 1] = int(pick(rng, PIX)), int(pick(rng, PIX))
    while np.prod(sh) > maxn:
        k = int(rng.integers(n))
        sh[k] = max(1, sh[k] // 2)
    return sh, d


def target(rng, n):
    return n if rng.random() < 0.25 else int(rng.integers(1, 13)) if rng.random() < 0.9 else int(pick(rng, [n * 2, n * 3, max(1, n // 2)]))


@spec("_resize2d", family="C07", weight=5)
class Resize2D:
    @staticmethod
    def gen(rng):
        sh, d = img_shape(rng)
        size = [-1] * len(sh)
        if rng.random() < 0.3:
            size = [e if rng.random() < 0.7 else -1 for e in sh]
        size[d], size[d + 1] = target(rng, sh[d]), target(rng, sh[d + 1])
        r = rng.random()
        if r < 0.02:
            size[int(rng.integers(len(size)))] = 0
        elif r < 0.04:
            size[d] = -1
        elif r < 0.06 and len(sh) > 2:
            k = [q for q in range(len(sh)) if q not in (d, d + 1)]
            size[int(pick(rng, k))] = 7
        elif r < 0.07:
            size = size + [-1]
        elif r < 0.08:
            sh[d] = 0
        elif r < 0.09:
            size = [-1] * len(sh)
        ps = {"type": flavour(rng)} if rng.random() < 0.9 else {}
        return ps, [image(rng, ptype(rng), sh), T.of(np.array(size, np.int64 if rng.random() < 0.2 else np.int32))]

    @staticmethod
    def ref(p, x):
        return resize_ref(x[0], [int(v) for v in x[1].np], p.i("type", LINEAR))


def resize_ref(x, size, ty):
    n = len(x.shape)
    if len(size) != n or n < 2 or 0 in size:
        raise Reject("size")
    if not LINEAR <= ty <= HARD:
        raise Unspecified("type")
    pairs = [i for i in range(n - 1) if size[i] > 0 and size[i + 1] > 0 and
             all(size[k] < 0 or size[k] == x.shape[k] for k in range(n) if k not in (i, i + 1))]
    if not pairs:
        raise Reject("no two adjacent extents")
    for d in pairs:
        if all(size[k] < 0 or size[k] == x.shape[k] or k in (d, d + 1) for k in range(n)):
            pick_ = d
            if size[d] != x.shape[d] or size[d + 1] != x.shape[d + 1]:
                break
    d = pick_
    if x.shape[d] == 0 or x.shape[d + 1] == 0:
        raise Reject("empty image")
    if any(e == 0 for e in x.shape):
        raise Unspecified("no elements")
    e = resized(x, d, size[d], size[d + 1], ty)
    return OrReject([e]) if sum(1 for s in size if s > 0) > 2 else e


@spec("sample2d_v2", family="C07", weight=2)
class Sample2DV2:
    @staticmethod
    def gen(rng):
        sh, d = img_shape(rng)
        sc = [1.0] * len(sh)
        for k in (d, d + 1):
            sc[k] = float(pick(rng, [1.0, 2.0, 0.5, 3.0, 1.5, 0.75, float(np.round(rng.uniform(0.2, 3), 3))]))
        ps = {"type": flavour(rng)} if rng.random() < 0.8 else {}
        r = rng.random()
        if r < 0.03:
            sc = sc[:-1]
        elif r < 0.05:
            sc[d] = 0.01
        elif r < 0.06:
            sc = [2.0] * len(sh)
        return ps, [image(rng, ptype(rng), sh), T.of(np.array(sc, np.float64 if rng.random() < 0.2 else np.float32))]

    @staticmethod
    def ref(p, x):
        if x[1].np.size != len(x[0].shape):
            raise Reject("scale")
        sc = x[1].np.astype(np.float32)
        size = [int(math.floor(np.float32(np.float32(e) * s))) for e, s in zip(x[0].shape, sc)]
        e = resize_ref(x[0], size, p.i("type", HARD))
        return e[0] if isinstance(e, OrReject) else e


@spec("resize_nearest_neighbor", family="C07")
class ResizeNearest:
    @staticmethod
    def gen(rng):
        sh, d = img_shape(rng)
        ps = {"dim": d}
        if rng.random() < 0.4:
            ps["align_corners"] = 0
        size = [target(rng, sh[d]), target(rng, sh[d + 1])]
        r = rng.random()
        if r < 0.03:
            ps["dim"] = int(pick(rng, [-1, len(sh) - 1, len(sh)]))
        elif r < 0.06:
            size[int(rng.integers(2))] = int(pick(rng, [0, -3]))
        return ps, [image(rng, ptype(rng), sh), T.of(np.array(size, np.int32))]

    @staticmethod
    def ref(p, x):
        d, n = p.i("dim"), len(x[0].shape)
        s = [int(v) for v in x[1].np]
        if not 0 <= d <= n - 2:
            raise Reject("dim") if d >= 0 else Unspecified("negative dim")
        if min(s) <= 0:
            raise Reject("size")
        return resized(x[0], d, s[0], s[1], NEAREST)


# ------------------------------------------------------------------------------------------ affine sampling
def affined(x, d, oh, ow, m, ty, outer):
    """m: 3x3, position (column, row, 1)"""
    img = nhwc(x.np, d)
    h, w = img.shape[1:3]
    shape = x.shape[:d] + (oh, ow) + x.shape[d + 2:]
    y, c = grid(oh, ow)
    m = m.astype(np.float64)
    px, py = m[0, 0] * c + m[0, 1] * y + m[0, 2], m[1, 0] * c + m[1, 1] * y + m[1, 2]
    if not (np.isfinite(px).all() and np.isfinite(py).all()):
        raise Unspecified("positions are not finite")
    reach = max(np.abs(m[0, 0] * c).max() + np.abs(m[0, 1] * y).max() + abs(m[0, 2]),
                np.abs(m[1, 0] * c).max() + np.abs(m[1, 1] * y).max() + abs(m[1, 2])) if oh and ow else 0.0
    exact = dyadic(m) and reach < 1 << 12       # every position is computed without rounding
    eps = 0.0 if exact else 5e-7 * (reach + 1)
    ty_out = None if outer is None else outer

    def value(py, px, trunc=np.trunc):
        if ty == LINEAR:
            v = lin(img, py, px)
            ins = (py >= 0) & (py <= h - 1) & (px >= 0) & (px <= w - 1)
        elif ty == CUBIC:
            v = cub(img, py, px)
            ins = (py >= 0) & (py <= h - 1) & (px >= 0) & (px <= w - 1)
        else:
            f = away if ty == NEAREST else trunc
            a, b = f(py), f(px)
            v = img[:, idx(a, h), idx(b, w)]
            ins = (a >= 0) & (a <= h - 1) & (b >= 0) & (b <= w - 1)
        if outer is not None:
            v = np.where(ins[None, :, :, None], v, np.asarray(outer).astype(v.dtype))
        return v.reshape(shape)

    steps = [(0, 0)] if exact else [(a, b) for a in (0, eps, -eps) for b in (0, eps, -eps)]
    v = [value(py + a, px + b) for a, b in steps]
    if ty == HARD:
        v += [value(py + a, px + b, np.floor) for a, b in steps]
    if ty == CUBIC and outer is not None:
        # a position inside the image without room for all four samples: outer value or clamped samples
        sy, sx = np.floor(py), np.floor(px)
        ins = (py >= -eps) & (py <= h - 1 + eps) & (px >= -eps) & (px <= w - 1 + eps)
        full = (sy >= 1) & (sy < h - 3) & (sx >= 1) & (sx < w - 3)
        alt = np.where((ins & ~full)[None, :, :, None], np.float64(outer), v[0].reshape((-1, oh, ow, img.shape[3])))
        v.append(alt.reshape(shape))
        rim = ((np.abs(py - 1) < eps) | (np.abs(py - (h - 3)) < eps) | (np.abs(px - 1) < eps) | (np.abs(px - (w - 3)) < eps))
        v.append(np.where((ins & rim)[None, :, :, None], np.float64(outer), v[0].reshape((-1, oh, ow, img.shape[3]))).reshape(shape))
    if ty in (NEAREST, HARD):
        return Exp(v[0], x.dt, alt=v[1:], bits=True)
    return numeric(x, v[0], eps, v[1:], exact and ty == LINEAR)


def outer_of(p, dt):
    if "outer_value" not in p:
        return None
    v = float(np.float32(p.f("outer_value")))
    t = np.dtype(NP[dt])
    if t.kind in "iu":
        if not np.iinfo(t).min <= v <= np.iinfo(t).max:
            raise Unspecified("outer value outside the element type")
        v = int(v)
    return v


def outer_gen(rng, dt):
    return float(pick(rng, [0.0, 1.0, 7.0, 100.0, -3.0 if dt in FLT + [1, 3, 5, 7] else 2.0]))


@spec("affine_sample2d", family="C07", weight=5)
class Affine:
    @staticmethod
    def gen(rng):
        sh, d = img_shape(rng)
        r = rng.random()
        if r < 0.15:
            m = np.eye(3)
        elif r < 0.3:
            m = np.diag([float(pick(rng, [0.5, 2.0, 1.0, 0.25, 3.0])), float(pick(rng, [0.5, 2.0, 1.0, 0.25])), 1.0])
        elif r < 0.5:
            m = np.eye(3)
            m[0, 2], m[1, 2] = rng.integers(-5, 6, 2) * float(pick(rng, [1.0, 0.5, 0.25]))
        elif r < 0.9:
            t, s = rng.uniform(0, 6.3), rng.uniform(0.3, 2.5)
            m = np.array([[math.cos(t) * s, -math.sin(t) * s, rng.uniform(-6, 9)],
                          [math.sin(t) * s, math.cos(t) * s, rng.uniform(-6, 9)], [0, 0, 1]])
        elif r < 0.95:
            m = rng.normal(0, 3, (3, 3))
        else:
            m = np.eye(3)
            m[int(rng.integers(2)), int(rng.integers(3))] = float(pick(rng, [1e10, -1e10, 1e6, -1e6, 3e9]))
        dt = ptype(rng)
        ps = {"type": flavour(rng), "dim": d - len(sh) if rng.random() < 0.4 else d}
        if rng.random() < 0.6:
            ps["outer_value"] = outer_gen(rng, dt)
        size = [target(rng, sh[d]), target(rng, sh[d + 1])]
        r = rng.random()
        if r < 0.02:
            ps["dim"] = int(pick(rng, [len(sh) - 1, -1, len(sh), -len(sh) - 1]))
        elif r < 0.04:
            ps["type"] = int(pick(rng, [4, -1]))
        elif r < 0.06:
            size[int(rng.integers(2))] = int(pick(rng, [-1, -7]))
        elif r < 0.07:
            sh[d] = 0
        elif r < 0.08:
            m = m[:2]
        elif r < 0.1:
            del ps["type" if rng.random() < 0.5 else "dim"]
        return ps, [image(rng, dt, sh), T.of(np.array(size, np.int32)),
                    T.of(m.astype(np.float64 if rng.random() < 0.1 else np.float32))]

    @staticmethod
    def ref(p, x):
        a, size, m = x[0], [int(v) for v in x[1].np], x[2].np.astype(np.float32)
        d, n, ty = p.i("dim", -2), len(a.shape), p.i("type", LINEAR)
        if d < 0:
            d += n
        if not 0 <= d < n - 1 or not LINEAR <= ty <= HARD or min(size) < 0 or m.shape != (3, 3):
            raise Reject("parameters")
        if a.shape[d] == 0 or a.shape[d + 1] == 0:
            raise Reject("empty image")
        e = affined(a, d, size[0], size[1], m, ty, outer_of(p, a.dt))
        return e if "type" in p and "dim" in p else OrReject([e])


@spec("sample2d", family="C07", weight=2)
class Sample2D:
    @staticmethod
    def gen(rng):
        sh, d = img_shape(rng)
        ps = {"scale": float(pick(rng, [1.0, 2.0, 0.5, 3.0, 1.5, 0.75, 4.0, float(np.round(rng.uniform(0.3, 3), 3))]))}
        if rng.random() < 0.6:
            ps["dim"] = d - len(sh) if rng.random() < 0.5 else d
        if rng.random() < 0.6:
            ps["type"] = flavour(rng)
        r = rng.random()
        if r < 0.02:
            ps["dim"] = int(pick(rng, [len(sh) - 1, -1, len(sh), -len(sh) - 1]))
        elif r < 0.04:
            ps["scale"] = float(pick(rng, [0.0, -1.0, 1e-6]))
        return ps, [image(rng, ptype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, n, d, s = x[0], len(x[0].shape), p.i("dim", -2), np.float32(p.f("scale"))
        if d < 0:
            d += n
        if not 0 <= d < n - 1 or s < 1e-5:
            raise Reject("parameters")
        size = [int(np.float32(e) * s) for e in a.shape[d:d + 2]]
        if not all(size):
            raise Unspecified("empty result")
        return affined(a, d, size[0], size[1], np.diag([np.float32(1) / s, np.float32(1) / s, 1]), p.i("type", NEAREST), 0)


@spec("_nhwc_letterbox", family="C07", weight=2)
class Letterbox:
    @staticmethod
    def gen(rng):
        sh = [int(rng.integers(1, 3)), int(pick(rng, PIX)), int(pick(rng, PIX)), int(pick(rng, [1, 3, 4]))]
        size = [target(rng, sh[2]), target(rng, sh[1])] if rng.random() < 0.7 else [int(rng.integers(1, 13))]
        dt = ptype(rng)
        ps = {"size": np.array(size, np.int32)}
        if rng.random() < 0.6:
            ps["type"] = flavour(rng)
        if rng.random() < 0.5:
            ps["outer_value"] = outer_gen(rng, dt)
        r = rng.random()
        if r < 0.03:
            sh = sh[:-1]
        elif r < 0.05:
            ps["size"] = np.array([3, 3, 3], np.int32)
        elif r < 0.07:
            ps["size"] = np.array([-2, 4], np.int32)
        return ps, [image(rng, dt, sh)]

    @staticmethod
    def ref(p, x):
        a, size = x[0], p.l("size")
        if len(a.shape) != 4 or len(size) > 2 or min(size) < 0:
            raise Reject("parameters")
        ow, oh = size if len(size) == 2 else size * 2
        s = min(np.float32(ow) / np.float32(a.shape[2]), np.float32(oh) / np.float32(a.shape[1]))
        q = np.float32(1) / np.float32(s)
        if "outer_value" not in p:
            p["outer_value"] = T.of(np.float32(0))
        return affined(a, 1, oh, ow, np.diag([q, q, 1]), p.i("type", LINEAR), outer_of(p, a.dt))


@spec("_nhwc_scale_resize2d", family="C07", weight=2)
class ScaleResize:
    @staticmethod
    def gen(rng):
        sh = [int(rng.integers(1, 3)), int(pick(rng, PIX)), int(pick(rng, PIX)), int(pick(rng, [1, 3, 4]))]
        size = [target(rng, sh[2]), target(rng, sh[1])] if rng.random() < 0.5 else [int(rng.integers(1, 9))]
        ps = {"size": np.array(size, np.int32)}
        if rng.random() < 0.6:
            ps["type"] = flavour(rng)
        r = rng.random()
        if r < 0.03:
            sh = sh[:-1]
        elif r < 0.05:
            ps["size"] = np.array([3, 3, 3], np.int32)
        elif r < 0.07:
            ps["size"] = np.array([-2, 4] if rng.random() < 0.5 else [0], np.int32)
        elif r < 0.08:
            sh[int(rng.integers(1, 3))] = 0
        return ps, [image(rng, ptype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, size = x[0], p.l("size")
        if len(a.shape) != 4 or len(size) > 2:
            raise Reject("parameters")
        h, w = a.shape[1:3]
        if h == 0 or w == 0:
            raise Reject("empty image")
        if len(size) == 2:
            ow, oh = size
        else:
            oh, ow = (size[0] * h // w, size[0]) if h > w else (size[0], size[0] * w // h)
        if min(oh, ow) == 0:
            raise Reject("size")
        if min(oh, ow) < 0:
            raise Unspecified("negative size")
        return resized(a, 1, oh, ow, p.i("type", LINEAR))


# ------------------------------------------------------------------------------------------ crop, pad, channels
@spec("_nhwc_center_crop2d", family="C07")
class CenterCrop:
    @staticmethod
    def gen(rng):
        sh = [int(rng.integers(1, 4)), int(pick(rng, PIX)), int(pick(rng, PIX)), int(pick(rng, [1, 3, 4]))]
        ps = {"size": np.array([target(rng, sh[2]), target(rng, sh[1])], np.int32)}
        r = rng.random()
        if r < 0.03:
            sh = sh[:-1]
        elif r < 0.06:
            ps["size"] = np.array([-2, 4], np.int32)
        return ps, [image(rng, ptype(rng), sh)]

    @staticmethod
    def ref(p, x):
        a, (ow, oh) = x[0].np, p.l("size")
        if a.ndim != 4:
            raise Reject("dims")
        if min(ow, oh) <= 0:
            raise Unspecified("size") if min(ow, oh) == 0 else Reject("size")

        def cut(rnd):
            o = np.zeros((a.shape[0], oh, ow, a.shape[3]), a.dtype)
            t, l = (int(rnd((oh - a.shape[1]) / 2)), int(rnd((ow - a.shape[2]) / 2)))
            for i in range(oh):
                for j in range(ow):
                    if 0 <= i - t < a.shape[1] and 0 <= j - l < a.shape[2]:
                        o[:, i, j] = a[:, i - t, j - l]
            return o
        return Exp(cut(math.trunc), x[0].dt)


@spec("divided", family="C07")
class Divided:
    @staticmethod
    def gen(rng):
        sh = rshape(rng, 1, 5, maxn=800)
        k = len(sh) if rng.random() < 0.7 else int(rng.integers(1, len(sh) + 1))
        size = [int(pick(rng, [1, 1, 2, 3, 4, 5, 8])) for _ in range(k)]
        dt = int(pick(rng, [10, 2, 11, 5] + NUM))
        ps = {"size": np.array(size, np.int32)}
        if rng.random() < 0.5:
            ps["padding_value"] = float(pick(rng, [0.0, 1.0, 5.0]))
        r = rng.random()
        if r < 0.03:
            size[int(rng.integers(k))] = int(pick(rng, [0, -1, -4]))
            ps["size"] = np.array(size, np.int32)
        elif r < 0.06:
            ps["size"] = np.array(size + [1] * (len(sh) - k + 1), np.int32)
        return ps, [rt(rng, dt, sh, **({} if dt in FLT else {"mag": 1 << 30}))]

    @staticmethod
    def ref(p, x):
        a, size = x[0].np, p.l("size")
        if len(size) > a.ndim or min(size) <= 0:
            raise Reject("size")
        size = [1] * (a.ndim - len(size)) + size
        to = [-(-e // s) * s for e, s in zip(a.shape, size)]
        o = np.full(to, p.f("padding_value", 0.0)).astype(a.dtype)
        o[tuple(slice(0, e) for e in a.shape)] = a
        return Exp(o, x[0].dt)


@spec("force_color", family="C07", weight=0.7)
class ForceColor:
    @staticmethod
    def gen(rng):
        c = int(pick(rng, [1, 1, 3, 3, 2, 4]))
        return {}, [image(rng, ptype(rng), rshape(rng, 0, 4, maxn=500) + [c])]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        if a.shape[-1] not in (1, 3):
            raise Reject("channels")
        return Exp(a if a.shape[-1] == 3 else np.repeat(a, 3, -1), x[0].dt, bits=True)


@spec("force_gray", family="C07", weight=0.7)
class ForceGray:
    @staticmethod
    def gen(rng):
        c = int(pick(rng, [1, 3, 3, 3, 2, 4]))
        ps = {}
        if rng.random() < 0.5:
            k = c if rng.random() < 0.9 else c + 1
            w = rng.uniform(0, 1, k)
            ps["scale"] = (w / w.sum()).astype(np.float32)
        dt = ptype(rng)
        x = image(rng, dt, rshape(rng, 0, 4, maxn=500) + [c])
        return ps, [x]

    @staticmethod
    def ref(p, x):
        a = x[0].np
        c = a.shape[-1]
        if c == 1:
            return Exp(a, x[0].dt, bits=True)
        w = p["scale"].np.astype(np.float64) if "scale" in p else np.array([0.114, 0.587, 0.299], np.float32).astype(np.float64)
        if len(w) != c:
            raise Reject("channels")
        v = (a.astype(np.float64) * w).sum(-1, keepdims=True)
        m = amp(a)
        if x[0].dt in FLT:
            return Exp(v.astype(a.dtype), x[0].dt, atol=m * 1e-6)
        return Exp(v, x[0].dt, atol=1.0 + m * 1e-6)
