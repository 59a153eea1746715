"""C08: detection and region operators."""
import math
import numpy as np
from opspec import *

FAM = "C08"
NEAR = 2e-4      # decisions closer to their threshold than this are not judged


def f32(x):
    return np.asarray(x, np.float32)


def distinct(rng, n, lo=0.01, hi=1.0):
    """n scores at least (hi-lo)/(2n) apart, in random order"""
    if n == 0:
        return np.zeros(0, np.float32)
    s = lo + (np.arange(n) + 0.5) * (hi - lo) / n
    return f32(rng.permutation(s))


# ------------------------------------------------------------------------------------------ nms v3
def nms_boxes(rng, n, mode):
    c = rng.uniform(0, 10, (n, 2))
    if n and rng.random() < 0.7:      # clusters make overlaps frequent
        k = rng.uniform(0, 10, (max(1, n // 4), 2))
        c = k[rng.integers(len(k), size=n)] + rng.normal(0, 0.4, (n, 2))
    wh = rng.uniform(0.5, 4, (n, 2))
    if n and rng.random() < 0.2:
        wh[rng.integers(n)] = 0
    if n > 1 and rng.random() < 0.2:
        i, j = rng.integers(n, size=2)
        c[i], wh[i] = c[j], wh[j]
    if mode == "xyxy":
        a, b = c - wh / 2, c + wh / 2
        if rng.random() < 0.3:         # corners in any order
            f = rng.random((n, 2)) < 0.3
            a, b = np.where(f, b, a), np.where(f, a, b)
        return f32(np.concatenate([a, b], 1))
    if rng.random() < 0.2:
        wh = wh * np.where(rng.random((n, 2)) < 0.2, -1, 1)
    return f32(np.concatenate([c, wh], 1))


def corners(b, mode):
    b = b.astype(np.float64)
    lo, hi = b[:, :2], b[:, 2:] if mode == "xyxy" else b[:, :2] + b[:, 2:]
    return np.minimum(lo, hi), np.maximum(lo, hi)


def iou_matrix(lo, hi):
    area = (hi - lo).prod(1)
    il = np.maximum(lo[:, None], lo[None])
    ih = np.minimum(hi[:, None], hi[None])
    inter = np.maximum(ih - il, 0).prod(2)
    with np.errstate(all="ignore"):
        u = inter / (area[:, None] + area[None] - inter)
    u[(area <= 0)[:, None] | (area <= 0)[None]] = 0
    return u


@spec("non_max_suppression_v3", family=FAM, weight=1.5)
class _:
    @staticmethod
    def gen(rng):
        n = int(pick(rng, [0, 1, 2, 3, 5, 8, 13, 20, 40]))
        mode = pick(rng, ["xyxy", "xywh"])
        b = nms_boxes(rng, n, mode)
        s = distinct(rng, n)
        if rng.random() < 0.2 and n:
            s = np.round(s * 4) / 4
        p = dict(max_output_size=T.of(np.int32(pick(rng, [1, 2, 3, 5, 10, 50])), 5),
                 iou_threshold=T.of(np.float32(pick(rng, [0.0, 0.1, 0.3, 0.5, 0.7, 0.9])), 10),
                 score_threshold=T.of(np.float32(pick(rng, [-1.0, 0.0, 0.2, 0.5, 0.9])), 10),
                 mode=S(mode))
        sd = 10
        if rng.random() < 0.04:
            sd = pick(rng, [11, 5, 7])
        if rng.random() < 0.04:
            s = s[:-1]
        bd = 11 if rng.random() < 0.03 else 10
        return p, [T.of(b.astype(NP[bd]), bd), T.of(s.astype(NP[sd]), sd)]

    @staticmethod
    def ref(p, x):
        b, s = x
        if b.dt != 10:
            raise Reject("boxes are float")
        if s.shape != (b.shape[0],):
            raise Reject("one score per box")
        if s.dt not in (10, 11):
            raise Unspecified("score type")
        thr, st, m, mode = p.f("iou_threshold"), p.f("score_threshold"), p.i("max_output_size"), p.s("mode")
        sc = s.np.astype(np.float32)
        u = iou_matrix(*corners(b.np, mode))
        if (np.abs(u - thr) < NEAR)[~np.eye(len(sc), dtype=bool)].any() and thr > 0:
            raise Unspecified("overlap next to the threshold")
        over = u > thr if thr > 0 else u > 1e-9
        if thr == 0 and ((u > 0) & (u < 1e-6)).any():
            raise Unspecified("grazing overlap")

        def check(a, _):
            k = list(a)
            n = len([i for i in k if i >= 0])
            if any(i >= 0 for i in k[n:]) or any(i != -1 for i in k[n:]):
                return "filler %r" % (a,)
            k = k[:n]
            if any(i >= len(sc) for i in k) or len(set(k)) != n:
                return "index out of range or repeated: %r" % (k,)
            if any(sc[i] <= np.float32(st) for i in k):
                return "kept a box below the score threshold: %r" % (k,)
            if any(sc[k[i]] < sc[k[i + 1]] for i in range(n - 1)):
                return "not in descending order: %r" % (k,)
            for i in range(n):
                for j in range(i):
                    if over[k[i], k[j]]:
                        return "kept overlapping boxes %d %d (%g)" % (k[i], k[j], u[k[i], k[j]])
            for i in range(len(sc)):
                if i in k or sc[i] <= np.float32(st):
                    continue
                if n == m and sc[i] <= sc[k[-1]]:
                    continue
                if not any(over[i, j] and sc[j] >= sc[i] for j in k):
                    return "dropped box %d without reason (kept %r, scores %r)" % (i, k, sc)
            return None
        r = Pred(5, (m,), check)
        return OrReject([r]) if s.dt != 10 else r


# ------------------------------------------------------------------------------------------ roi_align
@spec("roi_align", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        N, C = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        H, W = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        R = int(pick(rng, [0, 1, 2, 3, 6]))
        scale = float(pick(rng, [1.0, 0.5, 0.25, 0.0625]))
        x = rt(rng, 10, [N, C, H, W])
        xy = rng.uniform(-2, 1.1, (R, 2)) * [W, H] / scale
        if rng.random() < 0.6:
            xy = rng.uniform(0, 0.8, (R, 2)) * [W, H] / scale
        wh = rng.uniform(0, 1.2, (R, 2)) * [W, H] / scale
        if R and rng.random() < 0.2:
            wh[rng.integers(R)] *= -1
        bi = rng.integers(0, N, (R, 1)).astype(float)
        if R and rng.random() < 0.15:
            bi[rng.integers(R)] = -1
        if R and rng.random() < 0.04:
            bi[rng.integers(R)] = pick(rng, [N, N + 5, 1e9])
        rois = np.concatenate([bi, xy, xy + wh], 1)
        if rng.random() < 0.03:
            rois = rois[:, :4]
        p = dict(pool_h=T.of(np.int32(rng.integers(1, 6)), 5), pool_w=T.of(np.int32(rng.integers(1, 6)), 5))
        if scale != 1.0 or rng.random() < 0.5:
            p["spatial_scale"] = T.of(np.float32(scale), 10)
        if rng.random() < 0.8:
            p["sampling_ratio"] = T.of(np.int32(pick(rng, [0, 1, 2, 3, -1])), 5)
        return p, [x, T.of(f32(rois), 10)]

    @staticmethod
    def ref(p, x):
        a, r = x[0].np.astype(np.float64), x[1].np.astype(np.float64)
        N, C, H, W = a.shape
        if r.shape[1] != 5:
            raise Reject("a region is [batch, x1, y1, x2, y2]")
        if (r[:, 0] >= N).any():
            raise Reject("region of a missing batch item")
        ph, pw, sc, sr = p.i("pool_h"), p.i("pool_w"), p.f("spatial_scale", 1.0), p.i("sampling_ratio", 2)
        out = np.zeros((len(r), C, ph, pw))

        def axis(lo, size, k, n, ext):
            g = sr if sr > 0 else int(math.ceil(size / n))
            if sr <= 0 and abs(size / n - round(size / n)) < 1e-5:
                raise Unspecified("sampling grid size on a rounding edge")
            q = lo + (np.arange(n)[:, None] + (np.arange(g) + 0.5) / g) * (size / n)
            if (np.minimum(np.abs(q + 1), np.abs(q - ext)) < 1e-3).any():
                raise Unspecified("sample on the border")
            w = np.zeros((n, g, ext))
            for i in range(n):
                for j in range(g):
                    v = q[i, j]
                    if v < -1 or v > ext:
                        continue
                    v = min(max(v, 0.0), ext - 1.0)
                    f = int(v)
                    t = v - f
                    w[i, j, f] += 1 - t
                    if t > 0:
                        w[i, j, f + 1] += t
            return w.mean(1)      # [n, ext]
        for i, (b, x1, y1, x2, y2) in enumerate(r):
            if b < 0:
                continue
            x1, y1, x2, y2 = x1 * sc, y1 * sc, x2 * sc, y2 * sc
            wy = axis(y1, max(y2 - y1, 1.0), 0, ph, H)
            wx = axis(x1, max(x2 - x1, 1.0), 0, pw, W)
            out[i] = np.einsum("chw,ph,qw->cpq", a[int(b)], wy, wx)
        big = float(np.abs(a).max()) if a.size else 0
        span = max(1.0, float(np.abs(r).max()) if r.size else 1.0)
        return Exp(out, 10, atol=1e-30 + big * (2e-5 + 1e-6 * span * sc), rtol=1e-4)


# ------------------------------------------------------------------------------------------ shape_index_patch
@spec("shape_index_patch", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        N, C, H, W = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 12)), int(rng.integers(1, 12))
        L = int(rng.integers(0, 5))
        dt = pick(rng, [10, 10, 11])
        pos = rng.uniform(0, 1, (N, 2 * L, 1, 1))
        if rng.random() < 0.3:
            pos = rng.uniform(-0.5, 1.5, (N, 2 * L, 1, 1))
        oh, ow = int(rng.integers(1, 30)), int(rng.integers(1, 30))
        p = dict(origin_patch=T.of(np.int32([rng.integers(1, 10), rng.integers(1, 10)]), 5),
                 origin=T.of(np.int32([oh, ow]), 5))
        n2 = N
        if rng.random() < 0.04:
            n2 = N + int(pick(rng, [-1, 1]))
        pos = np.resize(pos, (n2, 2 * L, 1, 1))
        if rng.random() < 0.03:
            pos = np.zeros((N, 2 * L + 1, 1, 1))
        return p, [rt(rng, dt, [N, C, H, W]), T.of(pos.astype(NP[dt]), dt)]

    @staticmethod
    def ref(p, x):
        a, pos = x[0].np, x[1].np.astype(np.float64)
        N, C, H, W = a.shape
        if pos.shape[1] % 2:
            raise Reject("odd number of landmark coordinates")
        if pos.shape[0] != N:
            raise Reject("pos.number == x.number")
        (qh, qw), (oh, ow) = p.l("origin_patch"), p.l("origin")
        ph, pw = qh * H / oh + 0.5, qw * W / ow + 0.5
        if abs(ph - round(ph)) < 1e-5 and (qh * H) % oh or abs(pw - round(pw)) < 1e-5 and (qw * W) % ow:
            if 2 * qh * H % oh or 2 * qw * W % ow:
                raise Unspecified("rounding edge")
        ph, pw = int(ph), int(pw)
        L = pos.shape[1] // 2
        out = np.zeros((N, C, ph, L, pw), a.dtype)
        if ph == 0 or pw == 0:
            raise Unspecified("empty patch")
        for n in range(N):
            for l in range(L):
                fx = pos[n, 2 * l, 0, 0] * (W - 1) - (pw - 1) / 2 + 0.5
                fy = pos[n, 2 * l + 1, 0, 0] * (H - 1) - (ph - 1) / 2 + 0.5
                if min(abs(fx - round(fx)), abs(fy - round(fy))) < 1e-4:
                    raise Unspecified("rounding edge")
                ix, iy = int(fx), int(fy)          # towards zero, as the original implementation
                for i in range(ph):
                    for j in range(pw):
                        if 0 <= iy + i < H and 0 <= ix + j < W:
                            out[n, :, i, l, j] = a[n, :, iy + i, ix + j]
        return Exp(out, x[0].dt)


# ------------------------------------------------------------------------------------------ prior_box
@spec("prior_box", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        h, w = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        k = int(rng.integers(1, 4))
        mins = np.sort(rng.integers(4, 60, k)).astype(np.float32)
        p = dict(min_size=T.of(mins, 10))
        p["max_size"] = T.of(f32(mins + rng.integers(1, 40, k)) if rng.random() < 0.6 else np.zeros(0, np.float32), 10)
        if rng.random() < 0.03:
            p["max_size"] = T.of(f32(mins - rng.integers(0, 3, k)), 10)
        p["aspect_ratio"] = T.of(f32(pick(rng, [[], [2], [2, 3], [1, 2], [2, 0.5], [1.5, 3, 0.25]])), 10)
        if rng.random() < 0.6:
            p["flip"] = T.of(np.uint8(rng.integers(2)), 21)
        if rng.random() < 0.6:
            p["clip"] = T.of(np.uint8(rng.integers(2)), 21)
        if rng.random() < 0.7:
            p["variance"] = T.of(f32(pick(rng, [[0.2], [0.1, 0.1, 0.2, 0.3], [0.5, 0.25, 0.125, 1]])), 10)
        if rng.random() < 0.5:
            p["offset"] = T.of(np.float32(pick(rng, [0.5, 0.0, 0.25])), 10)
        k = rng.random()
        if k < 0.3:
            p["img_w"], p["img_h"] = T.of(np.int32(rng.integers(50, 300)), 5), T.of(np.int32(rng.integers(50, 300)), 5)
        elif k < 0.5:
            p["img_size"] = T.of(np.int32(rng.integers(50, 300)), 5)
        k = rng.random()
        if k < 0.3:
            p["step_w"], p["step_h"] = T.of(np.float32(pick(rng, [4, 8, 7.5, 16.25])), 10), T.of(np.float32(pick(rng, [4, 8, 5.5])), 10)
        elif k < 0.5:
            p["step"] = T.of(np.float32(pick(rng, [8, 16, 12.5])), 10)
        x = [rt(rng, pick(rng, [10, 10, 11]), [int(rng.integers(1, 3)), int(rng.integers(1, 3)), h, w])]
        if not ("img_w" in p or "img_size" in p) and rng.random() < 0.95 or rng.random() < 0.4:
            x.append(T.of(np.zeros((1, 1, int(rng.integers(40, 200)), int(rng.integers(40, 200))), np.float32), 10))
        return p, x

    @staticmethod
    def ref(p, x):
        h, w = x[0].shape[2:]
        mins = p["min_size"].np.astype(np.float64)
        maxs = p["max_size"].np.astype(np.float64)
        if len(maxs) and (maxs <= mins).any():
            raise Reject("max_size must be greater")
        if "img_w" in p:
            iw, ih = p.i("img_w"), p.i("img_h")
        elif "img_size" in p:
            iw = ih = p.i("img_size")
        elif len(x) > 1:
            ih, iw = x[1].shape[2:]
        else:
            raise Reject("no image size")
        if "step_w" in p:
            sw, sh = p.f("step_w"), p.f("step_h")
        elif "step" in p:
            sw = sh = p.f("step")
        else:
            sw, sh = iw / w, ih / h
        flip, clip, off = p.b("flip", True), p.b("clip", False), p.f("offset", 0.5)
        ars = []
        for r in p["aspect_ratio"].np.reshape(-1):
            r = float(r)
            if any(abs(r - q) < 1e-6 for q in [1.0] + ars):
                continue
            ars += [r] + ([1 / r] if flip else [])
        boxes = []
        for s in range(len(mins)):
            boxes.append((mins[s], mins[s]))
            if len(maxs):
                boxes.append((math.sqrt(mins[s] * maxs[s]),) * 2)
            boxes += [(mins[s] * math.sqrt(r), mins[s] / math.sqrt(r)) for r in ars]
        b = np.array(boxes)
        cy, cx = np.meshgrid((np.arange(h) + off) * sh, (np.arange(w) + off) * sw, indexing="ij")
        o = np.stack([(cx[..., None] - b[:, 0] / 2) / iw, (cy[..., None] - b[:, 1] / 2) / ih,
                      (cx[..., None] + b[:, 0] / 2) / iw, (cy[..., None] + b[:, 1] / 2) / ih], -1).reshape(-1)
        if clip:
            o = np.clip(o, 0, 1)
        v = p["variance"].np.reshape(-1).astype(np.float64) if "variance" in p else np.array([0.1])
        v = np.resize(v, o.shape)
        return Exp(np.stack([o, v])[None], 10, atol=2e-5, rtol=1e-5)


# ------------------------------------------------------------------------------------------ detection_output
def jaccard(a, b):
    w = min(a[2], b[2]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[1], b[1])
    if w <= 0 or h <= 0:
        return 0.0
    def size(q):
        return 0.0 if q[2] < q[0] or q[3] < q[1] else (q[2] - q[0]) * (q[3] - q[1])
    return w * h / (size(a) + size(b) - w * h)


@spec("detection_output", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        N, P, K = int(rng.integers(1, 4)), int(pick(rng, [1, 2, 4, 8, 15])), int(rng.integers(2, 5))
        share = rng.random() < 0.6
        L = 1 if share else K
        c = rng.uniform(0.1, 0.9, (P, 2))
        if rng.random() < 0.6:
            k = rng.uniform(0.2, 0.8, (max(1, P // 4), 2))
            c = k[rng.integers(len(k), size=P)] + rng.normal(0, 0.03, (P, 2))
        wh = rng.uniform(0.1, 0.4, (P, 2))
        prior = np.concatenate([np.concatenate([c - wh / 2, c + wh / 2], 1).reshape(-1),
                                np.tile(pick(rng, [[0.1, 0.1, 0.2, 0.2], [0.5, 0.25, 0.3, 0.1]]), P)]).reshape(1, 2, 4 * P)
        loc = rng.normal(0, 0.3, (N, P * L * 4))
        conf = np.stack([distinct(rng, P * K) for _ in range(N)])
        if rng.random() < 0.15:
            conf *= 0
        p = dict(num_classes=T.of(np.int32(K), 5))
        if not share or rng.random() < 0.5:
            p["share_location"] = T.of(np.uint8(share), 21)
        bg = 0
        if rng.random() < 0.4:
            bg = int(rng.integers(-1, K))
            if bg < 0:
                bg = K + 3        # no background class
            p["background_label_id"] = T.of(np.int32(bg), 5)
        if rng.random() < 0.7:
            p["nms_threshold"] = T.of(np.float32(pick(rng, [0.2, 0.45, 0.7, 0.9])), 10)
        if rng.random() < 0.5:
            p["nms_top_k"] = T.of(np.int32(pick(rng, [1, 2, 5, -1, 400])), 5)
        if rng.random() < 0.3:
            p["nms_eta"] = T.of(np.float32(pick(rng, [1.0, 0.9, 0.5])), 10)
        if rng.random() < 0.8:
            p["code_type"] = T.of(np.int32(pick(rng, [1, 2, 3])), 5)
        if rng.random() < 0.5:
            p["variance_encoded_in_target"] = T.of(np.uint8(rng.integers(2)), 21)
        if rng.random() < 0.6:
            p["keep_top_k"] = T.of(np.int32(pick(rng, [-1, 0, 1, 3, 6, 200])), 5)
        if rng.random() < 0.7:
            p["confidence_threshold"] = T.of(np.float32(pick(rng, [0.01, 0.3, 0.6, 0.99])), 10)
        x = [loc, conf, prior]
        if rng.random() < 0.05:
            k = int(rng.integers(3))
            x[k] = x[k][..., :-int(pick(rng, [1, 4, 8]))] if k < 2 else np.zeros((1, 2, 4 * (P + 1)))
        return p, [T.of(f32(v), 10) for v in x]

    @staticmethod
    def ref(p, x):
        loc, conf, prior = [v.np.astype(np.float64) for v in x]
        K = p.i("num_classes")
        share, bg = p.b("share_location", True), p.i("background_label_id", 0)
        L = 1 if share else K
        P = prior.shape[2] // 4
        if loc.shape[1] != P * L * 4 or conf.shape[1] != P * K:
            raise Reject("number of priors")
        N = loc.shape[0]
        code, enc = p.i("code_type", 1), p.b("variance_encoded_in_target", False)
        pb = prior[0, 0].reshape(P, 4)
        var = prior[0, 1].reshape(P, 4) if not enc else np.ones((P, 4))
        loc = loc.reshape(N, P, L, 4)
        pw, ph = (pb[:, 2] - pb[:, 0])[:, None], (pb[:, 3] - pb[:, 1])[:, None]
        d = loc * var[None, :, None, :]
        q = pb[None, :, None, :]
        s4 = np.stack([pw, ph, pw, ph], -1)[None]
        if code == 1:
            box = q + d
        elif code == 2:
            cx = d[..., 0] * pw + (q[..., 0] + q[..., 2]) / 2
            cy = d[..., 1] * ph + (q[..., 1] + q[..., 3]) / 2
            w, h = np.exp(d[..., 2]) * pw, np.exp(d[..., 3]) * ph
            box = np.stack([cx - w / 2, cy - h / 2, cx + w / 2, cy + h / 2], -1)
        else:
            box = q + d * s4
        conf = conf.reshape(N, P, K)
        thr0, eta, topk = p.f("nms_threshold", 0.3), p.f("nms_eta", 1.0), p.i("nms_top_k", 1000)
        ct, keep = p.f("confidence_threshold", 1e-5), p.i("keep_top_k", -1)
        rows = []
        for n in range(N):
            dets = []
            for c in range(K):
                if c == bg:
                    continue
                sc = conf[n, :, c]
                order = [i for i in np.argsort(-sc, kind="stable") if sc[i] > ct]
                if topk > -1:
                    order = order[:topk]
                thr, kept = thr0, []
                bx = box[n, :, 0 if share else c]
                for i in order:
                    js = [jaccard(bx[i], bx[j]) for j in kept]
                    if any(abs(v - thr) < NEAR for v in js):
                        raise Unspecified("overlap next to the threshold")
                    if all(v <= thr for v in js):
                        kept.append(i)
                        if eta < 1 and thr > 0.5:
                            thr *= eta
                dets += [(c, i, sc[i], bx[i]) for i in kept]
            if keep > -1 and len(dets) > keep:
                dets = sorted(dets, key=lambda t: -t[2])[:keep]
                dets = sorted(dets, key=lambda t: (t[0], -t[2]))
            rows += [[n, c, s] + list(b) for c, i, s, b in dets]
        if not rows:
            rows = [[n] + [-1] * 6 for n in range(N)]
        return Exp(np.array(rows, np.float64).reshape(1, 1, -1, 7), 10, atol=2e-6, rtol=1e-5)


# ------------------------------------------------------------------------------------------ yolo
def sig(v):
    with np.errstate(over="ignore"):
        return 1 / (1 + np.exp(-v))


def yolo_params(rng, classes=None):
    n = int(rng.integers(1, 4))
    m = int(rng.integers(n, 7))
    return (classes or int(rng.integers(1, 4)), rng.choice(m, n, replace=False).astype(np.int32),
            f32(rng.uniform(5, 60, 2 * m)))


@spec("yolo", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        c, mask, anchors = yolo_params(rng)
        dt = pick(rng, [10, 10, 11])
        ch = len(mask) * (c + 5)
        if rng.random() < 0.04:
            ch += int(pick(rng, [-1, 1]))
        p = dict(classes=T.of(np.int32(c), 5), mask=T.of(mask, 5), anchors=T.of(anchors, 10))
        return p, [rt(rng, dt, [int(rng.integers(1, 4)), ch, int(rng.integers(1, 6)), int(rng.integers(1, 6))])]

    @staticmethod
    def ref(p, x):
        a = x[0].np.astype(np.float64)
        c, mask = p.i("classes"), p.l("mask")
        if a.shape[1] != len(mask) * (c + 5):
            raise Reject("channels")
        N, _, H, W = a.shape
        q = a.reshape(N, len(mask), c + 5, H, W).copy()
        q[:, :, :2] = sig(q[:, :, :2])
        q[:, :, 4:] = sig(q[:, :, 4:])
        return [Exp(q.reshape(a.shape), x[0].dt, rtol=2e-6, atol=1e-37), Exp(p["classes"].np, 5),
                Exp(p["mask"].np, 5), Exp(p["anchors"].np, 10)]


@spec("yolo_poster", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        N = int(rng.integers(1, 4))
        K = int(rng.integers(1, 4))
        net = T.of(np.zeros((N, 1, int(rng.integers(20, 80)), int(rng.integers(20, 80))), np.float32), 10)
        x = [net]
        for _ in range(int(rng.integers(1, 4))):
            c, mask, anchors = yolo_params(rng, K)
            h, w = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            v = rng.normal(0, 0.7, (N, len(mask), c + 5, h, w))
            v[:, :, :2] = sig(v[:, :, :2])
            v[:, :, 4:] = rng.uniform(0.05, 1, v[:, :, 4:].shape) if rng.random() < 0.7 else sig(v[:, :, 4:] * 3)
            x.append(Packed([T.of(f32(v.reshape(N, -1, h, w)), 10), T.of(np.int32([c]), 5), T.of(mask, 5), T.of(anchors, 10)]))
        if rng.random() < 0.03:
            x[-1] = Packed([x[-1][0], T.of(np.int32([K + 1]), 5), x[-1][2], x[-1][3]])
        if rng.random() < 0.03:
            x[-1] = Packed([x[-1][0], x[-1][1], T.of(np.int32([len(x[-1][3].np)] * len(x[-1][2].np)), 5), x[-1][3]])
        return dict(thresh=T.of(np.float32(pick(rng, [0.1, 0.3, 0.5, 0.8])), 10),
                    nms=T.of(np.float32(pick(rng, [0.2, 0.45, 0.7])), 10)), x

    @staticmethod
    def ref(p, x):
        neth, netw = x[0].shape[2:]
        N = x[-1][0].shape[0]
        thr, nms = p.f("thresh"), p.f("nms")
        K = int(x[-1][1].np.reshape(-1)[0])
        for y in x[1:]:
            if int(y[1].np.reshape(-1)[0]) != K or y[0].shape[1] != len(y[2].np) * (K + 5) or y[0].shape[0] != N:
                raise Reject("layers disagree")
            if y[2].np.max() * 2 + 1 >= len(y[3].np):
                raise Reject("anchor out of range")
        outs = []
        for n in range(N):
            det = []
            for y in x[1:]:
                v = y[0].np.astype(np.float64)[n]
                h, w = v.shape[1:]
                mask, anc = y[2].np, y[3].np.astype(np.float64)
                v = v.reshape(len(mask), K + 5, h, w)
                for r in range(h):
                    for c in range(w):
                        for k in range(len(mask)):
                            t = v[k, :, r, c]
                            if abs(t[4] - thr) < 1e-6:
                                raise Unspecified("objectness next to the threshold")
                            if t[4] <= thr:
                                continue
                            bx, by = (c + t[0]) / w, (r + t[1]) / h
                            bw, bh = math.exp(t[2]) * anc[2 * mask[k]] / netw, math.exp(t[3]) * anc[2 * mask[k] + 1] / neth
                            b = np.clip([bx - bw / 2, by - bh / 2, bx + bw / 2, by + bh / 2], 0, 1)
                            pr = t[4] * t[5:]
                            if (np.abs(pr - thr) < 1e-6).any():
                                raise Unspecified("probability next to the threshold")
                            det.append((b, np.where(pr > thr, pr, 0)))
            probs = np.array([d[1] for d in det]).reshape(-1, K)
            keep = probs > 0
            if det:
                bb = np.array([d[0] for d in det])
                u = iou_matrix(bb[:, :2], bb[:, 2:])
            for k in range(K):
                live = [i for i in np.argsort(-probs[:, k], kind="stable") if probs[i, k] > 0]
                ps = probs[live, k]
                if len(ps) > 1 and (np.diff(-ps) < 1e-6).any():
                    raise Unspecified("tied probabilities")
                dead = set()
                for a, i in enumerate(live):
                    if i in dead:
                        continue
                    for j in live[a + 1:]:
                        if abs(u[i, j] - nms) < NEAR:
                            raise Unspecified("overlap next to the threshold")
                        if u[i, j] > nms:
                            dead.add(j)
                            keep[j, k] = False
            rows = [[d[0][0], d[0][1], d[0][2] - d[0][0], d[0][3] - d[0][1], probs[i, k], k]
                    for i, d in enumerate(det) for k in range(K) if keep[i, k]]
            outs.append(Exp(np.array(rows).reshape(-1, 6), 10, atol=1e-5, rtol=1e-5))
        return outs


# ------------------------------------------------------------------------------------------ proposal
def rnd(v):
    if abs(v + 0.5 - round(v + 0.5)) < 1e-5:
        raise Unspecified("anchor size on a rounding edge")
    return int(v + 0.5)


def anchors_of(base, ratios, scales):
    o = []
    c = 0.5 * (base - 1)
    for r in ratios:
        w = rnd(math.sqrt(base * base / r))
        h = rnd(w * r)
        for s in scales:
            sw, sh = 0.5 * (w * s - 1), 0.5 * (h * s - 1)
            o.append([c - sw, c - sh, c + sw, c + sh])
    return np.array(o)


@spec("proposal", family=FAM)
class _:
    @staticmethod
    def gen(rng):
        N = int(pick(rng, [1, 1, 1, 2, 3]))
        fpn = rng.random() < 0.4
        ratios = pick(rng, [[1.0], [0.5, 1.0, 2.0], [1.0, 2.0]])
        p = dict(ratios=T.of(f32(ratios), 10))
        if fpn:
            k = int(rng.integers(2, 4))
            strides = [4 * 2 ** i for i in range(k)]
            scales = [float(pick(rng, [2, 4]))] * k
            fs = [(int(rng.integers(1, 5)), int(rng.integers(1, 5))) for _ in range(k)]
            tot = sum(h * w * len(ratios) for h, w in fs)
            x = [T.of(np.zeros((N, 1, h, w), np.float32), 10) for h, w in fs]
            sc = np.stack([distinct(rng, tot) for _ in range(N)])
            bb = rng.normal(0, 0.3, (N, 4, tot))
        else:
            strides = [int(pick(rng, [8, 16]))]
            scales = pick(rng, [[1.0], [1.0, 2.0], [2.0, 4.0]])
            h, w = int(rng.integers(1, 6)), int(rng.integers(1, 6))
            A = len(ratios) * len(scales)
            tot = h * w * A
            x = [T.of(np.zeros((N, 1, h, w), np.float32), 10)]
            sc = np.stack([distinct(rng, tot) for _ in range(N)]).reshape(N, A, h, w)
            bb = rng.normal(0, 0.3, (N, A * 4, h, w))
        p["strides"] = T.of(np.int32(strides), 5)
        p["scales"] = T.of(f32(scales), 10)
        info = np.stack([rng.uniform(40, 100, N), rng.uniform(40, 100, N), rng.uniform(0.5, 2, N)], 1)
        x += [T.of(f32(sc), 10), T.of(f32(bb), 10), T.of(f32(info), 10)]
        lo = int(pick(rng, [2, 2, 3]))
        p["min_level"] = T.of(np.int32(lo), 5)
        p["max_level"] = T.of(np.int32(lo + int(pick(rng, [0, 0, 1, 2, 3]))), 5)
        if rng.random() < 0.8:
            p["pre_nms_top_n"] = T.of(np.int32(pick(rng, [1, 3, 8, 20, 60])), 5)
        p["post_nms_top_n"] = T.of(np.int32(pick(rng, [1, 3, 10, 100])), 5)
        if rng.random() < 0.7:
            p["nms_thresh"] = T.of(np.float32(pick(rng, [0.3, 0.5, 0.7])), 10)
        if rng.random() < 0.9:
            p["min_size"] = T.of(np.int32(pick(rng, [0, 0, 2, 8])), 5)
        if rng.random() < 0.8:
            p["canonical_scale"] = T.of(np.int32(pick(rng, [8, 16, 32])), 5)
        if rng.random() < 0.3:
            p["canonical_level"] = T.of(np.int32(pick(rng, [3, 4])), 5)
        return p, x

    @staticmethod
    def ref(p, x):
        N = x[0].shape[0]
        strides, ratios, scales = p.l("strides"), [float(v) for v in p["ratios"].np], [float(v) for v in p["scales"].np]
        pre, post, thr = p.i("pre_nms_top_n", 6000), p.i("post_nms_top_n", 300), p.f("nms_thresh", float(np.float32(0.7)))
        sc, bb, info = [v.np.astype(np.float64) for v in x[-3:]]
        rois = []
        for n in range(N):
            if len(strides) == 1:
                h, w = x[0].shape[2:]
                an = anchors_of(strides[0], ratios, scales)
                A = len(an)
                g = np.array([[[c * strides[0], r * strides[0]] * 2 + a for a in an] for r in range(h) for c in range(w)]).reshape(-1, 4)
                s = sc[n].reshape(A, h * w).T.reshape(-1)
                d = bb[n].reshape(A, 4, h * w).transpose(2, 0, 1).reshape(-1, 4)
            else:
                g = []
                for i, st in enumerate(strides):
                    h, w = x[i].shape[2:]
                    an = anchors_of(st, ratios, scales[i:i + 1])
                    g += [[c * st, r * st] * 2 + a for a in an for r in range(h) for c in range(w)]
                g = np.array(g)
                s, d = sc[n].reshape(-1), bb[n].reshape(4, -1).T
            ih, iw, ims = info[n, :3]
            w, h = g[:, 2] - g[:, 0] + 1, g[:, 3] - g[:, 1] + 1
            cx, cy = g[:, 0] + 0.5 * w + d[:, 0] * w, g[:, 1] + 0.5 * h + d[:, 1] * h
            pw, ph = np.exp(d[:, 2]) * w, np.exp(d[:, 3]) * h
            b = np.stack([np.clip(cx - pw / 2, 0, iw - 1), np.clip(cy - ph / 2, 0, ih - 1),
                          np.clip(cx + pw / 2, 0, iw - 1), np.clip(cy + ph / 2, 0, ih - 1)], 1)
            ms = p.i("min_size", 16) * ims
            bw, bh = b[:, 2] - b[:, 0] + 1, b[:, 3] - b[:, 1] + 1
            if (np.minimum(np.abs(bw - ms), np.abs(bh - ms)) < 1e-3).any():
                raise Unspecified("size next to the minimum")
            s = np.where((bw >= ms) & (bh >= ms), s, 0)
            order = np.argsort(-s, kind="stable")[:pre]
            if (s[order] <= 0).any():
                raise Unspecified("undersized boxes within the candidates")
            kept = []
            for i in order:
                ok = True
                for j in kept:
                    a, c = b[i], b[j]
                    q = max(0, min(a[2], c[2]) - max(a[0], c[0]) + 1) * max(0, min(a[3], c[3]) - max(a[1], c[1]) + 1)
                    if a[0] > c[2] or a[1] > c[3] or a[2] < c[0] or a[3] < c[1]:
                        if min(abs(a[0] - c[2]), abs(a[1] - c[3]), abs(a[2] - c[0]), abs(a[3] - c[1])) < 1e-3:
                            raise Unspecified("boxes touch")
                        q = 0
                    u = q / (bw[i] * bh[i] + bw[j] * bh[j] - q)
                    if abs(u - thr) < NEAR:
                        raise Unspecified("overlap next to the threshold")
                    if u > thr:
                        ok = False
                        break
                if ok:
                    kept.append(i)
                    if len(kept) == post:
                        break
            rois += [[n] + list(b[i]) for i in kept]
        r = np.array(rois).reshape(-1, 5)
        lo, hi = p.i("min_level"), p.i("max_level")
        if lo == hi:
            return Exp(r, 10, atol=2e-3, rtol=1e-5)
        lv = p.i("canonical_level", 4) + np.log2(np.maximum(np.sqrt((r[:, 3] - r[:, 1] + 1) * (r[:, 4] - r[:, 2] + 1)), 1) / p.i("canonical_scale", 224))
        if (np.abs(lv - np.round(lv)) < 1e-4).any():
            raise Unspecified("level on a rounding edge")
        lv = np.clip(np.trunc(lv), lo, hi)
        out = []
        for k in range(lo, hi + 1):
            q = r[lv == k]
            out.append(Exp(q if len(q) else np.array([[0, 0, 0, 1, 1.0]]), 10, atol=2e-3, rtol=1e-5))
        return out
