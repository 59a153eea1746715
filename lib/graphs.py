"""Random computation graphs, grown online: every node is executed on its own as soon as it exists (the node by node
evaluation that compiled programs are compared with), so later nodes are chosen to fit the values already there.

Values of convolutions and matrix products that other nodes use are kept exact (small whole numbers), so that a result
does not depend on the order of a summation and programs can be compared bit for bit."""
import numpy as np
import ops.all
from opspec import SPECS, make_case
from tsx import T, Packed, TsError, NP

PROBE = ["verif_count"]
# attached as they are, with random parameters and inputs of their own
APART = ["conv2d", "conv2d_v2", "gemm", "inner_prod", "matmul", "depthwise_conv2d", "depthwise_conv2d_v2", "conv2d_winograd",
         "conv2d_winograd_v2", "dcn_v2_forward", "transpose_conv2d", "roi_align", "LSTM", "conv2d_quantized"]
ELEM = ["relu", "abs", "floor", "ceil", "square", "sigmoid", "tanh", "exp", "softplus", "erf", "leaky_relu", "relu_max", "hard_sigmoid",
        "sqrt", "rsqrt"]
WHOLE = ["relu", "abs", "floor", "ceil", "square", "relu_max", "leaky_relu"]
BIN = ["add", "sub", "mul", "div", "maximum", "add", "mul", "sub", "equal"]


def i32(*v):
    return T.of(np.array(v, np.int32))


def s32(v):
    return T.of(np.array(v, np.int32))


def f32(v):
    return T.of(np.array(v, np.float32))


def whole(x, most=1 << 24):
    """largest magnitude of a tensor of whole numbers, or None"""
    if not isinstance(x, T) or x.dt not in (10, 11) or not len(x.raw):
        return None
    a = x.np
    if not np.isfinite(a).all() or (a != np.round(a)).any():
        return None
    m = float(np.abs(a).max())
    return m if m <= most else None


def is_f(x):
    return isinstance(x, T) and x.dt in (10, 11) and np.prod(x.shape, dtype=np.int64) > 0


class Grower:
    def __init__(self, srv, rng, count=0.0, half=False, weights=0.5):
        self.srv, self.rng = srv, rng
        self.nodes, self.vals, self.leaf = [], [], []      # leaf: error bound of a node that only an output may use
        self.count, self.half, self.weights = count, half, weights
        self.runs = 0
        self.shared = 0

    # -------------------------------------------------------------------------------- nodes
    def add(self, kind, op, params, inputs, val, leaf=None, name=None):
        i = len(self.nodes)
        self.nodes.append([kind, name or "n%d" % i, op, [[k, v] for k, v in params], list(inputs)])
        self.vals.append(val)
        self.leaf.append(leaf)
        return i

    def param(self, t, name=None):
        return self.add("p", "", [], [], t, name=name)

    def const(self, t):
        return self.add("c", "", [["value", t]], [], t)

    def source(self, t, p=None):
        p = 1 - self.weights if p is None else p
        return self.param(t) if self.rng.random() < p else self.const(t)

    def op(self, op, params, inputs, leaf=None):
        """index of the new node, or None when the operator refuses these inputs"""
        params = [[k, v if isinstance(v, (T, Packed)) else T.of(v)] for k, v in (params.items() if isinstance(params, dict) else params)]
        xs = [self.vals[i] for i in inputs]
        r = one(self.srv, op, params, xs)
        if r is None:
            return None
        if isinstance(r, T):
            if np.prod(r.shape, dtype=np.int64) > 20000:
                return None
            if self.half and leaf is None and r.dt in (10, 11) and whole(r, 2048) is None:
                return None
        k = self.add("o", op, params, inputs, r, leaf)
        if self.count and self.rng.random() < self.count and leaf is None:
            k = self.add("o", "verif_count", [], [k], r)
        return k

    # -------------------------------------------------------------------------------- choosing
    def any(self, ok=None):
        """index of an existing, freely usable value; recent ones more often"""
        c = [i for i in range(len(self.nodes)) if self.leaf[i] is None and (ok is None or ok(self.vals[i]))]
        if not c:
            return None
        if self.rng.random() < 0.5:
            c = c[-4:]
        return int(self.rng.choice(c))

    def fresh(self, shape=None, dt=None):
        rng = self.rng
        if shape is None:
            shape = [[2, 3, 4, 4], [1, 2, 5, 5], [3, 4], [2, 2, 3], [4], [], [1, 1, 1, 1], [1, 8, 3, 3], [2, 8], [5, 2, 1], [1, 3, 6, 4]][int(rng.integers(11))]
        dt = dt or int(rng.choice([10, 10, 10, 10, 10, 11, 5, 2, 7]))
        k = rng.random()
        if dt in (10, 11):
            a = rng.integers(-6, 7, shape) if k < 0.8 or self.half else rng.normal(0, 2, shape)
        else:
            a = rng.integers(0, 7, shape)
        return T.of(np.asarray(a).astype(NP[dt]), dt)

    # -------------------------------------------------------------------------------- growth
    def grow(self):
        rng = self.rng
        k = rng.random()
        if k < 0.14 or not self.nodes:
            return self.source(self.fresh())
        if k < 0.14 + 0.22 and not self.half:
            return self.attached()
        t = str(rng.choice(["elem", "elem", "binary", "binary", "binary", "move", "move", "move", "pack", "reduce", "conv", "conv", "inner", "inner",
                            "gemm", "gemm", "pool", "norm", "shape", "cast", "row"]))
        return getattr(self, "g_" + t)()

    def attached(self):
        rng = self.rng
        s = SPECS[str(rng.choice([k for k in sorted(SPECS) if SPECS[k].op not in APART]))]
        c = make_case(s, rng)
        n = len(self.nodes)
        ins = [self.source(x, 0.4) if isinstance(x, T) else None for x in c["inputs"]]
        if None in ins:
            ins = None
        k = self.op(s.op, c["params"], ins) if ins is not None else None
        if k is None:
            del self.nodes[n:], self.vals[n:], self.leaf[n:]
        return k

    def g_elem(self):
        rng = self.rng
        i = self.any(is_f)
        if i is None:
            return None
        o = str(rng.choice(WHOLE if self.half or rng.random() < 0.6 else ELEM))
        p = {"leaky_relu": {"scale": f32(2)}, "relu_max": {"max": f32(5)}, "hard_sigmoid": {"alpha": f32(0.2), "beta": f32(0.5)}}.get(o, {})
        if o == "square" and (whole(self.vals[i]) is None or whole(self.vals[i]) > 1000):
            o = "abs"
        return self.op(o, p, [i])

    def g_binary(self):
        rng = self.rng
        i = self.any(lambda v: isinstance(v, T) and v.dt in (10, 11, 5, 2, 7))
        if i is None:
            return None
        v = self.vals[i]
        r = rng.random()
        if r < 0.15:
            j = i
        elif r < 0.7:
            j = self.any(lambda w: isinstance(w, T) and w.dt == v.dt and fits(w.shape, v.shape))
        else:
            sh = [e if rng.random() < 0.7 else 1 for e in v.shape][int(rng.integers(0, len(v.shape) + 1)):]
            j = self.source(self.fresh(sh, v.dt))
        o = str(rng.choice(BIN[:3] if self.half else BIN))
        if o == "mul" and v.dt in (10, 11) and (whole(v) or 1e9) * (whole(self.vals[j]) or 1e9) > 1 << 22 and whole(v) is not None:
            o = "maximum"
        if o == "div" and v.dt not in (10, 11):
            o = "sub"
        if v.dt in (5, 2, 7) and o in ("add", "sub", "mul") and any(np.abs(self.vals[k].np.astype(np.float64)).max(initial=0) > 10000 for k in (i, j)):
            o = "maximum"
        a, b = (i, j) if rng.random() < 0.5 else (j, i)
        return self.op(o, {}, [a, b])

    def g_move(self):
        rng = self.rng
        i = self.any(lambda v: isinstance(v, T) and len(v.raw) > 0)
        if i is None:
            return None
        v = self.vals[i]
        d = len(v.shape)
        o = str(rng.choice(["_transpose", "_reshape", "flatten", "flatten2d", "concat", "concat", "stack", "slice", "gather", "pad", "tile", "squeeze",
                            "unsqueeze", "_copy", "_dimshuffle", "resize", "_limit", "broadcast", "split"]))
        if o == "_transpose":
            return self.op(o, {"permute": s32(rng.permutation(d))}, [i]) if d else None
        if o == "_reshape":
            n = int(np.prod(v.shape, dtype=np.int64))
            f = [x for x in range(1, n + 1) if n % x == 0]
            a = int(rng.choice(f))
            sh = [[a, n // a], [a, -1], [-1], [1, a, n // a], [n // a, a, 1, 1]][int(rng.integers(5))]
            return self.op(o, {"shape": s32(sh)}, [i])
        if o in ("flatten", "flatten2d"):
            return self.op(o, {"dim": i32_(rng.integers(0, max(1, d)))}, [i])
        if o in ("concat", "stack"):
            if d == 0 and o == "concat":
                return None
            a = int(rng.integers(0, max(d, 1)))
            same = lambda w: isinstance(w, T) and w.dt == v.dt and len(w.shape) == d and all(k == a and o == "concat" or x == y for k, (x, y) in enumerate(zip(w.shape, v.shape)))
            xs = [i] + [self.any(same) for _ in range(int(rng.integers(0, 4)))]
            rng.shuffle(xs)
            return self.op(o, {"dim" if o == "concat" else "axis": i32_(a)}, [int(x) for x in xs])
        if o == "slice" and d:
            b = [int(rng.integers(0, e)) for e in v.shape]
            return self.op(o, {"begin": s32(b), "size": s32([int(rng.integers(1, e - q + 1)) for e, q in zip(v.shape, b)])}, [i])
        if o == "gather" and d:
            a = int(rng.integers(0, d))
            k = self.source(s32(rng.integers(0, v.shape[a], int(rng.integers(1, 5)))), 0.3)
            return self.op(o, {"axis": i32_(a)}, [i, k])
        if o == "pad":
            k = self.const(s32(np.reshape(rng.integers(0, 2, 2 * d), (d, 2))))
            return self.op(o, {"padding_value": f32(float(rng.integers(-3, 4)))}, [i, k])
        if o == "tile":
            return self.op(o, {"repeats": s32(rng.integers(1, 3, d))}, [i]) if d else None
        if o == "squeeze":
            ones = [k for k, e in enumerate(v.shape) if e == 1]
            return self.op(o, {"axes": s32(ones[:1])}, [i]) if ones else None
        if o == "unsqueeze":
            return self.op(o, {"axes": s32([int(rng.integers(0, d + 1))])}, [i]) if d < 5 else None
        if o == "_dimshuffle":
            if not d:
                return None
            a = int(rng.integers(0, d))
            return self.op(o, {"dim": i32_(a), "shuffle": s32(rng.integers(0, v.shape[a], int(rng.integers(1, 5))))}, [i])
        if o == "resize":
            if d != 4 or v.dt != 10 or self.half:
                return None
            k = self.const(s32([-1, -1, int(rng.integers(1, 8)), int(rng.integers(1, 8))]))
            return self.op("_resize2d", {"type": i32_(rng.integers(0, 4))}, [i, k])
        if o == "_limit":
            return self.op(o, {"shape": s32([-1 if rng.random() < 0.4 else int(rng.integers(1, e + 1)) for e in v.shape])}, [i]) if d else None
        if o == "broadcast":
            k = self.const(s32([int(rng.integers(1, 3))] + list(v.shape)))
            return self.op(o, {}, [i, k])
        if o == "_copy":
            return self.op(o, {}, [i])
        return None

    def g_pack(self):
        """packed values and their fields, through operators with several results and through _pack"""
        rng = self.rng
        p = self.any(lambda v: isinstance(v, Packed))
        if p is None or rng.random() < 0.4:
            i = self.any(lambda v: isinstance(v, T) and len(v.raw) > 0 and any(e > 1 for e in v.shape))
            if i is not None and rng.random() < 0.5:
                v = self.vals[i]
                a = int(rng.choice([k for k, e in enumerate(v.shape) if e > 1]))
                p = self.op("chunk", {"chunks": i32_(rng.integers(2, v.shape[a] + 1)), "dim": i32_(a)}, [i])
            else:
                xs = [self.any(lambda v: isinstance(v, T)) for _ in range(int(rng.integers(1, 5)))]
                if None in xs:
                    return None
                p = self.add("o", "_pack", [], xs, Packed(self.vals[x] for x in xs) if len(xs) > 1 else self.vals[xs[0]])
            if p is None or not isinstance(self.vals[p], Packed) or rng.random() < 0.3:
                return p
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(0, len(self.vals[p])))
            f = self.add("o", "_field", [["offset", i32_(k)]], [p], self.vals[p][k])
        return f

    def g_reduce(self):
        rng = self.rng
        i = self.any(lambda v: is_f(v) and len(v.shape) > 0)
        if i is None:
            return None
        d = len(self.vals[i].shape)
        o = str(rng.choice(["max", "argmax", "reduce_sum"] + ([] if self.half else ["softmax", "l2_norm", "reduce_mean", "topkv2"])))
        a = int(rng.integers(0, d))
        if o == "reduce_sum" and (whole(self.vals[i]) is None or whole(self.vals[i]) > 1000):
            return None
        p = {"max": {"dim": i32_(a), "keep_dims": i32_(rng.integers(0, 2))}, "argmax": {"dim": i32_(a)},
             "reduce_sum": {"dims": i32_(a), "keep_dims": T.of(bool(rng.integers(0, 2)))},
             "reduce_mean": {"dims": i32_(a), "keep_dims": T.of(bool(rng.integers(0, 2)))}, "softmax": {"dim": i32_(a)},
             "l2_norm": {"dim": i32_(a), "epsilon": f32(1e-6)}, "topkv2": {"number": i32_(1), "sorted": i32_(1)}}[o]
        return self.op(o, p, [i])

    def weight(self, shape, dt=10, most=3):
        """a constant of small whole numbers; sometimes one that other nodes use already"""
        if self.rng.random() < 0.3:
            c = [i for i, n in enumerate(self.nodes) if n[0] == "c" and self.vals[i].shape == tuple(shape) and self.vals[i].dt == dt and (whole(self.vals[i]) or 99) <= 8]
            if c:
                self.shared += 1
                return int(self.rng.choice(c))
        a = self.rng.integers(-most, most + 1, shape)
        return self.source(T.of(a.astype(NP[dt]), dt), 0.25)

    def products(self, x, w, K, extra=0.0):
        """None when every partial sum is a whole number that the type represents, else an error bound"""
        mx, mw = whole(self.vals[x]), whole(self.vals[w])
        if mx is not None and mw is not None and K * mx * mw + extra <= (2048 if self.half else 1 << 22):
            return None
        with np.errstate(all="ignore"):
            a, b = self.vals[x].np.astype(np.float64), self.vals[w].np.astype(np.float64)
        if self.half or not (np.isfinite(a).all() and np.isfinite(b).all()):
            return -1
        t = (K + 4) * (np.abs(a).max() * np.abs(b).max() * K + extra)
        return t * (6e-8 if self.vals[x].dt == 10 else 2e-16) * 4 + 1e-30

    def g_conv(self):
        rng = self.rng
        i = self.any(lambda v: is_f(v) and len(v.shape) == 4)
        if i is None:
            i = self.source(self.fresh([1, 2, 5, 5], 10))
        v = self.vals[i]
        n, c, h, w = v.shape
        kh, kw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        deep = rng.random() < 0.25
        k = self.weight([int(rng.choice([1, 2, 3, 8, 9, 5])) if not deep else 1, c, kh, kw], v.dt, 2)
        tol = self.products(i, k, c * kh * kw)
        if tol == -1:
            return None
        pad = [[0, 0], [0, 0]] + [[int(x) for x in rng.integers(0, 3, 2)] for _ in range(2)]
        p = {"format": T.of("NCHW"), "stride": s32([1, 1] + [int(x) for x in rng.integers(1, 3, 2)]), "dilation": s32([1, 1] + [int(x) for x in rng.choice([1, 1, 2], 2)]), "padding_value": f32(0)}
        v2 = rng.random() < 0.4
        if v2:
            pd = self.source(s32(pad), 0.3)
        else:
            p["padding"] = s32(pad)
        return self.op(("depthwise_conv2d" if deep else "conv2d") + ("_v2" if v2 else ""), p, [i, pd, k] if v2 else [i, k], tol)

    def g_inner(self):
        rng = self.rng
        i = self.any(lambda v: is_f(v) and 1 <= len(v.shape) <= 4)
        if i is None:
            i = self.source(self.fresh([2, 3], 10))
        v = self.vals[i]
        K = int(np.prod(v.shape[1:], dtype=np.int64))
        if K > 300:
            return None
        t = bool(rng.random() < 0.5)
        m = int(rng.choice([1, 2, 7, 8, 9, 16]))
        k = self.weight([m, K] if t else [K, m], v.dt)
        tol = self.products(i, k, K)
        if tol == -1:
            return None
        p = {"transpose": T.of(t)} if t or rng.random() < 0.5 else {}
        if len(v.shape) == 2 and rng.random() < 0.2 and not t:
            return self.op("matmul", {}, [i, k], tol)
        return self.op("inner_prod", p, [i, k], tol)

    def g_gemm(self):
        rng = self.rng
        i = self.any(lambda v: is_f(v) and len(v.shape) == 2)
        if i is None:
            i = self.source(self.fresh([3, 4], int(rng.choice([10, 10, 11]))))
        v = self.vals[i]
        ta, tb = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        al, be = float(rng.choice([1, 1, 0.5, 2, -1, 0])), float(rng.choice([1, 1, 0.5, -2, 0]))
        right = bool(rng.random() < 0.3)     # the existing value is B
        if right:
            K, N = (v.shape[1], v.shape[0]) if tb else v.shape
            M = int(rng.choice([1, 2, 3, 8, 9]))
            k = self.weight([K, M] if ta else [M, K], v.dt)
        else:
            M, K = (v.shape[1], v.shape[0]) if ta else v.shape
            N = int(rng.choice([1, 2, 3, 8, 9]))
            k = self.weight([N, K] if tb else [K, N], v.dt)
        c = self.source(self.fresh([[M, N], [N], [1, N], [M, 1], []][int(rng.integers(5))], v.dt), 0.3)
        mc = whole(self.vals[c])
        tol = self.products(i, k, K, float(np.abs(self.vals[c].np).max(initial=0)) * 2)
        if mc is None and tol is None:
            tol = 1e-4
        if tol is not None and tol > 0:
            tol *= 4
        if tol == -1:
            return None
        p = {}
        if al != 1 or rng.random() < 0.6:
            p["alpha"] = f32(al)
        if be != 1 or rng.random() < 0.6:
            p["beta"] = f32(be)
        if ta or rng.random() < 0.5:
            p["transA"] = T.of(ta) if rng.random() < 0.5 else i32_(ta)
        if tb or rng.random() < 0.5:
            p["transB"] = T.of(tb) if rng.random() < 0.5 else i32_(tb)
        return self.op("gemm", p, [k, i, c] if right else [i, k, c], tol)

    def g_pool(self):
        rng = self.rng
        i = self.any(lambda v: isinstance(v, T) and v.dt == 10 and len(v.shape) == 4 and len(v.raw) > 0)
        if i is None:
            return None
        h, w = self.vals[i].shape[2:]
        if rng.random() < 0.3 and not self.half:
            return self.op("global_pooling2d", {"format": T.of("NCHW"), "type": i32_(rng.integers(0, 2))}, [i])
        kh, kw = int(rng.integers(1, min(h, 3) + 1)), int(rng.integers(1, min(w, 3) + 1))
        return self.op("pooling2d", {"format": T.of("NCHW"), "type": i32_(0 if self.half else rng.integers(0, 2)), "padding": s32([[0, 0]] * 4), "padding_type": i32_(0),
                                     "ksize": i32(1, 1, kh, kw), "stride": i32(1, 1, int(rng.integers(1, 3)), int(rng.integers(1, 3)))}, [i])

    def g_norm(self):
        rng = self.rng
        i = self.any(lambda v: is_f(v) and len(v.shape) >= 1)
        if i is None:
            return None
        v = self.vals[i]
        a = 1 if len(v.shape) > 1 else 0
        vec = lambda lo: T.of(rng.integers(lo, 6, v.shape[a]).astype(NP[v.dt]), v.dt)
        o = str(rng.choice(["add_bias", "batch_scale", "prelu"] + ([] if self.half else ["batch_norm", "fused_batch_norm"])))
        p = {"dim": i32_(a)}
        if o in ("add_bias", "prelu"):
            return self.op(o, p, [i, self.source(vec(-3), 0.2)])
        if o == "batch_scale":
            return self.op(o, p, [i, self.source(vec(-2), 0.2), self.source(vec(-3), 0.2)])
        p["epsilon"] = f32(0.5)
        xs = [self.source(vec(-3), 0.2), self.source(vec(1), 0.2)]
        if o == "batch_norm":
            if rng.random() < 0.5:
                del p["epsilon"]
            return self.op(o, p, [i] + xs)
        return self.op(o, p, [i] + xs + [self.source(vec(-2), 0.2), self.source(vec(-3), 0.2)])

    def g_shape(self):
        i = self.any(lambda v: isinstance(v, T))
        if i is None:
            return None
        k = self.op("_shape", {}, [i])
        if k is not None and self.rng.random() < 0.5:
            j = self.any(lambda v: isinstance(v, T) and np.prod(v.shape, dtype=np.int64) == np.prod(self.vals[i].shape, dtype=np.int64))
            if j is not None:
                return self.op("_reshape_v2", {}, [j, k]) or k
        return k

    def g_cast(self):
        i = self.any(lambda v: isinstance(v, T) and v.dt in (10, 11, 5, 2, 7))
        if i is None:
            return None
        return self.op("_cast", {"dtype": i32_(self.rng.choice([10, 10, 11, 5]))}, [i]) if whole(self.vals[i], 1000) is not None or self.vals[i].dt not in (10, 11) else None

    def g_row(self):
        """a longer chain on one value: deep schedules"""
        k = self.any(is_f)
        for _ in range(int(self.rng.integers(2, 7))):
            if k is None:
                break
            o = str(self.rng.choice(["relu", "abs", "floor", "add", "_copy", "maximum"]))
            k = self.op(o, {}, [k, self.any(lambda w, v=self.vals[k]: isinstance(w, T) and w.dt == v.dt and fits(w.shape, v.shape))] if o in ("add", "maximum") else [k])
        return k

    # -------------------------------------------------------------------------------- a module
    def outputs(self, most=6):
        rng = self.rng
        c = list(range(len(self.nodes)))
        n = int(rng.integers(1, most))
        late = c[-max(3, len(c) // 2):]
        outs = [int(rng.choice(late if rng.random() < 0.7 else c)) for _ in range(n)]
        if rng.random() < 0.15:
            outs.append(outs[int(rng.integers(len(outs)))])
        return outs


def i32_(v):
    return T.of(np.array(int(v), np.int32))


def fits(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    return all(x == y or x == 1 or y == 1 for x, y in zip(a, b))


def one(srv, op, params, xs):
    """value of one operator on given values; None when it refuses"""
    if op == "_field":
        k = int(dict(params)["offset"].np.reshape(-1)[0])
        return (xs[0][k] if k < len(xs[0]) else None) if isinstance(xs[0], Packed) else xs[0] if k == 0 else None
    if op == "_pack":
        return Packed(xs) if len(xs) > 1 else xs[0]
    r = srv.call("op", op, params, xs, 2, 0)[0]
    if r[0] != b"ok":
        return None
    return r[3][0]


def reach(nodes, outs):
    seen, todo = set(), list(outs)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += nodes[n][4]
    return seen


def evaluate(srv, nodes, outs, feed):
    """values of the outputs for other inputs (name -> tensor); None when a node refuses"""
    vals = {}
    need = reach(nodes, outs)
    for i, (kind, name, op, params, ins) in enumerate(nodes):
        if i not in need:
            continue
        if kind == "p":
            vals[i] = feed[name]
        elif kind == "c":
            vals[i] = dict(params)["value"]
        else:
            vals[i] = one(srv, op, params, [vals[k] for k in ins])
            if vals[i] is None:
                return None
    return [vals[o] for o in outs]


def same(want, got, tol=None):
    """text when two values differ; exact unless a bound is given"""
    if isinstance(want, Packed) != isinstance(got, Packed):
        return "packed" if isinstance(got, Packed) else "not packed"
    if isinstance(want, Packed):
        if len(want) != len(got):
            return "%d fields instead of %d" % (len(got), len(want))
        for k, (a, b) in enumerate(zip(want, got)):
            m = same(a, b, tol)
            if m:
                return "field %d: %s" % (k, m)
        return None
    if (want.dt, want.shape) != (got.dt, got.shape):
        return "%r instead of %r" % (got, want)
    if want.raw == got.raw:
        return None
    if want.dt not in NP or want.dt in (9, 22):
        return "bytes differ"
    a, b = want.np, got.np
    if a.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
            if tol is not None:
                bad &= ~(np.abs(a.astype(np.float64) - b.astype(np.float64)) <= tol)
    else:
        bad = a != b
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if bad.ndim else ()
        return "at %s: %r instead of %r (%d of %d)" % (list(i), b[i].item(), a[i].item(), int(bad.sum()), bad.size)
    return None


def text(nodes, outs):
    return "\n".join("%d %s %s%s %s" % (i, n[1], n[2] or n[0], n[4] if n[4] else "", n[3]) for i, n in enumerate(nodes))[:2200] + "\noutputs %s" % outs
