"""Operator specifications: a generator of inputs and an independent reference for the outputs.

ref(params, inputs) returns a list of Exp, or raises Reject (the operator has to answer with an
exception) or Unspecified (any clean answer is acceptable)."""
import numpy as np
from tsx import T, Packed, S, NP, DT, NAME

SPECS = {}


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


class OrReject(list):
    """Expected outputs of an input the implementation may also decline with an exception."""


class Exp:
    """Expected output: array + dtype code; tolerance |got-want| <= atol (array or scalar)."""

    def __init__(self, a, dt=None, atol=None, rtol=0.0, mask=None, alt=None, bits=False):
        self.a = np.asarray(a)
        self.bits = bits        # bit patterns have to agree (signed zeros, NaN payloads)
        self.dt = dt if dt is not None else T.of(self.a).dt
        self.atol, self.rtol = atol, rtol
        self.mask = mask        # elements with a specified value
        self.alt = alt          # list of further acceptable arrays (documented ambiguity)


class Shape:
    """Expected type and shape only."""

    def __init__(self, dt, shape):
        self.dt, self.shape = dt, tuple(shape)


class Pred:
    """Expected type and shape plus a predicate over the values: fn(array, all output arrays) -> None or text."""

    def __init__(self, dt, shape, fn):
        self.dt, self.shape, self.fn = dt, tuple(shape), fn


class Spec:
    def __init__(self, name, op, gen, ref, family, weight=1.0, infer=True):
        self.name, self.op, self.gen, self.ref, self.family = name, op, gen, ref, family
        self.weight, self.infer = weight, infer


def spec(name, op=None, family=None, weight=1.0, infer=True):
    """decorator on a class with static gen(rng) and ref(params, inputs)"""
    def deco(cls):
        SPECS[name] = Spec(name, op or name, cls.gen, cls.ref, family, weight, infer)
        return cls
    return deco


def by_family(*fam):
    return [s for s in SPECS.values() if s.family in fam]


def make_case(s, rng, threads=None):
    params, inputs = s.gen(rng)
    params = {k: (v if isinstance(v, (T, Packed)) else T.of(v)) for k, v in params.items()}
    inputs = [x if isinstance(x, (T, Packed)) else T.of(x) for x in inputs]
    if threads is None:
        threads = int(rng.choice([1, 2, 4, 4, 3]))
    return dict(spec=s.name, params=[[k, v] for k, v in params.items()], inputs=inputs, threads=threads)


class P(dict):
    """Parameters with scalar access."""

    def i(self, k, d=None):
        return int(self[k].np.reshape(-1)[0]) if k in self else d

    def f(self, k, d=None):
        return float(self[k].np.reshape(-1)[0]) if k in self else d

    def l(self, k, d=None):
        return [int(x) for x in self[k].np.reshape(-1)] if k in self else d

    def s(self, k, d=None):
        return self[k].raw.decode() if k in self else d

    def b(self, k, d=None):
        return bool(self[k].np.reshape(-1)[0]) if k in self else d


class R:
    """One execution of an operator as reported by the server."""

    def __init__(self, v):
        self.status = v[0].decode()
        self.msg = v[1].decode(errors="replace")
        self.protos = v[2]
        self.outputs = v[3]
        self.inputs_modified, self.params_modified = bool(v[4]), bool(v[5])

    @property
    def ok(self):
        return self.status == "ok"


def run_op(server, case, mode=0, threads=None):
    s = SPECS[case["spec"]]
    v = server.call("op", s.op, case["params"], case["inputs"], threads or case["threads"], mode)
    return [R(x) for x in v]


def expectation(case):
    """('ok', [Exp...]) | ('reject', why) | ('any', why)"""
    s = SPECS[case["spec"]]
    try:
        with np.errstate(all="ignore"):
            r = s.ref(P((k, v) for k, v in case["params"]), case["inputs"])
        return "ok", r if isinstance(r, list) else [r]
    except Reject as e:
        return "reject", str(e)
    except Unspecified as e:
        return "any", str(e)


def mismatch(exp, got):
    """None when got (T) agrees with exp, else a text."""
    if got.dt != exp.dt:
        return "dtype", "element type %s, expected %s" % (NAME.get(got.dt), NAME.get(exp.dt))
    if isinstance(exp, (Shape, Pred)):
        return None if got.shape == exp.shape else ("shape", "shape %s, expected %s" % (got.shape, exp.shape))
    if got.shape != exp.a.shape:
        return "shape", "shape %s, expected %s" % (got.shape, exp.a.shape)
    n = int(np.prod(got.shape, dtype=np.int64))
    if len(got.raw) != n * np.dtype(NP[got.dt]).itemsize:
        return "bytes", "%d bytes for %d elements" % (len(got.raw), n)
    bad = None
    for want in [exp.a] + list(exp.alt or []):
        b = differ(want, got.np, exp)
        bad = b if bad is None else bad & b
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if bad.ndim else ()
        return "value", "at %s: %r, expected %r (%d of %d wrong)" % (
            list(i), got.np[i].item(), np.asarray(exp.a)[i].item(), int(bad.sum()), bad.size)
    return None


def differ(w, g, exp):
    w = np.asarray(w)
    if exp.bits and w.dtype == g.dtype:
        n = w.dtype.itemsize
        w, g = np.ascontiguousarray(w).view(np.dtype("u%d" % n)), np.ascontiguousarray(g).view(np.dtype("u%d" % n))
        return (w != g).reshape(exp.a.shape)
    if exp.atol is None and not exp.rtol:
        if w.dtype.kind in "fc":
            bad = ~((w == g) | (np.isnan(w) & np.isnan(g)))
        else:
            bad = w.astype(np.int64) != g.astype(np.int64) if w.dtype != g.dtype else w != g
    else:
        w64, g64 = w.astype(np.float64), g.astype(np.float64)
        atol = 0.0 if exp.atol is None else exp.atol
        with np.errstate(all="ignore"):
            bad = ~(np.abs(w64 - g64) <= atol + exp.rtol * np.abs(w64))
        bad &= ~((w64 == g64) | (np.isnan(w64) & np.isnan(g64)))
    bad = np.asarray(bad)
    if exp.mask is not None:
        bad = bad & exp.mask
    return bad


def judge(case, r, out, want=None):
    """Compares one execution with the reference."""
    s = SPECS[case["spec"]]
    kind, exp = want if want is not None else expectation(case)
    key = s.name
    if kind == "reject":
        out.see("expected rejections")
        if r.ok:
            out.bad(key + ":accepted", "should be rejected (%s) but returned %r" % (exp, r.outputs))
        elif r.status.endswith(":other"):
            out.bad(key + ":exception-kind", r.status)
        return kind
    if kind == "any":
        out.see("unspecified inputs")
        return kind
    if not r.ok:
        if isinstance(exp, OrReject) and not r.status.endswith(":other"):
            out.see("declined inputs outside the supported subset")
            return "any"
        out.bad(key + ":rejected", "%s %s" % (r.status, r.msg))
        return kind
    flat = r.outputs[0]
    got = list(flat) if isinstance(flat, Packed) else [flat]
    if len(got) != len(exp):
        out.bad(key + ":outputs", "%d fields, expected %d" % (len(got), len(exp)))
        return kind
    for i, (e, g) in enumerate(zip(exp, got)):
        m = mismatch(e, g)
        if not m and isinstance(e, Pred):
            t = e.fn(g.np, [f.np for f in got])
            m = ("value", t) if t else None
        if m:
            out.bad("%s:%s" % (key, m[0]), "output %d %s\nparams %r\ninputs %r" % (i, m[1], case["params"], case["inputs"]))
            return kind
    out.see("compared elements", sum(int(np.prod(g.shape, dtype=np.int64)) for g in got))
    return kind


def case_sig(case):
    """Distinct = operator, parameter values, input types and shapes."""
    return (case["spec"], tuple((k, p.raw[:64] if isinstance(p, T) else len(p)) for k, p in case["params"]),
            tuple((x.dt, x.shape) if isinstance(x, T) else tuple((f.dt, f.shape) for f in x) for x in case["inputs"]))


# ------------------------------------------------------------------------------------------ generators
EXT = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]
INTS = [1, 2, 3, 4, 5, 6, 7, 8]
FLT = [10, 11]
NUM = INTS + FLT


def pick(rng, xs, p=None):
    return xs[int(rng.choice(len(xs), p=p))]


def rshape(rng, lo=0, hi=6, maxn=3000, ext=EXT, zero=0.0):
    k = int(rng.integers(lo, hi + 1))
    sh = []
    n = 1
    for _ in range(k):
        e = int(pick(rng, ext))
        if n * e > maxn:
            e = int(pick(rng, [1, 1, 2]))
        if n * e > maxn:
            e = 1
        n *= e
        sh.append(e)
    if zero and k and rng.random() < zero:
        sh[int(rng.integers(k))] = 0
    return sh


def rvals(rng, dt, shape, mag=None, special=True, lo=None, hi=None):
    """Random values of a type; floats mix ordinary, large, tiny and signed zero values."""
    t = np.dtype(NP[dt])
    n = int(np.prod(shape, dtype=np.int64))
    if dt == 21:
        return rng.integers(0, 2, n).astype(np.uint8).reshape(shape)
    if t.kind in "iu":
        info = np.iinfo(t)
        l, h = (info.min if lo is None else lo), (info.max if hi is None else hi)
        if mag is not None:
            l, h = max(l, -mag), min(h, mag)
        l = max(l, info.min)
        a = rng.integers(l, h, n, dtype=np.int64 if t.kind == "i" else np.uint64, endpoint=True).astype(t)
        return a.reshape(shape)
    if lo is not None:
        a = rng.uniform(lo, hi, n)
    else:
        a = rng.normal(0, mag or 2.0, n)
        if special and n:
            k = rng.random()
            if k < 0.15:
                a = np.round(a)
            elif k < 0.3:
                a = a * 10.0 ** rng.integers(-6, 7, n)
    return a.astype(t).reshape(shape)


def rt(rng, dt, shape, **kw):
    return T.of(rvals(rng, dt, shape, **kw), dt)
