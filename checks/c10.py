"""C10: memory safety, purity and determinism of every operator, on ordinary, cross-combined and damaged inputs."""
import numpy as np
from runner import Check
import opspec
from opspec import SPECS, make_case, case_sig, R
from tsx import T, Packed, S, NP
import ops.all

# Extents are 32-bit in the documented interface: values whose pairwise products do not fit are not generated, nor
# are element values of integer tensors that would overflow their own type in mul, square or add.
BIG = [0, -1, -2, 1, 2, 3, 7, 100, -100, 30000, -30000]
# Floating attributes stay within the int range (many are truncated to int), tensor elements do not, except for
# roi_align, whose sample count grows with the size of the region.
FBIG = [0.0, -1.0, 1e-30, 0.5, 3.7, 1e3, -1e3, 1e30, float("nan"), float("inf"), -float("inf")]
FSMALL = FBIG[:7]


def clone(x):
    return Packed([clone(f) for f in x]) if isinstance(x, Packed) else T(x.dt, x.shape, x.raw)


def big(rng, dtype):
    v = BIG[int(rng.integers(len(BIG)))]
    return np.asarray(max(v, 0) if dtype.kind == "u" else v).astype(dtype)


def hurt_tensor(rng, t, param):
    """a damaged version of one tensor"""
    if isinstance(t, Packed):
        k = int(rng.integers(3))
        f = [clone(x) for x in t]
        if k == 0 and len(f) > 1:
            f.pop(int(rng.integers(len(f))))
        elif k == 1:
            return f[0] if f else T.of(np.float32([0]))
        elif f:
            i = int(rng.integers(len(f)))
            f[i] = hurt_tensor(rng, f[i], param)
        return Packed(f)
    if t.dt not in NP or t.dt == 13:
        return T.of(np.int32([1, 2, 3]))
    a = t.np
    k = int(rng.integers(8))
    if k == 0:                                    # element type
        dt = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 21]))
        with np.errstate(all="ignore"):
            return T.of(np.nan_to_num(a.astype(np.float64), nan=0, posinf=1, neginf=-1).clip(-100 if np.dtype(NP[dt]).kind != "u" else 0, 100).astype(NP[dt]), dt)
    if k == 1:                                    # rank
        sh = list(a.shape)
        if sh and rng.random() < 0.5:
            i = int(rng.integers(len(sh)))
            return T.of(np.ascontiguousarray(np.take(a, 0, axis=i)) if sh[i] else a.reshape([s for j, s in enumerate(sh) if j != i] + [0])[..., :0], t.dt)
        if len(sh) < 6:
            return T.of(np.expand_dims(a, int(rng.integers(len(sh) + 1))), t.dt)
        return t
    if k in (2, 3) and a.ndim:                    # one extent
        i = int(rng.integers(a.ndim))
        n = int(rng.choice([0, 1, max(0, a.shape[i] - 1), a.shape[i] + 1, a.shape[i] * 2, 5]))
        if a.size == 0:
            sh = list(a.shape)
            sh[i] = n
            return T.of(np.zeros(sh, a.dtype), t.dt)
        return T.of(np.ascontiguousarray(np.take(a, np.arange(n) % a.shape[i], axis=i)), t.dt)
    if k == 4:                                    # nothing in it
        return T.of(np.zeros([0], a.dtype), t.dt)
    b = np.array(a, copy=True).reshape(-1)        # values
    if b.size:
        n = int(rng.integers(1, 3)) if not param else 1
        for i in rng.integers(b.size, size=n):
            with np.errstate(all="ignore"):
                b[i] = np.asarray(rng.choice(FSMALL if param else FBIG)).astype(b.dtype) if b.dtype.kind == "f" else \
                    big(rng, b.dtype)
    return T.of(b.reshape(a.shape), t.dt)


class CHECK(Check):
    quick_n = 1000
    thorough_n = 3000
    rule = ("one case = operator, parameters and input tensors from the operator's generator, either as generated (three "
            "executions: fresh object with fresh memory pre-filled 0xFF, fresh object pre-filled 0x41, first object again "
            "pre-filled 0x00; inputs and parameters hashed before and after), as a history (other inputs run between "
            "repetitions on one operator object), with parameters and inputs of different cases combined, or with 1-3 "
            "damages (type, rank, extent, emptiness, extreme values, missing or extra operands) applied. Runs under "
            "ASan+UBSan with exact-size allocations. non-trivial = at least one execution of the operator finished with "
            "a result or an exception; distinct = differing in operator, parameters, input types or shapes")
    assumptions = ["allocations beyond 64 MB are refused by the harness to bound time; the refusal has to surface as an exception"]

    def plan(self, tier):
        n = self.quick_n if tier == "quick" else self.thorough_n
        return [(s, max(20, int(n * SPECS[s].weight))) for s in sorted(SPECS)]

    def gen(self, group, rng, i, tier):
        s = SPECS[group]
        c = make_case(s, rng)
        k = rng.random()
        if k < 0.3:
            c["kind"] = "plain"
        elif k < 0.5:
            c["kind"] = "history"
            c["others"] = [make_case(s, rng)["inputs"] for _ in range(2)]
        elif k < 0.6:
            c["kind"] = "cross"
            if s.op != "mul":           # operands of one product are generated together
                c["inputs"] = make_case(s, rng)["inputs"]
        else:
            c["kind"] = "damaged"
            for _ in range(int(rng.choice([1, 1, 2, 3]))):
                p, x = c["params"], c["inputs"]
                j = rng.random()
                if j < 0.4 and p:
                    q = int(rng.integers(len(p)))
                    p[q] = [p[q][0], hurt_tensor(rng, p[q][1], True)]
                elif j < 0.46 and p:
                    p.pop(int(rng.integers(len(p))))
                elif j < 0.52 and x:
                    x.pop(int(rng.integers(len(x))))
                elif j < 0.57:
                    x.append(clone(x[int(rng.integers(len(x)))]) if x else T.of(np.float32([1])))
                elif j < 0.6 and x:
                    q = int(rng.integers(len(x)))
                    x[q] = Packed([x[q], T.of(np.int32([1, 2]))]) if isinstance(x[q], T) else x[q][0]
                elif x:
                    q = int(rng.integers(len(x)))
                    x[q] = hurt_tensor(rng, x[q], s.op == "roi_align")
            if s.op == "roi_align":     # so that the number of samples stays small
                for q in c["params"]:
                    if isinstance(q[1], T) and q[1].dt in NP and q[1].dt != 13:
                        q[1] = T.of(np.minimum(q[1].np, 12).astype(q[1].np.dtype), q[1].dt)
        return c

    def run(self, ctx, group, case, out):
        s = SPECS[group]
        srv = ctx.server()
        if getattr(ctx, "limited", None) != (id(srv), srv.starts):
            srv.call("alloc_limit", 64 << 20)
            ctx.limited = (id(srv), srv.starts)
        kind = case["kind"]
        mode = 2 if kind == "history" else 1
        v = srv.call("op", s.op, case["params"], case["inputs"], case["threads"], mode, case.get("others", []))
        if ctx.limited != (id(srv), srv.starts):
            ctx.limited = None
        rs = [R(x) for x in v]
        for r in rs:
            if r.status.endswith(":other"):
                out.bad(group + ":exception-kind", "%s %s" % (r.status, r.msg))
            if r.inputs_modified:
                out.bad(group + ":inputs-modified", "an input tensor was changed\nparams %r\ninputs %r" % (case["params"], case["inputs"]))
            if r.params_modified:
                out.bad(group + ":params-modified", "a parameter was changed\nparams %r\ninputs %r" % (case["params"], case["inputs"]))
        out.see(kind + " cases")
        out.see("executions with a result", sum(r.ok for r in rs))
        out.see("executions with an exception", sum(not r.ok for r in rs))
        same = rs[::2] if mode == 2 else rs
        a = same[0]
        for b in same[1:]:
            if a.ok != b.ok:
                out.bad(group + ":unstable", "first %s %s, later %s %s\nparams %r\ninputs %r" % (
                    a.status, a.msg, b.status, b.msg, case["params"], case["inputs"]))
                break
            if a.ok and raw(a.outputs[0]) != raw(b.outputs[0]):
                out.bad(group + (":history" if mode == 2 else ":unstable-bits"), "results of equal runs differ: %r %r\nparams %r\ninputs %r" % (
                    a.outputs, b.outputs, case["params"], case["inputs"]))
                break
        else:
            if a.ok:
                out.see("bit-compared repetitions", len(same) - 1)
        out.sig = (kind,) + case_sig(case)

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)


def raw(x):
    return [raw(f) for f in x] if isinstance(x, Packed) else (x.dt, tuple(x.shape), bytes(x.raw))
