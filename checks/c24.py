"""C24: an image filter applies exactly its configured steps in order."""
import numpy as np
import opspec
from opspec import SPECS, P, Exp, Reject, Unspecified, OrReject, mismatch
import ops.all
from runner import Check
from tsx import T, TsError
from checks.c20 import write

STEPS = ["to_float", "to_chw", "scale", "sub_mean", "div_std", "resize", "resize_short", "center_crop", "center_crop1", "channel_swap", "prewhiten",
         "letterbox", "divided", "force_color", "force_gray", "norm_image"]
SIDE = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13]


def num(x):
    return float(np.float32(x))


def step(rng, c):
    """one step for an image of c channels (usually): [name, args]"""
    s = str(rng.choice(STEPS))
    side = lambda: int(rng.choice(SIDE))
    if s == "scale":
        return [s, [num(rng.choice([1 / 255.0, 2.0, 0.5, -1.0, float(rng.normal(0, 2))]))]]
    if s in ("sub_mean", "div_std"):
        k = c if rng.random() < 0.7 else 1 if rng.random() < 0.8 else c + 1
        v = rng.uniform(0.1, 130, k)
        return [s, [[num(x) for x in v]]]
    if s == "resize":
        return [s, [side(), side(), int(rng.integers(0, 3))]]
    if s == "resize_short":
        return [s, [side(), int(rng.integers(0, 3))]]
    if s == "center_crop":
        return [s, [side(), side()]]
    if s == "center_crop1":
        return ["center_crop1", [side()]]
    if s == "channel_swap":
        if rng.random() < 0.7:
            return [s, [[int(x) for x in rng.permutation(c)]]]
        return [s, [[int(x) for x in rng.integers(0, c + (rng.random() < 0.2), int(rng.integers(1, 5)))]]]
    if s == "letterbox":
        return [s, [side(), side(), num(rng.choice([0, 0, 1, 114, 127.0])), int(rng.integers(0, 3))]]
    if s == "divided":
        return [s, [side(), side(), num(rng.choice([0, 1, 5, 128]))]]
    if s == "force_gray" and rng.random() < 0.5:
        w = rng.uniform(0, 1, c)
        return [s, [[num(x) for x in w / w.sum()]]]
    if s == "norm_image":
        return [s, [num(rng.choice([1e-5, 1e-2, 1.0]))]]
    return [s, []]


def program(rng, lo, hi, c):
    n, out = int(rng.integers(lo, hi + 1)), []
    for k in range(n):
        s = step(rng, c)
        if s[0] == "to_chw" and k < n - 1 and rng.random() < 0.6:
            s = ["to_float", []]
        if s[0] in ("force_gray", "force_color") and c not in (1, 3) and rng.random() < 0.8:
            s = ["scale", [0.5]]
        out.append(s)
        if s[0] == "force_gray":
            c = 1
        elif s[0] == "force_color":
            c = 3
        elif s[0] == "channel_swap":
            c = len(s[1][0])
    return out


def picture(rng, c, dt=None):
    h, w = int(rng.choice(SIDE)), int(rng.choice(SIDE))
    dt = dt or int(rng.choice([2, 2, 2, 10, 10, 11, 5, 3, 4]))
    k = rng.random()
    sh = [h, w, c] if k < 0.7 else [1 if k < 0.9 else 2, h, w, c]
    if c == 1 and rng.random() < 0.3:
        sh = [h, w]
    a = rng.integers(0, 256, sh) if dt != 10 or rng.random() < 0.5 else rng.normal(100, 60, sh)
    return T.of(np.asarray(a).astype(opspec.NP[dt]), dt)


def boxed(x):
    """the four-dimensional form a filter works on"""
    s = x.shape
    s = (1, s[0], s[1], 1) if len(s) == 2 else (1,) + tuple(s) if len(s) == 3 else tuple(s)
    return T.of(x.np.reshape(s), x.dt)


def applied(name, a, x):
    """documented outcome of one step on the four-dimensional x: list of Exp; raises Reject or Unspecified"""
    op = lambda n, p, *more: SPECS[n].ref(P((k, v if isinstance(v, T) else T.of(v)) for k, v in p.items()), [x] + list(more))
    i32 = lambda *v: T.of(np.array(v, np.int32))
    if name == "to_float":
        return Exp(x.np.astype(np.float32), 10)
    if name == "to_chw":
        return op("_transpose", {"permute": i32(0, 3, 1, 2)})
    if name == "scale":
        return op("mul", {}, T.of(np.array(a[0], np.float32)))
    if name == "sub_mean":
        return op("sub", {}, T.of(np.array(a[0], np.float32).reshape(1, 1, 1, -1)))
    if name == "div_std":
        d = np.array(a[0], np.float32).reshape(1, 1, 1, -1)
        e = op("mul", {}, T.of(d))      # shapes and types
        return Exp((x.np.astype(np.float64) / d).astype(e.a.dtype), e.dt, rtol=5e-7)
    if name == "resize":
        return op("_resize2d", {"type": i32(a[2])}, i32(-1, a[1], a[0], -1))
    if name == "resize_short":
        return op("_nhwc_scale_resize2d", {"size": i32(a[0]), "type": i32(a[1])})
    if name == "center_crop":
        return op("_nhwc_center_crop2d", {"size": i32(a[0], a[1])})
    if name == "center_crop1":
        return op("_nhwc_center_crop2d", {"size": i32(a[0], a[0])})
    if name == "channel_swap":
        return op("_dimshuffle", {"dim": i32(3), "shuffle": i32(*a[0])})
    if name == "letterbox":
        return op("_nhwc_letterbox", {"size": i32(a[0], a[1]), "outer_value": T.of(np.float32(a[2])), "type": i32(a[3])})
    if name == "divided":
        return op("divided", {"size": i32(1, a[1], a[0], 1), "padding_value": T.of(np.float32(a[2]))})
    if name == "force_gray" and a:
        return op("force_gray", {"scale": T.of(np.array(a[0], np.float32))})
    if name == "norm_image":
        if x.dt not in (10, 11):
            raise Unspecified("type")
        return op("norm_image", {"epsilon": T.of(np.float32(a[0]))})
    if name == "prewhiten" and x.dt not in (10, 11):
        raise Unspecified("type")
    return op(name, {})


class CHECK(Check):
    id = "C24"
    builds = {"asan": ["tsx"]}
    rule = ("steps: a filter is built for every prefix of a random step list and each result is compared with the independent numpy reference of the last step applied to the "
            "result of the prefix before; history: one filter is extended, compiled, cloned, cleared and run in random order and every run has to equal a filter freshly "
            "built from the steps in force; bench: a network with filters bound to its inputs against filter and network run separately; module: the filter's module fused "
            "with the network's")
    assumptions = ["inputs a single step does not document (e.g. whitening of integer images) may have any clean outcome"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 15
        return [("steps", 3200 * k), ("history", 900 * k), ("bench", 900 * k), ("module", 300 * k)]

    def gen(self, group, rng, i, tier):
        c = int(rng.choice([1, 3, 3, 3, 4]))
        if group == "steps":
            return dict(steps=program(rng, 0, 7, c), image=picture(rng, c), threads=int(rng.integers(1, 5)))
        if group == "history":
            acts, live = [], 1
            for _ in range(int(rng.integers(3, 22))):
                k, f = rng.random(), int(rng.integers(live))
                if k < 0.4:
                    acts.append(["step", f, step(rng, c)])
                elif k < 0.75:
                    acts.append(["run", f, int(rng.integers(3)), int(rng.integers(1, 5))])
                elif k < 0.87:
                    acts.append(["clone", f])
                    live += 1
                elif k < 0.93:
                    acts.append(["clear", f])
                else:
                    acts.append(["compile", f])
            acts += [["run", f, int(rng.integers(3)), 2] for f in range(live)]
            return dict(acts=acts, images=[picture(rng, c) for _ in range(3)])
        n = int(rng.integers(1, 4))
        case = dict(filters=[program(rng, 0 if group == "bench" else 1, 4, c) for _ in range(n)], net=int(rng.integers(4)),
                    images=[[picture(rng, c) for _ in range(n)] for _ in range(3)], threads=int(rng.integers(1, 5)))
        if group == "bench":
            acts = []
            for _ in range(int(rng.integers(2, 10))):
                k = rng.random()
                if k < 0.45:
                    acts.append(["bind", int(rng.integers(n)), int(rng.integers(-1, n)), int(rng.integers(2))])
                elif k < 0.9:
                    acts.append(["run", int(rng.integers(3))])
                else:
                    acts.append(["clone"])
            case["acts"] = [["bind", int(rng.integers(n)), int(rng.integers(n)), 0]] + acts + [["run", 0]]
        return case

    # ---------------------------------------------------------------------------------------------
    def build(self, srv, steps):
        f = srv.call("filter_new")
        for name, a in steps:
            srv.call("filter_step", f, name, a)
        return f

    def filtered(self, srv, f, image, threads=2):
        try:
            return srv.call("filter_run", f, image, threads), None
        except TsError as e:
            return None, e

    def run(self, ctx, group, case, out):
        srv = ctx.server()
        try:
            getattr(self, group)(srv, case, out)
        finally:
            srv.call("reset")

    def steps(self, srv, case, out):
        x, cur = case["image"], None
        out.sig = ("steps", repr(case["steps"]), x.dt, x.shape)
        for k in range(len(case["steps"]) + 1):
            got, err = self.filtered(srv, self.build(srv, case["steps"][:k]), x, case["threads"])
            if k == 0:
                if err or got != x:
                    out.bad("empty", "a filter without steps changes the image: %s" % (err or got))
                cur = boxed(x)
                continue
            name, a = case["steps"][k - 1]
            try:
                with np.errstate(all="ignore"):
                    exp = applied(name, a, cur)
                kind = "ok"
            except Reject as e:
                kind, exp = "reject", str(e)
            except Unspecified as e:
                kind, exp = "any", str(e)
            if kind == "reject":
                out.see("expected rejections")
                if not err:
                    out.bad("%s:accepted" % name, "steps %s: the last should be rejected (%s)" % (case["steps"][:k], exp))
                return
            may = isinstance(exp, OrReject)
            exp = exp[0] if isinstance(exp, list) else exp
            if err:
                if err.kind == "ts" and (kind == "any" or may):
                    return
                out.bad("%s:rejected" % name, "steps %s on %s %s: %s %s" % (case["steps"][:k], cur.dt, cur.shape, err.kind, err.msg))
                return
            if kind == "ok":
                m = mismatch(exp, got)
                if m:
                    out.bad("%s:%s" % (name, m[0]), "steps %s, last on %s %s: %s" % (case["steps"][:k], cur.dt, cur.shape, m[1]))
                    return
                out.see("steps compared: " + name)
            if not all(d > 0 for d in got.shape) or len(got.shape) != 4:
                return
            cur = got

    def history(self, srv, case, out):
        fs, steps, ran = [srv.call("filter_new")], [[]], 0
        for n, act in enumerate(case["acts"]):
            kind, f = act[0], act[1]
            txt = "action %d %s of %s: " % (n, act, case["acts"])
            if kind == "step":
                steps[f] = steps[f] + [act[2]]
                srv.call("filter_step", fs[f], *act[2])
            elif kind == "clear":
                steps[f] = []
                srv.call("filter_step", fs[f], "clear", [])
            elif kind == "compile":
                try:
                    srv.call("filter_step", fs[f], "compile", [])
                except TsError:
                    pass
            elif kind == "clone":
                try:
                    fs.append(srv.call("filter_clone", fs[f]))
                except TsError as e:
                    out.bad("clone:rejected", txt + e.msg)
                    return
                steps.append(list(steps[f]))
            else:
                x = case["images"][act[2]]
                got, err = self.filtered(srv, fs[f], x, act[3])
                want, werr = self.filtered(srv, self.build(srv, steps[f]), x, 1)
                if (err is None) != (werr is None):
                    out.bad("history:outcome", txt + "%s, a fresh filter with %s: %s" % (err or "succeeded", steps[f], werr or "succeeded"))
                    return
                if got != want:
                    out.bad("history:value", txt + "differs from a fresh filter with %s" % (steps[f],))
                    return
                ran += err is None
        out.see("filter runs in histories", ran)
        if ran:
            out.sig = ("history", repr(case["acts"]))

    NETS = ["neg", "sum", "field", "both"]

    def net(self, kind, n):
        """n inputs -> nodes, outputs"""
        nodes = [["p", "in%d" % k, "", [], []] for k in range(n)]
        outs = []
        for k in range(n):
            if kind == 0:
                nodes.append(["o", "y%d" % k, "abs", [], [k]])
            elif kind == 1:
                nodes.append(["o", "y%d" % k, "add", [], [k, k]])
            elif kind == 2:
                nodes.append(["o", "y%d" % k, "_reshape", [["shape", T.of(np.array([-1], np.int32))]], [k]])
            else:
                nodes.append(["o", "y%d" % k, "_copy", [], [k]])
            outs.append(len(nodes) - 1)
        if kind == 3:
            outs += [0]
        return nodes, outs

    def direct(self, srv, net, images, fs, threads):
        """network and filters run separately -> outputs or an error"""
        xs = []
        for x, f in zip(images, fs):
            if f is None:
                xs.append(x)
                continue
            y, err = self.filtered(srv, self.build(srv, f), boxed(x), threads)
            if err:
                return None
            xs.append(y)
        return self.launch(srv, srv.call("wb_new", net, "", threads), xs)

    def launch(self, srv, b, xs):
        try:
            for k, x in enumerate(xs):
                srv.call("wb_input", b, k, x)
            srv.call("wb_run", b)
            return [srv.call("wb_output", b, k) for k in range(srv.call("wb_counts", b)[1])]
        except TsError:
            return None

    def bench(self, srv, case, out):
        n = len(case["filters"])
        nodes, outs = self.net(case["net"], n)
        net = srv.call("module_new", nodes, outs, None)
        names = srv.call("module_desc", net)[1]
        slot = [list(names).index(b"in%d" % k if isinstance(names[0], bytes) else "in%d" % k) for k in range(n)]
        fs = [self.build(srv, s) for s in case["filters"]]
        benches = [(srv.call("wb_new", net, "", case["threads"]), [None] * n)]
        ran = 0
        for m, act in enumerate(case["acts"]):
            b, bound = benches[-1]
            txt = "action %d %s: " % (m, act)
            if act[0] == "bind":
                k, f = act[1], act[2]
                try:
                    srv.call("wb_filter", b, "in%d" % k if act[3] else slot[k], None if f < 0 else fs[f])
                    bound[k] = None if f < 0 or not case["filters"][f] else case["filters"][f]
                except TsError as e:
                    if f < 0 or case["filters"][f]:
                        out.bad("bench:bind", txt + e.msg)
                        return
            elif act[0] == "clone":
                benches.append((srv.call("wb_clone", b), list(bound)))
            else:
                for b, bound in (benches if m == len(case["acts"]) - 1 else benches[-1:]):
                    images = case["images"][act[1]]
                    xs = [None] * n
                    for k in range(n):
                        xs[slot[k]] = images[k]
                    got = self.launch(srv, b, xs)
                    fl = [None] * n
                    for k in range(n):
                        fl[slot[k]] = bound[k]
                    want = self.direct(srv, net, xs, fl, 1)
                    if (got is None) != (want is None):
                        out.bad("bench:outcome", txt + "filters %s: %s; separately: %s" % (bound, "failed" if got is None else "succeeded", "failed" if want is None else "succeeded"))
                        return
                    if got != want:
                        out.bad("bench:value", txt + "filters %s give other outputs than filter and network separately" % (bound,))
                        return
                    ran += got is not None and any(bound)
        out.see("runs with filters bound", ran)
        if ran:
            out.sig = ("bench", repr(case["acts"]), repr(case["filters"]))

    def module(self, srv, case, out):
        nodes, outs = self.net(case["net"], 1)
        net = srv.call("module_new", nodes, outs, None)
        f = self.build(srv, case["filters"][0])
        fm = srv.call("filter_module", f)
        fused = srv.call("fusion", [fm, net], [[0, 0, 1, 0]])
        b = srv.call("wb_new", fused, "", case["threads"])
        ran = 0
        for images in case["images"]:
            x = boxed(images[0])
            got = self.launch(srv, b, [x])
            want = self.direct(srv, net, [x], [case["filters"][0]], 1)
            if case["net"] == 3 and got is not None:
                want = want and want[:1]
                got = got[:1]
            if got != want:
                out.bad("module:value", "filter %s fused with the network gives %s" % (case["filters"][0], "an error" if got is None else "other outputs" if want else "outputs although the separate run fails"))
                return
            ran += got is not None
        out.see("runs of fused filter modules", ran)
        if ran:
            out.sig = ("module", repr(case["filters"][0]), case["net"])
