"""C14: workbenches used by several threads at the same time give the results of a serial execution, without data races."""
import os, tempfile
import numpy as np
from graphs import one, same, text
from checks.c13 import Graph
from checks import c22
from runner import Check
from tsx import T, Packed, TsError

OPTIONS = ["", "", "--no-pack", "--pack", "--no-filter", "--no-winograd"]


class CHECK(Check):
    builds = {"asan": ["tsx", "capi", "conc"], "tsan": ["conc", "capi"]}
    rule = ("two to five threads with up to 30 actions each on one module, one workbench and one program they share: workbenches cloned, loaded from the shared module, from its bytes and from "
            "its file, set up with clones of the shared program, compiled again, cloned from each other, run with inputs of their own and with tensors common to all threads, hooked, summarised, "
            "kept and destroyed; failing runs; modules saved; image filters and immediate operators; the shared workbench, module and program released by every thread at another time. Each "
            "output is compared with the node by node values of a single threaded reference, after all workbenches are gone. ThreadSanitizer (without OpenMP) judges the synchronisation, "
            "AddressSanitizer (with OpenMP) the life times. api: histories of the C interface on threads of their own at the same time. distinct = different graphs and scripts")
    assumptions = ["one workbench is used by one thread at a time; while threads clone a workbench they share, no thread sets up, feeds or runs that one",
                   "operators are registered before the threads start"]

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("race", 260 * k), ("results", 260 * k), ("api", 50 * k)]

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["outputs compared", "failing runs", "clones", "filtered runs", "loads", "program clones", "compilations", "common inputs", "released by threads", "hooks",
                                                  "image filters", "modules saved", "common inputs unchanged", "threads", "calls of the C interface"]

    def gen(self, group, rng, i, tier):
        if group == "api":
            return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(5, 40)), threads=1)
        return dict(seed=int(rng.integers(1 << 40)), threads=int(rng.integers(2, 6)), actions=int(rng.integers(3, 31)), kind=int(rng.integers(0, 4)))

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)

    def run(self, ctx, group, case, out):
        with tempfile.TemporaryDirectory(prefix="c14") as d:
            if group == "api":
                return self.api(ctx, case, out, d)
            self.scene(ctx, group, case, out, d)

    # ------------------------------------------------------------------ the C interface
    def api(self, ctx, case, out, d):
        rng = np.random.default_rng(case["seed"])
        c22.CHECK().setup(ctx)
        logs = []
        try:
            for t in range(3):
                os.mkdir(os.path.join(d, str(t)))
                s = c22.Sim(self, ctx, out, rng, [t], 100000 * (t + 1), os.path.join(d, str(t)))
                s.play(case["steps"])
                s.finish()
                logs.append([[o, f, a] for _, o, f, a in s.log if f not in ("ts_Operator_Register", "ts_setup", "refuse")])
        except c22.Stop:
            return
        srv = ctx.server("tsan", "capi", timeout=120)
        srv.call("fresh")
        srv.call("plugins", 0)
        for op, ex in (("capi_echo", 0), ("capi_ex", 1)):
            srv.call("call", 0, None, "ts_Operator_Register", ["cpu", op, 31, ex])
        alone = [srv.call("together", [[t, l]])[0] for t, l in enumerate(logs)]
        srv.call("fresh")
        both = srv.call("together", [[t, l] for t, l in enumerate(logs)])
        srv.call("fresh")
        out.sig = tuple(f for l in logs for _, f, _ in l)
        out.see("calls of the C interface", sum(len(l) for l in logs))
        for t, (a, b) in enumerate(zip(alone, both)):
            for k, (x, y) in enumerate(zip(a, b)):
                f = logs[t][k][1]
                if x[0] != y[0] or bool(x[2]) != bool(y[2]) or x[1] != y[1] and f != "ts_Workbench_summary":
                    out.bad("api:" + f, "%r instead of %r\n%r" % (y, x, logs[t][k]))
                    return

    # ------------------------------------------------------------------ scenes
    def script(self, rng, g, order, actions, common):
        """actions of one thread and what each has to answer (None: anything)"""
        L, want = [], []
        self.p = None
        fed = {}

        def act(what, name="", k=0, tensor=None, options="", exp=("ok",)):
            L.append([what, name, k, tensor, options])
            want.append(exp)

        have = {"bench", "module", "program"}
        live = filtered = False

        def begin():
            nonlocal fed, live, filtered
            c = ["parse", "file"] + ["load", "load"] * ("module" in have) + ["clone"] * 4 * ("bench" in have) + ["prog"] * 3 * ("program" in have)
            w = str(rng.choice(c))
            act(w, k=int(rng.integers(1, 3)), options=str(rng.choice(OPTIONS)))
            fed, live, filtered = {}, True, self.filtered and w == "clone"

        n = 0
        while n < actions:
            n += 1
            if not live:
                begin()
                continue
            a = str(rng.choice(["run"] * 9 + ["self", "keep", "unkeep", "die", "die", "again", "again", "drop", "dropmodule", "dropprogram", "yield", "yield", "threads", "save", "summary", "recompile",
                                              "sigmoid", "filter", "hook", "missing"]))
            if a in ("run", "hook", "missing"):
                for name in g.names:
                    if name in fed and rng.random() < 0.5:
                        continue
                    c = [k for k, (m, v) in enumerate(common) if m == name]
                    if c and rng.random() < 0.4:
                        k = int(rng.choice(c))
                        act("common", name, k)
                        fed[name] = common[k][1]
                    else:
                        v = g.make(name, rng)
                        if rng.random() < 0.5:
                            act("in", name, 0, v)
                        else:
                            act("inslot", "", order.index(name), v)
                        fed[name] = v
                if a == "missing":
                    act("inslot", "", len(order) + int(rng.integers(0, 2)), T.of(1.0), exp=("fail",))
                    continue
                now = dict(fed)
                if filtered:
                    now[order[0]] = T.of(fed[order[0]].np.astype(np.float32) * 2)
                vals, failed = self.value(g, now)
                if a == "hook":
                    c = [i for i in sorted(vals) if g.nodes[i][0] == "o" and i in g.varies] if not failed and g.exact else []
                    if c and all(g.nodes[i][2] not in ("_field", "_pack") for i in c):
                        i = int(rng.choice(c))
                        act("hook", g.nodes[i][1], exp=("any", "hook"))
                    continue
                self.tell("filtered runs", int(filtered))
                act("run", exp=("fail",) if failed else ("ok", "run"))
                if not failed:
                    for k, o in enumerate(g.outs):
                        if rng.random() < 0.7:
                            name = g.nodes[o][1]
                            if sum(g.nodes[q][1] == name for q in g.outs) == 1 and rng.random() < 0.4:
                                act("outname", name, exp=("ok", "value", vals[o], k))
                            else:
                                act("out", "", k, exp=("ok", "value", vals[o], k))
            elif a == "die":
                act("die")
                live = False
            elif a == "again":
                begin()
            elif a in ("drop", "dropmodule", "dropprogram"):
                act(a)
                have.discard({"drop": "bench", "dropmodule": "module", "dropprogram": "program"}[a])
            elif a == "yield":
                act("yield", k=int(rng.integers(1, 60)))
            elif a == "threads":
                act("threads", k=int(rng.integers(1, 4)))
            elif a == "save":
                if "module" in have:
                    act("save", exp=("ok", "bytes"))
            elif a == "recompile":
                if "module" in have:
                    act("recompile", options=str(rng.choice(OPTIONS)))
                    fed, filtered = {}, False
            elif a == "self":
                act("self")
                fed = {}
            elif a == "sigmoid":
                x = T.of(rng.integers(-3, 4, [2, 3]).astype(np.float32))
                act("sigmoid", tensor=x, exp=("ok", "value", one(self.ref, "sigmoid", [], [x]), None))
            elif a == "filter":
                c = int(rng.choice([1, 3]))
                x = T.of(rng.integers(0, 200, [int(rng.integers(1, 5)), int(rng.integers(1, 5)), c]).astype(np.uint8))
                k = int(rng.integers(0, 4))
                y = x.np[None].astype(np.float32) * 2
                if k & 1:
                    y = y[..., :1]
                if k & 2:
                    y = y.transpose(0, 3, 1, 2)
                act("filter", k=k, tensor=x, exp=("ok", "value", T.of(np.ascontiguousarray(y)), None))
            else:
                act(a)
        return L, want

    def value(self, g, fed):
        vals = {}
        for i in sorted(g.live):
            kind, name, op, params, ins = g.nodes[i]
            if kind == "p":
                vals[i] = fed[name]
            elif kind == "c":
                vals[i] = dict(params)["value"]
            else:
                key = (i,) + tuple(id(vals[j]) for j in ins)
                if key not in self.memo:
                    self.memo[key] = one(self.ref, op, params, [vals[j] for j in ins]), [vals[j] for j in ins]
                vals[i] = self.memo[key][0]
                if vals[i] is None:
                    return vals, True
        return vals, False

    def scene(self, ctx, group, case, out, d):
        rng = np.random.default_rng(case["seed"])
        self.ref = ref = ctx.server()
        ref.call("reset")
        self.memo = {}
        g = Graph(ref, rng, case["kind"])
        if not g.nodes or not g.outs:
            return
        order = [g.nodes[i][1] for i in sorted(g.live) if g.nodes[i][0] == "p"]
        order = [order[k] for k in rng.permutation(len(order))]
        try:
            m = ref.call("module_new", g.nodes, g.outs, order)
        except TsError:
            out.see("graphs refused")
            return
        data = ref.call("module_bytes", m)
        path = os.path.join(d, "m")
        with open(path, "wb") as f:
            f.write(data)
        common = [(n, g.make(n, rng)) for n in g.names for _ in range(2)]
        self.filtered = case["kind"] == 1 and len(order) > 0 and rng.random() < 0.6
        self.tell = out.see
        scripts, wants = [], []
        for t in range(case["threads"]):
            s, w = self.script(rng, g, order, case["actions"], common)
            scripts.append(s)
            wants.append(w)
        srv = ctx.server("tsan" if group == "race" else "asan", "conc", timeout=120)
        out.sig = (text(g.nodes, g.outs), tuple(a[0] for s in scripts for a in s))
        try:
            answers, after, saved = srv.call("scene", data, path, str(rng.choice(OPTIONS)), [v for _, v in common], scripts, 0, int(self.filtered))
        except TsError as e:
            out.bad("%s:refused" % group, "%s %s\n%s" % (e.kind, e.msg, text(g.nodes, g.outs)))
            return
        out.see("threads", len(scripts))
        tell = lambda t, k: "thread %d action %d of\n%s\n%s" % (t, k, "\n".join(repr(a[:3] + a[4:]) for a in scripts[t][max(0, k - 25):k + 1]), text(g.nodes, g.outs))
        NAMES = {"clone": "clones", "self": "clones", "load": "loads", "parse": "loads", "file": "loads", "prog": "program clones", "recompile": "compilations", "common": "common inputs",
                 "drop": "released by threads", "hook": "hooks", "filter": "image filters", "save": "modules saved"}
        for t, (s, w, a) in enumerate(zip(scripts, wants, answers)):
            for k, (x, e, (status, msg, values, txt)) in enumerate(zip(s, w, a)):
                if status == b"harness":
                    raise RuntimeError(msg)
                if x[0] in NAMES:
                    out.see(NAMES[x[0]])
                if e[0] == "any":
                    continue
                if (status == b"ok") != (e[0] == "ok"):
                    out.bad("%s:%s:status" % (group, x[0]), "%r %r, expected %s\n%s" % (status, msg, e[0], tell(t, k)))
                    return
                if e[0] == "fail":
                    out.see("failing runs")
                elif len(e) > 1 and e[1] == "value":
                    tol = g.tols[e[3]] if g.tols is not None and e[3] is not None else None
                    m = same(e[2], values[0], tol)
                    if m:
                        out.bad("%s:%s:value" % (group, x[0]), "%s\n%s" % (m, tell(t, k)))
                        return
                    out.see("outputs compared")
                elif len(e) > 1 and e[1] == "bytes" and txt != saved:
                    out.bad("%s:save" % group, "other bytes\n" + tell(t, k))
                    return
        for (n, v), x in zip(common, after):
            if same(v, x):
                out.bad("%s:common" % group, "the common input %s changed" % n)
                return
            out.see("common inputs unchanged")
