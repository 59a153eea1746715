"""C11: a compiled program computes the value of its graph."""
import numpy as np
import graphs
from graphs import Grower, evaluate, reach, same, text
from runner import Check
from tsx import T, Packed, TsError

OPTIONS = ["", "", "", "--no-pack", "--pack", "--no-filter", "--no-float16 --pack"]


def grown(srv, seed, steps, **kw):
    rng = np.random.default_rng(seed)
    g = Grower(srv, rng, **kw)
    bad = 0
    while steps > 0 and bad < 60:
        if g.grow() is None:
            bad += 1
        else:
            steps -= 1
    return g, rng


class Dag:
    """A graph of cheap operators with arbitrary sharing; values by definition, exact in FLOAT64."""

    def __init__(self, rng):
        self.rng, self.nodes, self.vals = rng, [], []

    def add(self, kind, op, params, inputs, val):
        self.nodes.append([kind, "n%d" % len(self.nodes), op, params, [int(x) for x in inputs]])
        self.vals.append(val)
        return len(self.nodes) - 1

    def some(self, ok):
        """recent, early or any node: long live ranges and narrow bodies"""
        c = [i for i, v in enumerate(self.vals) if ok(v)]
        q = self.rng.random()
        c = c[-3:] if q < 0.5 else c[:3] if q < 0.65 else c
        return int(self.rng.choice(c))

    def leaf(self, p=0.7):
        v = np.float64([int(self.rng.integers(-9, 10))])
        return self.add("p", "", [], [], v) if self.rng.random() < p else self.add("c", "", [["value", T.of(v)]], [], v)

    def step(self):
        rng = self.rng
        if rng.random() < 0.06:
            return self.leaf()
        if rng.random() < 0.25 and any(isinstance(v, list) for v in self.vals):
            j = self.some(lambda v: isinstance(v, list))
            f = int(rng.integers(0, len(self.vals[j])))
            return self.add("o", "_field", [["offset", graphs.i32_(f)]], [j], self.vals[j][f])
        o = str(rng.choice(["sub", "sub", "sub", "add", "maximum", "_copy", "abs", "where", "_pack", "concat", "verif_count"]))
        ar = {"_copy": 1, "abs": 1, "verif_count": 1, "_pack": int(rng.integers(2, 6)), "concat": int(rng.integers(2, 5))}.get(o, 2)
        xs = [self.some(lambda v: isinstance(v, np.ndarray) and v.shape == (1,) and v.dtype == np.float64) for _ in range(ar)]
        a = [self.vals[x] for x in xs]
        if o == "where":
            c = np.array([rng.random() < 0.5], np.uint8)
            k = self.add("c", "", [["value", T.of(c, 21)]], [], c)
            return self.add("o", o, [], [k] + xs, a[0] if c[0] else a[1])
        if o == "concat":
            v = np.concatenate(a)
            k = self.add("o", o, [["dim", graphs.i32_(0)]], xs, v)
            return self.add("o", "max", [["dim", graphs.i32_(0)], ["keep_dims", graphs.i32_(1)]], [k], v.max(keepdims=True))
        v = (a[0] - a[1] if o == "sub" else a[0] + a[1] if o == "add" else np.maximum(a[0], a[1]) if o == "maximum" else np.abs(a[0]) if o == "abs" else
             a if o == "_pack" else a[0])
        return self.add("o", o, [], xs, v)

    def value(self, i):
        v = self.vals[i]
        return Packed(T.of(x) for x in v) if isinstance(v, list) else T.of(v, 21 if v.dtype == np.uint8 else None)


def module(srv, rng, nodes, outs, reload=True):
    """(module handle, input names in order or None): inputs in a random order, or as found"""
    names = [nodes[i][1] for i in sorted(reach(nodes, outs)) if nodes[i][0] == "p"]
    order = [str(x) for x in rng.permutation(names)] if rng.random() < 0.7 and names else None
    m = srv.call("module_new", nodes, outs, order)
    if reload and rng.random() < 0.3:
        b = srv.call("module_bytes", m)
        srv.call("free", m)
        m = srv.call("module_load", b)[0]
    return m, names, order


def feed(srv, rng, w, names, order, value):
    for n in rng.permutation(names) if names else []:
        n = str(n)
        srv.call("wb_input", w, order.index(n) if order and rng.random() < 0.5 else n, value(n))


def check_outputs(srv, rng, out, w, nodes, outs, want, tols, key, what):
    seen = {}
    for k, o in enumerate(outs):
        seen.setdefault(nodes[o][1], k)
    for k, o in enumerate(outs):
        n = nodes[o][1]
        by = n if seen[n] == k and rng.random() < 0.3 else k
        got = srv.call("wb_output", w, by)
        m = same(want[k], got, tols[k] if tols else None)
        if m:
            out.bad("%s:value:%s" % (key, nodes[o][2] or nodes[o][0]), "output %r: %s\n%s\n%s" % (by, m, what, text(nodes, outs)))
            return False
        out.see("compared outputs")
    return True


class CHECK(Check):
    rule = ("graph cases: graphs grown over the operator library (35 templates plus any operator with random parameters), every node executed alone as the oracle; "
            "schedule cases: up to 45 cheap nodes with arbitrary sharing, repeated operands, packed values and fields, values by definition; const cases: mostly constant graphs; "
            "fusion cases: modules joined by routes; order cases: inputs unused by some outputs, outputs that are inputs or constants, one node many times. Outputs compared bit for bit "
            "(convolution and matrix products on whole numbers; otherwise with a summation bound), over two runs. distinct = different graph structure")

    def plan(self, tier):
        k = 1 if tier == "quick" else 25
        return [("graph", 900 * k), ("schedule", 3000 * k), ("const", 500 * k), ("fusion", 500 * k), ("order", 800 * k)]

    def gen(self, group, rng, i, tier):
        hi = {"graph": 16, "schedule": 46, "const": 14, "fusion": 12, "order": 7}[group]
        return dict(seed=int(rng.integers(1 << 40)), steps=int(rng.integers(1, hi)), threads=int(rng.choice([1, 2, 4])), options=str(rng.choice(OPTIONS)))

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)

    def must_see(self, tier):
        return [g for g, n in self.plan(tier)] + ["packed outputs", "repeated outputs", "outputs that are inputs", "outputs that are constants", "shared nodes", "constant operator nodes"]

    def run(self, ctx, group, case, out):
        srv = ctx.server()
        srv.call("reset")
        try:
            return getattr(self, group if group in ("fusion",) else "one")(srv, group, case, out)
        except TsError as e:
            out.bad("%s:error:%s" % (group, e.kind), "%s: %s\n%s" % (e.kind, e.msg, self.what))

    def one(self, srv, group, case, out):
        self.what = ""
        if group in ("schedule", "order"):
            rng = np.random.default_rng(case["seed"])
            g = Dag(rng)
            for _ in range(int(rng.integers(1, 5))):
                g.leaf(0.8)
            for _ in range(case["steps"]):
                g.step()
            nodes, value = g.nodes, g.value
            n = int(rng.integers(1, 6))
            outs = [int(x) for x in (rng.integers(0, len(nodes), n) if group == "order" else [len(nodes) - 1 - min(int(rng.exponential(3)), len(nodes) - 1) for _ in range(n)])]
            leaf = [None] * len(nodes)
        else:
            g, rng = grown(srv, case["seed"], case["steps"], count=0.1, weights=0.9 if group == "const" else 0.5)
            nodes, value, leaf = g.nodes, g.vals.__getitem__, g.leaf
            outs = g.outputs()
        self.what = text(nodes, outs)
        want = [value(o) for o in outs]
        tols = [leaf[o] for o in outs]
        m, names, order = module(srv, rng, nodes, outs)
        byname = {nodes[i][1]: i for i in range(len(nodes))}
        w = srv.call("wb_new", m, case["options"], case["threads"])
        n_in, n_out, _, _ = srv.call("wb_counts", w)
        if (n_in, n_out) != (len(names), len(outs)):
            out.bad(group + ":counts", "%d inputs, %d outputs; expected %d, %d\n%s" % (n_in, n_out, len(names), len(outs), self.what))
            return
        for r in range(2):
            if r == 0 or rng.random() < 0.5:
                feed(srv, rng, w, names, order, lambda n: value(byname[n]))
            srv.call("wb_run", w)
            if srv.call("wb_counts", w)[2] != 0:
                out.bad(group + ":stack", "values left on the stack\n" + self.what)
            if not check_outputs(srv, rng, out, w, nodes, outs, want, tols, group, "run %d options %r" % (r, case["options"])):
                return
        self.observe(nodes, outs, out, want)
        out.sig = tuple((n[0], n[2], tuple(n[4])) for n in nodes) + tuple(outs)

    def observe(self, nodes, outs, out, want):
        live = reach(nodes, outs)
        uses = {}
        for i in live:
            for j in nodes[i][4]:
                uses[j] = uses.get(j, 0) + 1
        const = {}
        for i in sorted(live):
            const[i] = nodes[i][0] == "c" or (nodes[i][0] == "o" and bool(nodes[i][4]) and all(const[j] for j in nodes[i][4]))
        out.see("nodes", len(live))
        out.see("shared nodes", sum(1 for v in uses.values() if v > 1))
        out.see("constant operator nodes", sum(1 for i in live if const[i] and nodes[i][0] == "o"))
        out.see("packed outputs", sum(isinstance(x, Packed) for x in want))
        out.see("repeated outputs", len(outs) - len(set(outs)))
        out.see("outputs that are inputs", sum(nodes[o][0] == "p" for o in outs))
        out.see("outputs that are constants", sum(nodes[o][0] == "c" for o in outs))
        out.see("outputs used inside", sum(o in uses for o in outs))
        for i in live:
            if nodes[i][0] == "o":
                out.see("op " + nodes[i][2])

    def fusion(self, srv, group, case, out):
        """modules joined by routes: an output of one feeds inputs of later ones"""
        rng = np.random.default_rng(case["seed"])
        self.what = ""
        parts, ms = [], []
        for _ in range(int(rng.integers(2, 4))):
            g = Dag(rng)
            for _ in range(int(rng.integers(1, 4))):
                g.leaf(1.0)
            for _ in range(int(rng.integers(1, case["steps"] + 1))):
                g.step()
            flat = [i for i, v in enumerate(g.vals) if isinstance(v, np.ndarray) and v.shape == (1,) and v.dtype == np.float64]
            outs = [int(x) for x in rng.choice(flat[-6:], int(rng.integers(1, 4)))]
            for k, n in enumerate(g.nodes):
                n[1] = "m%d_%s" % (len(parts), n[1])
            ins = [i for i in sorted(reach(g.nodes, outs)) if g.nodes[i][0] == "p"]
            ins = [int(x) for x in rng.permutation(ins)] if ins else []
            parts.append((g.nodes, outs, ins))
            ms.append(srv.call("module_new", g.nodes, outs, [g.nodes[i][1] for i in ins]))
        routes, fed, used = [], {}, set()
        for b in range(1, len(parts)):
            for s in range(len(parts[b][2])):
                if rng.random() < 0.7:
                    a = int(rng.integers(0, b))
                    q = int(rng.integers(0, len(parts[a][1])))
                    fed[(b, s)] = (a, q)
                    used.add((a, parts[a][1][q]))
                    ss, qq = s, q
                    if len(parts[b][2]) == 1 and rng.random() < 0.5:
                        ss = -1
                    if len(parts[a][1]) == 1 and rng.random() < 0.5:
                        qq = -1
                    routes.append([a, qq, b, ss])
        routes = [routes[int(k)] for k in rng.permutation(len(routes))]
        self.what = "\n".join(text(n, o) + " inputs %s" % i for n, o, i in parts) + "\nroutes %s" % routes
        # by definition: the remaining inputs and outputs of the parts, in order
        vals, want, names = {}, [], []
        value = {}
        for k, (nodes, outs, ins) in enumerate(parts):
            f = {}
            for s, i in enumerate(ins):
                if (k, s) in fed:
                    a, q = fed[(k, s)]
                    f[nodes[i][1]] = vals[a][q]
                else:
                    v = T.of(np.float64([int(rng.integers(-9, 10))]))
                    f[nodes[i][1]] = value[nodes[i][1]] = v
                    names.append(nodes[i][1])
            vals[k] = evaluate(srv, nodes, outs, f)
            for o, v in zip(outs, vals[k]):
                if (k, o) not in used:
                    want.append((nodes[o][1], v))
        if not want:
            try:
                srv.call("fusion", ms, routes)
            except TsError:
                pass
            out.sig = ("all routed",)
            return
        m = srv.call("fusion", ms, routes)
        for x in range(2):
            w = srv.call("wb_new", m, case["options"], case["threads"])
            c = srv.call("wb_counts", w)
            if (c[0], c[1]) != (len(names), len(want)):
                out.bad("fusion:counts", "%s inputs and outputs, expected %d and %d (%s, %s)\n%s" % (c[:2], len(names), len(want), names, [n for n, v in want], self.what))
                return
            for k, n in enumerate(names):
                srv.call("wb_input", w, k if rng.random() < 0.5 else n, value[n])
            srv.call("wb_run", w)
            for k, (n, v) in enumerate(want):
                t = same(v, srv.call("wb_output", w, k))
                if t:
                    out.bad("fusion:value", "output %d (%s): %s\n%s" % (k, n, t, self.what))
                    return
                out.see("compared outputs")
            # the parts still are what they were
            k = int(rng.integers(len(parts)))
            w2 = srv.call("wb_new", ms[k], "", 1)
            c = srv.call("wb_counts", w2)
            if (c[0], c[1]) != (len(parts[k][2]), len(parts[k][1])):
                out.bad("fusion:changed", "a part has %s inputs and outputs after joining\n%s" % (c[:2], self.what))
                return
        out.see("routes", len(routes))
        out.sig = (tuple(map(tuple, routes)), tuple(tuple((n[2], tuple(n[4])) for n in p[0]) for p in parts))
