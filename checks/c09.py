"""C09: what operators (and the static graph inference) announce against what execution produces."""
import numpy as np
import opspec
from opspec import SPECS, make_case, case_sig, R
from runner import Check
from tsx import T, Packed, TsError, Crash, NAME
from checks import c10


def fields(x):
    return list(x) if isinstance(x, Packed) else [x]


def wrong(protos, outs):
    """protos: [[dtype, extents...]...]; an extent of -1 is open."""
    if len(protos) != len(outs):
        return "fields", "%d fields announced, %d produced" % (len(protos), len(outs))
    for i, (p, o) in enumerate(zip(protos, outs)):
        if p[0] != o.dt:
            return "dtype", "field %d announced %s, produced %s" % (i, NAME.get(p[0], p[0]), NAME.get(o.dt))
        sh = p[1:]
        if len(sh) != len(o.shape) or any(a >= 0 and a != b for a, b in zip(sh, o.shape)) or any(a < -1 for a in sh):
            return "shape", "field %d announced %s, produced %s" % (i, sh, list(o.shape))
    return None


class CHECK(Check):
    quick_n = 260
    thorough_n = 5000
    rule = ("one case = operator, parameters and inputs from the operator's generator (70%), or the same damaged or "
            "recombined (30%). Operator::infer is called on the stack before the operator runs on the same inputs; its "
            "announcement is compared with the tensors produced (element type, rank, every non-negative extent, number "
            "of packed fields). When execution succeeds, a graph of that node is given to the static inference in up to "
            "three forms (all inputs constants; inputs as typed parameters, small integer operands constant; the same "
            "with some extents left open) and every type and extent it states is compared with the execution. "
            "non-trivial = the announcement succeeded; distinct = differing in operator, parameters, input types or shapes")
    assumptions = ["an announced extent of -1 is an open extent",
                   "operators whose extents depend on data (non-maximum suppression, yolo_poster, proposal, "
                   "detection_output) may leave those extents open"]

    def plan(self, tier):
        n = self.quick_n if tier == "quick" else self.thorough_n
        return [(s, max(20, int(n * SPECS[s].weight))) for s in sorted(SPECS)]

    def gen(self, group, rng, i, tier):
        if rng.random() < 0.7:
            c = make_case(SPECS[group], rng)
            c["kind"] = "plain"
        else:
            c = c10.CHECK.gen(self, group, rng, i, tier)
            c["kind"] = "damaged"
            c.pop("others", None)
        c["open"] = [int(x) for x in rng.integers(0, 100, 12)]
        c["const"] = [int(x) for x in rng.integers(0, 2, 8)]
        return c

    def run(self, ctx, group, case, out):
        s = SPECS[group]
        srv = ctx.server()
        if getattr(ctx, "limited", None) != (id(srv), srv.starts):
            srv.call("alloc_limit", 64 << 20)
            ctx.limited = (id(srv), srv.starts)
        try:
            r = R(srv.call("op", s.op, case["params"], case["inputs"], case["threads"], 0)[0])
        except Crash as e:
            if "cannot be represented" in (e.report or ""):
                # arithmetic on element values overflowed in the run, after the announcement: says nothing here
                out.see("value overflow in the run")
                return
            raise
        if ctx.limited != (id(srv), srv.starts):
            ctx.limited = None
        if r.status.startswith(("create", "init", "infer")):
            out.see("announcement declined")
            if case["kind"] == "plain":
                out.see("announcement declined on generated inputs")
            return
        if not r.ok:
            out.see("declined by execution after the announcement")
            out.sig = case_sig(case)
            return
        text = "\nparams %r\ninputs %r" % (case["params"], case["inputs"])
        outs = fields(r.outputs[0])
        w = wrong(r.protos, outs)
        if w:
            out.bad("%s:announced-%s" % (group, w[0]), w[1] + text)
        else:
            out.see("announcements compared", len(outs))
        out.sig = case_sig(case)
        if case["kind"] == "plain":
            for form in ("const", "param", "open"):
                self.static(srv, s, group, case, form, outs, out, text)

    def static(self, srv, s, group, case, form, outs, out, text):
        nodes = []
        opened = False
        for k, x in enumerate(case["inputs"]):
            small = isinstance(x, T) and x.dt in (5, 7) and len(x.raw) <= 128
            if isinstance(x, Packed) or form == "const" or (small and case["const"][k % 8]):
                nodes.append(["c", "x%d" % k, "", [["value", x]], []])
            else:
                sh = list(x.shape)
                if form == "open":
                    for d in range(len(sh)):
                        if case["open"][(k * 5 + d) % 12] < 30:
                            sh[d] = -1
                            opened = True
                nodes.append(["p", "x%d" % k, "", [["#dtype", T.of(np.int32(x.dt))], ["#shape", T.of(np.int32(sh).reshape(-1))]], []])
        if form == "open" and not opened:
            return
        n = len(nodes)
        nodes.append(["o", "y", s.op, case["params"], list(range(n))])
        try:
            p = srv.call("infer_static", nodes, [n])[0]
        except TsError as e:
            out.see("static inference declined with an exception")
            if e.kind == "other":
                out.bad("%s:static-exception" % group, e.msg + text)
            return
        if len(p) == 1 and p[0][0] == 0:
            out.see("static inference left open")
            return
        w = wrong(p, outs)
        if w:
            out.bad("%s:static-%s-%s" % (group, form, w[0]), "%s graph: %s %s" % (form, w[1], [x[3] for x in nodes[:n]] if form == "open" else "") + text)
        else:
            out.see("static inference results compared")
            out.see("static inference results compared (%s)" % form)

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)
