"""C15: results do not depend on the number of computing threads, and the configured number is the one in force."""
import os
import numpy as np
import opspec
import ops.all
from opspec import SPECS, make_case, case_sig, R, judge, expectation
from runner import Check
from tsx import T, Packed, TsError

# sums whose order may follow the split of the work
REDUCING = {"conv2d", "conv2d_v2", "depthwise_conv2d", "depthwise_conv2d_v2", "transpose_conv2d", "conv2d_winograd",
            "conv2d_winograd_v2", "dcn_v2_forward", "conv2d_quantized", "gemm", "inner_prod", "matmul", "LSTM",
            "reduce_sum", "reduce_mean", "batch_norm", "l2_norm", "softmax", "prewhiten", "norm_image", "pooling2d",
            "pooling2d_v2", "global_pooling2d", "roi_align", "proposal"}


class CHECK(Check):
    quick_n = 130
    thorough_n = 4000
    rule = ("one case = operator, parameters and inputs from the operator's generator, executed with 1, 2, 3, 5 and 8 "
            "computing threads on separate workbenches (fresh memory pre-filled with 0xFF); the results have to be "
            "bit-identical, or, for operators that sum, each within the rounding bound of the reference. 'setting' cases "
            "are histories of creating, cloning, re-configuring and running workbenches whose program contains a probe "
            "operator reporting the thread number, thread pool size and inputs it sees. non-trivial = at least two "
            "executions with a result; distinct = differing in operator, parameters, input types or shapes")
    assumptions = ["OpenMP build: parallel loops use the number of threads of the bound runtime context"]

    def plan(self, tier):
        n = self.quick_n if tier == "quick" else self.thorough_n
        return [(s, max(20, int(n * SPECS[s].weight))) for s in sorted(SPECS)] + [("setting", 150 if tier == "quick" else 3000)]

    def gen(self, group, rng, i, tier):
        if group == "setting":
            ops = []
            for _ in range(int(rng.integers(3, 10))):
                ops.append([str(rng.choice(["new", "set", "clone", "run", "run", "setup"])), int(rng.integers(0, 8)),
                            int(rng.choice([-1, 0, 1, 2, 3, 5, 7, 13]))])
            return dict(ops=ops)
        return make_case(SPECS[group], rng, threads=1)

    def run(self, ctx, group, case, out):
        srv = ctx.server()
        if group == "setting":
            return self.setting(srv, case, out)
        s = SPECS[group]
        rs = {}
        for n in (1, 2, 3, 5, 8):
            rs[n] = R(srv.call("op", s.op, case["params"], case["inputs"], n, 0)[0])
        a = rs[1]
        text = "\nparams %r\ninputs %r" % (case["params"], case["inputs"])
        for n, r in rs.items():
            if r.ok != a.ok:
                out.bad(group + ":accepts", "1 thread: %s, %d threads: %s %s" % (a.status, n, r.status, r.msg) + text)
                return
        if not a.ok:
            out.see("declined inputs")
            return
        want = None
        for n, r in list(rs.items())[1:]:
            if raw(a.outputs[0]) == raw(r.outputs[0]):
                out.see("bit-identical results")
                continue
            if group in REDUCING:
                out.see("results equal up to rounding")
                want = want or expectation(case)
                for q in (a, r):
                    judge(case, q, out, want)
            else:
                out.bad(group + ":differs", "1 and %d threads: %r %r" % (n, a.outputs, r.outputs) + text)
                return
        out.sig = case_sig(case)

    def setting(self, srv, case, out):
        srv.call("reset")
        procs = os.cpu_count()
        fix = lambda n: procs if n < 0 else 1 if n == 0 else n
        nodes = [["p", "x", "", [], []], ["o", "y", "verif_probe", [], [0]]]
        m = srv.call("module_new", nodes, [1], None)
        wbs = []
        runs = 0
        for op, k, n in case["ops"]:
            if op == "new" or not wbs:
                wbs.append([srv.call("wb_new", m, "", n), fix(n)])
            elif op == "set":
                w = wbs[k % len(wbs)]
                srv.call("wb_threads", w[0], n)
                w[1] = fix(n)
            elif op == "clone":
                w = wbs[k % len(wbs)]
                wbs.append([srv.call("wb_clone", w[0]), w[1]])
            elif op == "setup":
                w = wbs[k % len(wbs)]
                srv.call("wb_setup", w[0], srv.call("prog_new", w[0], m, ""))
            else:
                w = wbs[k % len(wbs)]
                srv.call("wb_input", w[0], 0, T.of(np.float32([1, 2, 3])))
                srv.call("wb_run", w[0])
                p = srv.call("wb_output", w[0], 0).np
                runs += 1
                if p[0] != w[1] or p[1] != w[1]:
                    out.bad("setting:threads", "run saw %d threads and a pool of %d, configured %d (%r)" % (p[0], p[1], w[1], case["ops"]))
        for w, n in wbs:
            c = srv.call("wb_counts", w)
            if c[3] != n:
                out.bad("setting:number", "reports %d, configured %d" % (c[3], n))
        out.see("probed runs", runs)
        srv.call("reset")
        if runs:
            out.sig = tuple(map(tuple, case["ops"]))


def raw(x):
    return [raw(f) for f in x] if isinstance(x, Packed) else (x.dt, tuple(x.shape), bytes(x.raw))
