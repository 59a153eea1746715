import numpy as np
from opcheck import OpCheck
from opspec import *
import opspec
import ops.conv


class CHECK(OpCheck):
    families = ("C03",)
    quick_n = 900
    thorough_n = 12000

    def plan(self, tier):
        return super().plan(tier) + [("pre-transformed", 120 if tier == "quick" else 2500),
                                     ("changing-kernel", 120 if tier == "quick" else 2500)]

    def gen(self, group, rng, i, tier):
        if group == "pre-transformed":
            c = make_case(SPECS[pick(rng, ["conv2d_winograd", "conv2d_winograd_v2"])], rng)
            c["tile"] = pick(rng, ["winograd_f63", "winograd_f23"])
            return c
        if group == "changing-kernel":
            c = make_case(SPECS[pick(rng, ["conv2d_winograd", "conv2d_winograd_v2", "conv2d_v2", "depthwise_conv2d_v2"])], rng)
            c["others"] = []
            for _ in range(2):
                o = list(c["inputs"])
                for k in range(len(o)):
                    if o[k].dt in (10, 11):
                        m = rng.random()
                        if m < 0.4:
                            o[k] = T.of(rng.normal(0, 1, o[k].shape).astype(NP[o[k].dt]), o[k].dt)
                        elif m < 0.6 and k == 0:
                            sh = list(o[k].shape)
                            sh[2] += int(rng.integers(0, 6))
                            sh[3] += int(rng.integers(0, 6))
                            o[k] = T.of(rng.normal(0, 1, sh).astype(NP[o[k].dt]), o[k].dt)
                    elif rng.random() < 0.5:
                        q = o[k].np.copy().reshape(4, 2)
                        q[2:] += rng.integers(0, 3, (2, 2)).astype(q.dtype)
                        o[k] = T.of(q, o[k].dt)
                c["others"].append(o)
            return c
        return super().gen(group, rng, i, tier)

    def run(self, ctx, group, case, out):
        if group == "pre-transformed":
            want = expectation(case)
            if want[0] != "ok":
                return
            s = ctx.server()
            k = case["inputs"][-1]
            t = R(s.call("op", "winograd_transform_kernel", [["winograd_mode", S(case["tile"])]], [k], 2, 0)[0])
            if not t.ok:
                out.bad("winograd_transform_kernel:rejected", t.status + " " + t.msg)
                return
            ps = case["params"] + [["kernel_winograd_transformed", T.of(np.uint8(1), 21)]]
            r = R(s.call("op", SPECS[case["spec"]].op, ps, case["inputs"][:-1] + [t.outputs[0]], case["threads"], 0)[0])
            # six by six tiles are less accurate than the two by two the reference assumes for few channels
            for e in want[1]:
                e.atol = e.atol * 12
            judge(case, r, out, want)
            out.see("pre-transformed kernels")
            out.sig = case_sig(case) + (case["tile"],)
            return
        if group == "changing-kernel":
            v = ctx.server().call("op", SPECS[case["spec"]].op, case["params"], case["inputs"], case["threads"], 2, case["others"])
            rs = [R(x) for x in v]
            for i, r in enumerate(rs):
                c = case if i % 2 == 0 else dict(case, inputs=case["others"][i // 2])
                judge(c, r, out)
            out.see("runs of one operator object with changing kernels, paddings and sizes", len(rs))
            out.sig = case_sig(case) + ("seq",)
            return
        super().run(ctx, group, case, out)
