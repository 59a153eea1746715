"""Base of the operator checks: one group per operator specification."""
from runner import Check
import opspec
from opspec import SPECS


class OpCheck(Check):
    families = ()
    quick_n = 400          # cases per unit of weight and specification
    thorough_n = 6000

    rule = ("one case = operator, parameter set and input tensors drawn by the per-operator generator (seed, operator, "
            "index); it is executed by the real kernel (ASan+UBSan build) with freshly allocated exact-size buffers "
            "filled with 0xFF bytes, and compared with an independent numpy/Python reference. non-trivial = the reference "
            "defines the outcome (value comparison or required rejection); distinct = differing in operator, parameters, "
            "input types or shapes")
    assumptions = ["numpy computes the elementary functions within the stated tolerances",
                   "the CPU operator set with OpenMP and AVX/FMA enabled, CBLAS disabled (as /opt/vp/build.sh builds it)"]

    def specs(self):
        return opspec.by_family(*self.families)

    def plan(self, tier):
        n = self.quick_n if tier == "quick" else self.thorough_n
        return [(s.name, max(20, int(n * s.weight))) for s in self.specs()]

    def gen(self, group, rng, i, tier):
        return opspec.make_case(SPECS[group], rng)

    def run(self, ctx, group, case, out):
        r = opspec.run_op(ctx.server(), case)[0]
        kind = opspec.judge(case, r, out)
        if kind != "any":
            out.sig = opspec.case_sig(case)

    def crash_key(self, group, case, crash):
        return "%s:%s" % (group, crash.kind)
