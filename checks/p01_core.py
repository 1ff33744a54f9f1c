"""Core language against an independent reference interpreter."""
import sys
import ml, refeval
from runner import ProgCheck, Discard


class P01(ProgCheck):
    id = "P01"
    technique = "differential testing of generated programs against a reference interpreter"
    rule = ("a case is a generated core-language program (closures, set!, let/letrec-values, case-lambda, rest arguments, multiple values, "
            "apply, recursion, injected arity/type errors); non-trivial when it makes at least one closure call or non-empty multi-value transfer "
            "and the reference executed >= 30 steps")
    assumptions = ["programs the reference cannot finish in its step budget, or that use multiple values where one is required by no construct, are discarded"]
    prologue = ml.EXIT_ON_ERROR

    def gen(self, d):
        g = refeval.Gen(d, size=d.weighted([(3, 40), (3, 90), (1, 200)]), wrong=d.choice([0, 0.0, 0.01, 0.03]))
        forms = g.forms()
        it = refeval.Interp()
        try:
            out, code = it.toplevel(forms)
        except (refeval.OutOfFuel, refeval.Unspecified, RecursionError):
            raise Discard()
        steps = 20000 - it.fuel
        if len(out) > 20000:
            raise Discard()
        return {"prog": refeval.program(forms), "out": out, "code": code,
                "nt": steps >= 30 and bool(g.tags & {"closure", "call", "multi", "cwv", "apply", "loop"}),
                "tags": sorted(g.tags) + (["error-outcome"] if code else [])}

    def run(self, case):
        for t in case.get("tags", []):
            self.tag(t)
        return super().run(case)


CHECK = P01
sys.setrecursionlimit(6000)
