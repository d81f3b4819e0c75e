"""C05: precision/recall curve."""
from lib.lists import *


class FromErrors(Mode):
    name = "errors"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 150000, 4000000
    rule = ("random sequences of errors, all-or-nothing or fractional, single or aggregated; non-trivial: at least "
            "three entries, precision neither constant nor recall constant")

    def gen(self, rng, size):
        kind, es = errors(rng, size)
        return dict(kind=kind, errors=es, real=rng.choice(["double", "double", "double", "float"]) if length(kind, es) < 3000 else "double")

    def run(self, case, env):
        r, es = ask_errors(env, case, case["real"])
        tol = 1e-9 if case["real"] == "double" else 2e-5
        need(r["total"] == sum(e[3] for e in es), "total references %r, expected %r", r["total"], sum(e[3] for e in es))
        for interp in (False, True):
            pr, rc = model.pr_rc(es, interp)
            what = "interpolated " if interp else ""
            need_list(r[interp]["pr"], pr, what + "precision", tol)
            need_list(r[interp]["rc"], rc, what + "recall", tol)
            invariants(r[interp]["pr"], r[interp]["rc"], interp, tol)
        l = {case["kind"], case["real"]}
        p = r[False]["pr"]
        if len(es) >= 3 and len(set(p)) > 1 and len(set(r[False]["rc"])) > 1:
            l.add("nontrivial")
        if any(e[0] % 1 for e in es):
            l.add("fractional")
        if r[True]["pr"] != p:
            l.add("interpolation matters")
        if not r["total"]:
            l.add("no references")
        return l


class Giant(FromErrors):
    name = "giant"
    quick, thorough = 24, 500
    rule = "a few aggregated entries of many millions of hypotheses; non-trivial: two or more entries with hypotheses"
    big = 0

    def gen(self, rng, size):
        return dict(kind="counts", errors=giant(rng), real="double")

    def run(self, case, env):
        if sum(e[2] + e[3] for e in case["errors"]) > 10 ** 8:
            raise Invalid()
        l = FromErrors.run(self, case, env) - {"nontrivial"}
        return l | ({"nontrivial"} if sum(e[2] > 0 for e in case["errors"]) > 1 else set())


class Totals(FromErrors):
    name = "totals"
    quick, thorough = 3000, 200000
    rule = "aggregated entries of thousands of millions, beyond 32 bits; non-trivial: two or more entries with hypotheses"
    big = 0

    def gen(self, rng, size):
        return dict(kind="totals", errors=totals(rng), real="double")

    def run(self, case, env):
        if case["kind"] != "totals" or case["real"] != "double" or any(f32(v) != v for e in case["errors"] for v in e[:2]):
            raise Invalid()
        l = FromErrors.run(self, case, env) - {"nontrivial"}
        return l | ({"nontrivial"} if sum(e[2] > 0 for e in case["errors"]) > 1 else set())


def invariants(pr, rc, interp, tol=1e-9):
    for i in range(len(pr)):
        need(-tol <= pr[i] <= 1 + tol and -tol <= rc[i] <= 1 + tol, "point %d outside [0,1]: %r", i, (rc[i], pr[i]))
        if i:
            need(rc[i] >= rc[i - 1] - tol, "recall decreases at %d", i)
            if interp:
                need(pr[i] <= pr[i - 1] + tol, "interpolated precision increases at %d", i)


class FromMatches(Mode):
    name = "matches"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 50000, 1500000
    rule = "random ranked match lists, collapsed or not; non-trivial: hits, and misses or false positives"

    def gen(self, rng, size):
        return dict(matches=matches(rng, size))

    def run(self, case, env):
        check_list(case["matches"])
        r = ask_list(env, case["matches"])
        mm = to_model(case["matches"])
        tol = tolerance(case["matches"])
        for col in (False, True):
            for interp in (False, True):
                pr, rc = model.pr_rc(list_entries(mm, col), interp)
                what = "collapse=%d interpolate=%d " % (col, interp)
                need_list(r[col][interp]["pr"], pr, what + "precision", tol)
                need_list(r[col][interp]["rc"], rc, what + "recall", tol)
                invariants(r[col][interp]["pr"], r[col][interp]["rc"], interp, tol)
        l = set()
        ks = {m[0] for m in case["matches"]}
        if 0 in ks and len(ks) > 1:
            l.add("nontrivial")
        if len(r["collapsed"]) < len(mm):
            l.add("ties")
        return l


CHECK = CheckRunner("C05", [FromErrors(), Giant(), Totals(), FromMatches()],
                    ["error rates lie in [0,1] and an entry counts a correct hypothesis only with a reference",
                     "fractional errors are compared to 1e-9 (multiples of 1/64) or, when summed in single precision, 1e-5"])
