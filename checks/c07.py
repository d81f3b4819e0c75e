"""C07: NDCG."""
from lib.lists import *
from . import c06


class FromErrors(Mode):
    name = "errors"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 150000, 4000000
    rule = "random error sequences, plain or aggregated; non-trivial: NDCG strictly between 0 and 1"

    def gen(self, rng, size):
        kind, es = errors(rng, size)
        return dict(kind=kind, errors=es, real=rng.choice(["double", "double", "double", "float"]) if length(kind, es) < 3000 else "double")

    def run(self, case, env):
        r, es = ask_errors(env, case, case["real"])
        want = model.ndcg(es)
        need_near(r["ndcg"], want, "NDCG", 1e-9 if case["real"] == "double" else 1e-4)
        l = {case["kind"], case["real"]}
        if 0 < want < 1:
            l.add("nontrivial")
        if any(e[2] > 1 for e in es):
            l.add("aggregated entries")
        if not sum(e[3] for e in es):
            l.add("no references")
        return l


class Giant(FromErrors):
    name = "giant"
    quick, thorough = 60, 1500
    rule = "a few aggregated entries of many millions of hypotheses; non-trivial: NDCG strictly between 0 and 1"
    big = 0

    def gen(self, rng, size):
        return dict(kind="counts", errors=giant(rng), real="double")

    def run(self, case, env):
        if sum(e[2] + e[3] for e in case["errors"]) > 10 ** 8:
            raise Invalid()
        return FromErrors.run(self, case, env)


class Lists(Mode):
    name = "lists"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 50000, 1500000
    rule = "ranked match lists, collapsed or not; non-trivial: NDCG strictly between 0 and 1"

    def gen(self, rng, size):
        return dict(matches=matches(rng, size))

    def run(self, case, env):
        check_list(case["matches"])
        r = ask_list(env, case["matches"])
        mm = to_model(case["matches"])
        tol = tolerance(case["matches"])
        l = set()
        for col in (False, True):
            want = model.ndcg(list_entries(mm, col))
            for k in (0, 1):
                need_near(r[col]["ndcg"][k], want, "NDCG of a match list (collapse=%d)" % col, tol)
            if 0 < want < 1:
                l.add("nontrivial")
        return l


class Grouped(c06.Grouped):
    def run(self, case, env):
        return c06.run_stats(case, env, "ndcg")


CHECK = CheckRunner("C07", [FromErrors(), Giant(), Lists(), Grouped()], c06.CHECK.assumptions)
