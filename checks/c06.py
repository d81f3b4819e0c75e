"""C06: average precision."""
from lib.lists import *


class Curve(Mode):
    name = "curves"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 120000, 3000000
    rule = "arbitrary non-decreasing recalls with arbitrary precisions; non-trivial: three or more different recalls"

    def gen(self, rng, size):
        n = gen.count(rng, size)
        g = rng.choice([4, 10, 1000])
        rc = sorted(rng.randint(0, g) / g for _ in range(n))
        return dict(points=[[rng.choice([0.0, 1.0, rng.random(), rng.randint(0, 4) / 4.0]), r] for r in rc])

    def run(self, case, env):
        pts = case["points"]
        pr, rc = [p[0] for p in pts], [p[1] for p in pts]
        w = env.drv("drv_assess").ask("ap", len(pts), *[float(v) for p in pts for v in p])
        for trap in (False, True):
            need_near(w.d(), model.ap(pr, rc, trap), "AP of a curve (trapezoid=%d)" % trap, 1e-9 if len(pts) < 5000 else 1e-7)
        return {"nontrivial"} if len(set(rc)) > 2 else set()


class Errors(Mode):
    name = "errors"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 90000, 2500000
    rule = ("random error sequences, AP from the curve and from the errors; non-trivial: AP strictly between 0 and 1")

    def gen(self, rng, size):
        kind, es = errors(rng, size)
        return dict(kind=kind, errors=es)

    def run(self, case, env):
        r, es = ask_errors(env, case)
        soft = any(e[0] % 1 or e[1] % 1 for e in es)
        # An aggregated entry is all-or-nothing if it adds up such errors
        hard = not soft and all(e[2] - e[0] == e[3] - e[1] for e in es)
        tr = sum(e[3] for e in es)
        tol = 1e-9 if len(es) < 5000 else 1e-7
        # the difference of a count and a rate is taken in single precision
        single = case["kind"] == "totals"
        hard = hard and not (single and any(f32(e[2]) != e[2] for e in es))
        l = set()
        for interp in (False, True):
            pr, rc = model.pr_rc(es, interp)
            for trap in (False, True):
                want = model.ap(pr, rc, trap)
                curve, direct = r[interp][trap]
                need_near(curve, want, "AP from the curve (interpolate=%d trapezoid=%d)" % (interp, trap), tol)
                if tr == 0:
                    continue
                if hard:
                    need_near(direct, want, "AP from the errors (interpolate=%d trapezoid=%d)" % (interp, trap),
                              1e-5 if single else tol)
                    l.add("both formulas")
                if 0 < want < 1:
                    l.add("nontrivial")
        return l


class Totals(Errors):
    name = "totals"
    big = 0
    quick, thorough = 3000, 200000
    rule = "AP of aggregated entries of thousands of millions, beyond 32 bits; non-trivial: AP strictly between 0 and 1"

    def gen(self, rng, size):
        return dict(kind="totals", errors=totals(rng))

    def run(self, case, env):
        if case["kind"] != "totals" or any(f32(v) != v for e in case["errors"] for v in e[:2]):
            raise Invalid()
        return Errors.run(self, case, env)


class Grouped(Mode):
    name = "grouped"
    targets = ("drv_assess",)
    quick, thorough = 30000, 1000000
    rule = ("matches in groups: global and mean AP and NDCG through functions and statistic objects, under all settings; "
            "non-trivial: two or more groups with different outcomes")

    big = 70000

    def gen(self, rng, size):
        if size == self.big:      # very many groups
            gs, per = [], rng.choice([[1], [1, 1, 2], [0, 1, 1]])
            sc = rng.choice([[.5], [.25, .5, .75]])
            for g in range(rng.choice([300, 33000, 65535, 65536, 66000, 70000])):
                ms = []
                for _ in range(rng.choice(per)):
                    k = rng.choice([0, 0, 1, 2])
                    ms.append([k, "q%d" % g, 0, rng.choice(sc) if k != 2 else 0.0, *ENDS.get(k, (0.0, 0.0))])
                gs.append(sorted(ms, key=lambda m: (m[0] == 2, -m[3])))
            for i, m in enumerate(m for ms in gs for m in ms):
                m[2] = i
            return dict(groups=gs)
        ng = rng.choice([0, 1, 2, 2, 3, 4, 8])
        k, gs = 0, []
        for g in range(ng):
            ms = matches(rng, max(1, size // (2 if ng > 2 else 1)), soft=None, queries=["q%d" % g])
            ms = ms or ([[2, "q%d" % g, 0, 0.0, 0.0, 1.0]] if rng.random() < .7 else [])
            for m in ms:
                m[2] = k
                k += 1
            gs.append(ms)
        if rng.random() < .3:      # in no order: sorting is up to the functions
            for ms in gs:
                rng.shuffle(ms)
        return dict(groups=gs)

    def run(self, case, env):
        return run_stats(case, env, "ap")


def run_stats(case, env, which):
    gs = case["groups"]
    check_list([m for g in gs for m in g])
    msg = [len(gs)]
    for g in gs:
        msg += words(g)
    w = env.drv("drv_assess").ask("stats", *msg)
    mm = [to_model(g) for g in gs]
    allm = [m for g in mm for m in g]
    tol = tolerance([m for g in gs for m in g], 1e-9, 2e-5)
    scores = [m.hyp[-1] for m in allm if m.hyp]
    distinct = len(set(scores)) == len(scores)

    def order(ms):
        return sorted((m for m in ms if m.hyp), key=lambda m: -m.hyp[-1]) + [m for m in ms if not m.hyp]
    l = set()
    vals = set()
    for col in (False, True):
        for sort in (False, True):
            known = distinct or col or not sort      # ties of a plain sort are in no order
            pooled = order(allm) if sort else allm
            per = [order(g) if sort else g for g in mm]
            for i in (False, True):
                for t in (False, True):
                    ga = model.ap(*model.pr_rc(list_entries(pooled, col), i), t)
                    pa = [model.ap(*model.pr_rc(list_entries(g, col), i), t) for g in per]
                    ma = sum(pa) / len(pa) if pa else 0.0
                    vals.update(pa)
                    for k, (want, what) in enumerate(((ga, "global AP"), (ma, "mean AP")) * 2):
                        got = w.d()
                        if which == "ap" and known:
                            need_near(got, want, "%s (%s, collapse=%d sort=%d interpolate=%d trapezoid=%d)"
                                      % (what, "function" if k > 1 else "object", col, sort, i, t), tol)
            gn = model.ndcg(list_entries(pooled, col))
            pn = [model.ndcg(list_entries(g, col)) for g in per]
            mn = sum(pn) / len(pn) if pn else 0.0
            for k, (want, what) in enumerate(((gn, "global NDCG"), (mn, "mean NDCG")) * 2):
                got = w.d()
                if which == "ndcg" and known:
                    need_near(got, want, "%s (%s, collapse=%d sort=%d)"
                              % (what, "function" if k > 1 else "object", col, sort), tol)
    for k in "ap", "ndcg":
        ok = w.b()
        need(k != which or ok, "a statistic object used before gives another value than a new one")
    need(w.b(), "computing statistics changed the matches")
    need(w.end(), "driver answer too long")
    if len(gs) > 1 and len(vals) > 1:
        l.add("nontrivial")
    if not gs:
        l.add("no groups")
    if not distinct:
        l.add("ties")
    return l


class Lists(Mode):
    name = "lists"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 30000, 1000000
    rule = "ranked match lists through the list-level AP functions; non-trivial: AP strictly between 0 and 1"

    def gen(self, rng, size):
        return dict(matches=matches(rng, size))

    def run(self, case, env):
        check_list(case["matches"])
        r = ask_list(env, case["matches"])
        mm = to_model(case["matches"])
        tol = tolerance(case["matches"])
        l = set()
        for col in (False, True):
            for i in (False, True):
                pr, rc = model.pr_rc(list_entries(mm, col), i)
                for t in (False, True):
                    want = model.ap(pr, rc, t)
                    for k in (0, 1):
                        need_near(r[col][i][t][k], want, "AP of a match list (collapse=%d interpolate=%d trapezoid=%d)"
                                  % (col, i, t), tol)
                    if 0 < want < 1:
                        l.add("nontrivial")
        return l


if __name__ != "__main__":
    CHECK = CheckRunner("C06", [Curve(), Errors(), Totals(), Lists(), Grouped()],
                        ["sorting leaves the order of equal scores open, so unsorted ties are judged collapsed only"])
