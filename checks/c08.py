"""C08: collapsing ties and sorting."""
from lib.lists import *


class Collapse(Mode):
    name = "collapse"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 150000, 4000000
    rule = ("match lists, ranked or in any order, with ties, adjacent floats, signed zeros; compared with the reference "
            "collapse, with a permutation inside the runs and with the sorted list; non-trivial: some run has two or "
            "more matches and there are two or more runs")

    def gen(self, rng, size):
        ms = matches(rng, size, ranked=rng.random() < .75)
        if ms and rng.random() < .3:   # neighbouring floats next to each other
            s = f32(rng.choice([0.5, -1.0, 1e-3, 7.0, 0.0, 2e-39, -1e-44, 1e-38, 3e7, -2e30]))
            for m in ms:
                if m[0] != 2:
                    m[3] = s
                    if rng.random() < .3:
                        s = gen.next_f32(s, False)
        return dict(matches=ms, perm=rng.getrandbits(30))

    def run(self, case, env):
        ms = case["matches"]
        check_list(ms)
        r = ask_list(env, ms)
        mm = to_model(ms)
        tol = 1e-6 * (1 + len(ms)) * max(1, len(ms) / 1000) if is_soft(ms) else 0
        want = model.collapse(mm)
        got = r["collapsed"]
        need(len(got) == len(want), "%d entries after collapsing, expected %d", len(got), len(want))
        for k, (g, e) in enumerate(zip(got, want)):
            need(g[2:] == e[2:], "entry %d counts %r, expected %r", k, g[2:], e[2:])
            need(abs(g[0] - e[0]) <= tol and abs(g[1] - e[1]) <= tol, "entry %d errors %r, expected %r", k, g[:2], e[:2])
        for j, what in enumerate(("false positives", "false negatives", "hypotheses", "references")):
            a, e = sum(g[j] for g in got), sum(x[j] for x in model.entries(mm))
            need(abs(a - e) <= tol * 4, "total of %s is %r, expected %r", what, a, e)
        ee = model.entries(mm)
        need(len(r["errors"]) == len(ee), "%d errors of %d matches", len(r["errors"]), len(ee))
        for k, (g, e) in enumerate(zip(r["errors"], ee)):
            need(g == e, "error of match %d is %r, expected %r", k, g, e)
        # order inside a run does not matter
        other = shuffle_ties(random.Random(case["perm"]), ms)
        r2 = ask_list(env, other)
        need(len(r2["collapsed"]) == len(got), "collapsing depends on the order inside a run")
        for g, h in zip(got, r2["collapsed"]):
            need(all(abs(x - y) <= tol for x, y in zip(g, h)), "collapsing depends on the order inside a run: %r, %r", g, h)
        # sorting: a permutation, by non-increasing score, misses last
        s = r["sorted"]
        need(sorted(s) == sorted(ids_of(mm)), "sorting did not permute the matches")
        for x, y in zip(s, s[1:]):
            need(not (x[0] == 2 and y[0] != 2), "a miss is ranked before a hypothesis")
            if x[0] != 2 and y[0] != 2:
                need(x[3] >= y[3], "score %r is ranked before %r", x[3], y[3])
        l = set()
        if len(got) > 1 and any(g[2] + g[3] > 2 or (g[2] > 1) for g in got):
            l.add("nontrivial")
        if is_soft(ms):
            l.add("fractional")
        if any(ms[k][0] == 2 and ms[k + 1][0] != 2 for k in range(len(ms) - 1)):
            l.add("unranked")
        sc = sorted({m[3] for m in ms if m[0] != 2})
        if any(gen.next_f32(a) == c for a, c in zip(sc, sc[1:])):
            l.add("adjacent floats")
        return l


CHECK = CheckRunner("C08", [Collapse()], ["scores are finite"])
