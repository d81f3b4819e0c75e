"""C10: bootstrap confidence intervals."""
import bisect, math
from lib.lists import *
from lib.threads import Threads


def quantile_ok(got, diffs, p):
    """diffs sorted; the p quantile is element floor(p n), at most the last."""
    n = len(diffs)
    x = p * n
    ks = {min(n - 1, max(0, int(math.floor(x + d)))) for d in (0, -1e-9 * n, 1e-9 * n)}
    return any(near(got, diffs[k], 1e-9) for k in ks)


def alphas(rng):
    return rng.choice([0.05, 0.05, 0.1, 0.01, 0.5, 0.25, 0.2, 1.0, 0.0, 0.9, rng.random(), 1e-9, 0.3, 0.999])


class Quantiles(Mode):
    name = "quantiles"
    targets = ("drv_assess",)
    quick, thorough = 40000, 1500000
    fixed = ()
    rule = ("a scripted sampler and an identity statistic give known samples, any number, order and alpha; "
            "non-trivial: at least four different samples and different bounds")

    def gen(self, rng, size):
        n = max(1, rng.choice([1, 2, 3, size, 2 * size, 100, rng.randint(1, 50)]))
        k = rng.randrange(3)
        vals = [rng.random() if k == 0 else rng.randint(0, 5) / 5.0 if k == 1 else rng.gauss(0, 10) for _ in range(n)]
        if rng.random() < .3:
            vals.sort(reverse=rng.random() < .5)
        return dict(vals=vals, alpha=alphas(rng), obs=rng.choice([0.0, 0.5, rng.random(), vals[0]]))

    def run(self, case, env):
        v, a = case["vals"], case["alpha"]
        if not v or not 0 <= a <= 1:
            raise Invalid()
        w = env.drv("drv_assess").ask("ci", float(a), float(case["obs"]), len(v), *[float(x) for x in v])
        need(w.s() == b"ok", "alpha %r with %d repetitions was refused", a, len(v))
        val, lo, hi, calls, clean = w.d(), w.d(), w.d(), w.i(), w.b()
        need(val == case["obs"], "observed statistic %r, expected %r", val, case["obs"])
        need(calls == len(v), "%d resamples drawn, expected %d", calls, len(v))
        d = sorted(x - case["obs"] for x in v)
        need(quantile_ok(case["obs"] - lo, d, 1 - a / 2), "lower bound %r of %d samples, alpha %r", lo, len(v), a)
        need(quantile_ok(case["obs"] - hi, d, a / 2), "upper bound %r of %d samples, alpha %r", hi, len(v), a)
        need(lo <= hi, "lower bound %r above upper bound %r", lo, hi)
        l = set()
        if len(set(v)) > 3 and lo < hi:
            l.add("nontrivial")
        return l


class Samplers(Mode):
    name = "samplers"
    targets = ("drv_assess",)
    quick, thorough = 3000, 100000
    rule = ("resamples of both samplers are checked one by one for validity and together for coverage and frequency; "
            "non-trivial: two or more groups with two or more matches each")

    big = 70000

    def gen(self, rng, size):
        if size == self.big:      # one large group among small ones, or as many groups
            n = size + rng.randrange(9)
            ms = [[1, "q", i, 0.5, 1.0, 0.0] for i in range(n)]
            if rng.random() < .5:
                for m in ms:
                    m[1] += str(m[2])
                gs = [[m] for m in ms]
            else:
                gs = [ms]
            return dict(groups=gs, seed=rng.getrandbits(31), rounds=1)
        ng = rng.choice([1, 2, 3, 5, 8, rng.randint(9, 40) if rng.random() < .3 else 4])
        k, gs = 0, []
        for g in range(ng):
            ms = matches(rng, rng.choice([1, 2, 3, min(size, 12), min(size, 100) if rng.random() < .1 else 2]), queries=["q%d" % g]) or \
                [[1, "q%d" % g, 0, 0.5, 1.0, 0.0]]
            for m in ms:
                m[2] = k
                k += 1
            gs.append(ms)
        if rng.random() < .03:
            gs = []
        if rng.random() < .2:      # groups without matches can be drawn as well
            for _ in range(rng.choice([1, 1, 2, 5])):
                gs.insert(rng.randint(0, len(gs)), [])
        seed = rng.choice([0, 1, 2, 0x12345, rng.getrandbits(31), rng.getrandbits(60)])
        return dict(groups=gs, seed=seed, rounds=rng.choice([1, 3, 40, 150, 600 if k < 60 else 2]))

    def run(self, case, env):
        gs = case["groups"]
        flat = [m for g in gs for m in g]
        check_list(flat)
        if any(len({m[1] for m in g}) > 1 for g in gs) or case["seed"] < 0 or \
                len({g[0][1] for g in gs if g}) < sum(map(bool, gs)) or case["rounds"] < 1:
            raise Invalid()
        d = env.drv("drv_assess")
        rounds = case["rounds"]
        ids = [ids_of(to_model(g)) for g in gs]
        msg = [len(gs)]
        for g in gs:
            msg += words(g)
        w = d.ask("qsample", case["seed"], rounds, *msg)
        gdraws, mdraws, repeats = [0] * len(gs), {}, 0
        expect = 0.0
        slots, inner, plain = Table(), [Table() for _ in gs], Table()
        pos = [{x: p for p, x in enumerate(g)} for g in ids]
        group_of = {x: k for k, g in enumerate(ids) for x in g}
        empty = [k for k, g in enumerate(gs) if not g]      # told apart by nothing
        nothing = 0
        for r in range(rounds):
            need(w.b(), "samplers with equal seeds drew different resamples")
            n = w.i()
            need(n == len(gs), "%d groups in a resample of %d", n, len(gs))
            for i in range(n):
                s = read_ids(w)
                if not s and empty:
                    nothing += 1
                    continue
                need(s, "an empty group in a resample")
                src = [group_of.get(s[0], -1)]
                need(src[0] >= 0 and all(group_of.get(x) == src[0] for x in s),
                     "group %d of a resample is not drawn from one group: %r", i, s)
                need(len(s) == len(ids[src[0]]), "%d matches drawn from a group of %d", len(s), len(ids[src[0]]))
                gdraws[src[0]] += 1
                slots.add(i, src[0])
                for p, x in enumerate(s):
                    inner[src[0]].add(p, pos[src[0]][x])
                for x in s:
                    mdraws[x[1]] = mdraws.get(x[1], 0) + 1
                if len(s) > 3 and len(set(s)) < len(s):
                    repeats += 1
                if len(s) > 3:
                    expect += 1
        q = len(gs)
        # every group is drawn, with the frequency of a fair draw
        freq([n for n, g in zip(gdraws, gs) if g], rounds * q, 1.0 / q if q else 0, "group")
        if empty:
            freq([nothing], rounds * q, len(empty) / q, "empty group")
        for k, g in enumerate(ids):
            freq([mdraws.get(x[1], 0) for x in g], gdraws[k] * len(g), 1.0 / len(g) if g else 0, "match of group %d" % k)
        if expect > 60:       # n>3 draws repeat with probability above 0.9
            need(repeats > 0.5 * expect, "only %d of %d groups have a repeated match: not with replacement", repeats, expect)
        if not empty:
            slots.judge(q, "group")
        for k, g in enumerate(ids):
            inner[k].judge(len(g), "match of group %d" % k)
        # the plain sampler
        w = d.ask("msample", case["seed"], rounds, *words(flat))
        cnt, all_ = {}, {x: p for p, x in enumerate(ids_of(to_model(flat)))}
        for r in range(rounds):
            need(w.b(), "plain samplers with equal seeds drew different resamples")
            s = read_ids(w)
            need(len(s) == len(flat), "%d matches in a resample of %d", len(s), len(flat))
            for p, x in enumerate(s):
                need(x in all_, "drawn match %r is not one of the originals", x)
                plain.add(p, all_[x])
                cnt[x[1]] = cnt.get(x[1], 0) + 1
        freq([cnt.get(m[2], 0) for m in flat], rounds * len(flat), 1.0 / len(flat) if flat else 0, "match")
        plain.judge(len(flat), "match")
        l = set()
        if sum(len(g) > 1 for g in gs) > 1:
            l.add("nontrivial")
        if empty:
            l.add("groups without matches")
        if rounds * q > 300:
            l.add("frequencies judged")
        return l


class Table:
    """What was drawn at which position: every element must be as likely everywhere."""

    def __init__(self):
        self.n, self.same, self.next, self.last = {}, [0, 0], [0, 0], {}
        self.prev = None

    def add(self, i, k):
        self.n[i, k] = self.n.get((i, k), 0) + 1
        if i and self.prev is not None and self.prev[0] == i - 1:      # independent of the draw before
            self.next[0] += self.prev[1] == k
            self.next[1] += 1
        if i in self.last:                                             # and of the last resample
            self.same[0] += self.last[i] == k
            self.same[1] += 1
        self.last[i] = k
        self.prev = (i, k)

    def judge(self, q, what):
        if q < 2:
            return
        parts = [(name, f) for name, f in (
            ("each", lambda x: x), ("halves", lambda x: 2 * x // q), ("parity", lambda x: x % 2),
            ("thirds", lambda x: x % 3), ("first four", lambda x: min(x // 4, 1)), ("first", lambda x: min(x, 1)),
            ("last", lambda x: int(x == q - 1)))]
        if q > 3000:
            parts = [parts[1], parts[4], ("tenths", lambda x: 10 * x // q)]
        size = [dict() for _ in parts]
        for d, (name, f) in zip(size, parts):
            for k in range(q):
                d[f(k)] = d.get(f(k), 0) + 1
        for a, (an, f) in enumerate(parts):
            for c, (cn, g) in enumerate(parts):
                tot, cell = {}, {}
                for (i, k), n in self.n.items():
                    tot[f(i)] = tot.get(f(i), 0) + n
                    cell[f(i), g(k)] = cell.get((f(i), g(k)), 0) + n
                for i, n in tot.items():
                    for k, m in size[c].items():
                        freq([cell.get((i, k), 0)], n, m / q, "%s (positions: %s %d, elements: %s %d)" % (what, an, i, cn, k))
        freq([self.next[0]], self.next[1], 1.0 / q, what + " of the position before, again,")
        freq([self.same[0]], self.same[1], 1.0 / q, what + " of the resample before, again,")


def freq(counts, n, p, what):
    """Each count of n draws of probability p stays within eight deviations."""
    if not counts or n < 40 or p < 1 and min(p, 1 - p) * n < 45:
        return
    s = math.sqrt(n * p * (1 - p))
    for k, c in enumerate(counts):
        need(abs(c - n * p) <= 8 * s + 3 and 0 < c, "%s %d was drawn %d times in %d draws of probability %.3f", what, k, c, n, p)


class Boot(Mode):
    name = "statistics"
    targets = ("drv_assess",)
    quick, thorough = 1500, 60000
    rule = ("percentile intervals of all four statistics over grouped matches, the resampled statistics compared with "
            "an independent bootstrap (Kolmogorov-Smirnov at 1e-11); non-trivial: bounds differ")

    def gen(self, rng, size):
        ng = rng.choice([1, 2, 2, 3, 5])
        k, gs = 0, []
        for g in range(ng):
            ms = matches(rng, min(size, 10), soft=False, queries=["q%d" % g])
            for m in ms:
                m[2] = k
                k += 1
            if ms:
                gs.append(ms)
        return dict(groups=gs, seed=rng.choice([0, 1, 0x12345, rng.getrandbits(40)]), which=rng.randrange(4),
                    interp=rng.random() < .5, trap=rng.random() < .5, alpha=alphas(rng),
                    reps=rng.choice([1, 2, 10, 100, 400]))

    def run(self, case, env):
        gs = case["groups"]
        check_list([m for g in gs for m in g])
        if any(not g for g in gs) or not 0 <= case["alpha"] <= 1 or case["reps"] < 1 or case["seed"] < 0 or \
                is_soft([m for g in gs for m in g]):
            raise Invalid()
        which, reps = case["which"] % 4, case["reps"]
        msg = [len(gs)]
        for g in gs:
            msg += words(g)
        w = env.drv("drv_assess").ask("boot", which, float(case["alpha"]), reps, case["seed"], True, case["interp"],
                                      case["trap"], *msg)
        val, lo, hi = w.d(), w.d(), w.d()
        stats = vec(w)
        mm = [to_model(g) for g in gs]
        st = statistic(which, case["interp"], case["trap"])
        need_near(val, st(mm), "observed statistic", 1e-6)
        need(lo <= hi, "lower bound %r above upper bound %r", lo, hi)
        d = sorted(s - val for s in stats)
        need(len(d) == reps, "%d statistics from %d resamples", len(d), reps)
        need(quantile_ok(val - lo, d, 1 - case["alpha"] / 2), "lower bound %r, alpha %r", lo, case["alpha"])
        need(quantile_ok(val - hi, d, case["alpha"] / 2), "upper bound %r, alpha %r", hi, case["alpha"])
        if reps >= 400 and gs and sum(len(g) for g in gs) < 40:
            rng = random.Random(12345)
            mine = []
            for _ in range(reps):
                sm = []
                for _ in mm:
                    g = rng.choice(mm)
                    sm.append([rng.choice(g) for _ in g])
                mine.append(st(sm))
            dist = ks(stats, mine)
            need(dist < 0.36, "resampled statistics do not look like a bootstrap: Kolmogorov-Smirnov distance %.3f", dist)
        return {"nontrivial"} if lo < hi else set()


def ks(a, c, eps=1e-6):
    """Kolmogorov-Smirnov distance; values closer than eps count as equal."""
    a, c = sorted(a), sorted(c)
    best = 0.0
    for x in set(a + c):
        fa, fc = bisect.bisect_right(a, x), bisect.bisect_right(c, x)
        best = max(best, fa / len(a) - bisect.bisect_right(c, x + eps) / len(c),
                   fc / len(c) - bisect.bisect_right(a, x + eps) / len(a))
    return best


def statistic(which, interp, trap):
    def order(ms):
        return sorted((m for m in ms if m.hyp), key=lambda m: -m.hyp[-1]) + [m for m in ms if not m.hyp]

    def one(ms):
        es = model.collapse(order(ms))
        return model.ap(*model.pr_rc(es, interp), trap) if which < 2 else model.ndcg(es)

    def f(groups):
        if which in (0, 2):
            return one([m for g in groups for m in g])
        return sum(one(g) for g in groups) / len(groups) if groups else 0.0
    return f


REPS = 1500
CI = {"gAP": "bootstrap_ci_gap", "mAP": "bootstrap_ci_map", "gNDCG": "bootstrap_ci_gndcg", "mNDCG": "bootstrap_ci_mndcg"}


class Tool(Mode):
    name = "tool"
    big = 1400000
    targets = ("icdar", "simple")
    quick, thorough = 900, 40000
    rule = ("both tools with every combination of the interval switches: estimates as without intervals, bounds as the "
            "library computes them on the reference matching, reproducible and independent of the other switches; "
            "non-trivial: some bounds differ")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        many = size == self.big      # very many resamples of next to nothing
        if many:
            size = 2
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, min(size, 40))
        opts = {k: rng.random() < .5 for k in ("interpolated_precision", "trapezoid_integral") if rng.random() < .5}
        boot = {}
        if rng.random() < .9:
            boot["bootstrap_samples"] = rng.choice([1, 2, 7, 50, 200])
            if rng.random() < .7:
                boot["bootstrap_alpha"] = alphas(rng)
        if rng.random() < .6:
            boot["bootstrap_seed"] = rng.choice([0, 1, 42, 2 ** 31, 2 ** 63 + 12345, rng.getrandbits(32)])
        if "bootstrap_samples" not in boot:
            refs, hyps = refs[:8], hyps[:8]      # the default of 10000
        which = [n for n in NAMES if rng.random() < .6] or [rng.choice(NAMES)]
        if many:
            refs, hyps, which = refs[:2], hyps[:3], which[:1]
            boot["bootstrap_samples"] = self.big - rng.randrange(200000)
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, boot=boot, which=which, filter=pick_filter(rng, refs, hyps),
                    spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, opts, boot = case["tool"], dict(case["opts"]), dict(case["boot"])
        valid(case, tool)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        if not case["which"] or not 0 <= boot.get("bootstrap_alpha", 0.05) <= 1 or \
                boot.get("bootstrap_samples", 1) < 1 or boot.get("bootstrap_seed", 0) < 0:
            raise Invalid()
        try:
            fopts, kw = use_filter(env, case.get("filter"))
            want, ms, rep, gs = model.evaluate(refs, hyps, opts, tool, **kw)
        except model.Ambiguous:
            raise Invalid()
        opts.update(fopts)
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        plain = evaluate(env, tool, rd, hd, gen.args_of(opts, case["spell"]))
        on = dict(opts, **boot)
        on.update({CI[n]: True for n in case["which"]})
        args = gen.args_of(on, case["spell"])
        a = evaluate(env, tool, rd, hd, args)
        need(a.metrics() == plain.metrics(), "requesting intervals changes the estimates: %r, without %r",
             a.metrics(), plain.metrics())
        need(set(a.ci) == set(case["which"]), "intervals printed for %s, asked for %s", sorted(a.ci), sorted(case["which"]))
        c = evaluate(env, tool, rd, hd, args)
        need(a.raw == c.raw, "two equal runs print %r and %r", text(a.raw), text(c.raw))
        one = case["which"][case["spell"] % len(case["which"])]
        o = dict(opts, **boot)
        o[CI[one]] = True
        s = evaluate(env, tool, rd, hd, gen.args_of(o, case["spell"]))
        need(s.ci[one] == a.ci[one], "the interval of %s depends on the other intervals: %r, alone %r",
             one, a.ci[one], s.ci[one])
        for n, (lo, hi) in a.ci.items():
            need(lo <= hi, "%s: lower bound %r above upper bound %r", n, lo, hi)
        judged = False
        if sum(len(g) for g in gs) < 60 and case["spell"] % 2:
            judged = self.judge(case, s, [one], gs, boot, opts)
            if judged:
                seen = set()
                for k in range(40):
                    o["bootstrap_seed"], o["bootstrap_samples"] = judged.getrandbits(31), 1
                    seen.add(evaluate(env, tool, rd, hd, gen.args_of(o, case["spell"])).raw)
                need(len(seen) > 1, "40 seeds give the same resample")
        l = {"%d intervals" % len(a.ci), tool, "queries: " + case["filter"]["mode"] if "filter" in case else "queries: all"}
        if judged is not False:
            l.add("compared with an independent bootstrap")
        if any(x < y for x, y in a.ci.values()):
            l.add("nontrivial")
        return l

    @staticmethod
    def judge(case, res, names, gs, boot, opts):
        """The bounds against an independent bootstrap of the reference matching."""
        alpha, reps = boot.get("bootstrap_alpha", 0.05), boot.get("bootstrap_samples", 10000)
        i, t = opts.get("interpolated_precision", True), opts.get("trapezoid_integral", True)
        n = sum(len(g) for g in gs)
        if reps < 200 or not n:
            return False
        ans = None
        rng = random.Random(case["spell"])
        sts = [statistic(NAMES.index(one), i, t) for one in names]
        all_ = [[] for _ in names]
        for _ in range(REPS):
            smp = []
            for _ in gs:
                g = rng.choice(gs)
                smp.append([rng.choice(g) for _ in g])
            for st, m in zip(sts, all_):
                m.append(st(smp))
        for one, mine in zip(names, all_):
            est = res.v[one]
            for what, bound, p in (("lower", res.ci[one][0], 1 - alpha / 2), ("upper", res.ci[one][1], alpha / 2)):
                x = 2 * est - bound             # the quantile of the resampled statistic
                eps = 2e-5 * (1 + abs(x))
                below = sum(v <= x + eps for v in mine) / REPS
                strictly = sum(v < x - eps for v in mine) / REPS
                tol = 6.5 * math.sqrt(max(p * (1 - p), .002) * (1.0 / reps + 1.0 / REPS)) + 1.5 / reps + 1.5 / REPS
                need(below >= p - tol and strictly <= p + tol, "%s bound of %s is %r: the %.4f quantile of the resampled "
                     "statistic would be %r, which an independent bootstrap exceeds in %.4f of the cases and undercuts "
                     "in %.4f (tolerance %.4f)", what, one, bound, p, x, 1 - below, 1 - strictly, tol)
            if len(set(mine)) > 3 and max(mine.count(v) for v in set(mine)) < REPS / 2:
                ans = rng
        return ans


class Contrast(Tool):
    name = "contrast"
    big = 0
    quick, thorough = 200, 8000
    rule = ("both tools on few groups, of one or of several queries, with outcomes of their own, the bounds of all four "
            "metrics against an independent bootstrap of queries' matches; non-trivial: some bounds differ")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        refs, hyps, groups, n = [], [], [], 0
        sc = gen.scorer(rng)
        apart = rng.random() < .5
        for g in range(rng.choice([2, 2, 3, 4, 6])):
            qs = ["q%d%s" % (g, c) for c in "abcdef"[:rng.choice([1, 1, 2, 3, 5])]]
            good = rng.choice([0, .5, 1])
            for q in qs:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    at = [n * 100, 0, 50, 50] if tool == "icdar" else []
                    loc = "d" if tool == "icdar" else "l%d" % n
                    kind = rng.choices("hfm", [good * 4, 2 - 2 * good, 1 - good / 2])[0]
                    s = sc() + (4 - g if apart else 0)
                    n += 1
                    if kind in "hm":
                        refs.append([q, loc] + at)
                    if kind in "hf":
                        hyps.append([q, loc] + at + [f32(s)])
            if rng.random() < .8:
                groups.append(["g%d" % g] + qs)
            else:
                groups += [[q, q] for q in qs]
        rng.shuffle(refs), rng.shuffle(hyps)
        f = dict(mode="all", qset=[], groups=[])
        if rng.random() < .7:
            f.update(mode="groups", groups=groups)
        opts = {k: rng.random() < .5 for k in ("interpolated_precision", "trapezoid_integral") if rng.random() < .5}
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, filter=f, which=list(NAMES), spell=rng.getrandbits(10),
                    boot=dict(bootstrap_samples=rng.choice([500, 2000, 4000]), bootstrap_alpha=rng.choice([.1, .2, .4, .6, 1.0]),
                              bootstrap_seed=rng.getrandbits(32)))

    def run(self, case, env):
        tool, opts, boot = case["tool"], dict(case["opts"]), dict(case["boot"])
        valid(case, tool)
        if sorted(case["which"]) != sorted(NAMES) or not 0 <= boot["bootstrap_alpha"] <= 1 or boot["bootstrap_samples"] < 200 \
                or boot["bootstrap_seed"] < 0 or len(case["refs"]) + len(case["hyps"]) > 150:
            raise Invalid()
        try:
            fopts, kw = use_filter(env, case["filter"])
            want, ms, rep, gs = model.evaluate(tup(case["refs"], tool), tup(case["hyps"], tool), opts, tool, **kw)
        except model.Ambiguous:
            raise Invalid()
        on = dict(opts, **boot)
        on.update(fopts)
        on.update({CI[n]: True for n in NAMES})
        a = evaluate(env, tool, lines(case["refs"], tool), lines(case["hyps"], tool), gen.args_of(on, case["spell"]))
        self.judge(case, a, NAMES, gs, boot, opts)
        l = {tool, "queries: " + case["filter"]["mode"]}
        if any(x < y for x, y in a.ci.values()):
            l.add("nontrivial")
        return l


CHECK = CheckRunner("C10", [Quantiles(), Samplers(), Boot(), Tool(), Contrast(), Threads("ci")],
                    ["a quantile index within 1e-9 of an integer may be rounded either way",
                     "frequencies of draws are judged at eight standard deviations"])
