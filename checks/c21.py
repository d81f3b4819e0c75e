"""C21: metrics are bounded and reward better submissions."""
from lib import fuzz
from lib.lists import *


def hit_any(h, refs, tool):
    """Whether the hypothesis matches one of the references."""
    score = model.IoHA() if tool == "icdar" else model.trivial
    for r in refs:
        if r[0] == h[0] and r[1] == h[1]:
            if tool == "icdar" and model.inter(r[2:6], h[2:6]) <= 0:
                continue
            if score(r, h)[0] < 1:
                return True
    return False


def outside(v):
    return not -1e-9 <= v <= 1 + 1e-9


class Bounds(Mode):
    name = "bounds"
    targets = ("icdar", "simple")
    quick, thorough = 4000, 200000
    rule = ("metrics and both curve files of random inputs under every ranking and curve option lie in [0,1]; non-trivial: "
            "hits, false positives and misses")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size)
        opts = gen.curve_opts(rng)
        if rng.random() < .4:
            opts["sort"] = rng.choice(["asc", "none", "desc", "other"])
        opts["rp_curve_samples"] = rng.choice([2, 3, 11, 33, 100])
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, filter=pick_filter(rng, refs, hyps), spell=rng.getrandbits(10))

    def run(self, case, env):
        tool = case["tool"]
        valid(case, tool)
        o = dict(case["opts"], **use_filter(env, case["filter"])[0])
        o.update(output_grp=env.tools.path("g"), output_mrp=env.tools.path("m"))
        if o["rp_curve_samples"] < 2:
            raise Invalid()
        env.tools.remove("g")
        env.tools.remove("m")
        got = evaluate(env, tool, lines(case["refs"], tool), lines(case["hyps"], tool), gen.args_of(o, case["spell"]))
        for n, v in zip(NAMES, got.metrics()):
            need(not outside(v), "%s is %r", n, v)
        for f in ("g", "m"):
            data = env.tools.read(f)
            need(data is not None, "no curve file")
            for l in text(data).split("\n"):
                for v in l.split():
                    need(not outside(float(v)), "value %r in the %s curve", v, "global" if f == "g" else "mean")
        try:
            ms = model.evaluate(tup(case["refs"], tool), tup(case["hyps"], tool), {}, tool)[1]
        except model.Ambiguous:
            return set()
        kinds = {(m.hyp is not None, m.ref is not None) for m in ms}
        return {"nontrivial"} if len(kinds) == 3 else set()


class Soft(Mode):
    name = "fractional"
    targets = ("drv_assess",)
    quick, thorough = 20000, 1000000
    rule = "API metrics and curves of fractional match lists lie in [0,1]; non-trivial: some metric strictly between"

    def gen(self, rng, size):
        return dict(matches=matches(rng, size, soft=rng.random() < .8))

    def run(self, case, env):
        ms = case["matches"]
        check_list(ms)
        r = ask_list(env, ms)
        l = set()
        for col in (False, True):
            for i in (False, True):
                for v in r[col][i]["pr"] + r[col][i]["rc"]:
                    need(-1e-6 <= v <= 1 + 1e-6, "curve value %r (collapsed %r, interpolated %r)", v, col, i)
                for t in (False, True):
                    for v in r[col][i][t]:
                        need(-1e-6 <= v <= 1 + 1e-6, "AP %r (collapsed %r, interpolated %r, trapezoid %r)", v, col, i, t)
            for v in r[col]["ndcg"]:
                need(-1e-6 <= v <= 1 + 1e-6, "NDCG %r (collapsed %r)", v, col)
                if 0 < v < 1:
                    l.add("nontrivial")
        return l


class Extremes(Mode):
    name = "extremes"
    targets = ("icdar", "simple")
    quick, thorough = 4000, 200000
    rule = "submissions that reproduce all references (1) or match none (0); non-trivial: at least three references"

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size)
        kind = rng.choice(["perfect", "perfect", "wrong"])
        sc = gen.scorer(rng)
        if kind == "perfect":
            if tool == "icdar":
                keep = []
                for r in refs:
                    if r[4] > 0 and r[5] > 0 and not any(
                            k[:2] == r[:2] and k != r and model.inter(k[2:], r[2:]) > 0 for k in keep):
                        keep.append(r)
                refs = keep
            refs = refs or [["q", "d", 0, 0, 3, 3][:6 if tool == "icdar" else 2]]
            hyps = [list(r) + [sc()] for r in refs]
            for _ in range(rng.choice([0, 0, 1, 3])):      # answered twice
                hyps.append(list(rng.choice(refs)) + [sc()])
            rng.shuffle(hyps)
        return dict(tool=tool, kind=kind, refs=refs, hyps=hyps, opts=gen.curve_opts(rng), spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, n = case["tool"], 6 if case["tool"] == "icdar" else 2
        valid(case, tool)
        refs, hyps = case["refs"], case["hyps"]
        if case["kind"] == "perfect":
            if not refs or {tuple(r) for r in refs} != {tuple(h[:n]) for h in hyps}:
                raise Invalid()
            if tool == "icdar":
                if any(r[4] <= 0 or r[5] <= 0 for r in refs) or any(
                        x[:2] == y[:2] and x != y and model.inter(x[2:], y[2:]) > 0 for x in refs for y in refs):
                    raise Invalid()
        else:
            try:
                hyps = [h for h in hyps if not hit_any(h, refs, tool)]
            except model.Ambiguous:
                raise Invalid()
        got = evaluate(env, tool, lines(refs, tool), lines(hyps, tool), gen.args_of(case["opts"], case["spell"]))
        want = 1.0 if case["kind"] == "perfect" else 0.0
        for name, v in zip(NAMES, got.metrics()):
            need(abs(v - want) < 2e-6, "%s of a submission that %s is %r", name,
                 "reproduces all references" if want else "matches nothing", v)
        return {case["kind"]} | ({"nontrivial"} if len(refs) > 2 else set())


class Steps(Mode):
    name = "steps"
    targets = ("icdar", "simple")
    quick, thorough = 7000, 300000
    rule = ("an input before and after adding a wrong hypothesis, an unfindable reference or a top-ranked exact answer to an "
            "isolated missed reference; non-trivial: some metric moves")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        n = 6 if tool == "icdar" else 2
        opts = gen.curve_opts(rng)
        distinct = tool == "simple" and not opts.get("collapse_matches", True)
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, max(2, size), distinct=distinct)
        kind = rng.choice(["hyp", "ref", "answer"])
        if hyps and not distinct and rng.random() < .15:      # many wrong answers of one score
            s = rng.choice(hyps)[n] if rng.random() < .8 else f32(max(h[n] for h in hyps) + 1)
            names = [rng.choice(refs + hyps)[0] for _ in range(3)]
            hyps += [[rng.choice(names), "~%d" % i] + [1, 1, 3, 3][:n - 2] + [s] for i in range(rng.choice([8, 12, 16, 33, 65, 130]))]
        sc = [h[n] for h in hyps] or [0.5]
        add = []
        for _ in range(8):
            if kind == "answer":
                if not refs:
                    break
                e = list(rng.choice(refs))
                top = max(sc)
                s = gen.next_f32(f32(top)) if rng.random() < .3 else f32(top + abs(top) + 1)
                e.append(s if s < 3e38 else 3.3e38)
            else:
                src = refs + hyps
                e = list(rng.choice(src))[:n] if src and rng.random() < .8 else ["q", "d", 1, 1, 3, 3][:n]
                if tool == "icdar":
                    e[2:] = gen.derived(rng, e[2:])
                if rng.random() < .4:
                    e[rng.randrange(2)] = rng.choice(["other", "q", "a", "zz"])
                if kind == "hyp":
                    s = rng.choice(sc) if rng.random() < .5 and not distinct else f32(rng.choice(
                        [max(sc) + 1, min(sc) - 1, rng.uniform(min(sc), max(sc))]))
                    e.append(s)
            add = [e]
            if self.ok(tool, kind, refs, hyps, e, opts):
                break
        if kind != "answer" and not distinct and rng.random() < .15:      # very many
            for i in range(rng.choice([2, 7, 16, 70, 300])):
                x = [e[0], "~%d" % rng.randint(0, 99)] + list(e[2:])
                if x not in add:
                    add.append(x)
        return dict(tool=tool, kind=kind, refs=refs, hyps=hyps, add=add, opts=opts, spell=rng.getrandbits(10),
                    at=rng.getrandbits(16))

    def ok(self, tool, kind, refs, hyps, e, opts):
        n = 6 if tool == "icdar" else 2
        if len(e) != n + (kind != "ref"):
            return False
        try:
            if kind == "hyp":
                if tool == "simple" and not opts.get("collapse_matches", True) and e[n] in [h[n] for h in hyps]:
                    return False
                return not hit_any(e, refs, tool)
            if kind == "ref":
                return not any(hit_any(h, [e], tool) for h in hyps) and list(e) not in [list(r) for r in refs]
            r = e[:n]
            if r not in refs or any(h[n] >= e[n] for h in hyps) or any(hit_any(h, [r], tool) for h in hyps):
                return False
            if tool == "icdar":
                return r[4] > 0 and r[5] > 0 and not any(
                    x[:2] == r[:2] and x != r and model.inter(x[2:], r[2:]) > 0 for x in refs)
            return True
        except model.Ambiguous:
            return False

    def run(self, case, env):
        tool, n, kind, opts = case["tool"], 6 if case["tool"] == "icdar" else 2, case["kind"], case["opts"]
        valid(case, tool)
        if len(case["add"]) != 1 and (kind == "answer" or not case["add"]):
            raise Invalid()
        refs, hyps = case["refs"], case["hyps"]
        hyps = [list(h[:n]) + [f32(h[n])] for h in hyps]
        plain = tool == "simple" and not opts.get("collapse_matches", True)
        if plain and (len({h[n] for h in hyps}) < len(hyps) or len(case["add"]) > 1):
            raise Invalid()
        add = []
        for e in case["add"]:
            e = list(e[:n]) + [f32(v) for v in e[n:]]
            valid(dict(refs=[e], hyps=[]), tool)
            if not self.ok(tool, kind, refs, hyps, e, opts) or e in add:
                raise Invalid()
            add.append(e)
        args = gen.args_of(opts, case["spell"])
        old = evaluate(env, tool, lines(refs, tool), lines(hyps, tool), args)
        l2 = list(refs if kind == "ref" else hyps)
        at = case["at"] % (len(l2) + 1)
        l2[at:at] = add
        new = evaluate(env, tool, lines(l2 if kind == "ref" else refs, tool), lines(hyps if kind == "ref" else l2, tool), args)
        moved = False
        for name, x, y in zip(NAMES, old.metrics(), new.metrics()):
            moved = moved or x != y
            if kind == "answer":
                if name[0] == "g":
                    need(y >= x or near6(x, y), "%s falls from %r to %r with an exact answer at the top", name, x, y)
            else:
                need(y <= x or near6(x, y), "%s rises from %r to %r with %s", name, x, y,
                     "a wrong hypothesis" if kind == "hyp" else "a reference nobody finds")
        return {kind} | ({"nontrivial"} if moved else set())


CHECK = CheckRunner("C21", [Bounds(), Soft(), Extremes(), Steps()] + fuzz.modes(eval=60000),
                    ["comparisons are made to the printed precision",
                     "pairs whose overlap ratio is within rounding of the threshold are left out",
                     "SimpleKwsEval without tie collapsing is judged with distinct scores only in the monotonicity part"],
                    extra=fuzz.campaign)
