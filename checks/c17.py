"""C17: results do not change under irrelevant changes of the input."""
from lib.kit import *
from lib.threads import Threads

TRANS = ["shuffle refs", "shuffle hyps", "repeat refs", "noise", "stdin", "rename", "shift", "scale", "scores", "negate"]
ALPH = "abcxyzABC019._-\u00e9\u4e2d"


def new_names(rng, olds):
    """An order-preserving renaming of the names."""
    olds = sorted(olds, key=b)
    news = set()
    style = rng.randrange(5)
    if style == 3:        # a common beginning of any length
        p = rng.choice("apz_") * rng.choice([1, 3, 7, 8, 15, 16, 31, 32, 64, 255, 256])
        return {o: p + o for o in olds}
    while len(news) < len(olds):
        if style == 0:
            n = "".join(rng.choice(ALPH) for _ in range(rng.randint(1, 8)))
        elif style == 1:
            n = "%05d" % rng.randrange(99999)
        elif style == 4:
            n = gen.raw(rng)
        else:
            n = "z" * (len(news) + 1)
        news.add(n)
    return dict(zip(olds, sorted(news, key=b)))


def new_scores(rng, vals):
    """Strictly increasing images of the scores."""
    olds = sorted(set(vals))
    n = len(olds)
    k = rng.randrange(5)
    if k == 0:
        news = [float(i) for i in range(n)]
    elif k == 1:
        news = [f32(-1000.0 + i * 0.5) for i in range(n)]
    elif k == 2:      # adjacent single-precision numbers
        news = [f32(rng.choice([0.3, -7.0, 1e10]))]
        while len(news) < n:
            news.append(gen.next_f32(news[-1]))
    elif k == 3:
        news = [f32(2.0 ** (i - n // 2)) if n < 200 else float(i) for i in range(n)]
    else:
        news = sorted({f32(rng.uniform(-5, 5)) for _ in range(3 * n + 20)})
        news = sorted(rng.sample(news, n))
    return dict(zip(olds, news))


class Tool(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 9000, 400000
    rule = ("a run and a run on the transformed input (one to four of ten transformations) print the same metrics; "
            "non-trivial: the outcome has hits and errors and some metric is strictly between 0 and 1")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "icdar", "simple"])
        opts = gen.curve_opts(rng)
        ts = rng.sample(TRANS, rng.choice([1, 1, 2, 3, 4]))
        distinct = "negate" in ts or tool == "simple" and not opts.get("collapse_matches", True) or rng.random() < .2
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size, distinct=distinct)
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, trans=[[t, rng.getrandbits(30)] for t in ts],
                    filter=pick_filter(rng, refs, hyps), spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, opts = case["tool"], dict(case["opts"])
        valid(case, tool)
        n = 6 if tool == "icdar" else 2
        sc = [f32(h[n]) for h in case["hyps"]]
        neg = any(t == "negate" for t, _ in case["trans"])
        if (neg or tool == "simple" and not opts.get("collapse_matches", True)) and len(set(sc)) < len(sc):
            raise Invalid()
        if len({t for t, _ in case["trans"]}) < len(case["trans"]) or not {t for t, _ in case["trans"]} <= set(TRANS):
            raise Invalid()
        try:
            model.evaluate(tup(case["refs"], tool), tup(case["hyps"], tool), {}, tool)
        except model.Ambiguous:
            raise Invalid()
        fl = dict(case["filter"])
        args = gen.args_of(dict(opts, **use_filter(env, fl)[0]), case["spell"])
        base = evaluate(env, tool, lines(case["refs"], tool), lines(case["hyps"], tool), args)
        refs, hyps = [list(r) for r in case["refs"]], [list(h[:n]) + [f32(h[n])] for h in case["hyps"]]
        noise, stdin, piped = None, False, 0
        for t, seed in case["trans"]:
            rng = random.Random(seed)
            if t == "shuffle refs":
                rng.shuffle(refs)
            elif t == "shuffle hyps":
                rng.shuffle(hyps)
            elif t == "repeat refs" and refs:
                for _ in range(rng.choice([1, 2, len(refs)])):
                    refs.insert(rng.randint(0, len(refs)), list(rng.choice(refs)))
            elif t == "noise":
                noise = seed
            elif t == "stdin":
                stdin, piped = True, rng.choice([0, 2])
            elif t == "rename":
                for col in (0, 1):
                    m = new_names(rng, {e[col] for e in refs + hyps})
                    for e in refs + hyps:
                        e[col] = m[e[col]]
                    if col == 0:
                        fl["qset"] = [m.get(q, "~absent-" + q) for q in fl["qset"]]
                        fl["groups"] = [[l[0]] + [m.get(q, "~absent-" + q) for q in l[1:]] for l in fl["groups"]]
            elif t == "shift" and tool == "icdar":
                dx, dy = [rng.choice([0, 1, -1, 1000, -1000, 2 ** 30, -2 ** 30, rng.randint(-99, 99), 2 ** 31, gen.far(rng)]) for _ in range(2)]
                for e in refs + hyps:
                    e[2] += dx
                    e[3] += dy
            elif t == "scale" and tool == "icdar":
                kx, ky = rng.choice([2, 3, 7, 10]), rng.choice([1, 2, 5])
                for e in refs + hyps:
                    e[2:6] = [e[2] * kx, e[3] * ky, e[4] * kx, e[5] * ky]
            elif t == "scores":
                m = new_scores(rng, [h[n] for h in hyps])
                for h in hyps:
                    h[n] = m[h[n]]
            elif t == "negate":
                for h in hyps:
                    h[n] = -h[n]
                opts["sort"] = "asc"
        if any(abs(v) >= 2 ** 61 for e in refs + hyps for v in e[2:n]):
            raise Invalid()
        if tool == "icdar":
            try:
                model.evaluate(tup(refs, tool), tup(hyps, tool), {}, tool)
            except model.Ambiguous:
                raise Invalid()
        rd, hd = lines(refs, tool), lines(hyps, tool)
        if noise is not None:
            rd, hd = gen.noisy(noise, rd), gen.noisy(noise + 1, hd)
        fo = use_filter(env, fl)[0]
        if fl["mode"] == "set" and noise:     # the order of a query set does not matter
            fo["query_set"] = env.tools.file("qset", b("  ".join(fl["qset"][::-1])))
        got = evaluate(env, tool, rd, hd, gen.args_of(dict(opts, **fo), case["spell"]), stdin=stdin, piped=piped)
        for x, y, name in zip(base.metrics(), got.metrics(), NAMES):
            need(near6(x, y), "%s is %r, after %s it is %r", name, x, [t for t, _ in case["trans"]], y)
        l = {t for t, _ in case["trans"]} | {"queries: " + fl["mode"]}
        if any(0 < v < 1 for v in base.metrics()):
            l.add("nontrivial")
        return l


class Twice(Mode):
    name = "twice"
    targets = ("icdar", "simple")
    quick, thorough = 1000, 40000
    rule = ("the same command twice, with intervals, dump and curve files: equal bytes; non-trivial: some metric strictly "
            "between 0 and 1")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        opts = gen.curve_opts(rng)
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, min(size, 60))
        for n in NAMES:
            if rng.random() < .3:
                opts["bootstrap_ci_" + n.lower()] = True
        opts["bootstrap_samples"] = rng.choice([1, 20, 100])
        opts["rp_curve_samples"] = rng.choice([2, 11, 50])
        if rng.random() < .3:
            opts["sort"] = rng.choice(["asc", "none"])
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, spell=rng.getrandbits(10))

    def run(self, case, env):
        tool = case["tool"]
        valid(case, tool)
        out = []
        for k in range(2):
            files = ["dump", "grp", "mrp"]
            for f in files:
                env.tools.remove(f)
            o = dict(case["opts"], dump_matches=env.tools.path("dump"), output_grp=env.tools.path("grp"),
                     output_mrp=env.tools.path("mrp"))
            if o.get("bootstrap_samples", 1) < 1 or o.get("rp_curve_samples", 2) < 2:
                raise Invalid()
            r = evaluate(env, tool, lines(case["refs"], tool), lines(case["hyps"], tool), gen.args_of(o, case["spell"]))
            out.append([r.raw] + [env.tools.read(f) for f in files])
        for what, x, y in zip(["the metrics", "the match dump", "the global curve", "the mean curve"], *out):
            need(x == y and x is not None, "%s of two equal runs differ: %r and %r", what, x and text(x)[:300], y and text(y)[:300])
        return {"nontrivial"} if any(0 < v < 1 for v in r.metrics()) else set()


CHECK = CheckRunner("C17", [Tool(), Twice(), Threads("dump", 24)],
                    ["metrics of different inputs are compared to the printed precision",
                     "SimpleKwsEval without tie collapsing is only judged with distinct scores: it orders ties by first appearance"])
