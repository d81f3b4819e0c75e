"""C01: the printed metrics equal their definitions on the greedy matching."""
from lib.kit import *
from lib.threads import Threads


class EndToEnd(Mode):
    fixed = ()

    def __init__(self, tool, quick, thorough):
        self.name, self.tool, self.quick, self.thorough = tool, tool, quick, thorough
        self.targets = (tool,)
        self.big = 70000 if tool == "simple" else 0
        self.rule = ("random reference/hypothesis files and options through the real binary; non-trivial: "
                     "hits together with misses or false positives, and a metric strictly between 0 and 1")

    def gen(self, rng, size):
        opts = gen.curve_opts(rng)
        sort = rng.choice([None, None, None, "desc", "asc", "none", rng.choice(gen.BAD_SORTS)])
        if sort:
            opts["sort"] = sort
        distinct = rng.random() < (.7 if not opts.get("collapse_matches", True) else .2)
        if size == self.big and rng.random() < .6:
            opts["collapse_matches"] = opts.get("sort") == "none" and rng.random() < .5
            refs, hyps = gen.many_queries(rng, self.tool)
            if not opts["collapse_matches"] and opts.get("sort") != "none":
                for i, h in enumerate(hyps):
                    h[-1] = float(i)
        elif self.tool == "icdar":
            refs, hyps = gen.icdar(rng, size, distinct=distinct)
        else:
            if not opts.get("collapse_matches", True) and opts.get("sort", "desc") in ("desc", "asc"):
                distinct = True      # ranking of ties depends on internal numbers
            refs, hyps = gen.simple(rng, size, distinct=distinct)
        return dict(refs=refs, hyps=hyps, opts=opts, spell=rng.getrandbits(10),
                    noise=rng.getrandbits(30) if rng.random() < .1 else 0)

    def run(self, case, env):
        tool, opts = self.tool, case["opts"]
        valid(case, tool)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        if tool == "simple" and not opts.get("collapse_matches", True):
            if opts.get("sort", "desc") in ("desc", "asc") and len({h[-1] for h in hyps}) < len(hyps):
                raise Invalid()
        try:
            want, ms, rep, _ = model.evaluate(refs, hyps, opts, tool)
        except model.Ambiguous:
            raise Invalid()
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        if case.get("noise"):
            rd, hd = gen.noisy(case["noise"], rd), gen.noisy(case["noise"] + 1, hd)
        got = evaluate(env, tool, rd, hd, gen.args_of(opts, case["spell"]))
        cmp_metrics(got.metrics(), want, "of %s" % opts, len(refs) + len(hyps))
        l = labels_of(refs, hyps, ms, rep)
        l.add("sort " + opts.get("sort", "default"))
        if not opts.get("collapse_matches", True):
            l.add("not collapsed")
        if "mixed outcome" in l and any(0 < v < 1 for v in want):
            l.add("nontrivial")
        return l


class Huge(EndToEnd):
    """32-bit coordinates and thousands of events."""

    def __init__(self, quick, thorough):
        EndToEnd.__init__(self, "icdar", quick, thorough)
        self.name = "icdar-extremes"
        self.big = 70000

    def gen(self, rng, size):
        if size == self.big:
            refs, hyps = gen.many_pages(rng, size) if rng.random() < .4 else gen.many_queries(rng, "icdar")
        elif rng.random() < .85:
            refs, hyps = gen.icdar(rng, size, style="huge")
            for e in refs + hyps:       # derived boxes may leave the range
                for k in (2, 3):
                    e[k] = max(-(2 ** 31) + 1, min(2 ** 31 - 1, e[k]))
                for k in (4, 5):
                    e[k] = max(0, min(2 ** 31 - 1, e[k]))
        else:
            refs, hyps = gen.icdar(rng, rng.randint(1000, 4000), style=rng.choice(["page", "small", "lines"]))
        return dict(refs=refs, hyps=hyps, opts=gen.curve_opts(rng), spell=rng.getrandbits(10))


CHECK = CheckRunner("C01", [EndToEnd("icdar", 9000, 500000), EndToEnd("simple", 6000, 300000), Huge(600, 20000), Threads("dump", 24)],
                    ["corners and areas fit 62 bits, scores finite single-precision numbers",
                     "boxes whose overlap is within rounding of the 50 % threshold without being exact in single "
                     "precision are not judged",
                     "SimpleKwsEval without tie collapsing is judged on distinct scores only (its ranking of ties "
                     "is by internal numbers)"])
