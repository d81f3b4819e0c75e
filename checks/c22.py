"""C22: the numbers in the progress report are true."""
from lib.kit import *

READ = [("references", re.compile(r"reference events read = (\d+)")), ("hypotheses", re.compile(r"hypothesis events read = (\d+)"))]
KEPT = [("references", re.compile(r"kept reference events = (\d+)")), ("hypotheses", re.compile(r"kept hypothesis events = (\d+)"))]
QUERIES = re.compile(r"(\d+) queries were read")
GROUPS = re.compile(r"(\d+) groups were read")
EFFECTIVE = re.compile(r"Effective number of hypotheses is (\d+)")
SORT = re.compile(r"WARN\w*: .*[Ii]gnor.*\"(.*)\"")


class Report(Mode):
    name = "report"
    targets = ("icdar", "simple")
    quick, thorough = 6000, 250000
    rule = ("both tools on generated files, some with a query set or groups, under every ranking: each number of the report "
            "is recomputed by the reference model; non-trivial: repetitions or dropped events are reported")

    big = 70000

    def gen(self, rng, size):
        if size == self.big:
            nr, nh, nq = [rng.choice([10, 1000, 32768, 65535] + [65536, 65537, size, size, rng.randint(1, size)] * 2) for _ in range(3)]
            miss = rng.choice([0, 0, .01])
            refs = [["q%d" % (i % nq), "r%d" % i] for i in range(nr)]
            hyps = [["q%d" % (i % nq), ("r%d" if rng.random() < .5 else "h%d") % i, i / 2.] for i in range(nh)]
            if rng.random() < .3:      # repeated
                hyps += [list(h) for h in rng.sample(hyps, min(len(hyps), 3))]
            f = dict(mode=rng.choice(["all", "set", "set", "set", "groups", "groups", "groups"]), qset=[], groups=[])
            qs = ["q%d" % i for i in range(nq) if rng.random() >= miss] + ["absent"]
            if f["mode"] == "set":
                f["qset"] = qs
            elif f["mode"] == "groups":
                k = rng.choice([1, 1, 7, 40000])
                f["groups"] = [["g%d" % i] + qs[i:i + k] for i in range(0, len(qs), k)]
            return dict(tool="simple", refs=refs, hyps=hyps, opts={}, filter=f, noise=1, stdin=False)
        tool = rng.choice(["icdar", "simple"])
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size, distinct=rng.random() < .6)
        opts = gen.curve_opts(rng)
        if rng.random() < .5:
            opts["sort"] = rng.choice(["desc", "asc", "none"] + [rng.choice(gen.BAD_SORTS)] * 2)
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, filter=pick_filter(rng, refs, hyps, .6),
                    noise=rng.getrandbits(30), stdin=rng.random() < .2)

    def run(self, case, env):
        tool, opts, f = case["tool"], case["opts"], case["filter"]
        valid(case, tool)
        extra, margs = use_filter(env, f)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        try:
            _, ms, rep, gs = model.evaluate(refs, hyps, opts, tool, **margs)
        except model.Ambiguous:
            ms = None
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        if case["noise"] % 3 == 0:
            rd, hd = gen.noisy(case["noise"], rd), gen.noisy(case["noise"] + 1, hd)
        r = evaluate(env, tool, rd, hd, gen.args_of(dict(opts, **extra), case["noise"]), stdin=case["stdin"])
        err = text(r.run.err)

        def one(rx, what):
            m = rx.findall(err)
            need(len(m) <= 1, "%s is reported more than once: %r", what, m)
            return int(m[0]) if m else None

        lab = {tool, f["mode"]}
        for (what, rx), n in zip(READ, (len(refs), len(hyps))):
            need(one(rx, what) == n, "%r %s were read according to the report, the file has %d", one(rx, what), what, n)
        if f["mode"] == "all":
            keep = None
            need(one(QUERIES, "queries") is None and one(GROUPS, "groups") is None, "queries or groups reported without such a file")
        else:
            listed = {w for l in f["groups"] for w in l[1:]} if f["mode"] == "groups" else set(f["qset"])
            keep = {b(q) for q in listed}
            need(one(QUERIES, "queries") == len(listed), "%r queries were read according to the report, the file lists %d",
                 one(QUERIES, "queries"), len(listed))
            if f["mode"] == "groups":
                last = {}
                for l in f["groups"]:
                    for w in l[1:]:
                        last[w] = l[0]
                n = len(set(last.values()))
                need(one(GROUPS, "groups") == n, "%r groups were read according to the report, the file has %d",
                     one(GROUPS, "groups"), n)
        left = []
        for (what, rx), es in zip(KEPT, (refs, hyps)):
            n = len(es) if keep is None else sum(e[0] in keep for e in es)
            left.append(n)
            want = n if n != len(es) else None
            need(one(rx, what) == want, "%s kept by the filter: reported %r, in fact %d of %d", what, one(rx, what), n, len(es))
            if want is not None:
                lab |= {"nontrivial", "some dropped"}
        if ms is not None:
            nh = sum(m.hyp is not None for m in ms)
            want = nh if nh < left[1] else None
            need(one(EFFECTIVE, "effective hypotheses") == want, "effective hypotheses: reported %r, in fact %d of %d",
                 one(EFFECTIVE, "effective hypotheses"), nh, left[1])
            if want is not None:
                lab |= {"nontrivial", "repetitions"}
        s = opts.get("sort", "desc")
        warned = SORT.findall(err)
        need(warned == ([s] if s not in ("desc", "asc", "none") else []), "ranking %r: warnings %r", s, warned)
        if warned:
            lab.add("unknown ranking")
        return lab


CHECK = CheckRunner("C22", [Report()], ["the wording of the report is that of the pinned commit"])
