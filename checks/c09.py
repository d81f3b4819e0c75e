"""C09: query sets and query groups."""
from lib.lists import *


def kept(events, qs):
    return [e for e in events if e[0] in qs]


class Tool(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 5000, 200000
    rule = ("both tools with a query set or groups file, against the reference model and against themselves on "
            "filtered files; non-trivial: some but not all queries of the input are listed")

    ODD = [";", "!", "*", "-", "--", "@", "%", "/", "//", "\\", "\"", "'", "[", ":", "=", ",", "+", "\x1a", "\x01", "\ufeff", "."]

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        opts = gen.curve_opts(rng)
        if rng.random() < .35:
            opts["sort"] = rng.choice(["asc", "none", "none"])
        distinct = tool == "simple" or rng.random() < .2
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, max(3, size), distinct=distinct)
        qs = sorted({e[0] for e in refs + hyps})
        pool = qs + rng.sample(["absent", "absent2", "q", "zz"] * 2 + ["#", "#q", "*", "!" + rng.choice(qs or ["q"]), "-" + rng.choice(qs or ["q"])], 2)
        mode = rng.choice(["set", "set", "groups", "groups", "both"])
        listed = [q for q in pool if rng.random() < rng.choice([.3, .6, .9])]
        rng.shuffle(listed)
        c = dict(tool=tool, refs=refs, hyps=hyps, opts=opts, mode=mode, qset=[], groups=[], fmt=rng.getrandbits(20))
        if mode in ("set", "both"):
            c["qset"] = listed + [q for q in listed if rng.random() < .1]
            if rng.random() < .06:
                c["qset"] = []
        if mode in ("groups", "both"):
            g = [q for q in pool if rng.random() < .7]
            rng.shuffle(g)
            names = rng.choice([["g1", "g2", "g3", "g4"], ["A", "B"], ["one"], list(qs) or ["g"], list(pool)])
            lines_ = []
            while g:
                k = rng.choice([1, 1, 2, 3, len(g)])
                lines_.append([rng.choice(names)] + g[:k])
                g = g[k:]
            if lines_ and rng.random() < .1:      # the same statement twice
                lines_.append(list(rng.choice(lines_)))
            while lines_ and rng.random() < .2:   # queries listed again, the last group counts
                qq = [rng.choice(rng.choice(lines_)[1:]) for _ in range(rng.choice([1, 1, 2]))]
                lines_.insert(rng.randint(0, len(lines_)), [rng.choice(names)] + qq)
            c["groups"] = lines_
        if c["groups"] and rng.random() < .15:      # group names that look like something else
            odd = {l[0]: rng.choice(self.ODD + ["#", "#", "##"]) + l[0] for l in c["groups"] if rng.random() < .5}
            c["groups"] = [[odd.get(l[0], l[0])] + l[1:] for l in c["groups"]]
        if rng.random() < .12:        # and queries
            odd = {q: rng.choice(self.ODD) + q for q in qs if rng.random() < .5}
            f = lambda q: odd.get(q, q)
            c.update(refs=[[f(e[0])] + list(e[1:]) for e in refs], hyps=[[f(e[0])] + list(e[1:]) for e in hyps],
                     qset=[f(q) for q in c["qset"]], groups=[l[:1] + [f(q) for q in l[1:]] for l in c["groups"]])
        if rng.random() < .06:        # many other names, on one line or on many
            c["bulk"] = [rng.choice([50, 800, 3000, 12000] * 3 + [33000, 66000, 120000]), rng.choice([0, 0, 1, 7]), rng.choice([0, 0, 3, 70000]) if size > 40 else 0]
        if rng.random() < .05:        # names of great length which differ in the end (or not at all but there)
            n = len(refs) + len(hyps) + sum(map(len, c["groups"])) + len(c["qset"])
            c["prefix"] = min(10 ** 6 // (n + 1), rng.choice([255, 256, 1023, 1024, 4096, 8192, 65536]) + rng.choice([-8, -2, 0, 1]))
        return c

    @staticmethod
    def lengthened(case):
        n = case.get("prefix", 0)
        if not 0 <= n <= 10 ** 5:
            raise Invalid()
        f = lambda e: ["w" * n + e[0]] + list(e[1:])
        return dict(case, refs=[f(e) for e in case["refs"]], hyps=[f(e) for e in case["hyps"]],
                    qset=["w" * n + q for q in case["qset"]], groups=[["w" * n + q for q in l] for l in case["groups"]])

    @staticmethod
    def bulk(case):
        """Names that occur nowhere, as the lines of a file of groups or queries, and one of great length."""
        n, per, width = case.get("bulk", [0, 1, 0])
        if not 0 <= n <= 150000 or not 0 <= width <= 10 ** 5 or per < 0:
            raise Invalid()
        ns = ["~other%d" % i for i in range(n)] + ["~" + "w" * width] * (width > 0)
        k = per or max(1, len(ns))
        return [["~bulk"] + ns[i:i + k] for i in range(0, len(ns), k)]

    def run(self, case, env):
        if case.get("prefix"):
            case = self.lengthened(case)
        tool, opts, mode = case["tool"], case["opts"], case["mode"]
        valid(case, tool)
        if tool == "simple" and len({h[-1] for h in case["hyps"]}) < len(case["hyps"]):
            raise Invalid()
        q2g, again = {}, False
        bulk = self.bulk(case)
        groups = list(case["groups"])
        at = case["fmt"] % (len(groups) + 1)
        if len(bulk) == 1 and groups and case["fmt"] % 2:      # together with the others
            g = groups[at % len(groups)]
            groups[at % len(groups)] = g[:1] + bulk[0][1:] + g[1:]
        else:
            groups[at:at] = bulk
        if any(w.startswith("~") for e in case["refs"] + case["hyps"] for w in e[:1]) or \
                any(w.startswith("~") for l in case["groups"] + [case["qset"]] for w in l):
            raise Invalid()
        for l in case["groups"]:
            if len(l) < 2 or not all(l) or any(c.isspace() for w in l for c in w):
                raise Invalid()
            for q in l[1:]:
                again = again or q2g.get(q, l[0]) != l[0]
                q2g[q] = l[0]
        if any(not q or any(c.isspace() for c in q) for q in case["qset"]):
            raise Invalid()
        rng = random.Random(case["fmt"])
        args = gen.args_of(opts, case["fmt"])[:-1]
        bgroups = [[b(w) for w in l] for l in groups]
        bset = [b(q) for q in case["qset"]]
        listed = set(q2g) if mode != "set" else set(case["qset"])

        def put(opt, name, data):
            files.append(len(args) + 1)
            args.extend([opt, env.tools.file(name, data)])
            content.append(data)
        files, content = [], []
        if mode in ("set", "both"):
            sep = [" ", "\n", "\n", "\t", "  \n", "\r\n"]
            n = case["fmt"] % (len(case["qset"]) + 1)
            txt = "".join(q + rng.choice(sep) for q in case["qset"][:n]) + "".join(" ".join(l[1:]) + "\n" for l in bulk) + \
                "".join(q + rng.choice(sep) for q in case["qset"][n:])
            if rng.random() < .3:
                txt = rng.choice(["\n", "  "]) + txt.rstrip()
            put("--query_set", "qset", b(txt))
        if mode in ("groups", "both"):
            txt = "".join(rng.choice(["", " "]) + rng.choice([" ", "\t", "  "]).join(l) + rng.choice(["\n", " \n", "\r\n"])
                          for l in groups)
            if rng.random() < .3:
                txt = txt.rstrip("\r\n ")
            put("--query_groups", "groups", b(txt))
        args.append("--")
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        try:
            want, ms, rep, gs = model.evaluate(refs, hyps, opts, tool, qset=bset if mode == "set" else None,
                                               groups=bgroups if mode != "set" else None)
        except model.Ambiguous:
            raise Invalid()
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        via = list(args)
        if case["fmt"] % 5 == 0:      # a filter file which can be read just once
            for k, d in zip(files, content):
                via[k] = env.tools.pipe_in(d) or via[k]
        got = evaluate(env, tool, rd, hd, via)
        cmp_metrics(got.metrics(), want, "with %s" % mode)
        # the same by deleting lines
        plain = evaluate(env, tool, lines(kept(case["refs"], listed), tool), lines(kept(case["hyps"], listed), tool),
                         gen.args_of(opts, case["fmt"]))
        a, e = got.metrics(), plain.metrics()
        if case["fmt"] % 8 == 0:
            self.outputs(case, env, args, rd, hd, listed)
        if mode == "set":
            need(a == e, "query set %r: metrics %r differ from those of filtered files %r", case["qset"], a, e)
        else:
            need((a[0], a[2]) == (e[0], e[2]), "groups: global metrics %r differ from those of filtered files %r", a, e)
        l = {mode, tool}
        qs = {e[0] for e in case["refs"] + case["hyps"]}
        if qs & listed and qs - listed:
            l.add("nontrivial")
        if not listed:
            l.add("nothing listed")
        if len(bulk) > 1 or bulk and len(bulk[0]) > 1000:
            l.add("large filter file")
        if case.get("prefix"):
            l.add("long names")
        if again:
            l.add("query listed in two groups")
        if mode != "set" and len(gs) < len({m.query() for m in ms}):
            l.add("group of several queries")
        return l


    def outputs(self, case, env, args, rd, hd, listed):
        """Dump, curves and intervals are those of the filtered files, too (global ones with groups)."""
        tool, opts, out = case["tool"], case["opts"], []
        names = ["dump", "grp", "mrp"]
        more = ["--rp_curve_samples", "11", "--bootstrap_samples", "20"]
        if opts.get("sort", "desc") == "desc" and opts.get("collapse_matches", True):
            more += ["--bootstrap_ci_map", "--bootstrap_ci_gndcg"]
        for f, o in zip(names, ("dump_matches", "output_grp", "output_mrp")):
            more += ["--" + o, env.tools.path(f)]
        for k in range(2):
            for f in names:
                env.tools.remove(f)
            if k:
                args = gen.args_of(opts, case["fmt"])
                rd, hd = [lines(kept(case[x], listed), tool) for x in ("refs", "hyps")]
            r = evaluate(env, tool, rd, hd, args[:-1] + more + ["--"])
            out.append([r.raw] + [env.tools.read(f) for f in names])
        if case["mode"] != "set":
            return need(out[0][2] == out[1][2], "the global curve differs from that of filtered files")
        for what, x, y in zip(["output with intervals", "match dump", "global curve", "mean curve"], *out):
            if what == "match dump" and tool == "simple":
                continue        # other numbers for the same names
            need(x == y and x is not None, "%s with a query set %r differs from that of filtered files: %r, %r",
                 what, case["qset"], x and text(x)[:300], y and text(y)[:300])


class Grouping(Mode):
    name = "grouping"
    big = 70000
    targets = ("drv_assess",)
    quick, thorough = 30000, 1000000
    fixed = ()
    rule = ("the grouping function on random match lists and maps; non-trivial: at least two groups, one of them with "
            "two or more queries")

    def gen(self, rng, size):
        qs = gen.pool(rng)
        if size == self.big or rng.random() < .002:      # very many queries and groups
            qs = [rng.choice(["q%d", "q%d", "w%06d"]) % i for i in range(rng.choice([300, 1000, 3000, 5000]))]
        ms = matches(rng, size, ranked=rng.random() < .8, queries=qs)
        names = ["g%d" % k for k in range(rng.choice([1, 2, 3, 4] if len(qs) < 300 else [1, 400, 3000]))]
        if rng.random() < .3:
            names += ["G", "", "q-group"]
        m = [[q, rng.choice(names)] for q in qs if rng.random() < .6]
        if rng.random() < .2:
            m = [[q, q] for q in qs]
        return dict(matches=ms, map=m)

    def run(self, case, env):
        ms, mp = case["matches"], {}
        check_list(ms)
        for q, g in case["map"]:
            if mp.setdefault(q, g) != g:
                raise Invalid()
        qs = {m[1] for m in ms}
        if any(g in qs and mp.get(g) != g for g in mp.values()):
            raise Invalid()      # a group named like a query that is not in it
        w = env.drv("drv_assess").ask("group", *(words(ms) + [len(mp)] + [x for kv in mp.items() for x in kv]))
        need(w.b(), "grouping by an ordered and by a hashed map differ")
        got = [read_ids(w) for _ in range(w.i())]
        mm = to_model(ms)
        bm = {b(q): b(g) for q, g in mp.items()}
        want = [ids_of(g) for g in model.group(mm, lambda q: bm.get(q, q))]
        need(all(got), "an empty group")
        need(sorted(map(tuple, got)) == sorted(map(tuple, want)), "groups %r, expected %r", got, want)
        l = set()
        if len(want) > 1 and any(len({x[2] for x in g}) > 1 for g in want):
            l.add("nontrivial")
        if qs - set(mp):
            l.add("query without group")
        return l


CHECK = CheckRunner("C09", [Tool(), Grouping()],
                    ["names are free of whitespace"])
