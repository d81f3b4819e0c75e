"""C02: greedy matching against the reference matcher."""
from lib.kit import *
from lib.threads import Threads
from lib import fuzz


def events6(w):
    return (w.s(), w.s(), w.i(), w.i(), w.i(), w.i())


def read_matches(w, kind):
    out = []
    for _ in range(w.i()):
        hyp = ref = None
        if w.b():
            hyp = events6(w) if kind == "shaped" else (w.i(), w.i())
            hyp += (w.d(),)
        if w.b():
            ref = events6(w) if kind == "shaped" else (w.i(), w.i())
        out.append((hyp, ref, w.d(), w.d(), w.i(), w.i()))
    return out


IDLE = [126, 127, 254, 255, 256, 254, 255, 1000]


class Api(Mode):
    targets = ("drv_match",)
    quick, thorough = 24000, 600000
    name = "matcher"
    big = 70000
    fixed = ()
    rule = ("one matcher object evaluates 1-4 lists in a row under one of five scorers (box thresholds, soft, equality, "
            "arbitrary error table); non-trivial: some hypothesis meets a reference that is already taken, or "
            "two references compete for a hypothesis")

    def gen(self, rng, size):
        kind = rng.choice(["shaped"] * 4 + ["plain"])
        scorer = rng.choice(["ioh", "iou", "soft", "trivial", "table"]) if kind == "shaped" else \
            rng.choice(["trivial", "table"])
        rounds = []
        if size == self.big:
            kind, scorer = "shaped", rng.choice(["ioh", "iou", "soft", "trivial"])
        for _ in range(rng.choice([1, 1, 2, 3, 4]) if size < self.big else 1):
            if size == self.big:
                refs, hyps = gen.many_pages(rng, size)
            elif kind == "shaped":
                refs, hyps = gen.icdar(rng, size, style=rng.choice(["grid", "grid", "small", "neg", "lines"]))
                if rounds and rng.random() < .5:       # lists related to the previous ones
                    refs = (rounds[-1]["refs"] + refs)[rng.randint(0, 3):]
                    hyps = (hyps + rounds[-1]["hyps"])[rng.randint(0, 3):]
            else:
                n = rng.randint(1, 5)
                refs = [[rng.randint(0, n), rng.randint(0, n)] for _ in range(rng.randint(0, size))]
                hyps = [[rng.randint(0, n), rng.randint(0, n), float(rng.randint(0, 5))]
                        for _ in range(rng.randint(0, size))]
            rounds.append(dict(refs=[list(r) for r in refs], hyps=[list(h) for h in hyps]))
        thr = rng.choice([0.5, 0.5, 0.25, 0.75, 1.0, 0.0, 0.1, 0.3, 2 / 3., 0.9])
        idle = 0        # many empty evaluations between the first and the second
        if len(rounds) > 1 and size < 40 and rng.random() < .03:
            idle = rng.choice(IDLE) if rng.random() < .9 else rng.choice([65534, 65535, 65536, 32767])
        return dict(kind=kind, scorer=scorer, thr=thr, own=rng.random() < .5, rounds=rounds, idle=idle,
                    table=[rng.choice([0.0, 0.25, 0.5, 0.9, 1.0, 1.0]) for _ in range(97)])

    def run(self, case, env):
        kind, sc = case["kind"], case["scorer"]
        nb = 6 if kind == "shaped" else 2
        if not case["table"]:
            raise Invalid()
        tab = case["table"]
        idle = case.get("idle", 0)
        if not 0 <= idle <= 70000 or not case["rounds"]:
            raise Invalid()
        msg = [kind, sc, float(case["thr"]), case["own"], len(case["rounds"]) + idle]
        want = []
        labels = set(["scorer " + sc])
        for r in case["rounds"]:
            refs = [tuple(([b(e[0]), b(e[1])] + e[2:]) if nb == 6 else e) for e in r["refs"]]
            hyps = [tuple((([b(e[0]), b(e[1])] + e[2:6]) if nb == 6 else e[:2]) +
                          [float(i) if sc == "table" else f32(e[-1])]) for i, e in enumerate(r["hyps"])]
            if nb == 6 and any(e[4] < 0 or e[5] < 0 for e in refs + hyps):
                raise Invalid()
            ids = {}
            for x in refs:
                ids.setdefault(x, len(ids))
            msg.append(len(refs))
            for e in refs:
                msg += e
            msg.append(len(hyps))
            for e in hyps:
                msg += e
            if sc == "table":
                def err(i, j):
                    return tab[(i * 31 + j * 7) % len(tab)], tab[(i * 5 + j * 11 + 3) % len(tab)]
                for i in range(len(ids)):
                    for j in range(len(hyps)):
                        msg += [float(v) for v in err(i, j)]
                score = lambda r, h: err(ids[r], int(h[-1]))
            elif sc == "ioh":
                score = model.IoHA(case["thr"])
            elif sc == "iou":
                score = model.IoU(case["thr"])
            elif sc == "soft":
                score = model.soft
            else:
                score = lambda r, h: (0.0, 0.0) if r == h[:nb] else (1.0, 1.0)
            try:
                ms, rep = model.match(refs, hyps, score, nb)
            except model.Ambiguous:
                raise Invalid()
            if rep:
                labels.add("nontrivial")
            if nb == 6 and any(len(model.overlapping(model.index(refs, nb), h, nb)) > 1 for h in hyps[:20]):
                labels.add("nontrivial")
                labels.add("several overlaps")
            want.append((ms, rep))
            if len(want) == 1:
                msg += [0, 0] * idle
                want += [([], [])] * idle
        if len(want) > 1:
            labels.add("matcher reused")
        w = env.drv("drv_match").ask("match", *msg)
        for k, (ms, rep) in enumerate(want):
            need(w.b(), "round %d: the matcher changed its inputs", k)
            for what, exp in (("match", ms), ("repeated match", rep)):
                got = read_matches(w, kind)
                need(len(got) == len(exp), "round %d: %d entries in the list of %ses, expected %d", k,
                     len(got), what, len(exp))
                for i, (g, e) in enumerate(zip(got, exp)):
                    need(g[0] == e.hyp and g[1] == e.ref, "round %d, %s %d: got hyp %r ref %r, expected %r",
                         k, what, i, g[0], g[1], e)
                    need(near(g[2], e.fp, 1e-6) and near(g[3], e.fn, 1e-6),
                         "round %d, %s %d: got error %r, expected %r", k, what, i, g[2:4], e)
                    need(g[4] == e.nh() and g[5] == e.nr(), "round %d, %s %d: counts %r, expected %r", k,
                         what, i, g[4:], e)
        need(w.end(), "driver answer too long")
        return labels


class Dump(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 5000, 150000
    rule = ("the match dump of both tools against the reference matcher; non-trivial: some hypothesis meets "
            "a reference that is already taken")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "icdar", "icdar", "simple"])
        if tool == "icdar":
            refs, hyps = gen.icdar(rng, size, style=rng.choice(["grid", "small", "neg", "lines", "page"]), plain=True)
        else:
            refs, hyps = gen.simple(rng, size, plain=True, distinct=True)
        return dict(tool=tool, refs=refs, hyps=hyps, sort=rng.choice(["desc", "asc", "none"]))

    def run(self, case, env):
        tool = case["tool"]
        valid(case, tool)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        if tool == "simple" and len({h[-1] for h in hyps}) < len(hyps):
            raise Invalid()
        if any(h[-1] != f32(float(fmt(h[-1]))) for h in hyps):
            raise Invalid()
        try:
            want, ms, rep, _ = model.evaluate(refs, hyps, dict(sort=case["sort"]), tool)
        except model.Ambiguous:
            raise Invalid()
        env.tools.remove("dump.txt")
        evaluate(env, tool, lines(case["refs"], tool), lines(case["hyps"], tool),
                 ["--sort", case["sort"], "--dump_matches", env.tools.path("dump.txt"), "--"])
        got, grep = parse_dump(env.tools.read("dump.txt") or b"", tool)
        if tool == "icdar":
            cmp_dump(got, ms, "match")
            cmp_dump(grep, rep, "repeated match")
        else:
            # The numbers stand for names; misses come in the order of the numbers.
            names = {}
            dump_names(got, ms, names)
            dump_names(grep, rep, names)
            need(len(set(names.values())) == len(names), "two names share a number in the dump")
        l = labels_of(refs, hyps, ms, rep)
        if rep:
            l.add("nontrivial")
        return l


def dump_names(got, want, names):
    need(len(got) == len(want), "dump: %d entries, expected %d", len(got), len(want))

    def bind(num, name, i):
        for n, s in zip(num, name):
            need(names.setdefault(s, n) == n, "dump entry %d: %r is called %d and %d", i, s, names[s], n)
    misses = []
    for i, (g, m) in enumerate(zip(got, want)):
        need((g[0] is None) == (m.hyp is None) and (g[2] is None) == (m.ref is None),
             "dump entry %d: %r, expected %r", i, g, m)
        need(near6(g[3], m.fp) and near6(g[4], m.fn), "dump entry %d: error of %r, expected %r", i, g, m)
        if m.hyp is not None:
            need(near6(g[1], m.hyp[-1]), "dump entry %d: score of %r, expected %r", i, g, m)
            bind(g[0], m.hyp[:2], i)
            if m.ref is not None:
                bind(g[2], m.ref, i)
        else:
            misses.append((g[2], m.ref))
    # Misses: the same references, in increasing order of their numbers.
    need(len({g for g, _ in misses}) == len(misses), "a miss is listed twice")
    left = {r for _, r in misses}
    known = {tuple(names[s] for s in r): r for r in left if all(s in names for s in r)}
    unk = 0
    for g, _ in misses:
        if g in known:
            left.discard(known[g])
        else:
            unk += 1
    need(unk == len(left), "the misses listed are not the references left over: %r, expected %r",
         [g for g, _ in misses], [m for _, m in misses])


CHECK = CheckRunner("C02", [Api(), Dump(), Threads("dump", 24)] + fuzz.modes(eval=60000),
                    ["among references of equal overlap the larger event (query, document, box) is taken first, "
                     "as the event set documents"],
                    extra=fuzz.campaign)
