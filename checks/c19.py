"""C19: text round trips and the match dump."""
import collections
from lib.kit import *
from checks.c02 import dump_names

KINDS = {"box32": "4444", "box64": "8888", "boxf": "dddd", "doc": "s8888", "es": "ss", "ei": "44", "shaped": "ss8888",
         "scored": "ss8888f", "scoredes": "ssf"}
LIM = {"4": 2 ** 31, "8": 2 ** 63}
EDGE = {"4": [0, -1, 2 ** 31 - 1, -2 ** 31], "8": [0, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 31, 10 ** 18]}
SUFFIX = ["", "", " ", "\n", " tail", "\n1 2 3 4", "\tq d 1 2 3 4 0.5\n", " -", "  7", "\r\n#", "\n\n"]
NAMES_ = ["q", "word", "#x", "1", "-5", "0.5", "a,b", "\u00e9", "\x01", "a\x00b", "\xa0", "w" * 300, "=", "\"", "inf"]


class RoundTrip(Mode):
    name = "objects"
    targets = ("drv_read",)
    quick, thorough = 120000, 5000000
    fixed = ("v",)
    rule = ("objects of nine kinds written and read back, over fresh and used objects, with and without text behind them; "
            "non-trivial: text follows")

    def gen(self, rng, size):
        kind = rng.choice(list(KINDS))
        v = []
        for t in KINDS[kind]:
            if t == "s":
                v.append(rng.choice(NAMES_))
            elif t in LIM:
                v.append(rng.choice(EDGE[t]) if rng.random() < .3 else rng.randint(-9, 3000))
            elif t == "d":
                v.append(float("%.5g" % rng.choice([0.0, rng.gauss(0, 1), rng.uniform(-1e4, 1e4), 1e300 * rng.random(), 1e-300])))
            else:
                v.append(gen.scorer(rng)() if rng.random() < .6 else f32(rng.gauss(0, 10 ** rng.randint(-20, 20))))
        return dict(kind=kind, v=v, suffix=rng.choice(SUFFIX))

    def run(self, case, env):
        kind, fs, suffix = case["kind"], KINDS[case["kind"]], case["suffix"]
        v = []
        if suffix and suffix[0] not in " \t\n\r\v\f":
            raise Invalid()
        for t, x in zip(fs, case["v"]):
            if t == "s" and (not x or any(c in " \t\n\r\v\f" for c in x)):
                raise Invalid()
            if t in LIM and not -LIM[t] <= x < LIM[t]:
                raise Invalid()
            v.append(float(x) if t == "d" else f32(float(x)) if t == "f" else x)
        w = env.drv("drv_read").ask("rt", kind, *(v + [suffix]))
        txt = w.s()
        words = [x for x in re.split(rb"[ \t\n\v\f\r]+", txt.strip(b" \t\n\v\f\r"))]
        need(len(words) == len(fs), "%r is written as %r", v, txt)
        want = []
        for t, x, word in zip(fs, v, words):
            if t == "s":
                need(word == b(x), "%r is written as %r", v, txt)
                want.append(b(x))
            elif t in LIM:
                need(int(word) == x, "%r is written as %r", v, txt)
                want.append(x)
            elif t == "d":
                need(abs(float(word) - x) <= 6e-6 * abs(x), "%r is written as %r", v, txt)
                want.append(float(word))
            else:
                s = gen.strtof(word)
                need(abs(s - x) <= 6e-6 * abs(x) + 1e-44 or s != s, "score %r is written as %r", x, word)
                want.append(s)
        if abs(want[-1]) == float("inf") if fs[-1] == "f" else False:
            raise Invalid()      # the largest numbers may round up out of range

        def fields():
            return [w.s() if t == "s" else w.i() if t in LIM else w.d() for t in fs]
        need(w.b(), "%r does not read back (followed by %r)", txt, suffix)
        got = fields()
        need(got == want, "%r, followed by %r, reads back as %r", txt, suffix, got)
        rest = w.s()
        need(rest == b(suffix), "reading %r, followed by %r, leaves %r", txt, suffix, rest)
        need(w.b(), "%r does not read back over an object with contents", txt)
        got = fields()
        need(got == want, "%r reads back as %r over an object with contents", txt, got)
        need(w.b(), "an object that was read twice differs from itself: %r", txt)
        return {kind} | ({"nontrivial"} if suffix else set())


class Files(Mode):
    name = "files"
    targets = ("drv_read",)
    quick, thorough = 6000, 300000
    rule = "lists of events written one after another and read back from the stream; non-trivial: at least three events"

    def gen(self, rng, size):
        evs = [[rng.choice(NAMES_), rng.choice(NAMES_)] + [rng.choice(EDGE["8"]) if rng.random() < .1 else rng.randint(-9, 3000)
                                                           for _ in range(4)] for _ in range(gen.count(rng, size))]
        return dict(sep=rng.choice(["nl", "sp"]), evs=evs)

    def run(self, case, env):
        flat = []
        for e in case["evs"]:
            if any(not s or any(c.isspace() and c != "\xa0" for c in s) for s in e[:2]) or any(not -2 ** 63 <= x < 2 ** 63 for x in e[2:]):
                raise Invalid()
            flat += e
        w = env.drv("drv_read").ask("seq", case["sep"], len(case["evs"]), *flat)
        same, n = w.b(), w.i()
        need(n == len(case["evs"]), "%d of %d events read back", n, len(case["evs"]))
        need(same, "events differ after a round trip")
        return {"nontrivial"} if n > 2 else set()


class MatchText(Mode):
    name = "match text"
    targets = ("drv_read",)
    quick, thorough = 40000, 2000000
    fixed = ("ref", "hyp")
    rule = ("the text of matches of three kinds of events, with either side or both and any error; non-trivial: a fractional "
            "error of a match with both sides")

    def gen(self, rng, size):
        kind = rng.choice(["shaped", "es", "ei"])

        def ev():
            return [rng.choice(NAMES_[:9]) if t == "s" else rng.choice(EDGE[t]) if rng.random() < .2 else rng.randint(-9, 3000)
                    for t in KINDS[kind]]
        r = ev()
        frac = lambda: f32(rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random(), 1e-8, 0.99999]))
        return dict(kind=kind, has=rng.choice([0, 0, 0, 1, 2]), fp=frac(), fn=frac(), score=f32(gen.scorer(rng)()), ref=r,
                    hyp=r if rng.random() < .3 else ev())

    def run(self, case, env):
        kind, has = case["kind"], case["has"]
        fs = KINDS[kind]
        fp, fn, s = (f32(float(case[k])) for k in ("fp", "fn", "score"))
        if has not in (0, 1, 2) or not (0 <= fp <= 1 and 0 <= fn <= 1) or abs(s) > 1e30:
            raise Invalid()
        for e in case["ref"], case["hyp"]:
            for t, x in zip(fs, e):
                if t == "s" and (not x or any(c in " \t\n\r\v\f,]" for c in x)) or t in LIM and not -LIM[t] <= x < LIM[t]:
                    raise Invalid()
        w = env.drv("drv_read").ask("text", kind, has, fp, fn, s, *(case["ref"] + case["hyp"]))
        one, more = w.s(), w.s()
        need(more == b"one " + one + b" " + one + b"\n", "the text of a match depends on what is around it: %r, alone %r", more, one)
        ev = b" ".join(rb"(\S+)" if t == "s" else rb"(-?\d+)" for t in fs)
        num = b(NUM)
        m = re.match(rb"^Match\[(?:Hyp=%s (%s), )?(?:Ref=%s, )?Error=MatchError\[fp=(%s), fn=(%s)[^\]]*\]\]$"
                     % (ev, num, ev, num, num), one)
        need(m is not None, "a match is written as %r", one)
        g, n = m.groups(), len(fs)
        show = lambda e: tuple(b(x) if t == "s" else b(str(x)) for t, x in zip(fs, e))
        none = (None,) * n
        need(g[:n] == (none if has == 2 else show(case["hyp"])), "hypothesis %r of a match is written as %r", case["hyp"], one)
        need(g[n + 1:2 * n + 1] == (none if has == 1 else show(case["ref"])), "reference %r of a match is written as %r",
             case["ref"], one)
        need(has == 2 or abs(float(g[n]) - s) <= 6e-6 * abs(s) + 1e-44, "score %r of a match is written as %r", s, one)
        need(abs(float(g[-2]) - fp) <= 6e-6 * fp and abs(float(g[-1]) - fn) <= 6e-6 * fn, "error %r of a match is written as %r",
             (fp, fn), one)
        return {kind} | ({"nontrivial"} if not has and (fp % 1 or fn % 1) else set())


class Dump(Mode):
    name = "dump"
    big = 70000
    targets = ("icdar", "simple")
    quick, thorough = 6000, 250000
    rule = ("the match dump against the reference matching, and the printed metrics recomputed from the dump alone, under "
            "every option; non-trivial: hits, false positives, misses and ignored repetitions, two kinds at least")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "icdar", "simple"])
        n = 6 if tool == "icdar" else 2
        if size == self.big:
            refs, hyps = gen.many_queries(rng, tool)
            more = [list(h) for h in hyps] if rng.random() < .3 else [h[:1] + ["e%d" % i] + h[2:] for i, h in enumerate(hyps)]
            hyps += rng.choice([[], more])
            for i, h in enumerate(hyps):
                h[n] = float(i)
            return dict(tool=tool, refs=refs, hyps=hyps, opts={}, mode="all", qset=[], groups=[], spell=4)
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size, plain=True, distinct=tool == "simple")
        for h in hyps:       # scores that print exactly
            h[n] = f32(float("%.5g" % h[n]))
        opts = gen.curve_opts(rng)
        if rng.random() < .5:
            opts["sort"] = rng.choice(["asc", "none", "desc"])
        elif rng.random() < .4:
            opts["bootstrap_ci_" + rng.choice(NAMES).lower()] = True
            opts["bootstrap_samples"] = rng.choice([1, 10])
            opts.pop("collapse_matches", None)
        qs = sorted({e[0] for e in refs + hyps})
        mode = rng.choice(["all", "all", "set", "groups"])
        listed = [q for q in qs if rng.random() < .7]
        groups = []
        if mode == "groups":
            for q in listed:
                groups.append([rng.choice(["g1", "g2", "g3"]), q])
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, mode=mode, qset=listed if mode == "set" else [], groups=groups,
                    spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, opts, mode = case["tool"], case["opts"], case["mode"]
        n = 6 if tool == "icdar" else 2
        valid(case, tool)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        if any(h[n] != f32(float("%g" % h[n])) or "inf" in "%g" % h[n] for h in hyps):
            raise Invalid()
        if tool == "simple" and len({h[n] for h in hyps}) < len(hyps):
            raise Invalid()
        if any(len(g) != 2 or not all(g) for g in case["groups"]) or opts.get("bootstrap_samples", 1) < 1 or \
                len({g[1] for g in case["groups"]}) < len(case["groups"]):
            raise Invalid()
        if any(k.startswith("bootstrap_ci") for k in opts) and (opts.get("sort", "desc") != "desc" or
                                                                not opts.get("collapse_matches", True)):
            raise Invalid()      # intervals rank the matches anew: see C10
        bset = [b(q) for q in case["qset"]] if mode == "set" else None
        bgroups = [[b(x) for x in g] for g in case["groups"]] if mode == "groups" else None
        try:
            want, ms, rep, gs = model.evaluate(refs, hyps, opts, tool, qset=bset, groups=bgroups)
        except model.Ambiguous:
            raise Invalid()
        o = dict(opts)
        if mode == "set":
            o["query_set"] = env.tools.file("qs", b("\n".join(case["qset"])))
        if mode == "groups":
            o["query_groups"] = env.tools.file("qg", b("".join(" ".join(g) + "\n" for g in case["groups"])))
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        plain = evaluate(env, tool, rd, hd, gen.args_of(o, case["spell"]))
        leftover(env, "dump", case["spell"])
        o["dump_matches"] = env.tools.path("dump")
        if case["spell"] % 7 == 3 and len(rd) + len(hd) < 10 ** 5:      # to a pipe instead of a file
            o["dump_matches"] = env.tools.pipe_out("dump") or o["dump_matches"]
        r = evaluate(env, tool, rd, hd, gen.args_of(o, case["spell"]))
        dump = env.tools.piped.get("dump", env.tools.read("dump")) or b""
        need(r.raw == plain.raw, "with a dump %r is printed, without %r", text(r.raw), text(plain.raw))
        got, grep = parse_dump(dump, tool)
        # the dump as it stands
        seen_miss = False
        for g in got:
            need(g[0] is not None or g[2] is not None, "an empty match in the dump")
            need(not (seen_miss and g[0] is not None), "a hypothesis after the misses: %r", g)
            seen_miss = seen_miss or g[0] is None
        sc = [g[1] for g in got if g[0] is not None]
        how = opts.get("sort", "desc")
        if how != "none":
            need(sc == sorted(sc, reverse=how == "desc"), "scores in the dump are not in ranking order: %r", sc[:40])
        for g in grep:
            need(g[0] is not None and g[2] is not None, "a repetition without hypothesis or reference: %r", g)
        if tool == "icdar":
            nm = len([m for m in ms if m.hyp])
            cmp_dump(got[:nm], [m for m in ms if m.hyp], "match")
            miss = [m for m in ms if not m.hyp]
            need(sorted(g[2] for g in got[nm:] if g[2]) == sorted(m.ref for m in miss) and len(got) == len(ms),
                 "misses %r, expected %r", got[nm:], miss)
            need(all(near6(g[3], 0) and near6(g[4], 1) for g in got[nm:]), "misses with other errors: %r", got[nm:])
            cmp_dump(grep, rep, "repeated match")
            back = None
        else:
            names = {}
            dump_names(got, ms, names)
            dump_names(grep, rep, names)
            back = {v: k for k, v in names.items()}
            need(len(back) == len(names), "two names share a number in the dump")
        # the metrics from the dump alone
        if mode != "groups":
            mine = [model.M(g[0] + (g[1],) if g[0] else None, g[2], g[3], g[4]) for g in got]
            re_ = model.metrics(mine, opts)
            cmp_metrics(r.metrics(), re_, "against the matches in the dump")
        kinds = {(g[0] is not None, g[2] is not None) for g in got} | ({"rep"} if grep else set())
        return {mode, tool} | ({"nontrivial"} if len(kinds) > 1 else set())


CHECK = CheckRunner("C19", [RoundTrip(), Files(), MatchText(), Dump()],
                    ["names are free of whitespace and, in the dump, of what would make its lines ambiguous",
                     "SimpleKwsEval prints the numbers of names; they must correspond one to one",
                     "scores are printed with six digits"])
