"""C04: scorers."""
from lib.kit import *


class Score(Mode):
    name = "scorers"
    targets = ("drv_geo",)
    quick, thorough = 250000, 5000000
    fixed = ("r", "h")
    rule = ("pairs of events and thresholds, through all scorers; non-trivial: same query and document with a partial "
            "overlap; thresholds are often the pair's own ratio or one pixel beside it")

    def gen(self, rng, size):
        t = rng.choice(["i64", "i64", "i32", "f64"])
        style = rng.choice(["grid", "small", "page", "neg", "lines"])
        r = gen.box(rng, style)
        h = gen.derived(rng, r) if rng.random() < .8 else gen.box(rng, style)
        if rng.random() < .5:
            r, h = h, r
        if t == "f64" and rng.random() < .5:
            r, h = [v / 4.0 for v in r], [v / 4.0 for v in h]
        if t == "i64" and rng.random() < .15:
            k = rng.randint(2, 100000)
            r, h = [v * k for v in r], [v * k for v in h]
        elif t != "i32" and rng.random() < .1:     # sizes of very different magnitudes
            n = 60 if t == "i64" else 46
            k = rng.randint(0, n)
            r = r[:2] + [rng.getrandbits(k), rng.getrandbits(n - k)]
            h = gen.derived(rng, r)
        if rng.random() < .15:                     # the same far away
            n = {"i32": 29, "i64": 60, "f64": 45}[t]
            dx, dy = gen.far(rng, n), gen.far(rng, n)
            r, h = [[v[0] + dx, v[1] + dy] + v[2:] for v in (r, h)]
        i, ha, ra = model.inter(r, h), h[2] * h[3], r[2] * r[3]
        k = rng.random()
        if k < .3 and ha > 0:
            thr = (i + rng.choice([0, 0, 1, -1])) / ha
        elif k < .6 and ha + ra - i > 0:
            thr = (i + rng.choice([0, 0, 1, -1])) / (ha + ra - i)
        else:
            thr = rng.choice([0.5, 0.5, 0.0, 0.1, 0.25, 0.3, 0.6, 0.7, 0.9, 1.0])
        thr = f32(thr)
        if rng.random() < .1:
            thr = gen.next_f32(thr, rng.random() < .5)
        q = rng.choice(["q", "query"])
        d = rng.choice(["d", "p1"])
        more = []
        while len(more) < 4 and rng.random() < .3:     # the pairs that follow, in the same objects
            m = rng.choice([1, 2, 2, 3, 3])
            e = ([r] if m & 1 else []) + ([h] if m & 2 else [])
            if t == "f64":
                e = [[v / 4.0 for v in gen.derived(rng, [int(v * 4) for v in x])] for x in e]
            else:
                e = [gen.derived(rng, x) for x in e]
            more.append([m] + e)
        c = dict(t=t, r=r, h=h, thr=thr, rq=q, hq=q if rng.random() < .85 else rng.choice(["Q", "quer", "q"]),
                 rd=d, hd=d if rng.random() < .85 else rng.choice(["p10", "D", "p1"]),
                 score=gen.scorer(rng)())
        if more:
            c["more"] = more
        return c

    def valid(self, t, r, h):
        if len(r) != 4 or len(h) != 4 or min(r[2:] + h[2:]) < 0:
            raise Invalid()
        if t == "f64":
            if any((v * 4) % 1 for v in r + h):
                raise Invalid()
        elif any(v != int(v) for v in r + h):
            raise Invalid()
        if r[2] * r[3] + h[2] * h[3] > {"i32": 2 ** 30, "i64": 2 ** 62, "f64": 2 ** 48}[t] or \
                max(map(abs, r + h)) > {"i32": 2 ** 30, "i64": 2 ** 61, "f64": 2 ** 47}[t]:
            raise Invalid()

    def run(self, case, env):
        t, r, h = case["t"], case["r"], case["h"]
        self.valid(t, r, h)
        conv = float if t == "f64" else int
        thr = f32(case["thr"])
        wire = lambda which, box: [case[which + "q"], case[which + "d"]] + [conv(v) for v in box] + \
            ([f32(case["score"])] if which == "h" else [])
        msg = wire("r", r) + wire("h", h)
        pairs = []
        more = case.get("more", [])
        msg.append(len(more))
        r2, h2 = r, h
        for m in more:
            m, boxes = m[0], list(m[1:])
            if m not in (1, 2, 3) or len(boxes) != (m & 1) + (m >> 1):
                raise Invalid()
            msg.append(m)
            if m & 1:
                r2 = boxes.pop(0)
                msg += wire("r", r2)
            if m & 2:
                h2 = boxes.pop(0)
                msg += wire("h", h2)
            self.valid(t, r2, h2)
            pairs.append((r2, h2))
        w = env.drv("drv_geo").ask("score", t, thr, *msg)

        def answers(r, h):
            R = (b(case["rq"]), b(case["rd"])) + tuple(r)
            H = (b(case["hq"]), b(case["hd"])) + tuple(h)
            want = []
            for f in (model.IoHA(thr), model.IoU(thr), model.soft,
                      lambda r, h: (0.0, 0.0) if r == h else (1.0, 1.0)):
                try:
                    want.append(f(R, H))
                except model.Ambiguous:
                    want.append(None)
            return want
        names = ("intersection over hypothesis", "intersection over union", "soft", "trivial")

        def judge(want, j, what):
            fp, fn = w.d(), w.d()
            if want[j] is None:
                need((fp, fn) in ((0.0, 0.0), (1.0, 1.0)), "%s scorer%s: error %r is neither hit nor miss",
                     names[j], what, (fp, fn))
                return
            tol = 3e-7 if j == 2 else 0
            need(abs(fp - want[j][0]) <= tol and abs(fn - want[j][1]) <= tol,
                 "%s scorer%s: got error %r, expected %r", names[j], what, (fp, fn), want[j])
        want = answers(r, h)
        for k in range(9):
            judge(want, k % 4, " (second call)" if 4 <= k < 8 else " (between references)" if k == 8 else "")
        need(w.d() == thr and w.d() == thr, "Threshold() is not the threshold given")
        for n, (r2, h2) in enumerate(pairs):
            want = answers(r2, h2)
            for j in range(4):
                judge(want, j, " (pair %d in the same objects)" % (n + 2))
        l = {"several pairs in the same objects"} if pairs else set()
        i = model.inter(r, h)
        R = (case["rq"], case["rd"])
        if R == (case["hq"], case["hd"]) and i > 0:
            l.add("nontrivial")
            if h[2] * h[3] > 0:
                l.add("overlap")
            if thr in (f32(i / (h[2] * h[3])), f32(i / (h[2] * h[3] + r[2] * r[3] - i))):
                l.add("exactly at the threshold")
        if case["rq"] != case["hq"]:
            l.add("different query")
        if h[2] * h[3] == 0:
            l.add("empty hypothesis")
        if r[2] * r[3] == 0:
            l.add("empty reference")
        return l


CHECK = CheckRunner("C04", [Score()],
                    ["ratios are judged in single precision where both areas are exact in it, and not at all within 1e-6 "
                     "of the threshold otherwise"])
