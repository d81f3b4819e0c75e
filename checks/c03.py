"""C03: exact areas of boxes."""
from lib.kit import *

MAXC = {"i32": 30000, "i64": 2 ** 31 - 1, "f64": 2.0 ** 24, "f32": 2.0 ** 10}


class Areas(Mode):
    name = "areas"
    targets = ("drv_geo",)
    quick, thorough = 250000, 5000000
    fixed = ("a", "b")
    rule = ("pairs of boxes of four coordinate types through every way to ask for an area; non-trivial: "
            "the boxes overlap without being equal, or touch")

    def gen(self, rng, size):
        t = rng.choice(["i32", "i32", "i64", "i64", "f64", "f32"])
        m = int(MAXC[t])
        style = rng.choice(["grid", "small", "page", "neg", "lines", "big", "long"])
        if style == "big":
            def box():
                return [rng.randint(-m, m), rng.randint(-m, m), rng.randint(0, m), rng.randint(0, m)]
            a = box()
        elif style == "long":     # sizes of very different magnitudes
            k = rng.randint(0, {"i32": 29, "i64": 60, "f64": 44, "f32": 16}[t])
            a = [rng.randint(-m, m), rng.randint(-m, m), rng.getrandbits(k),
                 rng.getrandbits({"i32": 29, "i64": 60, "f64": 44, "f32": 16}[t] - k)]
            if rng.random() < .5:
                a = a[:2] + a[:1:-1]
        else:
            a = gen.box(rng, style)
        c = gen.derived(rng, a) if rng.random() < .75 else (box() if style == "big" else gen.box(rng, style))
        if t[0] == "f" and rng.random() < .6:     # quarters are exact in binary
            a, c = [v / 4.0 for v in a], [v / 4.0 for v in c]
        if style != "big" and rng.random() < .2:    # the same far away
            n = {"i32": 30, "i64": 61, "f64": 45, "f32": 17}[t]
            dx, dy = gen.far(rng, n), gen.far(rng, n)
            a, c = [[v[0] + dx, v[1] + dy] + v[2:] for v in (a, c)]
        if rng.random() < .5:
            a, c = c, a
        da = rng.choice(["d", "doc1", ""])
        db = da if rng.random() < .75 else rng.choice(["D", "doc10", "doc", "d"])
        return dict(t=t, a=a, b=c, da=da, db=db, k=rng.choice([0, 0, 1, rng.randint(0, {"f64": 200, "f32": 40}[t])]) if t[0] == "f" else 0)

    def run(self, case, env):
        t, a, c = case["t"], case["a"], case["b"]
        top = {"i32": 2 ** 31 - 1, "i64": 2 ** 62, "f64": 2 ** 46, "f32": 2 ** 19}[t]
        fl = t[0] == "f"
        for v in a + c:
            if abs(v) > top or (fl and (v * 4) % 1) or (not fl and v != int(v)):
                raise Invalid()
        if min(a[2], a[3], c[2], c[3]) < 0:
            raise Invalid()
        lim = {"i32": 2 ** 31 - 1, "i64": 2 ** 63 - 1, "f64": 2 ** 48, "f32": 2 ** 20}[t]
        area = lambda r: r[2] * r[3]
        if area(a) + area(c) > lim or any(abs(v) > lim for r in (a, c) for v in (r[0] + r[2], r[1] + r[3])):
            raise Invalid()
        k = case.get("k", 0)          # the unit of length is 2^-k
        if not 0 <= k <= {"f64": 200, "f32": 40}.get(t, 0):
            raise Invalid()
        u = 2.0 ** -k
        conv = (lambda v: v * u) if fl else int
        w = env.drv("drv_geo").ask("geo", t, case["da"], case["db"], *[conv(v) for v in a + c])
        num = w.d if fl else w.i
        same = case["da"] == case["db"]
        i = model.inter(a, c)
        ie = i if same else 0
        want = [("area a", area(a))] * 4 + [("area b", area(c))] * 4 + \
            [("intersection", i)] * 4 + [("union", area(a) + area(c) - i)] * 4 + \
            [("intersection in documents", ie)] * 8 + \
            [("union in documents", area(a) + area(c) - ie)] * 8 + \
            [("self intersection", area(a))] * 2 + [("self union", area(a))]
        for k, (what, v) in enumerate(want):
            g = num()
            v = v * u * u if fl else v
            need(g == v, "%s (way %d): got %r, expected %r", what, k, g, v)
        need(w.end(), "driver answer too long")
        l = {"type " + t}
        ov = i > 0
        touch = not ov and min(a[0] + a[2], c[0] + c[2]) >= max(a[0], c[0]) and \
            min(a[1] + a[3], c[1] + c[3]) >= max(a[1], c[1])
        l.add("overlap" if ov else "touch" if touch else "disjoint")
        if not same:
            l.add("different documents")
        if (ov and a != c) or touch:
            l.add("nontrivial")
        return l


class Tool(Mode):
    """One reference, one hypothesis, any 32-bit coordinates: hit or not."""
    name = "tool"
    targets = ("icdar",)
    quick, thorough = 6000, 200000
    fixed = ("r", "h")
    rule = ("one reference and one hypothesis with 32-bit coordinates in the ICDAR tool, which must match exactly "
            "when half of the hypothesis is covered; non-trivial: they overlap")

    def gen(self, rng, size):
        m = 2 ** 31 - 1
        style = rng.choice(["huge", "huge", "neg", "page", "small", "far"])
        if style == "far":        # ordinary boxes far away from the origin
            r = gen.box(rng, "page")
            r[0] += rng.choice([-1, 1]) * rng.randint(2 ** 20, 2 ** 31 - 10000)
            r[1] += rng.choice([-1, 1]) * rng.randint(2 ** 20, 2 ** 31 - 10000)
        else:
            r = gen.box(rng, style)
        h = gen.derived(rng, r) if rng.random() < .85 else gen.box(rng, "huge" if style == "huge" else "page")
        cl = lambda v: max(-m, min(m, v))
        return dict(r=[cl(r[0]), cl(r[1]), min(m, r[2]), min(m, r[3])],
                    h=[cl(h[0]), cl(h[1]), max(0, min(m, h[2])), max(0, min(m, h[3]))],
                    same=rng.random() < .9)

    def run(self, case, env):
        r, h = case["r"], case["h"]
        if min(r[2:] + h[2:]) < 0 or max(abs(v) for v in r + h) >= 2 ** 31:
            raise Invalid()
        i, area = model.inter(r, h) if case["same"] else 0, h[2] * h[3]
        try:
            hit = area > 0 and i > 0 and model.ratio_at_least(i, area, 0.5)
        except model.Ambiguous:
            raise Invalid()
        got = evaluate(env, "icdar", lines([["q", "d"] + r], "icdar"),
                       lines([["q", "d" if case["same"] else "e"] + h + [0.5]], "icdar"))
        cmp_metrics(got.metrics(), (1.0,) * 4 if hit else (0.0,) * 4,
                    "of one hypothesis covering %d of %d pixels" % (i, area))
        l = {"hit" if hit else "no hit"}
        if i > 0:
            l.add("nontrivial")
        if max(abs(v) for v in r + h) > 2 ** 16:
            l.add("large coordinates")
        return l


CHECK = CheckRunner("C03", [Areas(), Tool()],
                    ["sizes are not negative and corners and sums of areas fit the coordinate type",
                     "floating coordinates are multiples of 1/4 small enough for exact areas"])
