"""C11: recall-precision curve files."""
from lib.lists import *
from lib.threads import Threads


def read_curve(data):
    need(data is not None, "no curve file was written")
    need(data == b"" or data.endswith(b"\n"), "the curve file does not end with a line end")
    pts = []
    for l in text(data).splitlines():
        f = l.split(" ")
        try:
            need(len(f) == 2, "line %r of the curve file", l)
            pts.append((float(f[0]), float(f[1])))
        except ValueError:
            raise Violation("line %r of the curve file" % l)
    return pts


class Tool(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 5000, 200000
    rule = ("global and mean curve files of both tools against the reference curves; non-trivial: at least three "
            "different precisions in a file")

    big = 70000

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        if size == self.big:
            refs, hyps = gen.many_queries(rng, tool)
            return dict(tool=tool, refs=refs, hyps=hyps, opts={}, n=rng.choice([2, 3, 5]), files=3,
                        filter=dict(mode="all", qset=[], groups=[]), spell=rng.getrandbits(10))
        opts = gen.curve_opts(rng)
        if rng.random() < .2:
            opts["sort"] = rng.choice(["asc", "none"])
        distinct = rng.random() < .4 or (tool == "simple" and not opts.get("collapse_matches", True))
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, size, distinct=distinct)
        n = rng.choice([2, 3, 5, 9, 11, 17, 33, 101, rng.randint(2, 60), rng.randint(2, 60),
                        rng.choice([4, 64, 65, 128, 129, 255, 256, 257, 500, 1000, 1001, 1025, 4096, 5000])])
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, n=n if rng.random() < .98 else 0,
                    files=rng.choice([1, 2, 3, 3]), filter=pick_filter(rng, refs, hyps), spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, opts = case["tool"], case["opts"]
        valid(case, tool)
        refs, hyps = tup(case["refs"], tool), tup(case["hyps"], tool)
        if tool == "simple" and not opts.get("collapse_matches", True) and \
                len({h[-1] for h in hyps}) < len(hyps):
            raise Invalid()
        n = case["n"]
        if n == 1 or n < 0 or not case["files"] & 3:
            raise Invalid()
        try:
            fopts, kw = use_filter(env, case["filter"])
            want, ms, rep, gs = model.evaluate(refs, hyps, opts, tool, **kw)
        except model.Ambiguous:
            raise Invalid()
        opts = dict(opts, **fopts)
        o = dict(opts)
        if n:
            o["rp_curve_samples"] = n
        else:
            n = 10000
        for f, bit in ("grp", 1), ("mrp", 2):
            leftover(env, f, case["spell"] if case["files"] & bit else 1)
        if case["files"] & 1:
            o["output_grp"] = env.tools.path("grp")
        if case["files"] & 2:
            o["output_mrp"] = env.tools.path("mrp")
        rd, hd = lines(case["refs"], tool), lines(case["hyps"], tool)
        files = {}
        for f in ("grp", "mrp"):      # to a pipe instead of a file
            if "output_" + f in o and case["spell"] % 7 == 3 and n <= 15000:
                o["output_" + f] = env.tools.pipe_out(f) or o["output_" + f]
        a = evaluate(env, tool, rd, hd, gen.args_of(o, case["spell"]))
        files.update(env.tools.piped)
        p = evaluate(env, tool, rd, hd, gen.args_of(opts, case["spell"]))
        need(a.raw == p.raw, "requesting curve files changes the output: %r, without %r", text(a.raw), text(p.raw))
        col, i = opts.get("collapse_matches", True), opts.get("interpolated_precision", True)
        t = opts.get("trapezoid_integral", True)

        def curve(m):
            pr, rc = model.pr_rc(list_entries(m, col), i)
            return rc, pr
        l = {tool, "queries: " + case["filter"]["mode"]}
        for bit, f in ((1, "grp"), (2, "mrp")):
            if not case["files"] & bit:
                need(env.tools.read(f) is None, "a curve file that was not asked for")
                continue
            pts = read_curve(files.get(f, env.tools.read(f)))
            need(len(pts) == n, "%s: %d lines, expected %d", f, len(pts), n)
            curves = [curve(ms)] if bit == 1 else [curve(g) for g in gs]
            samplers = [Sampler(rc, pr, t) for rc, pr in curves]
            ys = set()
            for k, (x, y) in enumerate(pts):
                x0 = k / (n - 1)
                need(abs(x - x0) <= 1e-6 * x0, "%s line %d: recall %r, expected %.7g", f, k, x, x0)
                r = [s.range(x0) for s in samplers]
                if r:
                    lo, hi = sum(v[0] for v in r) / len(r), sum(v[1] for v in r) / len(r)
                else:
                    lo = hi = 0.0
                need(lo * (1 - 1e-6) - 1e-8 <= y <= hi * (1 + 1e-6) + 1e-8,
                     "%s at recall %.6g: precision %r, expected %.7g%s", f, x0, y, lo, "" if lo == hi else " to %.7g" % hi)
                need(0 <= y <= 1, "%s: precision %r", f, y)
                ys.add(y)
            if len(ys) > 2:
                l.add("nontrivial")
            if bit == 2 and len(gs) > 1:
                l.add("mean of several groups")
            if bit == 2 and not gs:
                l.add("no groups")
        return l


class Sampler:
    """model.sample_range for increasing recalls, without rescanning."""

    def __init__(self, rc, pr, linear):
        self.rc, self.pr, self.linear, self.j = rc, pr, linear, 0

    def range(self, x):
        # points far below x never matter again
        while self.j + 2 < len(self.rc) and self.rc[self.j + 1] < x - 1e-6:
            self.j += 1
        rc, pr = self.rc[self.j:self.j + 400], self.pr[self.j:self.j + 400]
        if len(self.rc) > self.j + 400 and rc[-1] < x + 1e-6:
            rc, pr = self.rc[self.j:], self.pr[self.j:]
        if self.j and rc and rc[0] >= x:
            rc, pr = self.rc, self.pr
        if self.linear and self.j == 0:
            pass
        return model.sample_range(rc, pr, x, self.linear)


class Sampling(Mode):
    name = "sampling"
    targets = ("drv_assess",)
    quick, thorough = 60000, 2000000
    fixed = ()
    rule = ("the sampling function on arbitrary non-decreasing curves and points; non-trivial: three or more points on "
            "either side, some beyond the last recall or equal to a recall")

    def gen(self, rng, size):
        g = rng.choice([4, 8, 10, 97])
        src = sorted(rng.randint(0, g) / g for _ in range(rng.randint(0, size)))
        if rng.random() < .5:
            src = [v * 0.75 for v in src]
        dst = sorted(rng.choice([rng.randint(0, g) / g, rng.random()] + src[:3]) for _ in range(rng.randint(0, rng.choice([20, 20, 20, size]))))
        return dict(src=[[x, rng.choice([0.0, 1.0, rng.random()])] for x in src], dst=[[v] for v in dst],
                    n=rng.choice([0, 1, 2, 3, 10, 101, rng.randint(2, 400), rng.randint(2, 3000)]))

    def run(self, case, env):
        src, dst = sorted(case["src"], key=lambda p: p[0]), sorted(v[0] for v in case["dst"])
        d = env.drv("drv_assess")
        w = d.ask("sample", len(src), *([float(v) for p in src for v in p] + [len(dst)] + [float(v) for v in dst]))
        rc, pr = [p[0] for p in src], [p[1] for p in src]
        for linear in (False, True):
            need_list(vec(w), [model.sample(rc, pr, x, linear) for x in dst], "sampled precision (linear=%d)" % linear)
        n = case["n"]
        if n < 0:
            raise Invalid()
        x = vec(d.ask("even", n))
        if n > 1:
            need_list(x, [k / (n - 1) for k in range(n)], "evenly distributed points", 1e-12)
            need(x[0] == 0.0 and x[-1] == 1.0, "the points do not span [0,1]: %r .. %r", x[0], x[-1])
        l = set()
        if len(src) > 2 and len(dst) > 2 and (dst[-1] > rc[-1] or set(rc) & set(dst)):
            l.add("nontrivial")
        return l


class Write(Mode):
    name = "write"
    targets = ("drv_assess",)
    quick, thorough = 3000, 60000
    fixed = ()
    rule = "arbitrary points written to a file and read back; non-trivial: two or more points"

    def gen(self, rng, size):
        return dict(points=[[rng.choice([0.0, 1.0, rng.random(), 1e-300, -2.5, 1e22]) for _ in range(2)]
                            for _ in range(rng.randint(0, size))],
                    how=rng.choice(["ok"] * 6 + ["uneven", "noname", "nodir", "full"]))

    def run(self, case, env):
        pts, how = case["points"], case["how"]
        f = {"noname": "", "nodir": env.tools.path("no/such/dir"), "full": "/dev/full"}.get(how, env.tools.path("curve"))
        leftover(env, "curve", len(pts))
        ys = [float(p[1]) for p in pts] + ([1.0] if how == "uneven" else [])
        r = env.drv("drv_assess").ask("write", f, len(pts), *([float(p[0]) for p in pts] + [len(ys)] + ys)).s()
        want = {"ok": b"ok", "uneven": b"arg", "noname": b"arg", "nodir": b"io", "full": b"io"}[how]
        if how == "full" and not pts:
            return {how}
        need(r == want, "writing %d points (%s): %r, expected %r", len(pts), how, r, want)
        if how == "ok":
            got = read_curve(env.tools.read("curve"))
            need(len(got) == len(pts), "%d points in the file, expected %d", len(got), len(pts))
            for k, (g, p) in enumerate(zip(got, pts)):
                need(all(abs(x - y) <= 1e-6 * abs(y) for x, y in zip(g, p)), "point %d is %r, expected %r", k, g, p)
        return {how, "nontrivial"} if len(pts) > 1 else {how}


CHECK = CheckRunner("C11", [Tool(), Sampling(), Write(), Threads("curves")],
                    ["sampling points equal to a recall of the curve are judged exactly at multiples of 1/1024 and may fall "
                     "on either side by rounding elsewhere", "fewer than two sample points are left open"])
