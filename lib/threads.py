"""The same commands under different numbers of threads: whatever is computed in parallel must not show."""
from .kit import *


class Threads(Mode):
    """`focus`: what is compared beyond the metrics: "ci", "curves" or "dump"."""
    name = "threads"
    targets = ("icdar_dbg", "simple_dbg")
    quick, thorough = 40, 1500

    def __init__(self, focus, quick=None):
        self.focus = focus
        if quick:
            self.quick = quick
        self.rule = ("larger inputs of many query groups, evaluated by one thread and again by several: metrics and %s "
                     "must agree; non-trivial: at least two groups with several matches"
                     % dict(ci="intervals", curves="curve files", dump="dumps")[focus])

    def gen(self, rng, size):
        return dict(tool=rng.choice(["icdar", "simple"]), seed=rng.getrandbits(40), queries=rng.choice([1, 7, 8, 40, 150]),
                    per=rng.choice([2, 10, 40]), samples=rng.choice([2, 999, 10000, 30000]), reps=rng.choice([20, 200, 500]),
                    threads=rng.choice([2, 3, 8, 8, 16]), sort=rng.choice(["desc", "desc", "asc"]), opts=gen.curve_opts(rng),
                    groups=rng.choice([0, 0, 3, 20]))

    def run(self, case, env):
        tool, nq, per = case["tool"], case["queries"], case["per"]
        if not (1 <= nq <= 400 and 1 <= per <= 200 and 2 <= case["samples"] <= 10 ** 5 and 1 <= case["reps"] <= 2000 and
                1 <= case["threads"] <= 64 and 0 <= case["groups"] <= 100) or case["sort"] not in ("desc", "asc"):
            raise Invalid()
        rng = random.Random(case["seed"])
        refs, hyps = [], []
        ends = rng.choice([0, 1, 2, 2])
        for k in range(nq):
            good = rng.random()
            for j in range(rng.randint(1, per)):
                at = [j * 20, 0, 10, 10] if tool == "icdar" else []
                loc = "d%d" % (j % 3) if tool == "icdar" else "l%d" % j
                if ends and rng.random() < .8:
                    refs.append(["q%d" % k, loc] + at)
                if rng.random() < .8:
                    if rng.random() > good:
                        loc += "x"
                    # scores of their own: whatever order ties have, it is not judged here
                    hyps.append(["q%d" % k, loc] + at + [f32((len(hyps) * 7919 % 20011 + rng.random() / 4) / 20011)])
        o = dict(case["opts"], sort=case["sort"])
        if case["groups"]:
            o["query_groups"] = env.tools.file("groups", b("".join("g%d q%d\n" % (k % case["groups"], k) for k in range(nq))))
        out = []
        if self.focus == "ci":
            o.update({"bootstrap_ci_" + n.lower(): True for n in NAMES})
            o.update(bootstrap_samples=max(5, min(case["reps"], 40000 // (nq * per))), bootstrap_seed=case["seed"] % 1000)
            o.update(sort="desc", collapse_matches=True)
        elif self.focus == "curves":
            out = ["grp", "mrp"]
            o.update(rp_curve_samples=case["samples"], output_grp=env.tools.path("grp"), output_mrp=env.tools.path("mrp"))
        else:
            out = ["dump"]
            o["dump_matches"] = env.tools.path("dump")
        rd, hd = env.tools.file("ref.txt", lines(refs, tool)), env.tools.file("hyp.txt", lines(hyps, tool))

        def once(n):
            for f in out:
                env.tools.remove(f)
            r = Result(env.tools.run(tool + "_dbg", gen.args_of(o, 0) + [rd, hd], timeout=120,
                                     env={"OMP_NUM_THREADS": str(n), "OMP_DYNAMIC": "false"}), tool)
            return r, [env.tools.read(f) for f in out]
        one, files = once(1)
        for k in range(3):
            n = [case["threads"], 8, 1][k]
            r, fs = once(n)
            what = "%d threads" % n if n > 1 else "one thread, run again,"
            for m in NAMES:
                need(near6(r.v[m], one.v[m]), "%s: %s is %r, with one thread %r", what, m, r.v[m], one.v[m])
                if m in one.ci:
                    need(m in r.ci and all(near6(x, y) for x, y in zip(r.ci[m], one.ci[m])),
                         "%s: the interval of %s is %r, with one thread %r", what, m, r.ci.get(m), one.ci[m])
            for f, x, y in zip(out, fs, files):
                if x == y:
                    continue
                need(x is not None and y is not None and self.focus == "curves", "%s: %s differs from the file of one thread",
                     what, f)
                a, c = x.split(), y.split()
                need(len(a) == len(c), "%s: %s has %d numbers, with one thread %d", what, f, len(a), len(c))
                for i, (p, q) in enumerate(zip(a, c)):
                    need(near6(float(p), float(q)), "%s: %s line %d: %r, with one thread %r", what, f, i // 2, p, q)
        l = {tool, "%d threads" % case["threads"]}
        if nq > 1 and per > 2:
            l.add("nontrivial")
        return l
