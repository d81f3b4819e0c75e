"""Coverage-guided campaigns (libFuzzer), run after a check's generated cases."""
import os, re, shutil, subprocess, tempfile, time
from . import gen, build, procs
from .pbt import Mode, Violation, Invalid, Env

DICT = {"eval": ["\n==\n", " 0 0 10 10", " 0.5\n", "-1", "1e39", "2147483647", "9223372036854775807", "4.5", "nan", "#", "\t", "\r\n",
                 "q d 0 0 10 10\n", "q d 0 0 10 10 0.5\n", "q d\n", "q d 0.5\n", "1e-40", "+"],
        "cmd": ["--b\n", "--b2\n", "--i16\n", "--u16\n", "--i32\n", "--u32\n", "--i64\n", "--u64\n", "--f\n", "--d\n", "--s\n", "--\n",
                "true", "false", "0", "1", "-32768", "65535", "4294967296", "18446744073709551615", "1e5", ".5", "ref", "\nhyp\n3"]}


def quoted(s):
    return '"%s"' % "".join("\\x%02x" % c for c in s.encode("latin-1"))


class Target(Mode):
    """Runs one input through a fuzz target."""
    fixed = ()

    def __init__(self, kind, quick, thorough):
        self.pid = None       # set by the campaign's check
        self.kind, self.exe, self.targets = kind, "fuzz_" + kind, ("fuzz_" + kind,)
        self.name = "fuzz " + kind
        self.quick, self.thorough = 16, 64
        self.runs = dict(quick=quick, thorough=thorough)
        self.rule = "seeds of the coverage-guided campaign on fuzz_%s; every case is non-trivial" % kind

    def gen(self, rng, size):
        if self.kind == "cmd":
            ws = []
            for _ in range(rng.randint(0, 5)):
                ws += [rng.choice(DICT["cmd"][:11])[:-1], rng.choice(DICT["cmd"][12:22])]
            return dict(lines=ws + ["--", "ref"])
        plain = rng.random() < .3
        refs, hyps = (gen.simple if plain else gen.icdar)(rng, min(size, 12))
        f = gen.lines_simple if plain else gen.lines_icdar
        t = bytes([rng.randrange(16) | (16 if plain else 0)]) + f(refs) + b"\n==\n" + f(hyps)
        return dict(lines=t.decode("latin-1").split("\n"))

    def data(self, case):
        try:
            return "\n".join(case["lines"]).encode("latin-1")
        except UnicodeEncodeError:
            raise Invalid()

    def run(self, case, env):
        p = env.tools.file("input", self.data(case))
        r = env.tools.run(self.exe, ["-timeout=25", "-rss_limit_mb=3000", p], timeout=60, env={"KWS_PROPERTY": self.pid})
        if r.rc != 0:
            t = r.err.decode("utf-8", "replace")
            m = re.search(r"PROPERTY: .*|runtime error: .*|ERROR: .*", t)
            raise Violation("%s fails on %r: %s" % (self.exe, self.data(case)[:300], m.group(0) if m else t[-400:]))
        return {"nontrivial"}


def modes(**quick):
    return [Target(k, n, n * 100) for k, n in quick.items()]


def campaign(runner, tier, seed, cov):
    """Eight processes, each with its own corpus; returns the number of violations."""
    modes = [m for m in runner.modes if isinstance(m, Target)]
    if not modes:
        return 0
    paths = build.build(sorted({t for m in modes for t in m.targets}))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    limit = 120 if tier == "quick" else 3600
    top = tempfile.mkdtemp(prefix="kwsf", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    bad = 0
    try:
        for m in modes:
            import random
            from .pbt import seed_for, size_of
            seeds = os.path.join(top, m.kind, "seeds")
            os.makedirs(seeds)
            for i in range(40):
                rng = random.Random(seed_for(seed, runner.pid, m.name, i))
                with open(os.path.join(seeds, "s%d" % i), "wb") as f:
                    f.write(m.data(m.gen(rng, size_of(rng))))
            with open(os.path.join(top, m.kind, "dict"), "w") as f:
                f.write("".join(quoted(w) + "\n" for w in DICT[m.kind]))
            n = max(100, int(m.runs[tier] * scale / 8))
            ps = []
            for w in range(8):
                d = os.path.join(top, m.kind, "w%d" % w)
                os.makedirs(d + "/corpus")
                err = open(d + "/log", "wb")
                ps.append((d, subprocess.Popen(
                    [paths[m.exe], "-seed=%d" % (seed * 8 + w + 1), "-runs=%d" % n, "-max_total_time=%d" % limit, "-max_len=600",
                     "-timeout=25", "-rss_limit_mb=3000", "-print_final_stats=1", "-dict=" + os.path.join(top, m.kind, "dict"),
                     "-artifact_prefix=" + d + "/bad-", d + "/corpus", seeds],
                    stdout=err, stderr=err, env=dict(procs.ENV, KWS_PROPERTY=runner.pid), cwd=d)))
                err.close()
            runs, feats, cases, failed = 0, 0, [], []
            for d, p in ps:
                try:
                    p.wait(limit + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                log = open(d + "/log", "rb").read().decode("utf-8", "replace")
                k = re.search(r"stat::number_of_executed_units: (\d+)", log)
                runs += int(k.group(1)) if k else 0
                k = re.findall(r"cov: (\d+)", log)
                feats = max(feats, int(k[-1]) if k else 0)
                arts = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("bad-")]
                cases += [open(a, "rb").read() for a in arts if not os.path.basename(a).startswith("bad-slow")]
                if p.returncode and not arts:
                    failed.append(log[-500:])
            cov["modes"][m.name]["campaign"] = dict(executions=runs, edges_covered=feats, processes=8,
                                                    corpus=sum(len(os.listdir(d + "/corpus")) for d, p in ps))
            cov["evaluations"] += runs
            if failed and not cases:
                raise RuntimeError("%s failed: %s" % (m.exe, failed[0]))
            for c in sorted(cases, key=len):
                found = dict(mode=m.name, i=0, why="", case=dict(lines=c.decode("latin-1").split("\n")), hist=[])
                if runner.fresh(m, [found["case"]], paths) is not None:
                    if runner.handle(found, seed, paths):
                        bad += 1
                        break
            if bad:
                break
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad
