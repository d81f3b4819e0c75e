"""A small property-based testing engine.

A check is a list of modes; each mode generates JSON-like cases from a seeded
random source and decides them against its oracle.  Case number i of a mode is
a pure function of (VERIF_SEED, property, mode, i).  A failing case is shrunk
structurally (deleting list elements, simplifying numbers and strings) as long
as it still fails, replayed three times in fresh processes and written to a
replay file, which bypasses the generators.
"""
import copy, hashlib, json, multiprocessing as mp, os, queue, random, shutil, sys, tempfile, time, traceback

from . import build, procs

VERIF = build.VERIF
WORKERS = 8


class Violation(Exception):
    pass


class Invalid(Exception):
    """The case is outside the property's domain (only shrinking produces these)."""


class Mode:
    name = "main"
    weight = 1.0          # cases = weight * tier budget
    quick, thorough = 2000, 40000
    targets = ()          # build targets this mode needs
    fixed = ()            # dict keys whose lists must keep their length
    rule = ""             # what makes a case non-trivial
    session = 400         # requests after which drivers are restarted
    big = 0               # size of the volume cases, one per worker (0: none)

    def gen(self, rng, size):
        raise NotImplementedError

    def run(self, case, env):
        """Raises Violation, or returns a set of labels ('nontrivial' counts)."""
        raise NotImplementedError


def size_of(rng):
    """Case size class: mostly small, some medium, few large."""
    r = rng.random()
    if r < 0.5:
        return rng.randint(1, 7)
    if r < 0.88:
        return rng.randint(4, 30)
    if r < 0.985:
        return rng.randint(30, 150)
    if r < 0.998:
        return rng.randint(150, 700)
    return rng.randint(700, 3000)


def case_of(mode, pid, seed, i):
    """Case number i; the negative ones are the volume cases."""
    rng = random.Random(seed_for(seed, pid, mode.name, i))
    size = size_of(rng)
    return mode.gen(rng, mode.big if i < 0 else size)


class Env:
    def __init__(self, paths):
        self.paths = paths
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="kwsv", dir=base)
        self.cwd = os.getcwd()
        os.chdir(self.scratch)       # relative names stay in the scratch directory
        self.tools = procs.Tools(paths, self.scratch)
        self.drivers = {}

    def drv(self, name):
        d = self.drivers.get(name)
        if d is None:
            d = self.drivers[name] = procs.Driver(self.paths[name])
        return d

    def reset(self):
        for d in self.drivers.values():
            d.stop()

    def close(self):
        self.reset()
        self.tools.close()
        os.chdir(self.cwd)
        shutil.rmtree(self.scratch, ignore_errors=True)


def judge(mode, case, env):
    """None if the property holds on the case, else the reason.  Labels via 2nd value."""
    try:
        labels = mode.run(case, env)
        return None, labels
    except Violation as v:
        return str(v), ()
    except procs.Crash as c:
        return "crash: " + str(c), ()


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def seed_for(seed, pid, mode, i):
    return int.from_bytes(hashlib.sha256(("%s|%s|%s|%d" % (seed, pid, mode, i)).encode()).digest()[:8], "big")


def again(mode, found, env, case_at):
    """Whether a failure shows again, alone or after the calls before it."""
    for k in range(1 if late(found["why"]) else 4):      # waiting takes long
        env.reset()
        for j in found["hist"] if k == 3 else [found["i"]]:
            try:
                bad, _ = judge(mode, case_at(j), env)
            except Invalid:
                continue
        if bad is not None:
            return True
    return False


def late(why):
    """Failures which a machine under load can cause by itself."""
    return "no answer within" in why or "no end within" in why or "(status -9)" in why or "status -9 " in why


def _worker(w, pid, modes, budgets, paths, seed, stop, q, deadline):
    env = Env(paths)
    stats = {}
    found, flaky = None, []
    try:
        for mode in modes:
            st = stats[mode.name] = dict(n=0, nt=0, labels={}, samples=[], skipped=0, timeout=False)
            seen = set()
            hist = []
            for i in list(range(w, budgets[mode.name], WORKERS)) + [-1 - w] * bool(mode.big and budgets[mode.name] >= mode.quick // 2):
                if stop.is_set():
                    break
                if time.monotonic() > deadline:
                    st["timeout"] = True
                    break
                case = case_of(mode, pid, seed, i)
                if len(hist) >= mode.session:
                    env.reset()
                    hist = []
                hist.append(i)
                try:
                    bad, labels = judge(mode, case, env)
                except Invalid:
                    st["skipped"] += 1
                    continue
                st["n"] += 1
                if bad is not None:
                    found = dict(mode=mode.name, i=i, why=bad, case=case, hist=list(hist))
                    if len(flaky) < 5 and not again(mode, found, env, lambda j: case_of(mode, pid, seed, j)):
                        flaky.append(found)      # goes on: it may be one of many
                        found, hist = None, []
                        env.reset()
                        continue
                    stop.set()
                    break
                for l in labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                if i < 0:
                    st["labels"]["volume"] = st["labels"].get("volume", 0) + 1
                if "nontrivial" in labels:
                    k = case_key(case)
                    if k not in seen:
                        seen.add(k)
                        if len(st["samples"]) < 2:
                            txt = json.dumps(case)
                            if len(txt) < 1500:
                                st["samples"].append(case)
            st["keys"] = list(seen)
            if found:
                break
    except BaseException:
        q.put((w, "error", traceback.format_exc(), None, []))
        env.close()
        return
    env.close()
    q.put((w, "ok", stats, found, flaky))


def _retry(job):
    mode, case, paths = job
    env, end = Env(paths), time.monotonic() + 20
    try:
        for _ in range(200):
            bad, _ = judge(mode, case, env)
            if bad is not None and not late(bad):
                return bad
            env.reset()
            if time.monotonic() > end:
                break
    finally:
        env.close()
    return None


# ---------------------------------------------------------------- shrinking
def _paths(node, fixed, path=()):
    """Yields (path, kind) for every node; kind in dict/list/tuple/leaf."""
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list) and k not in fixed:
                yield path + (k,), "list"
            for x in _paths(v, fixed, path + (k,)):
                yield x
    elif isinstance(node, list):
        for k, v in enumerate(node):
            for x in _paths(v, fixed, path + (k,)):
                yield x
    else:
        yield path, "leaf"


def _get(node, path):
    for k in path:
        node = node[k]
    return node


def _with(case, path, value):
    c = copy.deepcopy(case)
    if not path:
        return value
    n = c
    for k in path[:-1]:
        n = n[k]
    n[path[-1]] = value
    return c


def _simpler(v):
    if isinstance(v, bool):
        return [False] if v else []
    if isinstance(v, int):
        c = [0, 1, v // 2, v - 1 if v > 0 else v + 1]
        return [x for i, x in enumerate(c) if abs(x) < abs(v) and x not in c[:i]]
    if isinstance(v, float):
        c = [0.0, 1.0, float(int(v)) if abs(v) < 1e15 else 0.0, v / 2]
        return [x for x in c if abs(x) < abs(v)]
    if isinstance(v, str):
        c = []
        if len(v) > 1:
            c += [v[:len(v) // 2], v[len(v) // 2:], v[1:], v[:-1]]
        if len(v) == 1 and v not in "01a" and not v.isspace():
            c += ["0", "1", "a"]
        return c
    return []


def _mangle_all(case, old, new):
    """Replaces a string value everywhere (consistent renaming)."""
    if isinstance(case, dict):
        return {k: _mangle_all(v, old, new) for k, v in case.items()}
    if isinstance(case, list):
        return [_mangle_all(v, old, new) for v in case]
    return new if isinstance(case, str) and case == old else case


def shrink(mode, case, fails, budget_s=60, budget_n=3000):
    end = time.monotonic() + budget_s
    left = [budget_n]

    def ok(c):
        if left[0] <= 0 or time.monotonic() > end:
            return False
        left[0] -= 1
        try:
            return fails(c)
        except Exception:
            return False

    def over():
        return left[0] <= 0 or time.monotonic() > end

    fixed = set(mode.fixed)
    changed = True
    while changed and not over():
        changed = False
        # 1. delete chunks of lists, largest chunks first
        for path in [p for p, k in _paths(case, fixed) if k == "list"]:
            try:
                lst = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            chunk = max(1, len(lst) // 2)
            while chunk >= 1 and not over():
                i = 0
                while i < len(_get(case, path)) and not over():
                    cur = _get(case, path)
                    cand = _with(case, path, cur[:i] + cur[i + chunk:])
                    if ok(cand):
                        case, changed = cand, True
                    else:
                        i += chunk
                chunk //= 2
        # 2. simplify strings consistently, then leaves one by one
        strs = {v for p, k in _paths(case, fixed) if k == "leaf"
                for v in [_get(case, p)] if isinstance(v, str)}
        for s in sorted(strs, key=lambda s: (-len(s), s)):
            if over():
                break
            for t in _simpler(s):
                cand = _mangle_all(case, s, t)
                if cand != case and ok(cand):
                    case, changed = cand, True
                    break
        for path, kind in list(_paths(case, fixed)):
            if over():
                break
            if kind != "leaf":
                continue
            try:
                v = _get(case, path)
            except (KeyError, IndexError, TypeError):
                continue
            progress = True
            while progress:
                progress = False
                for t in _simpler(v):
                    cand = _with(case, path, t)
                    if ok(cand):
                        case, v, changed, progress = cand, t, True, True
                        break
                if over():
                    break
    return case


# ------------------------------------------------------------------ running
class CheckRunner:
    def __init__(self, pid, modes, assumptions=(), extra=None):
        self.pid, self.modes, self.assumptions, self.extra = pid, modes, list(assumptions), extra
        for m in modes:
            m.pid = pid

    def fresh(self, mode, cases, paths):
        """Judges cases one after another in a fresh environment; the last one's reason."""
        env = Env(paths)
        bad = None
        try:
            for c in cases:
                try:
                    bad, _ = judge(mode, c, env)
                except Invalid:
                    bad = None
        finally:
            env.close()
        return bad

    def report(self, mode, case, why, paths, batch=None):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        doc = dict(property=self.pid, mode=mode.name, why=why, case=case)
        if batch:
            doc["before"] = batch
        name = "%s-%s-%s.json" % (self.pid, mode.name.replace(" ", "_"), case_key(doc).hex()[:10])
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print("%s: %s" % (self.pid, why[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        return path

    def handle(self, found, seed, paths):
        mode = {m.name: m for m in self.modes}[found["mode"]]
        case = found["case"]
        tries = 1 if late(found["why"]) else 3      # waiting takes long
        begin = time.monotonic()
        alone = sum(self.fresh(mode, [case], paths) is not None for _ in range(tries))
        long = late(found["why"]) and time.monotonic() - begin > 70
        if alone == tries or (alone and self.fresh(mode, [case], paths) is not None):
            env = Env(paths)

            def fails(c):
                bad, _ = judge(mode, c, env)
                if bad is not None:
                    return True
                return False
            small = case if long else shrink(mode, case, fails)
            env.close()
            why = None
            for _ in range(0 if long else tries):
                why = self.fresh(mode, [small], paths) or why
            if why is None:
                small, why = case, found["why"]
            self.report(mode, small, why, paths)
            return True
        # Not reproducible alone: does it depend on the session's earlier cases?
        cases = [case_of(mode, self.pid, seed, i) for i in found["hist"]]
        if all(self.fresh(mode, cases, paths) is not None for _ in range(3)):
            before, k = cases[:-1], max(1, (len(cases) - 1) // 2)
            while k >= 1:
                i = 0
                while i < len(before):
                    cand = before[:i] + before[i + k:]
                    if self.fresh(mode, cand + [case], paths) is not None:
                        before = cand
                    else:
                        i += k
                k //= 2
            why = self.fresh(mode, before + [case], paths) or found["why"]
            self.report(mode, case, "depends on earlier calls: " + why, paths, batch=before)
            return True
        if alone:
            self.report(mode, case, "unstable outcome: " + found["why"], paths)
            return True
        return False

    def unstable(self, flaky, seed, paths):
        """Failures that did not show again at once: races, for instance.  Several of them, or one that comes back
        under load, are a violation; a single one is only worth a note."""
        flaky = sorted(flaky, key=lambda f: f["i"])
        real = [f for f in flaky if not late(f["why"])]
        modes = {m.name: m for m in self.modes}
        for f in real[:2]:
            if len(real) >= 3:
                why = f["why"]
            else:
                with mp.Pool(WORKERS) as pool:
                    why = next((r for r in pool.imap_unordered(_retry, [(modes[f["mode"]], f["case"], paths)] * WORKERS) if r), None)
            if why:
                self.report(modes[f["mode"]], f["case"], "unstable outcome (%d failures that come and go): %s" % (len(real), why), paths)
                return 1
        for f in flaky:
            print("NOTE %s: a failure of mode %s case %d did not reproduce: %s" % (self.pid, f["mode"], f["i"], f["why"][:400]))
        return 0

    def known(self, paths):
        """Replays the listed findings; returns their count."""
        n = 0
        for f in load_findings():
            if f["property"] != self.pid:
                continue
            with open(os.path.join(VERIF, f["case"])) as fd:
                doc = json.load(fd)
            mode = {m.name: m for m in self.modes}[doc["mode"]]
            if self.fresh(mode, [doc["case"]], paths) is not None:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
                n += 1
        return n

    def replay(self, path):
        with open(path) as f:
            doc = json.load(f)
        mode = {m.name: m for m in self.modes}[doc["mode"]]
        paths = build.build(sorted(set(mode.targets)))
        why = self.fresh(mode, doc.get("before", []) + [doc["case"]], paths)
        if why is None:
            print("property %s holds on %s" % (self.pid, path))
            return 0
        print(why)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1

    def main(self, tier, seed):
        t0 = time.monotonic()
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        paths = build.build(sorted({t for m in self.modes for t in m.targets}))
        t_build = time.monotonic() - t0
        known = self.known(paths)
        budgets = {m.name: max(WORKERS, int(scale * (m.quick if tier == "quick" else m.thorough)))
                   for m in self.modes}
        cap = float(os.environ.get("VERIF_CAP_S", "480" if tier == "quick" else "7200"))
        stop = mp.Event()
        q = mp.Queue()
        ps = [mp.Process(target=_worker, args=(w, self.pid, self.modes, budgets, paths, seed, stop,
                                               q, t0 + cap)) for w in range(WORKERS)]
        for p in ps:
            p.start()
        results = []
        while len(results) < WORKERS:
            try:
                results.append(q.get(timeout=5))
            except queue.Empty:
                # a worker that was killed (memory) never reports
                if not any(p.is_alive() for p in ps) and q.empty():
                    break
        for p in ps:
            p.join()
        errors = [r for r in results if r[1] == "error"]
        if errors or len(results) < WORKERS:
            print("\n".join(sorted({e[2] for e in errors})) or "a worker was lost")
            return 2
        violations = 0
        founds = sorted((r[3] for r in results if r[3]), key=lambda f: f["i"])
        flaky = [f for r in results for f in r[4]]
        for f in founds:
            if self.handle(f, seed, paths):
                violations += 1
                break
            flaky.append(f)
        if flaky and not violations:
            violations += self.unstable(flaky, seed, paths)
        cov = self.coverage(results)
        if self.extra and not violations:
            res = self.extra(self, tier, seed, cov)
            violations += res or 0
        cov["known_findings"] = known
        cov["build_s"] = round(t_build, 2)
        ev = dict(property=self.pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.monotonic() - t0, 2),
                  violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)"
              % (self.pid, tier, cov["evaluations"], cov["distinct_nontrivial"], violations,
                 ev["wall_s"], t_build))
        return 1 if violations else 0

    def coverage(self, results):
        cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], modes={})
        rules = []
        for m in self.modes:
            keys, labels, n, samples, skipped, late = set(), {}, 0, [], 0, False
            for r in sorted(results, key=lambda r: r[0]):
                st = r[2].get(m.name)
                if not st:
                    continue
                n += st["n"]
                skipped += st["skipped"]
                late = late or st["timeout"]
                keys.update(st.get("keys", ()))
                samples += st["samples"][:1]
                for k, v in st["labels"].items():
                    labels[k] = labels.get(k, 0) + v
            cov["evaluations"] += n
            cov["distinct_nontrivial"] += len(keys)
            cov["samples"] += [dict(mode=m.name, case=c) for c in samples[:2]]
            cov["modes"][m.name] = dict(evaluations=n, distinct_nontrivial=len(keys),
                                        labels=dict(sorted(labels.items())), out_of_domain=skipped,
                                        stopped_by_time_cap=late)
            rules.append("%s: %s" % (m.name, m.rule))
        cov["rule"] = " | ".join(rules)
        return cov


def load_findings():
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                parts = line[len("finding: "):].strip().split(" ", 2)
                res.append(dict(property=parts[0].split("=", 1)[1], case=parts[1].split("=", 1)[1],
                                what=parts[2]))
    return res
