"""What the checks share: comparing numbers, running tools, reading their output."""
import math, random, re
from . import gen, model
from .pbt import Mode, Violation, Invalid, CheckRunner
from .gen import b, f32, fmt

NAMES = ("gAP", "mAP", "gNDCG", "mNDCG")
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)"
LINE = re.compile(r"^(gAP|mAP|gNDCG|mNDCG) = (%s)(?: \[(%s), (%s)\])?$" % (NUM, NUM, NUM))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def near(a, e, tol=1e-9):
    return a == e or abs(a - e) <= tol * max(1.0, abs(e))


def near6(a, e):
    """A value printed with six significant digits."""
    return a == e or abs(a - e) <= 6e-6 * abs(e) + 2e-9


def need_near(a, e, what, tol=1e-9):
    if not near(a, e, tol):
        raise Violation("%s: got %r, expected %r" % (what, a, e))


def need_list(a, e, what, tol=1e-9):
    need(len(a) == len(e), "%s: %d values, expected %d", what, len(a), len(e))
    for i, (x, y) in enumerate(zip(a, e)):
        if not near(x, y, tol):
            raise Violation("%s[%d]: got %r, expected %r" % (what, i, x, y))


def tup(events, tool):
    """Case events -> model events."""
    n = 6 if tool == "icdar" else 2
    return [tuple([b(e[0]), b(e[1])] + list(e[2:n]) + [f32(s) for s in e[n:]]) for e in events]


def lines(events, tool):
    return gen.lines_icdar(events) if tool == "icdar" else gen.lines_simple(events)


def leftover(env, name, k):
    """A file that an earlier run left behind, or none."""
    env.tools.remove(name)
    if k % 3 == 0:
        env.tools.file(name, [b"", b"0.5 0.5\n", b"9.000000e-01 1.000000e+00\n" * 400,
                              b"Match[Hyp=q d 1 1 2 2 0.5, Error=MatchError[fp=1, fn=0, nh=1, nr=0]]\n" * 200][k // 3 % 4])


def valid_names(case):
    for e in case["refs"] + case["hyps"]:
        for s in e[:2]:
            if not s or any(c in " \t\n\v\f\r" for c in s):
                raise Invalid()
        if e[0].startswith("#"):
            raise Invalid()


def valid_boxes(case):
    for e in case["refs"] + case["hyps"]:
        if e[4] < 0 or e[5] < 0 or max(map(abs, e[2:6])) >= 2 ** 61 or \
                e[4] * e[5] >= 2 ** 62:
            raise Invalid()


def valid(case, tool):
    valid_names(case)
    if tool == "icdar":
        valid_boxes(case)


class Result:
    """Standard output of a successful run."""

    def __init__(self, run, cmd):
        self.run, self.raw = run, run.out
        need(not run.timeout, "no end within the time limit: %s", cmd)
        need(run.rc == 0, "status %s from %s; stderr: %s", run.rc, cmd, text(run.err)[-400:])
        ls = text(run.out).splitlines()
        need(len(ls) == 4, "expected four lines of metrics, got %r (%s)", text(run.out)[:300], cmd)
        self.v, self.ci = {}, {}
        for name, l in zip(NAMES, ls):
            m = LINE.match(l)
            need(m is not None and m.group(1) == name, "unexpected line %r in the output of %s", l, cmd)
            self.v[name] = float(m.group(2))
            if m.group(3) is not None:
                self.ci[name] = (float(m.group(3)), float(m.group(4)))

    def metrics(self):
        return tuple(self.v[n] for n in NAMES)


def text(bs):
    return bs.decode("utf-8", "backslashreplace")


def run_raw(env, tool, refs, hyps, args=(), stdin=False, san=False, names=("ref.txt", "hyp.txt"),
            timeout=60, piped=0):
    """refs/hyps: file contents; piped: bit 0 (1) is set if the references (hypotheses) come through a pipe."""
    size = sum(d.count(b"\n") for d in (refs, hyps) if isinstance(d, bytes))
    timeout += min(140, size / 800)      # a slower program is no worse a program
    r = piped & 1 and env.tools.pipe_in(refs) or env.tools.file(names[0], refs)
    if stdin and piped & 2 and len(hyps) < 60000:
        return env.tools.run(tool + ("_san" if san else ""), list(args) + [r], stdin=hyps, timeout=timeout)
    h = not stdin and piped & 2 and env.tools.pipe_in(hyps) or env.tools.file(names[1], hyps)
    exe = tool + ("_san" if san else "")
    if stdin:
        return env.tools.run(exe, list(args) + [r], stdin=h, timeout=timeout)
    return env.tools.run(exe, list(args) + [r, h], timeout=timeout)


def evaluate(env, tool, refs, hyps, args=(), **kw):
    run = run_raw(env, tool, refs, hyps, args, **kw)
    return Result(run, "%s %s" % (tool, " ".join(args)))


def cmp_metrics(got, want, what, events=0):
    """NDCG gains are single precision: sums over very many events drift."""
    for n, a, e in zip(NAMES, got, want):
        if not near6(a, e) and not (events > 5000 and "NDCG" in n and abs(a - e) <= 1e-4 * e):
            raise Violation("%s %s: printed %r, expected %.9g" % (n, what, a, e))


# ------------------------------------------------- query sets and groups
def pick_filter(rng, refs, hyps, p=.3):
    """A query set or query groups file for the events, mostly none."""
    f = dict(mode="all", qset=[], groups=[])
    if rng.random() >= p:
        return f
    qs = sorted({e[0] for e in refs + hyps})
    listed = [q for q in qs if rng.random() < rng.choice([.5, .8, 1])]
    rng.shuffle(listed)
    f["mode"] = rng.choice(["set", "groups", "groups"])
    if f["mode"] == "set":
        f["qset"] = listed
    else:
        names = rng.choice([["g1", "g2", "g3"], ["one"], qs or ["g"], ["a", "aa", "A", "B"]])
        while listed:
            k = rng.choice([1, 1, 2, 3, len(listed)])
            f["groups"].append([rng.choice(names)] + listed[:k])
            listed = listed[k:]
    return f


def use_filter(env, f):
    """Options for the tools, and arguments for the reference model."""
    if f is None:      # replay files from before there were filters
        return {}, {}
    words_ = list(f["qset"]) + [w for l in f["groups"] for w in l]
    if f["mode"] not in ("all", "set", "groups") or any(not w or any(c.isspace() for c in w) for w in words_) or \
            any(len(l) < 2 for l in f["groups"]):
        raise Invalid()
    if f["mode"] == "set":
        return dict(query_set=env.tools.file("qset", b("\n".join(f["qset"]) + "\n"))), dict(qset=[b(q) for q in f["qset"]])
    if f["mode"] == "groups":
        return dict(query_groups=env.tools.file("groups", b("".join(" ".join(l) + "\n" for l in f["groups"])))), \
            dict(groups=[[b(w) for w in l] for l in f["groups"]])
    return {}, {}


# -------------------------------------------------------------- match dump
EV6 = r"(\S+) (\S+) (-?\d+) (-?\d+) (-?\d+) (-?\d+)"
EV2 = r"(-?\d+) (-?\d+)"


def dump_re(ev):
    return re.compile(r"^Match\[(?:Hyp=%s (%s), )?(?:Ref=%s, )?Error=MatchError\[fp=(%s), fn=(%s)[^\]]*\]\]$"
                      % (ev, NUM, ev, NUM, NUM))


DUMP = {"icdar": (dump_re(EV6), 6), "simple": (dump_re(EV2), 2)}


def parse_dump(data, tool):
    """(matches, repeated), each a list of (hyp, score, ref, fp, fn)."""
    rx, n = DUMP[tool]
    parts = ([], [])
    k = 0
    need(data.endswith(b"\n"), "the dump does not end with a line end")
    for l in text(data).splitlines():
        if l.startswith("####"):
            need(k == 0, "two separators in the dump")
            k = 1
            continue
        if k == 1:
            need(l.startswith("## "), "unexpected line %r in the dump", l)
            l = l[3:]
        m = rx.match(l)
        need(m is not None, "unexpected line %r in the dump", l)
        g = m.groups()
        hyp, score, ref = g[:n], g[n], g[n + 1:2 * n + 1]
        conv = (lambda t: tuple([b(t[0]), b(t[1])] + [int(v) for v in t[2:]])) if tool == "icdar" \
            else (lambda t: tuple(int(v) for v in t))
        parts[k].append((conv(hyp) if hyp[0] is not None else None,
                         float(score) if score is not None else None,
                         conv(ref) if ref[0] is not None else None, float(g[-2]), float(g[-1])))
    need(k == 1, "the dump has no list of repeated matches")
    return parts


def cmp_dump(got, want, what, names=None):
    """want: model matches; names maps events to what the dump prints."""
    f = names or (lambda e: e)
    need(len(got) == len(want), "%s: %d entries, expected %d", what, len(got), len(want))
    for i, (g, m) in enumerate(zip(got, want)):
        hyp = f(m.hyp[:-1]) if m.hyp is not None else None
        ref = f(m.ref) if m.ref is not None else None
        need(g[0] == hyp and g[2] == ref, "%s %d: got hyp %r ref %r, expected hyp %r ref %r",
             what, i, g[0], g[2], hyp, ref)
        if hyp is not None:
            need(near6(g[1], m.hyp[-1]) or g[1] == float("%g" % m.hyp[-1]),
                 "%s %d: score %r, expected %r", what, i, g[1], m.hyp[-1])
        need(near6(g[3], m.fp) and near6(g[4], m.fn), "%s %d: error %r, expected %r",
             what, i, g[3:], (m.fp, m.fn))


def labels_of(refs, hyps, ms, rep, base=6):
    """What a case exercises, for the evidence."""
    l = set()
    hits = [m for m in ms if m.hyp is not None and m.ref is not None]
    fps = [m for m in ms if m.ref is None]
    fns = [m for m in ms if m.hyp is None]
    if hits and (fps or fns):
        l.add("mixed outcome")
    if rep:
        l.add("repeated match")
    if len(set(refs)) < len(refs):
        l.add("duplicate reference")
    sc = [h[-1] for h in hyps]
    if len(set(sc)) < len(sc):
        l.add("tied scores")
    if len({r[0] for r in refs} | {h[0] for h in hyps}) > 1:
        l.add("several queries")
    if {h[0] for h in hyps} - {r[0] for r in refs}:
        l.add("query without reference")
    if len(refs) + len(hyps) > 100:
        l.add("more than 100 events")
    if not refs or not hyps:
        l.add("an empty list")
    return l
