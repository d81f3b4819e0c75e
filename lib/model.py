"""Reference model of the evaluation, written from the properties.

Events are tuples (query, document, x, y, w, h) resp. (query, location) with
names as bytes; hypotheses carry a single-precision score at the end.
"""
import math
from collections import OrderedDict
from .gen import f32


class Ambiguous(Exception):
    """The outcome depends on rounding that the properties leave open."""


# ---------------------------------------------------------------- geometry
def inter(a, b):
    w = min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0])
    h = min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1])
    return w * h if w > 0 and h > 0 else 0


def exact32(n):
    return f32(n) == n


def ratio_at_least(num, den, thr, lenient=False):
    """num/den >= thr to single precision; thr is a single-precision value."""
    if exact32(num) and exact32(den):
        return f32(num / den) >= thr
    if abs(num - thr * den) <= 1e-6 * max(abs(thr), 1e-3) * den:
        raise Ambiguous()
    return num >= thr * den


class IoHA:
    """Intersection over hypothesis area against a threshold; boxes."""

    def __init__(self, thr=0.5):
        self.thr = f32(thr)

    def __call__(self, r, h):
        area = h[4] * h[5]
        if r[0] == h[0] and area > 0:
            i = inter(r[2:6], h[2:6]) if r[1] == h[1] else 0
            if ratio_at_least(i, area, self.thr):
                return 0.0, 0.0
        return 1.0, 1.0


class IoU(IoHA):
    def __call__(self, r, h):
        area = h[4] * h[5]
        if r[0] == h[0] and area > 0:
            i = inter(r[2:6], h[2:6]) if r[1] == h[1] else 0
            if ratio_at_least(i, area + r[4] * r[5] - i, self.thr):
                return 0.0, 0.0
        return 1.0, 1.0


def soft(r, h):
    if r[0] != h[0]:
        return 1.0, 1.0
    i = inter(r[2:6], h[2:6]) if r[1] == h[1] else 0
    ha, ra = h[4] * h[5], r[4] * r[5]
    return (1.0 - i / ha if ha > 0 else 1.0), (1.0 - i / ra if ra > 0 else 1.0)


def trivial(r, h):
    return (0.0, 0.0) if tuple(r[:2]) == tuple(h[:2]) else (1.0, 1.0)


# ---------------------------------------------------------------- matching
def overlapping(refs_index, h, nbase):
    """Stored references overlapping h, by decreasing area then decreasing event."""
    if nbase == 2:
        return [h[:2]] if h[:2] in refs_index else []
    c = []
    for r in refs_index.get((h[0], h[1]), ()):
        a = inter(r[2:6], h[2:6])
        if a > 0:
            c.append((a, r))
    c.sort(reverse=True)
    return [r for _, r in c]


class M:
    """A match: hyp/ref events or None, fp and fn."""
    __slots__ = ("hyp", "ref", "fp", "fn")

    def __init__(self, hyp, ref, fp, fn):
        self.hyp, self.ref, self.fp, self.fn = hyp, ref, fp, fn

    def nh(self):
        return 1 if self.fp > 0 or self.fn < 1 else 0

    def nr(self):
        return 1 if self.fp < 1 or self.fn > 0 else 0

    def query(self):
        return (self.ref or self.hyp)[0]

    def __repr__(self):
        return "M(hyp=%r ref=%r fp=%g fn=%g)" % (self.hyp, self.ref, self.fp, self.fn)


def index(refs, nbase):
    if nbase == 2:
        return set(refs)
    ix = {}
    for r in set(refs):
        ix.setdefault((r[0], r[1]), []).append(r)
    return ix


def match(refs, hyps, score, nbase):
    """hyps in ranking order.  Returns (matches, repeated)."""
    ix = index(refs, nbase)
    free = set(refs)
    res, rep = [], []
    for h in hyps:
        any_ = False
        for r in overlapping(ix, h, nbase):
            fp, fn = score(r, h)
            if fp < 1.0:
                any_ = True
                if r in free:
                    free.discard(r)
                    res.append(M(h, r, fp, fn))
                    break
                rep.append(M(h, r, fp, fn))
        if not any_:
            res.append(M(h, None, 1.0, 0.0))
    for r in sorted(free):
        res.append(M(None, r, 0.0, 1.0))
    return res, rep


def rank(hyps, how, nbase):
    """Hypotheses in ranking order: score, then the event itself."""
    if how == "desc":
        return sorted(hyps, key=lambda h: (h[nbase], h[:nbase]), reverse=True)
    if how == "asc":
        return sorted(hyps, key=lambda h: (h[nbase], h[:nbase]))
    return list(hyps)


# ------------------------------------------------------------------ errors
# An error entry is (fp, fn, nh, nr).
def entries(matches):
    return [(m.fp, m.fn, m.nh(), m.nr()) for m in matches]


def collapse(matches):
    out, last = [], None
    for m in matches:
        s = m.hyp[-1] if m.hyp is not None else None
        e = (m.fp, m.fn, m.nh(), m.nr())
        if out and s == last:
            out[-1] = tuple(a + b for a, b in zip(out[-1], e))
        else:
            out.append(e)
        last = s
    return out


def pr_rc(es, interp):
    tr = sum(e[3] for e in es)
    fp = fn = 0.0
    nh = nr = 0
    pr, rc = [], []
    for e in es:
        fp += e[0]
        fn += e[1]
        nh += e[2]
        nr += e[3]
        pr.append((nh - fp) / nh if nh else 1.0)
        rc.append((nr - fn) / tr if tr else 1.0)
    if interp:
        for i in range(len(pr) - 2, -1, -1):
            pr[i] = max(pr[i], pr[i + 1])
    return pr, rc


def ap(pr, rc, trap):
    s = 0.0
    for i in range(len(pr)):
        gain = rc[i] - (rc[i - 1] if i else 0.0)
        s += gain * (0.5 * (pr[i] + pr[i - 1]) if trap and i else pr[i])
    return s


_disc = [0.0]


def li(x):
    """The logarithmic integral."""
    l = math.log(x)
    s, t, k = 0.5772156649015329 + math.log(l), 1.0, 1
    while k < 400:
        t *= l / k
        s += t / k
        k += 1
    return s


def disc(k):
    """1/log2(2) + ... + 1/log2(k+1)"""
    if k > 2 * 10 ** 6:      # Euler and Maclaurin
        a, c, f = 10 ** 5, math.log(2), lambda x: math.log(2) / math.log(x + 1)
        d = lambda x: -math.log(2) / ((x + 1) * math.log(x + 1) ** 2)
        return disc(a) + c * (li(k + 1.0) - li(a + 1.0)) + (f(k) - f(a)) / 2 + (d(k) - d(a)) / 12
    while len(_disc) <= k:
        _disc.append(_disc[-1] + 1.0 / math.log2(len(_disc) + 1))
    return _disc[k]


def ndcg(es):
    tr = sum(e[3] for e in es)
    if tr == 0:
        return 0.0
    k, dcg = 0, 0.0
    for fp, fn, nh, nr in es:
        if nh > 0:
            r = (nh - fp) / nh
            dcg += (2.0 ** r - 1.0) * (disc(k + nh) - disc(k))
            k += nh
    return dcg / disc(tr)


def group(matches, key=None):
    gs = OrderedDict()
    for m in matches:
        g = m.query() if key is None else key(m.query())
        gs.setdefault(g, []).append(m)
    return list(gs.values())


def metrics(matches, opts, key=None):
    """gAP, mAP, gNDCG, mNDCG."""
    c = opts.get("collapse_matches", True)
    i = opts.get("interpolated_precision", True)
    t = opts.get("trapezoid_integral", True)

    def one(ms):
        es = collapse(ms) if c else entries(ms)
        p, r = pr_rc(es, i)
        return ap(p, r, t), ndcg(es)
    g = one(matches)
    per = [one(ms) for ms in group(matches, key)]
    n = len(per)
    return (g[0], sum(p[0] for p in per) / n if n else 0.0,
            g[1], sum(p[1] for p in per) / n if n else 0.0)


def sample(rc, pr, x, linear):
    """Precision at recall x, by the definition of the curve files."""
    for j in range(len(rc)):
        if rc[j] >= x:
            if not linear or j == 0:
                return pr[j]
            t = (x - rc[j - 1]) / (rc[j] - rc[j - 1])
            return pr[j - 1] + t * (pr[j] - pr[j - 1])
    return 0.0


def sample_range(rc, pr, x, linear, eps=1e-9):
    """The values allowed at x when recalls carry rounding errors: [lo, hi].

    A sampling point that coincides with a recall of the curve may fall on
    either side of it by rounding, so both neighbours are allowed there,
    unless the point (0, 1, 1/2, 3/4, ...) is exact in binary.
    """
    v = [sample(rc, pr, x, linear)]
    if (x * 1024) % 1 and any(abs(r - x) <= eps for r in rc):
        v += [sample(rc, pr, x - eps, linear), sample(rc, pr, x + eps, linear)]
    return min(v), max(v)


# ------------------------------------------------------------------- whole
def evaluate(refs, hyps, opts, tool, qset=None, groups=None):
    """refs/hyps: tuples with bytes names.  Returns (metrics, matches, repeated, groups)."""
    nbase = 6 if tool == "icdar" else 2
    key = None
    if groups is not None:
        q2g = {}
        for line in groups:
            for q in line[1:]:
                q2g[q] = line[0]
        refs = [r for r in refs if r[0] in q2g]
        hyps = [h for h in hyps if h[0] in q2g]
        key = q2g.__getitem__
    elif qset is not None:
        s = set(qset)
        refs = [r for r in refs if r[0] in s]
        hyps = [h for h in hyps if h[0] in s]
    hyps = rank(hyps, opts.get("sort", "desc"), nbase)
    ms, rep = match(refs, hyps, IoHA() if tool == "icdar" else trivial, nbase)
    return metrics(ms, opts, key), ms, rep, group(ms, key)
