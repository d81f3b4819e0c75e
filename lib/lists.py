"""Generated match lists and error sequences for the statistics (C05-C11)."""
from . import gen, model
from .gen import b, f32
from .kit import *

# A match in a case: [kind, query, id, score, fp, fn]; kind 0 hit, 1 false positive, 2 miss.
# The id is unique, so that every match can be told apart.
MIXES = [(5, 3, 2), (1, 1, 1), (0, 1, 1), (1, 0, 0), (1, 4, 4), (0, 1, 0), (0, 0, 1), (3, 0, 1)]
ENDS = {1: (1.0, 0.0), 2: (0.0, 1.0)}


def matches(rng, size, soft=None, ranked=True, queries=None):
    qs = queries or gen.pool(rng)
    soft = rng.random() < .3 if soft is None else soft
    sc = gen.scorer(rng)
    n = gen.count(rng, size)
    mix = rng.choice(MIXES)
    out = []
    tied, one = rng.random() < (.5 if n > 9999 else .08), sc()    # a long run of one score
    if tied and n > 9999:
        n, mix = size, rng.choice([(1, 0, 0), (0, 1, 0), (30, 1, 1), (0, 0, 1), (1, 1, 0)])
    drift = rng.random() < .4 and not (tied and n > 9999)                                     # phases of the ranking
    scs = sorted((sc() for _ in range(n)), reverse=True) if drift else None
    for i in range(n):
        if n > 12 and drift and rng.random() < 4 / n:      # phases: hits early and late, a long tail of wrong answers
            mix = rng.choice(MIXES)
        k = rng.choices((0, 1, 2), mix)[0]
        fp, fn = ENDS.get(k, (0.0, 0.0))
        if k == 0 and soft:
            fp, fn = f32(rng.choice([0.0, 0.25, 0.5, rng.random()])), f32(rng.choice([0.0, 0.125, 0.5, rng.random()]))
        out.append([k, rng.choice(qs), i, (one if tied and rng.random() < .98 + (n > 9999) * .0198 else scs[i] if drift else sc()) if k != 2 else 0.0, fp, fn])
    if ranked:
        out.sort(key=lambda m: (m[0] == 2, -m[3] if m[0] != 2 else 0))
        if rng.random() < .3:     # ranked as the tools do, ties mixed already by the stable sort
            hits = [m for m in out if m[0] != 2]
            rng.shuffle(hits)
            hits.sort(key=lambda m: -m[3])
            out = hits + [m for m in out if m[0] == 2]
    return out


def check_list(ms):
    """Rejects what shrinking may break."""
    ids = set()
    for k, q, i, s, fp, fn in ms:
        if k not in (0, 1, 2) or i in ids or i < 0:
            raise Invalid()
        ids.add(i)
        if k in ENDS and (fp, fn) != ENDS[k]:
            raise Invalid()
        if k == 0 and not (0 <= fp < 1 and 0 <= fn < 1):
            raise Invalid()


def words(ms):
    r = [len(ms)]
    for k, q, i, s, fp, fn in ms:
        r += [k, q, i, f32(s), f32(fp), f32(fn)]
    return r


def to_model(ms):
    out = []
    for k, q, i, s, fp, fn in ms:
        q = b(q)
        hyp = (q, i, f32(s)) if k != 2 else None
        ref = (q, i) if k != 1 else None
        out.append(model.M(hyp, ref, f32(fp), f32(fn)))
    return out


def read_ids(w):
    """(kind, id, query, score, fp, fn) of each match in a driver's answer."""
    return [(w.i(), w.i(), w.s(), w.d(), w.d(), w.d()) for _ in range(w.i())]


def ids_of(mms):
    return [(0 if m.hyp and m.ref else 1 if m.hyp else 2, (m.ref or m.hyp)[1], (m.ref or m.hyp)[0],
             m.hyp[-1] if m.hyp else 0.0, m.fp, m.fn) for m in mms]


def vec(w):
    return [w.d() for _ in range(w.i())]


def is_soft(ms):
    return any(m[4] not in (0.0, 1.0) or m[5] not in (0.0, 1.0) for m in ms)


def tolerance(ms, exact=1e-9, single=1e-5):
    """Rounding allowed in a statistic of these matches; sums of fractions are in single precision."""
    if len(ms) > 5000:
        return 2e-4 if is_soft(ms) else max(1e-7, exact)
    return single if is_soft(ms) else exact


# Error sequences: [fp, fn] or [fp, fn, nh, nr]
def errors(rng, size):
    kind = rng.choice(["plain", "counts"])
    n = gen.count(rng, size)
    mode = rng.choice(["hard", "hard", "soft"])
    mix = rng.choice(MIXES)
    phases = rng.random() < .5
    most = rng.choice([1, 1, 1, 1, 1, 5, 25])
    out = []
    for _ in range(n):
        if phases and rng.random() < max(4 / n, .1):
            mix = rng.choice(MIXES)
        def one():
            k = rng.choices((0, 1, 2), mix)[0]
            if k == 0 and mode == "soft":
                return [rng.randint(0, 63) / 64.0, rng.randint(0, 63) / 64.0, 1, 1]
            return [[0.0, 0.0, 1, 1], [1.0, 0.0, 1, 0], [0.0, 1.0, 0, 1]][k]
        if kind == "plain":
            out.append(one()[:2])
        else:
            e = [0.0, 0.0, 0, 0]
            for _ in range(rng.choice([1, 1, 1, 2, 3, 7, rng.randint(1, 40), 0]) * (most if n < 60 else 1)):
                e = [a + c for a, c in zip(e, one())]
            out.append(e)
    return kind, out


def giant(rng):
    """A few aggregated entries of many millions: more than single precision counts one by one."""
    out, left = [], rng.choice([2 ** 24, 2 ** 24 + 1, 2 ** 24 + 2, 17 * 10 ** 6 + 1, 20 * 10 ** 6 - 1, 2 ** 24 + 2 ** 22 + 1])
    for _ in range(rng.randint(1, 4)):
        nh = min(left, rng.choice([left, left, left // 2, rng.randint(0, left), rng.randint(1, 9)]))
        left -= nh
        fp = rng.choice([0, 0, nh // 4, nh // 2, nh, nh - 1]) & ~1 if nh else 0
        fn = rng.choice([0, 0, rng.randint(0, 1000), rng.randint(0, 2 * 10 ** 6)]) & ~1
        out.append([float(fp), float(fn), nh, nh - fp + fn])
    return out


def totals(rng):
    """Aggregated entries of thousands of millions: more than an int counts."""
    def exact(n):      # what single precision can hold
        k = max(0, int(n).bit_length() - 24)
        return float(int(n) >> k << k)
    out = []
    for _ in range(rng.randint(1, 9)):
        nh = rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, rng.randint(1, 2 ** 31), rng.randint(1, 2 ** 34)])
        fp = exact(rng.choice([0, 0, nh // 4, nh // 2, rng.randint(0, nh), nh]))
        fn = exact(rng.choice([0, 0, 1, 2 ** 31, 2 ** 32, rng.randint(0, 2 ** 30), rng.randint(0, 2 ** 34)]))
        out.append([fp, fn, nh, nh - int(fp) + int(fn)])
    return out


def length(kind, es):
    return sum(int(e[2] + e[3]) for e in es) if kind != "plain" else len(es)


def entries_of(kind, es):
    if kind != "plain":
        return [tuple(e) for e in es]
    return [(fp, fn, 1 if fp > 0 or fn < 1 else 0, 1 if fp < 1 or fn > 0 else 0) for fp, fn in es]


def check_errors(kind, es):
    for e in es:
        if kind == "plain":
            fp, fn = e
            nh = 1 if fp > 0 or fn < 1 else 0
            nr = 1 if fp < 1 or fn > 0 else 0
        else:
            fp, fn, nh, nr = e
        if (fp * 64) % 1 or (fn * 64) % 1 or not 0 <= fp <= nh or not 0 <= fn <= nr or nh != int(nh) or nr != int(nr):
            raise Invalid()
        # what is correct of the hypotheses needs references to be correct about
        if nh - fp > nr or kind == "plain" and (fp, fn) == (1.0, 1.0):
            raise Invalid()


def ask_errors(env, case, real="double"):
    kind, es = case["kind"], case["errors"]
    check_errors(kind, es)
    flat = []
    for e in es:
        flat += [float(e[0]), float(e[1])] + [int(v) for v in e[2:]]
    w = env.drv("drv_assess").ask("errors", real, kind, len(es), *flat)
    r = dict(total=w.i())
    for interp in (False, True):
        r[interp] = dict(pr=vec(w), rc=vec(w))
        for trap in (False, True):
            r[interp][trap] = (w.d(), w.d())
    r["ndcg"] = w.d()
    return r, entries_of(kind, es)


def ask_list(env, ms):
    """The driver's view of one ranked list of matches."""
    w = env.drv("drv_assess").ask("list", *words(ms))
    r = dict(collapsed=[(w.d(), w.d(), w.i(), w.i()) for _ in range(w.i())],
             errors=[(w.d(), w.d(), w.i(), w.i()) for _ in range(w.i())],
             sorted=read_ids(w))
    for col in (False, True):
        r[col] = {}
        for i in (False, True):
            d = r[col][i] = dict(pr=vec(w), rc=vec(w))
            for t in (False, True):
                d[t] = (w.d(), w.d())
        r[col]["ndcg"] = (w.d(), w.d())
    return r


def list_entries(mm, col):
    return model.collapse(mm) if col else model.entries(mm)


def shuffle_ties(rng, ms):
    """Another order inside each run of equal scores."""
    out, run = [], []
    key = lambda m: (m[0] == 2, m[3] if m[0] != 2 else 0)
    for m in ms:
        if run and key(run[-1]) != key(m):
            rng.shuffle(run)
            out += run
            run = []
        run.append(m)
    rng.shuffle(run)
    return out + run
