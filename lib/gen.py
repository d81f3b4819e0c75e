"""Generators shared by the checks: names, boxes, scores, event lists, options."""
import ctypes, decimal, struct

_libc = ctypes.CDLL(None)
_libc.strtof.restype = ctypes.c_float
_libc.strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


EXACT = decimal.Context(prec=400)
decimal.setcontext(EXACT)


def strtof(txt):
    return _libc.strtof(txt if isinstance(txt, bytes) else txt.encode(), None)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def next_f32(x, up=True):
    i = struct.unpack("i", struct.pack("f", x))[0]
    if x == 0:
        i = 1 if up else -0x7fffffff
    else:
        i += 1 if (x > 0) == up else -1
    return struct.unpack("f", struct.pack("i", i))[0]


def middle(rng):
    """Text of a number at or next to the middle of two neighbouring single-precision numbers."""
    a = f32(rng.choice([1.0, rng.random(), rng.uniform(0, 1e4), 10 ** rng.uniform(-9, 9)]))
    m = decimal.Decimal(a) + (decimal.Decimal(next_f32(a)) - decimal.Decimal(a)) / 2
    txt = "{:f}".format(m)
    k = rng.randrange(4)
    if k and "." in txt:
        if k == 1:
            txt += rng.choice(["1", "0" * rng.randint(1, 9) + rng.choice("159")])
        elif k == 2:      # one unit of the last place, or of one far behind it, less
            txt += "0" * rng.randint(1, 9)
            txt = "{:f}".format(EXACT.subtract(decimal.Decimal(txt), decimal.Decimal((0, (1,), decimal.Decimal(txt).as_tuple().exponent))))
        else:
            txt = txt[:max(txt.index(".") + 2, len(txt) - rng.randint(1, 4))]
    return rng.choice(["", "", "-"]) + txt


def fmt(s):
    """Text of a single-precision value that reads back as the same value."""
    return "%.9g" % s


# ------------------------------------------------------------------- names
POOLS = [
    ["q1", "q2", "q3"],
    ["a", "aa", "ab", "b", "A"],
    ["QUERY", "QUERY1", "QUERY10", "QUERY2", "query"],
    ["the", "he", "et", "t", "e"],
    ["\u00e9", "e", "\u00e9e", "\u4e2d", "z"],
    ["1", "01", "10", "-1", "2.5"],
    ["#x", "x#", "a,b", "x=1", "\"q\"", "--sort"],
    ["w" * 40, "w" * 39, "w" * 41, "w"],
    ["\x01", "\x7f", "a\x80", "~"],
]


def lookalikes(rng):
    """Names of one length that share all but a few characters, wherever those are."""
    n = rng.choice([2, 5, 8, 9, 12, 15, 16, 17, 23, 32, 33, 64, 100, 256, 300])
    base = [rng.choice("ab-_.0") for _ in range(n)]
    base[0] = rng.choice("ab")
    out = ["".join(base)]
    at = rng.choice([0, 0, 1, n // 2, n - 1, n - 1, rng.randrange(n)])
    for c in "cdxyz":
        o = list(base)
        o[at if rng.random() < .8 else rng.randrange(n)] = c
        out.append("".join(o))
    return sorted(set(out))


BYTES = [x for x in range(1, 256) if x not in (9, 10, 11, 12, 13, 32)]


def raw(rng, n=None):
    """A name of arbitrary bytes other than white space and NUL."""
    hi = rng.random() < .6
    v = bytes(rng.choice(BYTES) if hi or rng.random() < .2 else rng.choice(b"abc\xc2\xa0") for _ in range(n or rng.randint(1, 4)))
    return v.replace(b"#", b"\xc2").decode("utf-8", "surrogateescape")


def pool(rng, n=None, plain=False):
    """A list of distinct whitespace-free names, sometimes many."""
    r = rng.random()
    if r > 0.96 and n is None and not plain:
        return sorted({raw(rng) for _ in range(rng.randint(1, 6))})
    if r < 0.12:
        k = (rng.randint(5, 40) if rng.random() < .93 else rng.randint(40, 600)) if n is None else n
        base = rng.choice(["q", "word", "id-", "D"])
        return ["%s%d" % (base, i) for i in range(k)]
    p = list(rng.choice(POOLS[:6] if plain else POOLS)) if r < .85 else lookalikes(rng)
    rng.shuffle(p)
    return p[:rng.randint(1, len(p))]


def first_field_ok(name):
    return not name.startswith("#")


# ------------------------------------------------------------------- boxes
def box(rng, style):
    if style == "grid":       # tiny coordinates, many coincidences
        x, y, w, h = rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 4)
    elif style == "small":
        x, y, w, h = rng.randint(0, 20), rng.randint(0, 20), rng.randint(1, 12), rng.randint(1, 12)
    elif style == "page":
        x, y = rng.randint(0, 2000), rng.randint(0, 3000)
        w, h = rng.randint(10, 400), rng.randint(10, 120)
    elif style == "neg":
        x, y = rng.randint(-60, 10), rng.randint(-60, 10)
        w, h = rng.randint(0, 60), rng.randint(0, 60)
    elif style == "lines":    # same text line: only x varies
        x, y, w, h = rng.randint(0, 60), 100, rng.randint(1, 30), 20
    else:                     # huge: 32-bit coordinates
        m = 2 ** 31 - 1
        x, y = rng.randint(-m, m), rng.randint(-m, m)
        w, h = rng.randint(0, m), rng.randint(0, m)
    return [x, y, w, h]


STYLES = ["grid", "small", "page", "neg", "lines"]


def far(rng, bits=60):
    """A distance of any magnitude."""
    return rng.choice([-1, 1]) * rng.choice([rng.getrandbits(rng.randint(1, bits)), 1 << rng.randint(1, bits - 1)])


def derived(rng, b):
    """A box related to b; the kinds straddle the decision boundaries."""
    x, y, w, h = b
    k = rng.randrange(16)
    if k <= 2:
        return [x, y, w, h]
    if k == 3:      # covers half (or next to half) of itself
        return [x + (w + rng.randint(-1, 1)) // 2, y, w, h]
    if k == 4:
        return [x, y + (h + rng.randint(-1, 1)) // 2, w, h]
    if k == 5:      # twice as large: intersection is exactly half of it
        return [x, y, 2 * w + rng.choice([-1, 0, 0, 1]) if w > 0 else 1, h]
    if k == 6:
        return [x, y, w, max(0, 2 * h + rng.choice([-1, 0, 0, 1]))]
    if k == 7:      # nested inside
        dx, dy = rng.randint(0, max(0, w // 2)), rng.randint(0, max(0, h // 2))
        return [x + dx, y + dy, max(0, w - 2 * dx), max(0, h - 2 * dy)]
    if k == 8:      # around
        d, e = rng.randint(0, 1 + w // 4), rng.randint(0, 1 + h // 4)
        return [x - d, y - e, w + 2 * d, h + 2 * e]
    if k == 9:      # touching only
        return rng.choice([[x + w, y, w, h], [x, y + h, w, h], [x - w, y, w, h],
                           [x, y - h, w, h], [x + w, y + h, w, h]])
    if k == 10:     # one pixel common
        return rng.choice([[x + w - 1, y, w, h], [x, y + h - 1, w, h]])
    if k == 11:     # crossing
        return [x + w // 3, y - 1 - h // 3, max(0, w // 3), h + 2 + 2 * (h // 3)]
    if k == 12:     # transposed
        return [x, y, h, w]
    if k == 13:     # coordinates exchanged
        return [y, x, w, h]
    if k == 14:     # small perturbation
        return [x + rng.randint(-2, 2), y + rng.randint(-2, 2),
                max(0, w + rng.randint(-2, 2)), max(0, h + rng.randint(-2, 2))]
    return [x, y, 0, h] if rng.random() < .5 else [x, y, w, 0]


# ------------------------------------------------------------------ scores
def scorer(rng):
    """A function producing scores in one style."""
    k = rng.randrange(9)
    if k == 0:      # heavy ties
        vals = [0.0, 0.5, 1.0]
        return lambda: rng.choice(vals)
    if k == 1:
        return lambda: f32(rng.random())
    if k == 2:      # decimals with some ties
        return lambda: f32(rng.randint(0, 20) / 20.0)
    if k == 3:      # log probabilities
        return lambda: f32(-rng.random() * 50)
    if k == 4:      # adjacent floats
        b = f32(rng.choice([0.5, 1.0, -0.3, 100.0, 0.0, 1e-45, -3e-39, 1.17549421e-38, 1e-20, 65536.0, 16777216.0,
                            1e9, -1e30]))
        vals = [b]
        for _ in range(5):
            vals.append(next_f32(vals[-1]))
        if rng.random() < .3:       # close, but further apart than neighbours
            d = rng.choice([1e-2, 1e-4, 1e-5, 1e-6])
            vals = [f32(b * (1 + i * d) + (i * d if abs(b) < 1e-20 else 0)) for i in range(6)]
        return lambda: rng.choice(vals)
    if k == 5:      # signs and zeros
        vals = [0.0, -0.0, 1.0, -1.0, 1e-30, -1e-30, 1e-38]
        return lambda: f32(rng.choice(vals))
    if k == 6:      # extremes
        vals = [3e38, -3e38, 1e20, 1.0, 1e-37, -1e10, 3.4028234663852886e38, -3.4028234663852886e38]
        return lambda: f32(rng.choice(vals))
    if k == 7:      # integers
        return lambda: float(rng.randint(-3, 12))
    c = [rng.choice([0.5, 2.0])]
    return lambda: c[0]     # all equal


def distinct_scores(rng, hyps, col):
    """Gives every event its own score (in a random order)."""
    n = len(hyps)
    vals = list(range(n))
    rng.shuffle(vals)
    k = rng.randrange(3)
    for e, v in zip(hyps, vals):
        e[col] = f32(v / (n + 1.0)) if k == 0 else float(v - n // 2) if k == 1 else f32(-1.0 - v / 8.0)


# ------------------------------------------------------------- event lists
def count(rng, size):
    if size > 9999:
        return rng.randint(size * 7 // 8, size)
    return 0 if rng.random() < .04 else rng.randint(min(1, size), max(1, size))


def icdar(rng, size, style=None, plain=False, distinct=False):
    """References and hypotheses of the ICDAR tool."""
    style = style or rng.choice(STYLES)
    qs, ds = pool(rng, plain=plain), pool(rng, plain=plain)
    qs = [q for q in qs if first_field_ok(q)] or ["q"]
    if rng.random() < .4:
        ds = ds[:rng.randint(1, 2)]
    if rng.random() < .25:
        qs = qs[:1]
    nr, nh = count(rng, size), count(rng, size)
    if rng.random() < .12:
        nh = count(rng, min(size, 3))
    refs = []
    for _ in range(nr):
        if refs and rng.random() < .25:       # near-duplicate of another reference
            e = rng.choice(refs)
            b = derived(rng, e[2:])
            refs.append([e[0] if rng.random() < .8 else rng.choice(qs),
                         e[1] if rng.random() < .8 else rng.choice(ds)] + b)
        else:
            refs.append([rng.choice(qs), rng.choice(ds)] + box(rng, style))
    sc = scorer(rng)
    hyps = []
    p_rel = rng.choice([0.2, 0.6, 0.9])
    qx = qs + (["zz-only"] if rng.random() < .5 else [])
    for _ in range(nh):
        src = hyps if hyps and rng.random() < .25 else refs
        if src and rng.random() < p_rel:
            e = rng.choice(src)
            q = e[0] if rng.random() < .93 else rng.choice(qx)
            d = e[1] if rng.random() < .93 else rng.choice(ds)
            hyps.append([q, d] + derived(rng, e[2:6]) + [sc()])
        else:
            hyps.append([rng.choice(qx), rng.choice(ds)] + box(rng, style) + [sc()])
    if rng.random() < .05:                    # perfect submission
        hyps = [list(r) + [sc()] for r in refs]
    if distinct:
        distinct_scores(rng, hyps, 6)
    if style != "huge" and rng.random() < .06:    # the same far away from the origin
        dx, dy = far(rng), far(rng)
        for e in refs + hyps:
            e[2] += dx
            e[3] += dy
    return refs, hyps


def many_pages(rng, size):
    """Tens of thousands of events, few on each page."""
    refs, hyps = [], []
    tag = "-%d" if rng.random() < .5 else "/page/%06d.xml"
    sc = scorer(rng)
    while max(len(refs), len(hyps)) < size:
        r, h = icdar(rng, rng.choice([8, 30, 60]), plain=True)
        t = tag % (len(refs) + len(hyps))
        for e in r + h:
            e[1] += t
        if rng.random() < .8:
            for e in h:
                e[-1] = sc()
        refs += r
        hyps += h
    return refs, hyps


def many_queries(rng, tool):
    """Tens of thousands of queries, few events of each."""
    nq = rng.choice([300, 5000, 33000, 65536, 65537, 66000, 66500])
    sc = [rng.randint(1, 8) / 8. for _ in range(4)]
    box_ = [0, 0, 9, 9] if tool == "icdar" else []
    per = rng.choice([[1], [1], [1, 1, 1, 2], [0, 1, 1]])
    refs, hyps = [], []
    for i in range(nq):
        q = "q%d" % i
        for k in range(rng.choice(per)):
            refs.append([q, "d%d" % k] + box_)
        if rng.random() < .6:
            hyps.append([q, rng.choice(["d0", "d0", "d1", "e"])] + box_ + [rng.choice(sc)])
    rng.shuffle(refs)
    return refs, hyps


def simple(rng, size, plain=False, distinct=False):
    qs, ds = pool(rng, plain=plain), pool(rng, plain=plain)
    qs = [q for q in qs if first_field_ok(q)] or ["q"]
    if rng.random() < .3:
        ds = qs + ds                          # names common to both columns
    if rng.random() < .25:
        qs = qs[:1]
    nr, nh = count(rng, size), count(rng, size)
    refs = [[rng.choice(qs), rng.choice(ds)] for _ in range(nr)]
    sc = scorer(rng)
    qx = qs + (["zz-only"] if rng.random() < .5 else [])
    p_rel = rng.choice([0.1, 0.5, 0.9])
    hyps = []
    for _ in range(nh):
        if refs and rng.random() < p_rel:
            hyps.append(list(rng.choice(refs)) + [sc()])
        else:
            hyps.append([rng.choice(qx), rng.choice(ds), sc()])
    if distinct:
        distinct_scores(rng, hyps, 2)
    return refs, hyps


# ----------------------------------------------------------------- options
def curve_opts(rng):
    o = {}
    for k in ("collapse_matches", "interpolated_precision", "trapezoid_integral"):
        if rng.random() < .6:
            o[k] = rng.random() < .5
    return o


# Not a criterion, so hypotheses stay in file order.
BAD_SORTS = ["random", "DESC", "Asc", "None", "NONE", "ascending", "descending", "nonexistent", "des", "as", "non", "descc", "n", "d", "1",
             "score", "desc ", "asc,desc", "none.", "ndesc", "basc", "", ""]


def spell_bool(rng, name, v):
    """Argument vector fragments for a boolean option."""
    if v and rng.random() < .2:
        return ["--" + name]           # must be followed by an option or --
    return ["--" + name, rng.choice(["true", "1"] if v else ["false", "0"])]


def args_of(opts, spelling=0):
    """Command-line words for a dictionary of options, in a given spelling."""
    res = []
    for i, (k, v) in enumerate(sorted(opts.items())):
        if isinstance(v, bool):
            if v and (spelling >> i) & 1:
                res.append("--" + k)
            else:
                word = [["false", "true"], ["0", "1"]][(spelling >> (i + 5)) & 1][int(v)]
                res += ["--" + k, word]
        else:
            res += ["--" + k, "%r" % v if isinstance(v, float) else str(v)]
    return res + ["--"]


# ------------------------------------------------------------------- files
def b(s):
    return s.encode("utf-8", "surrogateescape")


def lines_icdar(events):
    return b("".join(" ".join([e[0], e[1]] + ["%d" % v for v in e[2:6]] +
                              [fmt(s) for s in e[6:]]) + "\n" for e in events))


def lines_simple(events):
    return b("".join(" ".join([e[0], e[1]] + [fmt(s) for s in e[2:]]) + "\n" for e in events))


def noisy(rng_seed, data, header=True):
    """The same content with comments, blank lines and different whitespace."""
    import random
    rng = random.Random(rng_seed)
    out = []
    for line in data.split(b"\n")[:-1]:
        while rng.random() < .2:
            out.append(rng.choice([b"", b"# comment", b"   ", b"\t# q d 1 2 3 4 5", b"#", b" \t \r"]))
        words = line.split(b" ")
        sep = rng.choice([b" ", b"  ", b"\t", b" \t ", b"\v", b"\f"])
        line = sep.join(words)
        line = rng.choice([b"", b"", b" ", b"\t"]) + line + rng.choice([b"", b"", b" ", b"\r", b" \t"])
        out.append(line)
    while rng.random() < .3:
        out.append(rng.choice([b"", b"# end", b"  "]))
    r = b"\n".join(out)
    return r if rng.random() < .4 else r + b"\n"
