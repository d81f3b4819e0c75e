"""C14: comparison operators agree with one total order."""
from lib.kit import *

# fields of each kind: s string, 4/8 32/64-bit integers, d double, f float; in driver order
KINDS = {"box32": "4444", "box64": "8888", "boxf": "dddd", "doc": "s8888", "evs": "ss", "evi": "44",
         "shaped": "ss8888", "scored": "ss8888f", "scoredi": "44f", "scoreds": "ssf"}
STR = ["", "a", "b", "aa", "ab", "A", "\u00e9", "\x7f", "\x01", "a\x00", "a\x00b", "Z", "10", "9", "\uffff"]
NUM = {"4": [0, 1, -1, 2, 10, 9, 2 ** 31 - 1, -2 ** 31], "8": [0, 1, -1, 2, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 32],
       "d": [0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 1.0000000000000002, 1e-300],
       "f": [0.0, -0.0, 1.0, -1.0, 0.5, 3.4e38, -3.4e38, 1.0000001192092896, 1e-38]}
LIM = {"4": 2 ** 31, "8": 2 ** 63}


def differ(rng, s):
    """A string of the same length that differs in one place, often the last."""
    if not s:
        return s
    k = rng.choice([0, len(s) - 1, len(s) - 1, len(s) // 2, rng.randrange(len(s))])
    return s[:k] + rng.choice("aklz\x01\u00e9") + s[k + 1:]


def value(rng, t):
    if t == "s":
        r = rng.random()
        if r < .3:      # one of two lengths, differing in one place at most
            n = rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 255, 256, 257])
            return differ(rng, "k" * n)
        return rng.choice(STR) if r < .75 else rng.choice(["x", "y"]) * rng.randint(1, 3)
    if rng.random() < .5:
        v = rng.choice(NUM[t])
    else:
        v = rng.randint(-3, 3)
    return f32(float(v)) if t == "f" else float(v) if t == "d" else v


def key(kind, v):
    """The tuple the order is lexicographic over."""
    t = tuple(b(x) if isinstance(x, str) else x for x in v)
    if kind.startswith("scored"):
        return (t[-1],) + t[:-1]
    return t


class Order(Mode):
    name = "order"
    targets = ("drv_geo",)
    quick, thorough = 500000, 20000000
    fixed = ("objs", "a", "b", "c")
    rule = ("triples of objects that share most fields, all nine ordered pairs under all six operators; non-trivial: the "
            "three are not all equal and agree pairwise in at least one field")

    def gen(self, rng, size):
        kind = rng.choice(list(KINDS))
        fs = KINDS[kind]
        a = [value(rng, t) for t in fs]
        out = [a]
        for _ in range(2):
            o = list(rng.choice(out))
            for k in range(len(fs)):
                if rng.random() < rng.choice([.1, .3, .6]):
                    o[k] = differ(rng, o[k]) if fs[k] == "s" and rng.random() < .5 else value(rng, fs[k])
            if rng.random() < .15:
                i, j = rng.randrange(len(fs)), rng.randrange(len(fs))
                if fs[i] == fs[j]:
                    o[i], o[j] = o[j], o[i]
            out.append(o)
        rng.shuffle(out)
        return dict(kind=kind, a=out[0], b=out[1], c=out[2])

    def run(self, case, env):
        kind, fs = case["kind"], KINDS[case["kind"]]
        objs = [case["a"], case["b"], case["c"]]
        for o in objs:
            for t, v in zip(fs, o):
                if t in LIM and not -LIM[t] <= v < LIM[t]:
                    raise Invalid()
        flat = [(f32(float(v)) if t == "f" else float(v) if t == "d" else v) for o in objs for t, v in zip(fs, o)]
        n = len(fs)
        objs = [flat[k * n:k * n + n] for k in range(3)]
        w = env.drv("drv_geo").ask("cmp", kind, *flat)
        ks = [key(kind, o) for o in objs]
        for i in range(3):
            for j in range(3):
                x, y = ks[i], ks[j]
                want = "".join("01"[r] for r in (x < y, x <= y, x == y, x != y, x >= y, x > y))
                got = w.raw()
                need(got == want, "%s: the operators < <= == != >= > of %r and %r give %s, expected %s",
                     kind, objs[i], objs[j], got, want)
        need(w.i() == len(set(ks)), "an ordered set of %r", objs)
        need(w.raw() == "011010", "%s: a copy of %r does not compare equal to it", kind, objs[1])
        l = {kind}
        same = lambda p, q: sum(s == t for s, t in zip(p, q))
        if len(set(ks)) > 1 and same(ks[0], ks[1]) and same(ks[1], ks[2]) and same(ks[0], ks[2]):
            l.add("nontrivial")
        if len(set(ks)) == 2:
            l.add("two of three equal")
        return l


CHECK = CheckRunner("C14", [Order()], ["coordinates and scores that are not numbers (NaN) are not ordered"])
