"""C20: matches and error counts are independent values without leaks."""
from lib.kit import *

FRAC = [0.0, 0.0, 1.0, 1.0, 0.5, 0.25, 0.125, 0.96875]
QS = ["q", "", "a longer query that is not stored in place", "q2"]
ARGS = {"hit": 6, "fp": 2, "fn": 2, "err": 2, "ferr": 2, "ref": 2, "hyp": 2, "refof": 1, "hypof": 1, "copy": 1, "assign": 1,
        "move": 1, "movec": 1, "chain": 2, "vec": 0, "cmp": 1, "put": 0}


def nh(e):
    return 1 if e[0] > 0 or e[1] < 1 else 0


def nr(e):
    return 1 if e[0] < 1 or e[1] > 0 else 0


def beside(rng, x):
    """A number that is hard to tell from x."""
    return rng.choice([gen.next_f32(x, True), max(0.0, gen.next_f32(x, False)), f32(x + rng.choice([1e-45, 1e-30, 1e-12, 1e-7, 1e-5]))])


class Matches(Mode):
    name = "matches"
    targets = ("drv_val",)
    drv = "drv_val"
    quick, thorough = 60000, 3000000
    fixed = ()
    rule = ("histories of construction, copying, assignment (also to itself), moving, setting and storing of matches with "
            "events that count themselves, against values; non-trivial: a copied or assigned match changed later on")

    def gen(self, rng, size):
        n = rng.choice([1, 2, 3, 5, 8])
        ops, seen = [], [[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]]
        # after a move, the source is given a new value
        for _ in range(rng.choice([4, 10, 30, min(size, 80) + 1, size])):
            op = rng.choices(list(ARGS), (4, 2, 2, 2, 1, 3, 3, 1, 1, 3, 6, 2, 1, 1, .7, 3, 1))[0]
            i, j, k = (rng.randrange(n) for _ in range(3))
            if rng.random() < .1:
                j = i
            e = lambda: [rng.choice(QS), rng.randrange(3)]
            def f():
                if seen and rng.random() < .3:
                    v = list(rng.choice(seen))
                    k = rng.randrange(2)
                    v[k] = beside(rng, v[k])
                else:
                    v = [rng.choice(FRAC), rng.choice(FRAC)]
                seen.append(v)
                return v
            if op == "hit":
                ops.append([op, i] + e() + e() + f())
            elif op in ("fp", "fn", "ref", "hyp"):
                ops.append([op, i] + e())
            elif op in ("err", "ferr"):
                ops.append([op, i] + f())
            elif op == "chain":
                ops.append([op, i, j, k])
            elif ARGS[op] == 1:
                ops.append([op, i, j])
            else:
                ops.append([op, i])
            if op in ("move", "movec") and i != j:
                ops.append([rng.choice(["fp", "fn"]), j] + e())
        return dict(n=n, ops=ops)

    def run(self, case, env):
        n = case["n"]
        if not 1 <= n <= 16:
            raise Invalid()
        slot = [dict(err=(0.0, 0.0), ref=None, hyp=None) for _ in range(n)]     # None: moved from
        msg, want, nt, tied = [n], [], False, set()
        for op in case["ops"]:
            if len(op) < 2 or op[0] not in ARGS or len(op) != 2 + ARGS[op[0]] or any(isinstance(x, int) and x < 0 for x in op):
                raise Invalid()
            o, i = op[0], op[1] % n
            if o in ("hit", "err", "ferr"):
                op = op[:-2] + [f32(float(op[-2])), f32(float(op[-1]))]
            msg += op
            if o in ("hit", "fp", "fn", "err", "ferr", "ref", "hyp") and i in tied:
                nt = True
            if o == "hit":
                slot[i] = dict(err=(op[6], op[7]), ref=(b(op[2]), op[3]), hyp=(b(op[4]), op[5]))
            elif o == "fp":
                slot[i] = dict(err=(1.0, 0.0), ref=None, hyp=(b(op[2]), op[3]))
            elif o == "fn":
                slot[i] = dict(err=(0.0, 1.0), ref=(b(op[2]), op[3]), hyp=None)
            elif o == "ferr":
                slot[i] = dict(err=(op[2], op[3]), ref=None, hyp=None)
            elif o in ("err", "ref", "hyp"):
                if slot[i] is None:
                    raise Invalid()
                slot[i] = dict(slot[i], **{o: (op[2], op[3]) if o == "err" else (b(op[2]), op[3])})
            elif o in ("refof", "hypof"):
                j = op[2] % n
                if slot[i] is None or slot[j] is None:
                    raise Invalid()
                if slot[j][o[:3]] is not None:
                    slot[i] = dict(slot[i], **{o[:3]: slot[j][o[:3]]})
            elif o in ("copy", "assign", "move", "movec"):
                j = op[2] % n
                slot[i] = slot[j]
                tied |= {i, j}
                if o in ("move", "movec") and i != j:
                    slot[j] = None
                if o == "movec" and i == j and False:
                    pass
            elif o == "chain":
                j, k = op[2] % n, op[3] % n
                slot[j] = slot[k]
                slot[i] = slot[k]
                tied |= {i, j, k}
            elif o == "vec":
                if any(s is None for s in slot):
                    raise Invalid()
            elif o == "cmp":
                x, y = slot[i], slot[op[2] % n]
                if x is None or y is None:
                    raise Invalid()
                want.append(("cmp", op, x == y))
            else:
                if slot[i] is None:
                    raise Invalid()
                want.append(("put", op, slot[i]))
        if any(s is None for s in slot):
            raise Invalid()
        w = env.drv(self.drv).ask("match", *msg)
        for kind, op, v in want:
            if kind == "cmp":
                got = (w.b(), w.b(), w.b(), w.b())
                need(got == (v, not v, v, not v), "%r: == != and their reverses give %r for %s matches", op, got,
                     "equal" if v else "different")
            else:
                self.same(w, v, "%r" % op)
        need(w.raw() == "end", "protocol")
        for i, s in enumerate(slot):
            self.same(w, s, "match %d in the end" % i)
        need(w.i() == 0, "memory is left allocated (or released twice) after the history")
        need(w.i() == 0, "events are left alive (or destroyed twice) after the history")
        return {"nontrivial"} if nt else set()

    def same(self, w, s, what):
        e = (w.d(), w.d())
        need(e == s["err"], "%s: error %r, expected %r", what, e, s["err"])
        h, r = w.i(), w.i()
        need((h, r) == (nh(e), nr(e)), "%s: error %r implies %d hypotheses and %d references", what, e, h, r)
        for k in ("ref", "hyp"):
            g = (w.s(), w.i()) if w.b() else None
            need(g == s[k], "%s: %s is %r, expected %r", what, k, g, s[k])


class MatchesSan(Matches):
    name = "matches-sanitized"
    targets = ("drv_val_san",)
    drv = "drv_val_san"
    quick, thorough = 8000, 400000
    rule = "the same with AddressSanitizer and UndefinedBehaviorSanitizer"


class Counts(Mode):
    name = "counts"
    targets = ("drv_val",)
    quick, thorough = 30000, 1000000
    fixed = ()
    rule = "error counts added up from both sides, in place and in halves; non-trivial: at least three different ones"

    def gen(self, rng, size):
        n = rng.choice([0, 1, 2, 3, min(size, 20)])
        one = lambda: [rng.randint(0, 64) / 64.0 if rng.random() < .5 else rng.choice([0.0, 1.0]) for _ in range(2)]
        out = []
        for _ in range(n):
            e = one()
            if rng.random() < .4:
                e = [rng.randint(0, 640) / 64.0, rng.randint(0, 640) / 64.0]
            out.append(e + [rng.choice([0, 1, 1, 2, 10, 2 ** 40]), rng.choice([0, 1, 1, 3, 2 ** 33])])
            if out and rng.random() < .3:
                c = list(rng.choice(out))
                k = rng.randrange(3)
                if k == 1:
                    c[rng.randrange(2)] += 1
                elif k == 2:
                    j = rng.randrange(2)
                    c[j] = beside(rng, c[j])
                out.append(c)
        return dict(es=out)

    def run(self, case, env):
        es = case["es"]
        odd = any(e[0] * 64 % 1 or e[1] * 64 % 1 for e in es)     # sums are rounded
        if any(len(e) != 4 or f32(e[0]) != e[0] or f32(e[1]) != e[1] or min(e) < 0 or max(e[:2]) > 2000 or e[2] % 1 or e[3] % 1 for e in es):
            raise Invalid()
        w = env.drv("drv_val").ask("counts", len(es), *[x for e in es for x in (float(e[0]), float(e[1]), int(e[2]), int(e[3]))])
        get = lambda: (w.d(), w.d(), w.i(), w.i())
        tot = tuple(sum(c) for c in zip(*es)) if es else (0, 0, 0, 0)
        plain = tot[:2] + (sum(nh(e) for e in es), sum(nr(e) for e in es))
        for what, t in (("from the left", tot), ("from the right", tot), ("in place", tot), ("of plain errors", plain),
                        ("of halves", tot), ("of halves in place", tot), ("with itself", tuple(2 * x for x in tot))):
            g = get()
            if odd:
                need(all(abs(x - y) <= 1e-5 * (1 + y) for x, y in zip(g[:2], t)), "sum %s is %r, expected %r", what, g, t)
                g, t = g[2:], t[2:]
            need(g == t, "sum %s is %r, expected %r", what, g, t)
        for e in es:
            g = (w.i(), w.i())
            need(g == (nh(e), nr(e)), "error %r implies %r", e[:2], g)
            g = get()
            need(g == (e[0], e[1], nh(e), nr(e)), "counts of the error %r are %r", e[:2], g)
            w.b()
        for e in es:
            g = get()
            need(g == tuple(e), "counts made from %r, taken as an error, are %r", e, g)
        g = get()
        need(all(abs(x - y) <= 1e-5 * (1 + y) * odd for x, y in zip(g[:2], tot)) and g[2:] == tot[2:],
             "the sum of counts, taken as errors, is %r, expected %r", g, tot)
        for k, part in ((4, es), (2, [e[:2] for e in es])):
            for x in part:
                for y in part:
                    g = (w.b(), w.b())
                    need(g == (x == y, x != y), "== and != of %r and %r give %r", x, y, g)
        need(w.end(), "protocol")
        return {"nontrivial"} if len({tuple(e) for e in es}) > 2 else set()


class Owners(Mode):
    name = "owners"
    targets = ("drv_val", "drv_val_san")
    quick, thorough = 1500, 20000
    rule = "mappers and matchers, owning or not, copied and assigned, over n strings and events; non-trivial: n > 5"

    def gen(self, rng, size):
        return dict(n=rng.choice([0, 1, 2, 7, min(size, 1500)]), s=rng.choice(QS), san=rng.random() < .15)

    def run(self, case, env):
        if not 0 <= case["n"] < 2000:
            raise Invalid()
        w = env.drv("drv_val_san" if case["san"] else "drv_val").ask("owners", case["n"], case["s"])
        a, c = w.i(), w.i()
        need(a == 0, "mappers leave %d blocks allocated", a)
        need(c == 0, "matchers and event sets leave %d blocks allocated", c)
        return {"nontrivial"} if case["n"] > 5 else set()


CHECK = CheckRunner("C20", [Matches(), MatchesSan(), Counts(), Owners()],
                    ["a match that was moved from may hold anything until it gets a new value",
                     "fractions are multiples of 1/64, so sums are exact"])
