"""C15: event sets under histories of operations."""
from lib.kit import *


def ev(case_kind, e):
    return tuple([b(e[0]), b(e[1])] + list(e[2:])) if case_kind != "plain" else tuple(e)


# the coordinate types of the shaped kinds: value of one step
STEP = {"shaped": 1, "shaped32": 1, "shapedd": .125, "shapedf": .125}


class Histories(Mode):
    name = "histories"
    targets = ("drv_match",)
    quick, thorough = 150000, 4000000
    big = 70000
    rule = ("random histories of insertions, removals, clears, range constructions, copies and queries of two sets over few "
            "events, against model sets; non-trivial: a query answered with two or more events after a removal or a repeated insertion")

    def gen(self, rng, size):
        kind = rng.choice(["shaped", "shaped", "shaped", "shaped32", "shapedd", "shapedf", "plain", "strings"])
        ops = []
        if size == self.big:
            if rng.random() < .4:      # all in one place
                pool = []
                for _ in range(rng.choice([1100, 3000, 5000])):
                    e = rng.choice(pool) if pool and rng.random() < .3 else ["q", "d", rng.randint(0, 2000), rng.randint(0, 2000), 9, 9]
                    pool.append(e[:2] + gen.derived(rng, e[2:]))
                ops = [["n", pool]] if rng.random() < .3 else [["i", e] for e in pool]
                for _ in range(60):
                    ops.append([rng.choice("rriff"), rng.choice(pool)])
                for _ in range(6):
                    k = rng.choice([300, 900, 3000])
                    ops.append(["f", ["q", "d", rng.randint(-9, 1500), rng.randint(-9, 1500), k, 2 * k]])
                ops.append(["f", ["q", "d", -100, -100, 5000, 5000]])
                return dict(kind="shaped", ops=ops)
            refs, hyps = gen.many_pages(rng, size)
            pool = refs + [h[:6] for h in hyps[:2000]]
            ops = [["n", refs]] if rng.random() < .3 else [["i", e] for e in refs]
            for _ in range(1500):
                ops.append([rng.choice("rriff"), rng.choice(pool)])
            return dict(kind="shaped", ops=ops)
        if kind == "plain":
            pool = [[rng.randint(-2, 4), rng.randint(-2, 4)] for _ in range(rng.randint(1, 12))]
            other = lambda: [rng.randint(-2, 4), rng.randint(-2, 4)]
        elif kind == "strings":
            names = gen.pool(rng)[:5] + ["", "x"]
            other = lambda: [rng.choice(names), rng.choice(names)]
            pool = [other() for _ in range(rng.randint(1, 12))]
        else:
            style = rng.choice(gen.STYLES)
            qs, ds = gen.pool(rng)[:3], gen.pool(rng)[:rng.choice([1, 2, 3, 5])]
            pool = []
            for _ in range(rng.choice([2, 4, 8, 16, 30, min(size, 200)])):
                if pool and rng.random() < .6:
                    e = rng.choice(pool)
                    pool.append([e[0] if rng.random() < .85 else rng.choice(qs), e[1] if rng.random() < .9 else rng.choice(ds)] +
                                gen.derived(rng, e[2:]))
                else:
                    pool.append([rng.choice(qs), rng.choice(ds)] + gen.box(rng, style))

            base = pool

            def other():
                e = rng.choice(base)
                return [e[0] if rng.random() < .9 else rng.choice(qs + ["none"]), e[1] if rng.random() < .9 else rng.choice(ds)] + \
                    gen.derived(rng, e[2:])
            if kind == "shaped" and rng.random() < .15:
                dx, dy = gen.far(rng), gen.far(rng)
                moved = lambda e: [e[0], e[1], e[2] + dx, e[3] + dy, e[4], e[5]]
                pool, other = [moved(e) for e in pool], lambda f=other: moved(f())
            if kind == "shaped" and rng.random() < .12:      # large areas, some of them nearly equal
                k = rng.randint(6, 28 if style in ("grid", "small", "neg", "lines") else 18)
                jit = lambda: rng.choice([0, 0, 0, 1, -1, 2, rng.randint(-9, 9)])
                enlarged = lambda e: e[:2] + [e[2] << k, e[3] << k] + [max(0, (v << k) + jit()) if v else 0 for v in e[4:]]
                pool, other = [enlarged(e) for e in pool], lambda f=other: enlarged(f())
                if rng.random() < .6:                        # which all fit into some query
                    e = rng.choice(pool)
                    pool += [e[:4] + [max(0, v + jit()) for v in e[4:]] for _ in range(6)]
                    pool.append(e[:2] + [e[2] - 9, e[3] - 9] + [2 * v + 99 for v in e[4:]])
            if STEP[kind] < 1 and rng.random() < .8:
                st = STEP[kind] if rng.random() < .7 else .5
                shrunk = lambda e: e[:2] + [v * st for v in e[2:]]
                pool, other = [shrunk(e) for e in pool], lambda f=other: shrunk(f())
        n = rng.choice([3, 8, 20, min(size, 150), size])
        w = rng.choice([(6, 3, .2, .3, 4, .1, .2, .4), (4, 4, 0, 0, 3, 0, 0, 0), (8, 1, 0, 0, 2, .2, 1, 1), (2, 1, 1, 2, 3, .5, .1, 1),
                        (5, 5, 0, .3, 5, .1, .5, 3), (3, 4, 0, .5, 5, 0, 0, 0)])
        for _ in range(n):
            op = rng.choices("ircnfkdx", w)[0]
            pick = lambda: rng.choice(pool) if rng.random() < .85 else other()
            if op == "c" and rng.random() < .1:       # again and again
                ops.append(["c", rng.choice([127, 128, 255, 256, 257, 1024] * 6 + [65535, 65536])])
            elif op in "ckdx":
                ops.append([op])
            elif op == "n":
                ops.append(["n", [pick() for _ in range(rng.randint(0, 12))]])
            else:
                ops.append([op, pick() if op != "f" or rng.random() < .5 else other()])
        return dict(kind=kind, ops=ops)

    fixed = ()

    def run(self, case, env):
        kind = case["kind"]
        shaped = kind in STEP
        if kind not in STEP and kind not in ("plain", "strings"):
            raise Invalid()
        step = STEP.get(kind, 1)
        lim = {"shaped": 2 ** 61, "shaped32": 20000, "shapedd": 2 ** 24, "shapedf": 2 ** 9}.get(kind, 2 ** 31 - 1)
        n = 6 if shaped else 2
        msg, s, want, contents, odd = [kind], set(), [], {}, []
        again = nt = False
        large = len(case["ops"]) > 1000
        at = []          # the operation behind each answer
        by = {}          # the events of each query and location, for large sets

        s2, by2 = set(), {}      # the other set

        def put(e):
            s.add(e)
            by.setdefault(e[:2], set()).add(e)

        def flat(e):
            if len(e) != n or shaped and (e[4] < 0 or e[5] < 0):
                raise Invalid()
            if shaped and e[4] * e[5] > 2 ** 62 or shaped and any(abs(v) > lim or step < 1 and (v / step) % 1 for v in e[2:]):
                raise Invalid()      # areas are exact
            return e[:2] + [float(v) for v in e[2:]] if step < 1 else list(e)
        for op in case["ops"]:
            if not op:
                raise Invalid()
            msg.append(op[0])
            at.append(op)
            if op[0] == "c":
                times = op[1] if len(op) > 1 else 1
                if not isinstance(times, int) or not 1 <= times <= 70000:
                    raise Invalid()
                msg += ["c"] * (times - 1)
                want += [(None, 0)] * (times - 1)
                at += [op] * (times - 1)
                s.clear()
                by.clear()
            elif op[0] in ("k", "d", "x"):
                if len(op) != 1:
                    raise Invalid()
                if op[0] == "d":
                    s2, by2 = set(s), {k: set(v) for k, v in by.items()}
                elif op[0] == "x":
                    s, by, s2, by2 = s2, by2, s, by
            elif op[0] == "n":
                msg.append(len(op[1]))
                for e in op[1]:
                    msg += flat(e)
                s, by = set(), {}
                for e in op[1]:
                    put(ev(kind, e))
            elif len(op) != 2:
                raise Invalid()
            else:
                msg += flat(op[1])
                e = ev(kind, op[1])
                if op[0] == "i":
                    again = again or e in s
                    put(e)
                elif op[0] == "r":
                    again = again or e in s
                    s.discard(e)
                    by.get(e[:2], s).discard(e)
                else:
                    here = by.get(e[:2], set())
                    found = model.overlapping(model.index(here, n), e, n) if shaped else [e] if e in s else []
                    contents[len(want)] = set(here if large else s)
                    want.append((found, len(s)))
                    nt = nt or again and len(found) > 1
                    continue
            want.append((None, len(s)))
        w = env.drv("drv_match").ask("set", *msg)

        def event():
            if shaped:
                return (w.s(), w.s()) + tuple((w.d if step < 1 else w.i)() for _ in range(4))
            return (w.s(), w.s()) if kind == "strings" else (w.i(), w.i())
        for k, (found, size) in enumerate(want):
            if found is not None:
                got = [event() for _ in range(w.i())]
                need(len(got) < 99999, "operation %d: the query with a scored event answers differently", k)
                need(sorted(got) == sorted(found), "operation %d, query %r finds %r, expected %r", k, at[k][1], got, found)
                if shaped:
                    q = at[k][1]
                    a = [model.inter(e[2:6], q[2:6]) for e in got]
                    need(all(x >= y for x, y in zip(a, a[1:])), "operation %d: areas %r are not decreasing", k, a)
                if got != found:       # ties in another order than the model's: the same for every history?
                    odd.append((k, got, sorted(contents[k])))
            need(w.i() == size, "operation %d (%r): wrong size, expected %d", k, at[k][0], size)
        need(w.end(), "protocol")
        for k, got, evs in odd:
            for order in (evs, evs[::-1]):
                m = [kind, "n", len(order)] + [x for e in order for x in flat(list(e))] + ["f"] + flat(at[k][1])
                w = env.drv("drv_match").ask("set", *m)
                w.i()
                other = [event() for _ in range(w.i())]
                need(got == other, "operation %d: ties in the order %r, in a new set %r", k, got, other)
        return {kind} | ({"nontrivial"} if nt or not shaped and again else set())


CHECK = CheckRunner("C15", [Histories()], ["boxes have non-negative sizes and areas that fit"])
