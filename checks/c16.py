"""C16: string-to-integer mappers."""
from lib.kit import *

CAP = {"i8": 128, "u8": 256, "i8map": 128, "i16": 32768, "u16": 65536}
TYPES = ["i8", "i8", "u8", "u8", "i8map", "i32", "i32map", "u32", "i64", "u64", "i16", "u16"]
STRS = ["k" * 16, "k" * 15 + "l", "l" + "k" * 15, "k" * 8 + "lkkkkkkk", "", "a", "b", "A", "aa", " ", "a ", "\u00e9", "e\u0301", "a\x00b", "a\x00", "0", "00", "1", "x" * 500, "x" * 501, "\n"]


class Tables:
    """Which table each mapper of the driver's pool uses."""

    def __init__(self, cap):
        self.cap, self.of, self.tabs = cap, [0], [{}]

    def new(self, n=1):
        self.tabs.append({})
        self.of += [len(self.tabs) - 1] * n

    def assign(self, k, j):
        """False if others would lose the table of k."""
        k, j = k % len(self.of), j % len(self.of)
        if self.of[k] != self.of[j] and self.of.count(self.of[k]) > 1:
            return False
        self.of[k] = self.of[j]
        return True

    def follow(self, op):
        if op[0] in ("new", "own"):
            self.new()
        elif op[0] == "impl":
            self.new(2)
        elif op[0] == "copy":
            self.of.append(self.of[op[1] % len(self.of)])

    def map(self, k, s):
        t = self.tabs[self.of[k % len(self.of)]]
        if s in t:
            return t[s]
        if len(t) >= self.cap:
            return None
        t[s] = len(t)
        return t[s]


class Histories(Mode):
    name = "histories"
    targets = ("drv_map",)
    quick, thorough = 30000, 1500000
    rule = ("histories over pools of mappers that share or own tables, of every integer width, against dictionaries; "
            "non-trivial: a table reached through two mappers and a repeated string, or a full table")

    def gen(self, rng, size):
        t = rng.choice(TYPES)
        if t in ("i16", "u16") and rng.random() < .9:
            t = "i8"
        ops = []
        names = STRS + ["n%d" % k for k in range(rng.choice([3, 50, 400]))]
        w = rng.choice([(1, 1, .5, .5, 30, .3, .5), (0, .5, 0, 0, 30, 1.5, 0), (0, 0, 0, 0, 20, 0, 0), (2, 2, 2, 2, 10, .2, 2)])
        tb = Tables(0)
        for _ in range(rng.choice([5, 20, min(size, 100) + 10, size])):
            op = rng.choices(["new", "copy", "impl", "own", "map", "bulk", "assign"], w)[0]
            k = rng.randrange(8)
            if op == "assign":
                j = rng.randrange(8)
                if tb.assign(k, j):
                    ops.append([op, k, j])
                continue
            tb.follow([op, k])
            if op == "copy":
                ops.append([op, k])
            elif op == "map":
                ops.append([op, k, rng.choice(names)])
            elif op == "bulk":
                n = rng.choice([3, 20, 127, 128, 129, 130, 255, 256, 257, 300])
                if t in ("i16", "u16"):
                    n = rng.choice([300, 32767, 32768, 32770, 65536, 65540])
                elif t not in CAP and rng.random() < .02:
                    n = 70000
                ops.append([op, k, rng.choice(["n", "p", ""]), n])
            else:
                ops.append([op])
        return dict(t=t, ops=ops)

    def run(self, case, env):
        t = case["t"]
        if t not in TYPES:
            raise Invalid()
        tb = Tables(CAP.get(t, 1 << 70))
        msg, want = [t], []
        shared = full = rep = False
        for op in case["ops"]:
            if not op or op[0] not in ("new", "copy", "impl", "own", "map", "bulk", "assign") or \
                    len(op) != {"copy": 2, "map": 3, "bulk": 4, "assign": 3}.get(op[0], 1) or any(isinstance(v, int) and v < 0 for v in op[1:]):
                raise Invalid()
            msg += op
            tb.follow(op)
            if op[0] == "assign":
                if not tb.assign(op[1], op[2]):
                    raise Invalid()
            elif op[0] in ("map", "bulk"):
                names = [b(op[2])] if op[0] == "map" else [b(op[2]) + b"%d" % i for i in range(op[3])]
                k = op[1] % len(tb.of)
                tab = tb.tabs[tb.of[k]]
                shared = shared or bool(tab) and tb.of.count(tb.of[k]) > 1
                for s in names:
                    rep = rep or s in tab
                    v = tb.map(op[1], s)
                    full = full or v is None
                    want.append((op, s, v))
        w = env.drv("drv_map").ask("hist", *msg)
        for op, s, v in want:
            r = w.raw()
            if r == "range":
                need(v is None, "%s: %r of %r raises a range error, expected %r", t, s, op, v)
            else:
                g = w.i()
                need(g == v, "%s: %r of %r became %d, expected %s", t, s, op, g, "a range error" if v is None else v)
        need(w.end(), "protocol")
        return {t} | ({"nontrivial"} if shared and rep or full else set()) | ({"full table"} if full else set())


class Events(Mode):
    name = "events"
    targets = ("drv_map",)
    quick, thorough = 30000, 1500000
    rule = ("events and scored events through event mappers and their shared string tables; non-trivial: a string seen both "
            "as a query and as a location")

    def gen(self, rng, size):
        ops = []
        names = rng.sample(STRS, rng.randint(1, 8)) + ["n%d" % k for k in range(rng.choice([0, 3, 40]))]
        sc = gen.scorer(rng)
        for _ in range(rng.randint(1, 10 + size)):
            op = rng.choice(["ev", "ev", "scored", "scored", "str", "raw"])
            k = rng.randrange(6)
            if op in ("str", "raw"):
                ops.append([op, k, rng.choice(names)])
            elif op == "ev":
                ops.append([op, k, rng.choice(names), rng.choice(names)])
            else:
                ops.append([op, k, rng.choice(names), rng.choice(names), sc()])
        return dict(t=rng.choice(["i32", "i64"]), ops=ops)

    def run(self, case, env):
        msg = [case["t"]]
        tabs = [{}, {}, {}]
        table = lambda k: tabs[0] if k < 2 else tabs[1] if k < 5 else tabs[2]
        for op in case["ops"]:
            if not op or op[0] not in ("ev", "scored", "str", "raw") or \
                    len(op) != {"ev": 4, "scored": 5}.get(op[0], 3) or op[1] < 0:
                raise Invalid()
            msg += op[:4] + [f32(float(op[4]))] if len(op) == 5 else op
        w = env.drv("drv_map").ask("events", *msg)
        roles = {}
        for op in case["ops"]:
            k = op[1] % 6
            t = tabs[0] if op[0] == "raw" else table(k)
            new = []
            for role, s in zip("ql", op[2:4]):
                s = b(s)
                v = w.i()
                roles.setdefault((id(t), s), set()).add(role if op[0] in ("ev", "scored") else "-")
                if s in t:
                    need(v == t[s], "%r: %r became %d, before it was %d", op, s, v, t[s])
                else:      # the two strings of one event may be numbered in either order
                    new.append((s, v))
            vals = [v for _, v in dict(new).items()]
            need(len({v for _, v in new}) == len({s for s, _ in new}), "%r: strings share a number: %r", op, new)
            need(sorted(set(vals)) == list(range(len(t), len(t) + len(vals))), "%r: new numbers %r after %d strings", op,
                 vals, len(t))
            t.update(dict(new))
            if op[0] == "scored":
                s = w.d()
                need(s == f32(float(op[4])), "score %r became %r", op[4], s)
        need(w.end(), "protocol")
        return {"nontrivial"} if any({"q", "l"} <= r for r in roles.values()) else set()


CHECK = CheckRunner("C16", [Histories(), Events()],
                    ["the two strings of one event may be numbered in either order",
                     "tables of 32 and 64 bits are filled with at most 70000 strings"])
