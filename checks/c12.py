"""C12: readers accept exactly well-formed files."""
import ctypes, re
from lib.kit import *
from lib import fuzz

WS = b" \t\v\f\r"
INT = re.compile(rb"^[+-]?[0-9]+\Z")
FLT = re.compile(rb"^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
SHAPES = {"shaped32": ("ss", "i32", 4), "shaped64": ("ss", "i64", 4), "scored64": ("ssf", "i64", 4),
          "scored32": ("ssf", "i32", 4), "es": ("ss", "", 0), "scoredes": ("ssf", "", 0), "mapped": ("ss", "", 0),
          "mappedscored": ("ssf", "", 0)}
LIM = {"i32": 2 ** 31, "i64": 2 ** 63}


def parse(kind, data):
    """The events of the data, or the number of the first bad line."""
    cols, ity, nbox = SHAPES[kind]
    out = []
    for n, line in enumerate(data.split(b"\n"), 1):
        line = line.lstrip(WS)
        if not line or line.startswith(b"#"):
            continue
        f = re.split(rb"[ \t\v\f\r]+", line.rstrip(WS))
        if len(f) != len(cols) + nbox:
            return n
        ev = [f[0], f[1]]
        for t in f[2:2 + nbox]:
            if not INT.match(t):
                return n
            v = int(t) if len(t) < 4000 else 10 ** 30
            if not -LIM[ity] <= v < LIM[ity]:
                return n
            ev.append(v)
        if cols == "ssf":
            t = f[-1]
            if not FLT.match(t):
                return n
            v = gen.strtof(t)
            if abs(v) == float("inf"):
                return n
            ev.append(v)
        out.append(tuple(ev))
    return out


INTS = ["0", "7", "-3", "+4", "007", "100", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "+0", "-0"]
BAD_INTS = ["4.5", "1-2", "x", "5x", "x5", "-", "+", "1e3", "0x10", "4.", ".5", "--4", "+-1", "1,000", "1_0", "\u0665", "4#"]
FLTS = ["0.5", "1", "-1", "+.5", ".5", "5.", "1e-3", "1E5", "-2.5e+10", "3.4028235e38", "3.4028236e38", "1e39", "-1e39",
        "1e-46", "1e-400", "1e400", "0e999", "00.50", "-0", "1e+5", "0.1000000000000000055511151231257827",
        "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "1e0005"]
BAD_FLTS = ["nan", "inf", "-inf", "infinity", "0x1p3", "1e", "1e+", ".", "-", "e5", ".e5", "1.2.3", "1,5", "0.5f", "1d3",
            "1e5.5", "abc", "--1", "1e--5", "0.5#"]
NAMES_ = ["q", "word", "q1", "#q", "w#", "\u00e9t\u00e9", "\x00", "a\x00b", "\x01", "\xff", "\u00a0", "\u2003", "\x85", "-", "0",
          "x" * 300, "\"a", "\\n", "1.5", "--help", "\x1f"]


def value(rng, c, p=1.):
    bad = rng.random() < .02 * p
    if c == "s":
        return rng.choice(NAMES_)
    if c == "i":
        if bad:
            return rng.choice(BAD_INTS)
        return rng.choice(INTS) if rng.random() < .08 else str(rng.randint(-50, 3000))
    if bad:
        return rng.choice(BAD_FLTS)
    if rng.random() < .04:
        return gen.middle(rng)
    return rng.choice(FLTS) if rng.random() < .15 else fmt(f32(rng.gauss(0, 1)))


def text_of(rng, kind, size, p=1.):
    """A file as a list of lines (latin-1 strings), mostly well-formed."""
    cols, ity, nbox = SHAPES[kind]
    sep = lambda: rng.choice([" ", " ", " ", "\t", "  ", " \t", "\v", "\f", "\r"])
    out = []
    for _ in range(gen.count(rng, size)):
        if rng.random() < .12:
            out.append(rng.choice(["", " ", "\t \r", "# a b 1 2 3 4", "  # x", "#", "\r", "#" + "y" * 200, "\v\f"]))
            continue
        f = [value(rng, "s"), value(rng, "s")] + [value(rng, "i", p) for _ in range(nbox)] + \
            ([value(rng, "f", p)] if cols == "ssf" else [])
        while f[0].startswith("#") and rng.random() < 1 - .1 * p:
            f[0] = value(rng, "s")
        if rng.random() < .015 * p:
            k = rng.randrange(3)
            if k == 0 and len(f) > 1:
                del f[rng.randrange(len(f))]
            elif k == 1:
                f.insert(rng.randrange(len(f) + 1), value(rng, rng.choice("sif")))
            else:
                f = f[:rng.randrange(len(f))] or ["x"]
        out.append(rng.choice(["", "", "", " ", "\t"]) + "".join(w + sep() for w in f[:-1]) + f[-1] +
                   rng.choice(["", "", "", " ", "\r", "\t ", " \r"]))
    if out and rng.random() < .02:      # something very long
        n = rng.choice([255, 256, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 100000]) + rng.choice([-1, 0, 0, 1, 2])
        k = rng.randrange(len(out))
        f = out[k].split()
        i = rng.randrange(5)
        if i == 0 or not f:
            out[k] = "#" + "c" * n
        elif i == 1:
            out[k] += " " * n
        elif i == 2:
            out[k] = " " * n + out[k]
        else:
            out[k] = " ".join(["n" * n] + f[1:] if i == 3 else f[:1] + ["m" * n] + f[2:])
    if out and rng.random() < .03:      # lines and files that end where a block of the input may end
        n = 2 ** rng.choice([8, 9, 10, 12, 12, 12, 13, 13, 14, 15, 16]) + rng.choice([-3, -2, -1, -1, 0, 0, 1, 2])
        k = rng.randrange(len(out))
        short = n - (len("\n".join(out[:k])) + (k > 0) if rng.random() < .5 else 0) - len(out[k])
        if short > 0:
            c = rng.choice(" \t\r ")
            how = rng.randrange(5)
            f = out[k].split(" ")
            if how < 2:
                out[k] += c * short
            elif how == 2 or out[k].lstrip().startswith("#"):
                out[k] = c * short + out[k]
            elif how == 3:
                out[k] = "n" * short + out[k]
            else:
                out.insert(k, "#" + "c" * (max(1, short + len(out[k]) - 1)))
    return out


def mutate(rng, lines_):
    """Small damage anywhere in the text."""
    t = "\n".join(lines_)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not t:
            break
        p = rng.randrange(len(t))
        k = rng.randrange(6)
        c = rng.choice(list(" \t\n\r\v\f#.-+eE0159xn\x00\xff,") + [chr(rng.randrange(256))])
        if k == 0:
            t = t[:p] + t[p + 1:]
        elif k == 1:
            t = t[:p] + c + t[p:]
        elif k == 2:
            t = t[:p] + c + t[p + 1:]
        elif k == 3:
            q = min(len(t), p + rng.randint(1, 12))
            t = t[:p] + t[q:]
        elif k == 4:
            q = min(len(t), p + rng.randint(1, 20))
            t = t[:q] + t[p:q] + t[q:]
        else:
            t = t[:p]
    return t.split("\n")


def data_of(case):
    """The bytes of a file; "run" is a line that is repeated at some place."""
    ls = case["lines"]
    if case.get("run"):
        at, n, line = case["run"]
        if not 0 <= at <= len(ls) or not 0 <= n <= 10 ** 6 or len(line) > 200 or "\n" in line:
            raise Invalid()
        ls = ls[:at] + [line] * n + ls[at:]
    return "\n".join(ls).encode("utf-8", "surrogateescape") + (b"\n" if case["nl"] and case["lines"] else b"")


def run_of(rng, ls):
    """Very many lines without an event, one after the other."""
    return [rng.randint(0, len(ls)), rng.choice([1000, 32767, 32768, 65535, 65536, 70000] + [250000] * 3),
            rng.choice(["", "", " ", "#", "# a b 1 2 3 4", "\r"])]


def u8(lines_):
    """Case lines hold one character per byte where possible."""
    return [l.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape") for l in lines_]


class Readers(Mode):
    name = "readers"
    targets = ("drv_read",)
    quick, thorough = 150000, 5000000
    big = 70000
    rule = ("generated and damaged files through every reader, from streams and files, with a reader and an output used "
            "before, against an independent line grammar; non-trivial: at least two events were read, or a bad line "
            "after at least one good one was reported")

    def gen(self, rng, size):
        kind = rng.choice(list(SHAPES))
        if size == self.big:
            ls = text_of(rng, kind, 2 * size, 0)
            if rng.random() < .6:      # something wrong near the end
                k = len(ls) - 1 - rng.randrange(1 + len(ls) // 20)
                ls[k] = rng.choice(["x", "a b c d e f g h i", ls[k].split("#")[0] + " x x x x", "a b 1 2 3"])
            return dict(kind=kind, lines=u8(ls), nl=rng.random() < .7, how=rng.choice(["stream", "file"]), first=[])
        ls = text_of(rng, kind, min(size, 120 if rng.random() < .9 else 3000))
        if rng.random() < .3:
            ls = mutate(rng, ls)
        first = []
        if rng.random() < .3:
            first = text_of(rng, kind, 4)
        c = dict(kind=kind, lines=u8(ls), nl=rng.random() < .7, how=rng.choice(["stream", "file"]), first=u8(first))
        if rng.random() < .002:
            c["run"] = run_of(rng, ls)
        return c

    def run(self, case, env):
        kind, data = case["kind"], data_of(case)
        want = parse(kind, data)
        w = env.drv("drv_read").ask("read", kind, case["how"], "\n".join(case["first"]), data)
        ok, err = w.b(), w.s()
        l = {kind, case["how"]}
        if isinstance(want, int):
            need(not ok, "line %d is not well-formed, yet the file was accepted: %r", want, data.split(b"\n")[want - 1])
            nums = re.findall(rb"\d+", err)
            need(b"%d" % want in nums, "bad line %d was reported as %r", want, err)
            l.add("rejected")
            if want > 1:
                l.add("nontrivial")
            return l
        need(ok, "a well-formed file was refused: %r", err)
        cols, ity, nbox = SHAPES[kind]
        n = w.i()
        need(n == len(want), "%d events read, expected %d", n, len(want))
        ids, back = {}, {}
        known = 0
        if kind.startswith("mapped") and case["first"]:
            known = None      # an earlier file has used some numbers
        for k, e in enumerate(want):
            if kind.startswith("mapped"):
                for s in e[:2]:
                    v = w.i()
                    need(ids.setdefault(s, v) == v and back.setdefault(v, s) == s, "event %d: %r became %d", k, s, v)
            else:
                got = (w.s(), w.s())
                need(got == e[:2], "event %d: read %r, the file has %r", k, got, e[:2])
                got = tuple(w.i() for _ in range(nbox))
                need(got == e[2:2 + nbox], "event %d: read box %r, the file has %r", k, got, e[2:2 + nbox])
            if cols == "ssf":
                s = w.d()
                need(s == e[-1], "event %d: read score %r, the file has %r", k, s, e[-1])
        if known == 0:
            need(sorted(back) == list(range(len(back))), "numbers of mapped events are %r", sorted(back))
        need(w.end(), "protocol")
        l.add("accepted")
        if len(want) > 1:
            l.add("nontrivial")
        return l


TYPES = {"icdar": ("shaped64", "scored64"), "simple": ("es", "scoredes")}


class Tool(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 8000, 300000
    rule = ("both tools on generated and damaged files, hypotheses from a file or standard input: they succeed exactly "
            "when the line grammar accepts both files; non-trivial: several lines in both files")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        fs = []
        for k in TYPES[tool]:
            for _ in range(4):
                ls = text_of(rng, k, min(size, 20))
                if rng.random() < .1:
                    ls = mutate(rng, ls)
                if isinstance(parse(k, "\n".join(ls).encode("utf-8", "surrogateescape")), list) or rng.random() < .3:
                    break
            fs.append(dict(lines=u8(ls), nl=rng.random() < .6))
            if rng.random() < .005:
                fs[-1]["run"] = run_of(rng, ls)
        return dict(tool=tool, refs=fs[0], hyps=fs[1], stdin=rng.random() < .4,
                    piped=rng.choice([0, 0, 0, 1, 2, 3]))

    def run(self, case, env):
        tool = case["tool"]
        data = [data_of(case[k]) for k in ("refs", "hyps")]
        want = [parse(k, d) for k, d in zip(TYPES[tool], data)]
        r = run_raw(env, tool, data[0], data[1], stdin=case["stdin"], piped=case.get("piped", 0))
        need(not r.timeout, "no end within the time limit")
        bad = [w for w in want if isinstance(w, int)]
        l = {tool}
        if min(len(case[k]["lines"]) for k in ("refs", "hyps")) > 1:
            l.add("nontrivial")
        if bad:
            need(r.rc > 0, "a malformed line (%r) was accepted with status %s", want if len(bad) > 1 else bad, r.rc)
            nums = re.findall(rb"\d+", r.err)
            need(b"%d" % bad[0] in nums, "bad line %d was reported as %r", bad[0], r.err[-300:])
            need(not any(x in r.out for x in (b"AP =", b"NDCG =")), "metrics printed for malformed input")
            l.add("rejected")
        else:
            need(r.rc == 0, "well-formed files were refused, status %s: %r", r.rc, r.err[-300:])
            l.add("accepted")
        return l


class Missing(Mode):
    name = "unreadable"
    targets = ("drv_read",)
    quick, thorough = 60, 600
    rule = "paths that do not exist, are directories or lack a parent; every case is non-trivial"

    def gen(self, rng, size):
        return dict(path=rng.choice(["/nonexistent-%d" % rng.randrange(999), "/", "/tmp", "", "/dev/null/x", "/proc/self",
                                     "/nonexistent/a/b%d" % rng.randrange(999), "x" * 5000]))

    def run(self, case, env):
        w = env.drv("drv_read").ask("missing", case["path"])
        need(not w.b(), "reading %r succeeded", case["path"])
        return {"nontrivial"}


CHECK = CheckRunner("C12", [Readers(), Tool(), Missing()] + fuzz.modes(eval=80000),
                    ["white space and digits are those of the C locale",
                     "what the output holds after a failed read is left open",
                     "a score below the smallest single-precision value counts as in range, one above the largest does not"],
                    extra=fuzz.campaign)
