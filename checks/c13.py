"""C13: the command-line parser against a reference model."""
import random, re
from lib.kit import *
from lib import fuzz

INT = re.compile(r"^[+-]?[0-9]+\Z")
FLT = re.compile(r"^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
RANGE = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-2 ** 15, 2 ** 15 - 1), "uint16": (0, 2 ** 16 - 1), "int32": (-2 ** 31, 2 ** 31 - 1),
         "uint32": (0, 2 ** 32 - 1), "int64": (-2 ** 63, 2 ** 63 - 1), "uint64": (0, 2 ** 64 - 1)}
TYPES = ["bool", "bool", "string", "string", "float", "double"] + list(RANGE)
BAD = object()


def convert(t, word, is_arg):
    """The value of a word, or BAD."""
    if t == "bool":
        if word in ("true", "1") or word == "" and not is_arg:
            return True
        return False if word in ("false", "0") else BAD
    if t == "string":
        return b(word)
    if t in RANGE:
        lo, hi = RANGE[t]
        if not INT.match(word) or lo == 0 and word[0] == "-":
            return BAD
        v = int(word)
        return v if lo <= v <= hi else BAD
    if not FLT.match(word):
        return BAD
    v = gen.strtof(word) if t == "float" else float(word)
    return BAD if abs(v) == float("inf") else v


def initial(t, word):
    return convert(t, word, False)


def parse(opts, args, optargs, argv, before=None):
    """None if rejected, 'help', or the values in registration order."""
    names = {}
    vals = before or [[initial(o[0], o[3]) for o in l] for l in (opts, args, optargs)]
    vals = [list(l) for l in vals]
    for i, (t, n, h, v) in enumerate(opts):
        if n != "help":
            names.setdefault(n, i)
    i, show = 0, False
    while i < len(argv):
        w = argv[i]
        if len(w) < 2 or w[0] != "-":
            break
        i += 1
        if w == "--":
            break
        if w == "--help":
            show = True
            continue
        if not w.startswith("--") or w[2:] not in names:
            return "help?" if show else None
        k = names[w[2:]]
        t = opts[k][0]
        if t == "bool":
            if i < len(argv) and argv[i][:1] != "-":
                if argv[i] == "":
                    raise Invalid()
                v = convert(t, argv[i], False)
                i += 1
            else:
                v = True
        elif i < len(argv):
            v = convert(t, argv[i], False)
            i += 1
        else:
            v = BAD
        if v is BAD:
            return "help?" if show or "--help" in argv[i:] else None
        vals[0][k] = v
    if show:
        return "help"
    pos = argv[i:]
    if not len(args) <= len(pos) <= len(args) + len(optargs):
        return None
    for j, w in enumerate(pos):
        g, k = (1, j) if j < len(args) else (2, j - len(args))
        v = convert((args, optargs)[g - 1][k][0], w, True)
        if v is BAD:
            return None
        vals[g][k] = v
    return vals


STRS = ["", " ", "a b", "x", "-", "--", "-v", "--help", "line1\nline2", "tab\t", "\u00e9\u4e2d", "q=1", "  lead", "trail ", "'", "\"",
        "path/to/file", "%s%n", "1", "true", "\\0", "w" * 300]
INTS = ["0", "1", "-1", "+7", "007", "127", "128", "-128", "-129", "255", "256", "65", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648",
        "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1" * 40]
FLTS = ["0.5", "1", "-1", "1e3", ".25", "3.", "-2.5e-3", "1e38", "3.4e38", "3.5e38", "1e308", "1.8e308", "+1.5", "1E2", "0",
        "0.1", "123456789"]
JUNK = ["", " 1", "1 ", "1x", "x1", "0x10", "1.5.2", "--1", "+", "1,0", "nan", "inf", "-inf", "1e", "e1", ".", "True", "TRUE", "yes",
        "tru", "on", "2", "00", "1.0", "4.5", "-", "1\n", "\t3", "f", "t", "truefalse"]
HELPS = ["how many", "Use this.", "", "a (b) [c]", "sets x", "The value, in units."]


def word(rng, t, wild=.08):
    if rng.random() < wild:
        return rng.choice(JUNK + INTS + STRS)
    if t == "bool":
        return rng.choice(["true", "false", "0", "1"])
    if t == "string":
        return rng.choice(STRS) if rng.random() < .6 else "v%d" % rng.randrange(100)
    if t in RANGE:
        lo, hi = RANGE[t]
        k = rng.randrange(5)
        if k == 0:
            return str(rng.choice([lo, hi, lo + 1, hi - 1, 0]))
        if k == 1 and wild:
            return str(rng.choice([lo - 1, hi + 1]) if rng.random() < .3 and lo else hi)
        if k == 2:      # of any magnitude
            return str(max(lo, min(hi, rng.choice([-1, 1]) * rng.getrandbits(rng.randint(1, 64)))))
        return str(rng.randint(max(lo, -200), 200))
    if rng.random() < .06:
        return gen.middle(rng)
    return rng.choice(FLTS[:8]) if rng.random() < .5 else "%.6g" % rng.gauss(0, 3)


SIMPLE = {"bool": ["0", "1"], "string": ["", "abc", "x y", "-"], "float": ["0", "0.5", "-2"], "double": ["0.05", "3", "-0.5"]}


def default(rng, t):
    return rng.choice(SIMPLE.get(t, ["0", "7", "65" if t in ("int8", "uint8") else "10000"]))


ONAMES = ["alpha", "beta", "a", "b", "alpha2", "alp", "sort", "flag", "flag_x", "n", "no-dash", "with.dot", "Alpha", "1", "-x", "h",
          "helper", "x=y"]


def config(rng):
    opts = []
    names = rng.sample(ONAMES, rng.randint(0, 6))
    if rng.random() < .02:
        names = ["%s%d" % (rng.choice(["o", "opt-", "n" * 40]), i) for i in range(rng.choice([16, 17, 33, 70]))]
    for n in names:
        t = rng.choice(TYPES)
        opts.append([t, n, rng.choice(HELPS), default(rng, t)])
    if opts and rng.random() < .05:
        t = rng.choice(TYPES)
        opts.append([t, rng.choice([rng.choice(names), "help"]), "again", default(rng, t)])
    arg = lambda p: [(lambda t: [t, "%s%d" % (p, i), rng.choice(HELPS), default(rng, t)])(rng.choice(["string"] * 3 + TYPES))
                     for i in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    return opts, arg("pos"), arg("opt")


# Names that are nearly those of options.
NEAR = [lambda n: n.replace("_", "-"), lambda n: n.replace("-", "_"), lambda n: n.upper(), lambda n: n.capitalize(), lambda n: n.swapcase(),
        lambda n: "no-" + n, lambda n: "no_" + n, lambda n: "no" + n, lambda n: n[:-1], lambda n: n[:max(1, len(n) // 2)], lambda n: n + "s",
        lambda n: n[1:], lambda n: n + "=1", lambda n: n + "=true", lambda n: n + ":", lambda n: n.replace("_", ""), lambda n: " " + n,
        lambda n: n + " ", lambda n: "-" + n]


def near(rng, names):
    """An option word with such a name, or an unknown one."""
    w = rng.choice(NEAR)(rng.choice(names)) if names else ""
    return "--" + (w if w and w not in names and w not in ("help", "-") else "unknown")


def cmdline(rng, opts, args, optargs, help_=0.0):
    out = []
    for _ in range((rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < .98 else rng.choice([20, 70, 300])) if opts else 0):
        t, n, h, v = rng.choice(opts)
        out.append("--" + n)
        if t == "bool" and rng.random() < .5:
            continue
        out.append(word(rng, t))
    if rng.random() < help_:
        out.insert(rng.randint(0, len(out)), "--help")
    if rng.random() < .6:
        out.append("--")
    pos = [word(rng, a[0], .05) for a in args] + [word(rng, a[0], .05) for a in optargs[:rng.randint(0, len(optargs))]]
    if rng.random() < .08 and pos:
        pos.pop()
    if rng.random() < .06:
        pos.append("extra")
    out += pos
    if rng.random() < .15:       # damage
        k = rng.randrange(5)
        p = rng.randint(0, len(out))
        if k == 0 and out:
            del out[p % len(out)]
        elif k == 1:
            out.insert(p, rng.choice(["--unknown", "-x", "-", "--", "--alpha=3", "-alpha", "--no-flag", "---flag", "--Flag", "xalpha",
                                      "-1", "/alpha", "+n"] + [near(rng, [o[1] for o in opts])] * 10))
        elif k == 2:
            rng.shuffle(out)
        elif k == 3 and out:
            out[p % len(out)] = rng.choice(JUNK)
        elif out:
            q = p % len(out)
            out[q] = out[q][:-1] if rng.random() < .5 else out[q] + rng.choice("x 0-=")
    return out


def check(case):
    seen = set()
    for part in ("opts", "args", "optargs"):
        for t, n, h, v in case[part]:
            if t not in TYPES or not n or "\0" in n + h + v or initial(t, v) is BAD:
                raise Invalid()
    if any("\0" in w for w in case["argv"]):
        raise Invalid()


def message(case):
    m = [case["prog"], case["desc"]]
    for part in ("opts", "args", "optargs"):
        m.append(len(case[part]))
        for o in case[part]:
            m += o
    return m + [len(case["argv"])] + case["argv"]


class Lines(Mode):
    name = "command lines"
    targets = ("drv_cmd",)
    quick, thorough = 120000, 5000000
    fixed = ()
    rule = ("random parser configurations of twelve types and random command lines against a reference parser; non-trivial: "
            "accepted with at least two variables set, or rejected with at least two words before the culprit")

    def gen(self, rng, size):
        o, a, p = config(rng)
        c = dict(prog="prog", desc="", opts=o, args=a, optargs=p, argv=cmdline(rng, o, a, p))
        if rng.random() < .15:
            c["then"] = [cmdline(rng, o, a, p) for _ in range(rng.choice([1, 1, 2, 3]))]
        return c

    def run(self, case, env):
        check(case)
        want = parse(case["opts"], case["args"], case["optargs"], case["argv"])
        if want in ("help", "help?") or "--help" in case["argv"] and "help" in str(want):
            raise Invalid()
        then, now = [], want
        for argv in case.get("then", []):
            if now is None:
                break
            if "--help" in argv or any("\0" in x for x in argv):
                raise Invalid()
            now = parse(case["opts"], case["args"], case["optargs"], argv, now)
            then.append((argv, now))
        w = env.drv("drv_cmd").ask("parse", *(message(case) + [len(then)] + [x for a, _ in then for x in [len(a)] + a]))
        names = set()
        for t, n, h, v in case["opts"]:
            r = w.b()
            need(r == (n != "help" and n not in names), "registering option %r gives %r", n, r)
            names.add(n)
        for part in ("args", "optargs"):
            pass
        ok, said = w.b(), w.b()
        l = set()
        if want is None:
            need(not ok, "accepted: %r", case["argv"])
            need(said, "rejected without a message: %r", case["argv"])
            l.add("rejected")
            if len(case["argv"]) > 2:
                l.add("nontrivial")
            return l
        need(ok, "rejected: %r", case["argv"])
        need(not said, "accepted with a message: %r", case["argv"])
        l.add("accepted")
        n = 0

        def values(want, argv):
            n = 0
            for part, vals in zip(("opts", "args", "optargs"), want):
                for (t, name, h, v0), e in zip(case[part], vals):
                    g = w.b() if t == "bool" else w.s() if t == "string" else w.d() if t in ("float", "double") else w.i()
                    need(g == e, "%s has value %r, expected %r, after %r", name, g, e, argv)
                    if e != initial(t, v0):
                        l.add(t)
                        n += 1
            return n
        n = values(want, case["argv"])
        for k, (argv, now) in enumerate(then):
            ok = w.b()
            need(ok == (now is not None), "command line %d of one parser is %s: %r", k + 2,
                 "accepted" if ok else "rejected", argv)
            if ok:
                values(now, "line %d: %r" % (k + 2, argv))
                l.add("several lines for one parser")
        if n > 1:
            l.add("nontrivial")
        return l


class Help(Mode):
    name = "help"
    targets = ("drv_cmd",)
    quick, thorough = 4000, 150000
    rule = ("command lines with --help, in a child process: ends with status 0 after printing every option, default and "
            "argument; non-trivial: two or more options")

    def gen(self, rng, size):
        o, a, p = config(rng)
        return dict(prog=rng.choice(["prog", "./bin/tool"]), desc=rng.choice(["", "Does things."]), opts=o, args=a, optargs=p,
                    argv=cmdline(rng, o, a, p, help_=.95))

    def run(self, case, env):
        check(case)
        want = parse(case["opts"], case["args"], case["optargs"], case["argv"])
        w = env.drv("drv_cmd").ask("fork", *message(case))
        names = {}
        for t, n, h, v in case["opts"]:
            w.b()
            if n != "help":
                names.setdefault(n, (t, h, v))
        rc, out = w.i(), text(w.s())
        if want == "help":
            need(rc == 0, "--help ends with %s: %r", rc, out[-300:])
            ls = out.splitlines()
            given = case["argv"][:]
            for n, (t, h, v) in names.items():
                shown = {"0": ["0", "false"], "1": ["1", "true"]}[v] if t == "bool" else [v]
                mine = [x for x in ls if re.search(r"(^|\s)--%s(\s|$)" % re.escape(n), x)]
                need(mine, "option %s is missing in the help", n)
                need(any(h in x for x in mine), "the help text of option %s is missing", n)
                if "--" + n not in given:
                    need(any(s in (x.split(h, 1)[-1] if h else x.split("--" + n, 1)[-1]) for x in mine for s in shown), "the default %r of option %s is missing: %r",
                         v, n, mine)
            for t, n, h, v in case["args"] + case["optargs"]:
                need(any(n in x and h in x for x in ls), "argument %s is missing in the help", n)
            return {"help"} | ({"nontrivial"} if len(names) > 1 else set())
        if want == "help?":
            need(rc in (0, 71), "a bad option next to --help ends with %s", rc)
        else:
            need(rc == (71 if want is None else 70), "parsing %r ends with %s", case["argv"], rc)
        return set()


# The options of the tools
BOOLS = ["collapse_matches", "interpolated_precision", "trapezoid_integral", "bootstrap_ci_gap", "bootstrap_ci_map",
         "bootstrap_ci_gndcg", "bootstrap_ci_mndcg"]
UINTS = ["bootstrap_samples", "bootstrap_seed", "rp_curve_samples"]
REFS = b"a d 0 0 10 10\nb d 0 0 10 10\n"
HYPS = b"a d 0 0 10 10 0.5\nb d 90 90 10 10 0.5\na d 50 50 10 10 0.5\n"
SREFS, SHYPS = b"a d\nb d\n", b"a d 0.5\nb e 0.5\na f 0.5\n"


class Tool(Mode):
    name = "tool"
    targets = ("icdar", "simple")
    quick, thorough = 4000, 150000
    rule = ("the tools' own options with valid and invalid values in random spellings: accepted exactly when all are valid, "
            "and then equal to the canonical spelling with the last value of each; non-trivial: at least two options")

    def gen(self, rng, size):
        ws = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            if rng.random() < .65:
                n = rng.choice(BOOLS)
                ws.append(["--" + n] if rng.random() < .3 else ["--" + n, word(rng, "bool", .06)])
            elif rng.random() < .8:
                n = rng.choice(UINTS[:2])
                ws.append(["--" + n, str(rng.randint(1, 50)) if rng.random() < .9 else rng.choice(JUNK + ["-1", "-0.5", "1e2"])])
            else:
                ws.append(["--bootstrap_alpha", rng.choice(["0.05", "0.5", "1", "0", "1e-3", "0.1", ".2", "x", "0.5x", ""])])
        if rng.random() < .04:
            ws.insert(rng.randint(0, len(ws)), [rng.choice(["--unknown", "-x", "--sor", "--collapse", "--bootstrap_ci", "---sort",
                                                              *[near(rng, BOOLS + UINTS + ["query_set"])] * 5])])
        return dict(tool=rng.choice(["icdar", "simple"]), words=ws, pos=rng.choice([2] * 12 + [0, 1, 3]),
                    help=rng.random() < .04, dashes=rng.random() < .8)

    def run(self, case, env):
        tool = case["tool"]
        opts = [["bool", n, "", "0"] for n in BOOLS] + [["uint64", n, "", "1"] for n in UINTS] + \
            [["double", "bootstrap_alpha", "", "0.05"]] + \
            [["string", n, "", ""] for n in ("sort", "query_set", "query_groups", "dump_matches", "output_grp", "output_mrp")]
        r, h = (REFS, HYPS) if tool == "icdar" else (SREFS, SHYPS)
        rf, hf = env.tools.file("r", r), env.tools.file("h", h)
        head = [w for ws in case["words"] for w in ws]
        if case["help"]:
            head.append("--help")
        tail = [rf, hf, hf][:case["pos"]]
        argv = head + (["--"] if case["dashes"] else []) + tail
        want = parse(opts, [["string", "refs", "", ""]], [["string", "hyps", "", ""]], argv)
        run = env.tools.run(tool, argv)
        need(not run.timeout, "no end within the time limit: %r", argv)
        metrics = any(x in run.out for x in (b"AP =", b"NDCG ="))
        if want in ("help", "help?"):
            need(not metrics, "--help evaluated something: %r", argv)
            if want == "help":
                need(run.rc == 0, "--help ends with %s", run.rc)
                txt = text(run.out + run.err)
                for t, n, _, _ in opts:
                    need("--" + n in txt, "option %s is missing in the help", n)
                need("references" in txt and "hypotheses" in txt, "an argument is missing in the help")
                return {"help", "nontrivial"}
            return set()
        if want is None:
            need(run.rc > 0 and run.err, "status %s, stderr %r for %r", run.rc, run.err[-200:], argv)
            need(not metrics, "metrics printed after a rejected command line: %r", argv)
            return {"rejected"} | ({"nontrivial"} if len(case["words"]) > 1 else set())
        if want[1] != [b(rf)] or case["pos"] > 1 and want[2] != [b(hf)]:
            raise Invalid()      # an option word such as "-" became the name of a file
        # equal to the canonical spelling
        last = {}
        for o in case["words"]:
            last[o[0][2:]] = True
        vals = {o[1]: v for o, v in zip(opts, want[0]) if o[1] in last}
        canon = []
        for n, v in sorted(vals.items()):
            canon += ["--" + n, ("true" if v else "false") if isinstance(v, bool) else repr(v)]
        n, a = vals.get("bootstrap_samples", 1), vals.get("bootstrap_alpha", 0.05)
        ci = any(vals.get(x) for x in BOOLS[3:])
        if ci and (n < 1 or not 0 <= a <= 1):
            need(run.rc > 0, "an unusable bootstrap setting was accepted: %r", argv)
            return set()
        got = Result(run, " ".join(argv))
        if case["pos"] == 2:
            ref = env.tools.run(tool, canon + ["--", rf, hf])
            need(ref.rc == 0 and ref.out == run.out, "%r prints %r, %r prints %r", argv, text(run.out), canon, text(ref.out))
            for x, m in zip(BOOLS[3:], NAMES):
                need((m in got.ci) == bool(vals.get(x)), "the interval of %s is %s for %r", m,
                     "printed" if m in got.ci else "missing", argv)
        return {"accepted"} | ({"nontrivial"} if len(case["words"]) > 1 else set())


class Defaults(Mode):
    """The defaults shown by --help are those in effect."""
    name = "defaults"
    targets = ("icdar", "simple")
    quick, thorough = 160, 2000
    rule = ("the defaults that --help of a tool shows, given explicitly in random subsets and orders, with intervals and curve "
            "files, against not giving them; non-trivial: at least three options")

    def gen(self, rng, size):
        ns = [n for n in BOOLS + UINTS + ["bootstrap_alpha", "sort"] if rng.random() < rng.choice([.3, .7])]
        rng.shuffle(ns)
        return dict(tool=rng.choice(["icdar", "simple"]), names=ns, ci=rng.choice([[], BOOLS[3:], [rng.choice(BOOLS[3:])]]),
                    seed=rng.getrandbits(20))

    def run(self, case, env):
        tool = case["tool"]
        h = env.tools.run(tool, ["--help"])
        txt = text(h.out + h.err).splitlines()
        args = []
        for n in case["names"]:
            if n in case["ci"]:
                continue
            mine = [x for x in txt if re.search(r"(^|\s)--%s(\s|$)" % n, x)]
            need(mine, "option %s is missing in the help", n)
            # the default is the last quoted word of the line, however it is introduced
            v = re.findall(r"[\"'=:\s\[]([^\s\"'=:()\[\]]+)[\"'\])]*\s*$", mine[0])
            if not v or not re.match(r"^(true|false|asc|desc|none|[0-9.e+-]+)\Z", v[0]):
                continue
            args += ["--" + n, v[0]]
        rng = random.Random(case["seed"])
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, 12, distinct=tool == "simple")
        rd, hd = lines(refs, tool), lines(hyps, tool)
        got = []
        for extra in ([], args):
            g, m = env.tools.file("g", b""), env.tools.file("m", b"")
            words = extra + [x for c in case["ci"] for x in ("--" + c, "true")] + ["--output_grp", g, "--output_mrp", m, "--"]
            r = env.tools.run(tool, words + [env.tools.file("r", rd), env.tools.file("h", hd)])
            need(r.rc == 0, "status %s for %r: %r", r.rc, words, r.err[-200:])
            got.append((r.out, open(g, "rb").read(), open(m, "rb").read()))
        for what, a, e in zip(("metrics", "global curve", "mean curve"), got[1], got[0]):
            need(a == e, "%s differ when the defaults are given: %r", what, args)
        return {"nontrivial"} if len(args) > 5 else set()


CHECK = CheckRunner("C13", [Lines(), Help(), Tool(), Defaults()] + fuzz.modes(cmd=160000),
                    ["bound variables after a rejected command line are left open",
                     "a bad option next to --help may be reported or not; an empty word after a boolean option is left open",
                     "numbers below the smallest positive value of a floating type are not generated"],
                    extra=fuzz.campaign)
