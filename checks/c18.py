"""C18: bad inputs, command lines and failed reads and writes, under sanitizers and fault injection."""
import contextlib, os, socket
from lib.kit import *
from lib import fuzz
from checks import c12, c13

TYPES = {"icdar": ("shaped64", "scored64"), "simple": ("es", "scoredes")}
METRIC = re.compile(rb"^(gAP|mAP|gNDCG|mNDCG) =", re.M)


def l1(bs):
    return bs.decode("latin-1")


def by(s):
    return s.encode("latin-1")


def four(run, cmd, ci=()):
    """A success: four finite metrics and nothing else."""
    r = Result(run, cmd)
    for n in NAMES:
        for v in (r.v[n],) + r.ci.get(n, ()):
            need(v == v and abs(v) != float("inf"), "%s is %r after %s", n, v, cmd)
    return r


def failure(run, cmd):
    """A clean error: positive status (no signal, no sanitizer), a message, no metric."""
    need(not run.timeout, "no end within the time limit: %s", cmd)
    need(run.rc > 0 and run.rc != 99 and run.rc < 126, "status %s from %s; stderr: %s", run.rc, cmd, text(run.err)[-600:])
    need(run.err.strip(), "status %s without a message from %s", run.rc, cmd)
    need(not METRIC.search(run.out), "metrics printed although the status is %s: %s", run.rc, cmd)


def sane(run, cmd):
    need(not run.timeout, "no end within the time limit: %s", cmd)
    need(0 <= run.rc < 99, "status %s from %s; stderr: %s", run.rc, cmd, text(run.err)[-900:])


# ------------------------------------------------------------------- bytes
TOKENS = [b"nan", b"inf", b"-inf", b"1e39", b"-1e39", b"1e-46", b"0x1p3", b"9223372036854775807", b"-9223372036854775808",
          b"9223372036854775808", b"4294967296", b"2147483648", b"-2147483649", b"-1", b"0", b"1.5", b"\x00", b"\xff\xfe", b"#",
          b"\r\n", b"\n\n", b" ", b"", b"\xef\xbb\xbf", b"%s%n", b"1e", b"+", b"--", b"1" * 400, b"w" * 5000, b"# " + b"z" * 3000]


def damage(rng, d):
    for _ in range(rng.choice([0, 1, 1, 2, 4, 12])):
        p = rng.randint(0, len(d))
        k = rng.randrange(8)
        q = min(len(d), p + rng.randint(1, 30))
        if k == 0:
            d = d[:p] + bytes([rng.randrange(256)]) + d[p + 1:]
        elif k == 1:
            d = d[:p] + rng.choice(TOKENS) + d[p:]
        elif k == 2:
            d = d[:p] + d[q:]
        elif k == 3:
            d = d[:p] + d[p:q] * rng.choice([2, 3, 20]) + d[q:]
        elif k == 4:
            d = d[:p]
        elif k == 5:
            d = d[:p] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))) + d[p:]
        else:               # a whole word
            ws = re.split(rb"([ \n])", d)
            if len(ws) > 1:
                ws[rng.randrange(0, len(ws), 2)] = rng.choice(TOKENS)
                d = b"".join(ws)
    return d


def extremes(rng, evs, base):
    """Some numbers at the limits of their type, valid for the reader."""
    for e in evs:
        if rng.random() < .15:
            for j in range(2, base):
                if rng.random() < .5:
                    e[j] = rng.choice([0, -1, -5, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 62, 3037000500, 10 ** 12])
    return evs


GROUPS = re.compile(rb"[ \t\n\v\f\r]+")


def groups_ok(d):
    ls = d.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return all(len([w for w in GROUPS.split(l) if w]) >= 2 for l in ls)


class Bytes(Mode):
    name = "bytes"
    targets = ("icdar_san", "simple_san")
    quick, thorough = 12000, 600000
    rule = ("damaged, extreme and random bytes in references, hypotheses, query sets and groups, with random options, in "
            "sanitized tools; status and message must agree with an independent grammar; non-trivial: the references were "
            "accepted and hold two lines or more")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "icdar", "simple"])
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, min(size, 60))
        if tool == "icdar" and rng.random() < .3:
            extremes(rng, refs, 6), extremes(rng, hyps, 6)
        files = [lines(refs, tool), lines(hyps, tool)]
        which = rng.choice([(0,), (1,), (1,), (0, 1), ()])
        for i in which:
            files[i] = damage(rng, files[i])
        if rng.random() < .02:
            files[rng.randrange(2)] = bytes(rng.randrange(256) for _ in range(rng.randint(0, 200)))
        qs = sorted({e[0] for e in refs + hyps})
        c = dict(tool=tool, refs=l1(files[0]), hyps=l1(files[1]), opts=gen.curve_opts(rng), stdin=rng.random() < .3,
                 spell=rng.getrandbits(10), dump=rng.random() < .3, grp=rng.random() < .3, mrp=rng.random() < .3)
        if rng.random() < .3:
            c["opts"]["sort"] = rng.choice(["asc", "none", "desc", "x", ""])
        if c["grp"] or c["mrp"]:
            c["opts"]["rp_curve_samples"] = rng.choice([0, 1, 2, 3, 11, 100])
        if rng.random() < .4:
            c["opts"]["bootstrap_ci_" + rng.choice(NAMES).lower()] = True
            c["opts"]["bootstrap_samples"] = rng.choice([0, 1, 2, 3, 10])
            c["opts"]["bootstrap_alpha"] = rng.choice([0.0, 1e-9, 0.05, 0.5, 1.0, 1.0000001, -0.1, 2.0, 1e300])
            c["opts"]["bootstrap_seed"] = rng.choice([0, 1, 2 ** 31 - 1, 2 ** 63, 2 ** 64 - 1])
        k = rng.random()
        if k < .2:
            c["qset"] = l1(damage(rng, b("\n".join(q for q in qs if rng.random() < .6))))
        elif k < .4:
            g = b("".join("g%d %s\n" % (rng.randint(0, 2), q) for q in qs if rng.random() < .7))
            c["qgroups"] = l1(damage(rng, g) if rng.random() < .5 else g)
        if k < .4 and rng.random() < .06:     # lines beyond any fixed buffer
            f = "qset" if k < .2 else "qgroups"
            w = rng.choice([["w" * rng.choice([300, 5000, 70000])], ["w%d" % i for i in range(rng.choice([300, 12000]))]])
            c[f] = c[f].rstrip("\n") + rng.choice(["\nbulk ", " "]) + " ".join(w) + rng.choice(["", "\n"])
        return c

    def run(self, case, env):
        tool, o = case["tool"], dict(case["opts"])
        data = [by(case["refs"]), by(case["hyps"])]
        want = [c12.parse(k, d) for k, d in zip(TYPES[tool], data)]
        ok = all(isinstance(w, list) for w in want)
        if any(k.startswith("bootstrap_ci") for k in o) and \
                (o.get("bootstrap_samples", 1) < 1 or not 0 <= o.get("bootstrap_alpha", 0) <= 1):
            ok = False
        if "qset" in case:
            o["query_set"] = env.tools.file("qs", by(case["qset"]))
        if "qgroups" in case:
            o["query_groups"] = env.tools.file("qg", by(case["qgroups"]))
            ok = ok and groups_ok(by(case["qgroups"]))
        for k, n in (("dump", "dump_matches"), ("grp", "output_grp"), ("mrp", "output_mrp")):
            if case[k]:
                env.tools.remove(k)
                o[n] = env.tools.path(k)
        if isinstance(o.get("sort"), str) and o["sort"].startswith("-"):
            raise Invalid()
        args = gen.args_of(o, case["spell"])
        r = run_raw(env, tool, data[0], data[1], args, stdin=case["stdin"], san=True)
        cmd = "%s %s" % (tool, " ".join(args))
        l = {tool}
        if isinstance(want[0], list) and len(want[0]) > 1:
            l.add("nontrivial")
        if not ok:
            failure(r, cmd)
            l.add("rejected")
            return l
        if r.rc:
            failure(r, cmd)       # refusing good input cleanly is a matter of C12 and C13
            return l
        four(r, cmd)
        for k in ("dump", "grp", "mrp"):
            if case[k]:
                need(env.tools.read(k) is not None, "the requested file (%s) was not written: %s", k, cmd)
        l.add("accepted")
        return l


# --------------------------------------------------------------- arguments
OPTS = [["bool", n, "", "0"] for n in c13.BOOLS] + [["uint64", n, "", "1"] for n in c13.UINTS] + \
    [["double", "bootstrap_alpha", "", "0.05"]] + \
    [["string", n, "", ""] for n in ("sort", "query_set", "query_groups", "dump_matches", "output_grp", "output_mrp")]
FILES = ["refs", "hyps", "empty", "bad", "qset", "groups", "absent", "dir", "dir/x", "refs/x", "", "out1", "out2"]


class Arguments(Mode):
    name = "arguments"
    targets = ("icdar_san", "simple_san")
    quick, thorough = 10000, 500000
    rule = ("random argument vectors over the tools' options, file names and junk, in sanitized tools, against the reference "
            "command-line parser of C13 and the state of the named files; non-trivial: three words or more")

    def gen(self, rng, size):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            t, n, _, _ = rng.choice(OPTS)
            out.append("--" + n)
            if t == "string":
                if n == "sort":
                    out.append(rng.choice(["asc", "desc", "none", "", "x", "DESC"]))
                else:
                    out.append(rng.choice({"query_set": ["qset", "qset", "empty", "absent", "dir"],
                                           "query_groups": ["groups", "groups", "bad", "empty", "absent", "dir"]}
                                          .get(n, ["out1", "out2", "out1", "dir", "dir/x", "absent/x", "refs/x", ""])))
            elif t == "bool":
                if rng.random() < .6:
                    out.append(c13.word(rng, "bool", .05))
            elif t == "double":
                out.append(rng.choice(["0.05", "0", "1", "1.5", "-0.1", "1e-300", "nan", "x", "0.5"]))
            else:
                out.append(rng.choice(["0", "1", "2", "7", "40"] * 3 + ["-1", "18446744073709551616", "1e3", ""]))
        if rng.random() < .7:
            out.append("--")
        out += [rng.choice(["refs", "refs", "refs", rng.choice(FILES)]), rng.choice(["hyps", "hyps", "hyps", rng.choice(FILES)])][
            :rng.choice([2, 2, 2, 2, 1, 0])]
        if rng.random() < .2:
            k = rng.randrange(4)
            p = rng.randint(0, len(out))
            if k == 0 and out:
                del out[p % len(out)]
            elif k == 1:
                out.insert(p, rng.choice(["--unknown", "-x", "-", "--", "--sort=asc", "--help", "-1", "w" * 4000, "\u00e9", "%n%s", "---"]))
            elif k == 2:
                rng.shuffle(out)
            elif out:
                q = p % len(out)
                out[q] = out[q][:-1] if rng.random() < .5 else out[q] + rng.choice(["x", "0", "-", "=", "\x7f"])
        if "--bootstrap_samples" not in out and any(w.startswith("--bootstrap_ci") for w in out):
            out[:0] = ["--bootstrap_samples", rng.choice(["1", "5"])]
        return dict(tool=rng.choice(["icdar", "simple"]), argv=out, stdin=rng.choice(["hyps", "hyps", "bad", "empty"]))

    def setup(self, env, tool):
        s = tool == "simple"
        bad = b"a d\nb\n" if s else b"a d 0 0 10 10 0.5\nb d 0 0 10\n"
        want = {"refs": c13.SREFS if s else c13.REFS, "hyps": c13.SHYPS if s else c13.HYPS, "empty": b"", "bad": bad,
                "qset": b"a\n", "groups": b"g a b\nh c\n"}
        for n, d in want.items():
            env.tools.file(n, d)
        for n in os.listdir(env.scratch):
            p = env.tools.path(n)
            if n not in want and n not in ("dir", "stdout", "stderr") and os.path.isfile(p):
                os.unlink(p)
        os.makedirs(env.tools.path("dir"), exist_ok=True)
        env.tools.remove("dir/x")
        return want

    def run(self, case, env):
        tool, argv = case["tool"], case["argv"]
        if any("\0" in w or w.startswith("/") or ".." in w for w in argv):
            raise Invalid()
        if "--bootstrap_samples" not in argv and any(w.startswith("--bootstrap_ci") for w in argv):
            raise Invalid()       # the default number takes too long
        have = self.setup(env, tool)
        want = c13.parse(OPTS, [["string", "refs", "", ""]], [["string", "hyps", "", ""]], argv)
        run = env.tools.run(tool + "_san", argv, stdin=env.tools.path(case["stdin"]))
        cmd = "%s %r" % (tool, argv)
        sane(run, cmd)
        l = {"nontrivial"} if len(argv) > 2 else set()
        if want in ("help", "help?"):
            need(not METRIC.search(run.out), "--help evaluated something: %s", cmd)
            return {"help"}
        if want is None:
            failure(run, cmd)
            return l | {"rejected"}
        v = {o[1]: text(x) if isinstance(x, bytes) else x for o, x in zip(OPTS, want[0])}
        refs, hyps = text(want[1][0]), text(want[2][0])
        # the inputs, then the outputs
        ok = True
        if any(v[x] for x in c13.BOOLS[3:]):
            # unset options have the tool's defaults, which are usable
            if "--bootstrap_samples" in argv and v["bootstrap_samples"] < 1 or not 0 <= v["bootstrap_alpha"] <= 1:
                ok = False
            if v["bootstrap_samples"] > 10 ** 6:
                raise Invalid()
        if "--rp_curve_samples" in argv and v["rp_curve_samples"] > 10 ** 6 and (v["output_grp"] or v["output_mrp"]):
            raise Invalid()
        hd = have.get(hyps if hyps else case["stdin"])
        kinds = TYPES[tool]
        for n, d, k in ((refs, have.get(refs), kinds[0]), (hyps, hd, kinds[1])):
            if d is None or isinstance(c12.parse(k, d), int):
                ok = False
        qfile = v["query_groups"] or v["query_set"]
        if qfile and (qfile not in have or v["query_groups"] and not groups_ok(have[qfile])):
            ok = False
        outs = [v[n] for n in ("dump_matches", "output_grp", "output_mrp") if v[n]]
        for n in outs:
            if n in have or n in ("stdout", "stderr"):
                raise Invalid()       # overwrites its own inputs
        if not ok:
            failure(run, cmd)
            return l | {"bad input"}
        broken = [n for n in outs if n == "dir" or n.endswith("/") or "/" in n and not n.startswith("dir/") or len(n) > 250]
        if broken:
            need(0 < run.rc < 99 and run.err.strip(), "status %s although %r cannot be written: %s", run.rc, broken, cmd)
            return l | {"bad output"}
        if run.rc:
            failure(run, cmd)
            return l
        four(run, cmd)
        for n in outs:
            need(os.path.isfile(env.tools.path(n)), "%s was not written: %s", n, cmd)
        return l | {"accepted"}


# ------------------------------------------------------------------ faults
INS = ["refs", "hyps", "stdin", "query_set", "query_groups"]
OUTS = ["dump_matches", "output_grp", "output_mrp"]
EIO, ENOSPC, EFBIG, EDQUOT = 5, 28, 27, 122


@contextlib.contextmanager
def reset_after(data):
    """A socket which yields the data and then an error."""
    a, s = socket.socketpair()
    try:
        a.setblocking(False)
        try:
            s.send(b"x")          # never read by the peer, hence the reset
            if a.send(data) < len(data):
                raise Invalid()
        except BlockingIOError:
            raise Invalid()
        a.close()
        yield s
    finally:
        a.close()
        s.close()


class Faults(Mode):
    name = "faults"
    targets = ("icdar", "simple", "icdar_san", "simple_san", "lim", "shim")
    quick, thorough = 10000, 400000
    rule = ("one fault per run: inputs that are missing, directories or fail at some read, outputs that cannot be opened, are "
            "full, run full after any number of bytes, fail at some write or at closing, short and interrupted transfers; "
            "non-trivial: the fault took effect")

    def gen(self, rng, size):
        tool = rng.choice(["icdar", "simple"])
        big = rng.random() < .15      # more than a stream buffer
        refs, hyps = (gen.icdar if tool == "icdar" else gen.simple)(rng, 700 if big else min(size, 40))
        qs = sorted({e[0] for e in refs + hyps}) or ["q"]
        opts = gen.curve_opts(rng)
        outs = [o for o in OUTS if rng.random() < .5]
        if rng.random() < .2:
            opts["bootstrap_ci_" + rng.choice(NAMES).lower()] = True
            opts["bootstrap_samples"] = rng.choice([1, 3])
        opts["rp_curve_samples"] = rng.choice([2, 5, 11, 101, 1001])
        q = rng.choice(["", "", "query_set", "query_groups"])
        stdin = rng.random() < .35
        ins = ["refs", "stdin" if stdin else "hyps"] + ([q] if q else [])
        kind = rng.choice(["in", "in", "read", "read", "open", "full", "full", "limit", "limit", "limit", "write", "write", "close",
                           "short", "eintr", "stdout", "reset"])
        if kind in ("in", "read"):
            fault = [kind, rng.choice(ins), rng.choice(["absent", "dir", "dir/x", "file/x", "long"]) if kind == "in"
                     else rng.choice([1, 1, 2, 3])]
        elif kind in ("open", "full", "write", "close"):
            t = rng.choice(OUTS)
            if t not in outs:
                outs.append(t)
            fault = [kind, t, rng.choice(["dir", "absent/x", "file/x", "long"]) if kind == "open" else rng.choice([1, 1, 1, 2, 3])]
        elif kind == "limit":
            fault = [kind, "", rng.choice([0, 1, 10, 30, 40, 50, 60, rng.randint(0, 200), rng.randint(0, 3000), rng.randint(0, 60000)])]
        elif kind == "reset":
            stdin, n = True, len(lines(hyps, tool))
            fault = [kind, "stdin", rng.choice([0, n, rng.randint(0, n)])]
        elif kind in ("short", "eintr"):
            fault = [kind, rng.choice([x for x in ins if x != "stdin"] + outs), rng.choice([1, 2, 3, 7, 100])]
        else:
            fault = [kind, "", rng.choice(["full", "closed"])]
        return dict(tool=tool, refs=refs, hyps=hyps, opts=opts, outs=outs, q=q, qs=[x for x in qs if rng.random() < .8],
                    stdin=stdin, fault=fault, spell=rng.getrandbits(10))

    def run(self, case, env):
        tool, (kind, target, par) = case["tool"], case["fault"]
        valid(case, tool)
        if any(not q for q in case["qs"]) or case["opts"].get("rp_curve_samples", 2) < 2 or \
                case["opts"].get("bootstrap_samples", 1) < 1 or case["q"] not in ("", "query_set", "query_groups"):
            raise Invalid()
        if len(set(case["outs"])) != len(case["outs"]) or any(x not in OUTS for x in case["outs"]):
            raise Invalid()
        T = env.tools
        os.makedirs(T.path("dir"), exist_ok=True)
        T.file("file", b"")
        f = {"refs": T.file("refs", lines(case["refs"], tool)), "hyps": T.file("hyps", lines(case["hyps"], tool)),
             "stdin": T.path("hyps")}
        o = dict(case["opts"])
        if case["q"] == "query_set":
            f["query_set"] = T.file("qs", b("\n".join(case["qs"])))
        elif case["q"] == "query_groups":
            f["query_groups"] = T.file("qg", b("".join("g%d %s\n" % (i % 3, q) for i, q in enumerate(case["qs"]))))
        for x in case["outs"]:
            f[x] = T.path(x)
            T.remove(x)

        def go(paths, exe=tool, **kw):
            oo = dict(o)
            for x in [case["q"]] + case["outs"]:
                if x:
                    oo[x] = paths[x]
            args = gen.args_of(oo, case["spell"]) + [paths["refs"]] + ([] if case["stdin"] else [paths["hyps"]])
            return T.run(exe, args, stdin=paths["stdin"] if case["stdin"] else None, **kw)

        def files():
            return {x: T.read(x) for x in case["outs"]}
        ref = go(f)
        l = {kind}
        cmd = "%s %s with fault %r" % (tool, sorted(o) + case["outs"], case["fault"])
        if ref.rc:
            failure(ref, cmd)
            return l
        four(ref, cmd)
        clean = files()
        for x in case["outs"]:
            T.remove(x)

        def failed(r, metrics_ok):
            need(not r.timeout, "no end within the time limit: %s", cmd)
            need(0 < r.rc < 99, "status %s despite the fault: %s; stderr: %s", r.rc, cmd, text(r.err)[-300:])
            need(r.err.strip(), "no message: %s", cmd)
            need(metrics_ok or not METRIC.search(r.out), "metrics printed despite the fault: %s", cmd)
        if kind == "in" or kind == "open":
            bad = T.path({"absent": "absent", "dir": "dir", "dir/x": "dir/none", "file/x": "file/x", "absent/x": "absent/x",
                          "long": "l" * 300}[par])
            if target == "stdin":
                if par != "dir":
                    raise Invalid()
            if target not in f:
                raise Invalid()
            failed(go(dict(f, **{target: bad}), exe=tool + "_san"), kind == "open")
            return l | {"nontrivial", target}
        if kind == "reset":       # standard input breaks after some bytes
            with reset_after(lines(case["hyps"], tool)[:par]) as s:
                paths = dict(f, stdin=s.fileno())
                failed(go(paths, exe=tool + ("_san" if case["spell"] % 2 else "")), False)
            return l | {"nontrivial", target}
        if kind == "full":
            if target not in f:
                raise Invalid()
            failed(go(dict(f, **{target: "/dev/full"}), exe=tool + "_san"), True)
            return l | {"nontrivial", target}
        if kind == "stdout":
            r = go(f, stdout="/dev/full") if par == "full" else go(f, wrap=[env.paths["lim"], "-1"])
            failed(r, True)
            return l | {"nontrivial"}
        if kind == "limit":
            r = go(f, wrap=[env.paths["lim"], str(par)], pipe=True)
            need(not r.timeout, "no end within the time limit: %s", cmd)
            sizes = dict({x: len(d) for x, d in clean.items()}, stdout=len(ref.out))
            cut = {x: n for x, n in sizes.items() if n > par}
            if cut:
                need(0 < r.rc < 99, "status %s although files are limited to %d bytes and %r need more: %s", r.rc, par, cut, cmd)
                need(r.err.strip(), "no message: %s", cmd)
                return l | {"nontrivial"}
            need(r.rc == 0 and r.out == ref.out and files() == clean, "a limit of %d bytes, which suffices, changes the outcome: %s, "
                 "status %s", par, cmd, r.rc)
            return l
        # preloaded faults
        if target not in f:
            raise Invalid()
        T.remove("mark")
        err = {"read": EIO, "write": ENOSPC if par % 2 else EIO, "close": EIO}.get(kind, 4)
        r = go(f, env={"LD_PRELOAD": env.paths["shim"], "KWS_MARK": T.path("mark"),
                       "KWS_FAULT": "%s %d %d %s" % (kind, par, err, os.path.realpath(f[target]))})
        hit = T.read("mark") is not None
        if kind in ("read", "write", "close"):
            if hit:
                failed(r, kind != "read")
                return l | {"nontrivial", target}
        need(r.rc == 0 and r.out == ref.out, "status %s, output %r instead of %r: %s", r.rc, text(r.out), text(ref.out), cmd)
        need(files() == clean, "the files written differ: %s", cmd)
        return l | ({"nontrivial"} if hit else set())


class Huge(Mode):
    name = "huge"
    targets = ("icdar", "simple", "lim")
    quick, thorough = 200, 4000
    rule = "more curve points than the memory granted holds, for one or both curves; non-trivial: every case"

    def gen(self, rng, size):
        n = 2 ** rng.randint(29, 64) + rng.choice([-1, -1, 0, 1, rng.getrandbits(30)])
        return dict(tool=rng.choice(["icdar", "simple"]), n=min(n, 2 ** 64 - 1), outs=rng.choice([1, 2, 3]),
                    groups=rng.randint(0, 3))

    def run(self, case, env):
        if not 2 ** 28 < case["n"] < 2 ** 64 or case["outs"] not in (1, 2, 3) or not 0 <= case["groups"] < 100:
            raise Invalid()
        box = " 0 0 9 9" if case["tool"] == "icdar" else ""
        r, h = ["".join("q%d d%s%s\n" % (i, box, s) for i in range(case["groups"])) for s in ("", " 0.5")]
        T = env.tools
        args = ["--rp_curve_samples", str(case["n"])]
        for k, o in enumerate(("output_grp", "output_mrp")):
            if case["outs"] >> k & 1:
                args += ["--" + o, T.path(o)]
        run = T.run(case["tool"], args + [T.file("refs", b(r)), T.file("hyps", b(h))], wrap=[env.paths["lim"], str(-10 ** 9)])
        need(not run.timeout, "no end within the time limit: %r", args)
        need(0 < run.rc < 99, "status %s for %d curve points: %s", run.rc, case["n"], text(run.err)[-300:])
        need(run.err.strip(), "no message for %d curve points", case["n"])
        return {"nontrivial"}


CHECK = CheckRunner("C18", [Bytes(), Arguments(), Faults(), Huge()] + fuzz.modes(eval=60000, cmd=150000),
                    ["signed overflow of areas of boxes beyond 32-bit coordinates is not counted as an error",
                     "AddressSanitizer and UBSan decide what an invalid access is",
                     "read faults on standard input are a directory and a connection that breaks"],
                    extra=fuzz.campaign)
