#!/usr/bin/env python3
"""mutate.py gen OUT | mutate.py tests OUT [jobs] | mutate.py checks OUT [jobs] [scale]

A systematic sweep of small changes: 'gen' lists mutants of /repo's sources,
'tests' keeps those that build and pass the stable tests (scratch copies in
/dev/shm), 'checks' runs the checks most related to the mutated file, then a
few general ones, until one reports it.  What no check reports is left for a human to
judge (equivalent, outside every property, or a gap).  OUT is a JSON-lines file."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = {}
SKIP = ("Mock", "Dummy", "TypeInfo", "Test.cc")
PRIO = {"Assessment.h": "C05 C06 C07 C08 C09 C11 C01", "Bootstrapping.h": "C10", "Statistic.h": "C06 C07 C01",
        "BoundingBox.h": "C03 C14 C19 C12", "DocumentBoundingBox.h": "C03 C14 C19 C12", "Event.h": "C14 C19 C12",
        "ScoredEvent.h": "C14 C19 C12", "ShapedEvent.h": "C14 C03", "EventSet.h": "C15",
        "DocumentBoundingBoxEventSet.h": "C15 C02", "Match.h": "C20 C19", "MatchError.h": "C20 C19", "MatchErrorCounts.h": "C20 C08",
        "Argument.h": "C13", "Option.h": "C13", "Parser.h": "C13", "SimpleMatcher.h": "C02 C20", "PlainTextMapEventReader.h":
        "C12", "PlainTextReader.h": "C12", "GenericKwsEvalTool.h": "C01 C09 C18 C10 C11 C19 C13 C17 C22",
        "Icdar17KwsEval.cc": "C01", "SimpleKwsEval.cc": "C01", "StringToIntMapper.h": "C16 C20",
        "StringEventToIntMapper.h": "C16 C20", "ScoredEventMapper.h": "C16 C20", "IdentityMapper.h": "C12 C16",
        "IntersectionOverHypothesisAreaScorer.h": "C04", "IntersectionOverUnionAreaScorer.h": "C04",
        "SoftBoundingBoxScorer.h": "C04", "TrivialScorer.h": "C04"}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-])<(?![<=])(?= )", ["<="]), (r"(?<![>\-])>(?![>=])(?= )", [">="]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b1\.0f?\b", ["0.0", "2.0"]),
       (r"\b0\.0f?\b", ["1.0"]), (r"\b0\.5f?\b", ["1.0"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bmax\b(?=[<(])", ["min"]), (r"\bmin\b(?=[<(])", ["max"]), (r"\bgreater\b", ["less"]), (r"\bless\b", ["greater"]),
       (r"!(?=[A-Za-z_*(])", [""]), (r"\bbegin\(\)", ["end()"]), (r"\.first\b", [".second"]), (r"\.second\b", [".first"]),
       (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\bexp2\b", ["exp"]), (r"\blog2\b", ["log"]),
       (r"\bRef\b", ["Hyp"]), (r"\bHyp\b", ["Ref"]), (r"\bFP\b", ["FN"]), (r"\bFN\b", ["FP"]), (r"\bNH\b", ["NR"]),
       (r"\bNR\b", ["NH"]), (r"\bcollapse_matches\b", ["interpolated_precision"]), (r"\bQuery\(\)", ["Location()"]),
       (r"\bstd::sort\b", ["std::make_heap"]), (r"\bsize_t\b", ["unsigned char", "int"]), (r"\bint64_t\b", ["int32_t"]),
       (r"\bfloat\b", ["int", "double"]), (r"\bdouble\b", ["float"]), (r"\bReal\b", ["float"]), (r"\bconst auto ?&", ["auto"]),
       (r"\bemplace\b", ["insert"])]


def sources():
    fs = subprocess.run(["git", "-C", "/repo", "ls-files", "*.h", "*.cc"], stdout=subprocess.PIPE, text=True).stdout.split()
    return [f for f in fs if not any(s in f for s in SKIP)]


def gen(out):
    n = 0
    with open(out, "w") as o:
        for f in sources():
            lines = open("/repo/" + f).read().split("\n")
            comment = False
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith("/*"):
                    comment = True
                if "*/" in s:
                    comment = False
                    continue
                if comment or not s or s.startswith(("//", "#", "typedef", "namespace", "using", "template", "static_assert",
                                                     "assert", "public", "private", "}")):
                    continue
                code = l.split("//")[0]
                muts = set()
                for pat, reps in OPS:
                    for m in re.finditer(pat, code):
                        if code[:m.start()].count('"') % 2:
                            continue
                        for r in reps:
                            muts.add(l[:m.start()] + r + l[m.end():])
                if s.endswith(";") and not s.startswith(("return", "const", "auto", "}", "std::", "bool", "size_t", "double")) or \
                        re.match(r"(if .*; ?\}?$|for .*\{\})", s):
                    muts.add("")
                for t in sorted(muts):
                    if t != l:
                        o.write(json.dumps(dict(id=n, file=f, line=i + 1, old=l, new=t)) + "\n")
                        n += 1
    print(n, "mutants")


def load(out):
    return [json.loads(l) for l in open(out)]


def copy(m):
    tmp = tempfile.mkdtemp(prefix="mu_", dir="/dev/shm")
    r = tmp + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    p = r + "/" + m["file"]
    lines = open(p).read().split("\n")
    assert lines[m["line"] - 1] == m["old"]
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
    return tmp, r


def affected(r, f):
    """Test sources and tools that include the file."""
    if f not in DEPS:
        out = []
        for src in subprocess.run(["git", "-C", "/repo", "ls-files", "*.cc"], stdout=subprocess.PIPE, text=True).stdout.split():
            d = subprocess.run(["g++", "-std=gnu++14", "-I/repo", "-MM", "/repo/" + src], stdout=subprocess.PIPE, text=True).stdout
            if "/repo/" + f in d.replace("\\\n", " ").split():
                out.append(src)
        DEPS[f] = out
    return DEPS[f]


def test(m):
    """Like the project's own build and tests, but only those which the mutant can affect."""
    tmp, r = copy(m)
    try:
        for src in affected(r, m["file"]):
            exe = tmp + "/" + os.path.basename(src)[:-3]
            is_test = src.endswith("Test.cc")
            cmd = ["g++", "-std=gnu++14", "-w", "-I" + r, r + "/" + src]
            cmd += ["-o", exe, "-lgmock", "-lgtest", "-lgtest_main", "-lpthread"] if is_test else ["-fsyntax-only"]
            if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode:
                return "build"
            if is_test:
                try:
                    p = subprocess.run(["bash", "-c", "ulimit -v 4000000; exec %s" % exe], cwd=tmp, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.DEVNULL, timeout=20)
                except subprocess.TimeoutExpired:
                    return "killed"
                if p.returncode:
                    return "killed"
        return "survives"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(m, scale):
    tmp, r = copy(m)
    first = PRIO.get(os.path.basename(m["file"]), "").split()
    order = first + [c for c in ("C01", "C21", "C02", "C19") if c not in first]
    res = []
    try:
        for c in order:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE=str(scale), VERIF_CAP_S="150")
            try:
                p = subprocess.run(["python3", V + "/run.py", c], cwd=V, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                res.append(c + " timeout")
                continue
            if p.returncode == 1:
                return "caught " + c
            if p.returncode:
                res.append("%s rc=%d %s" % (c, p.returncode, p.stdout[-200:]))
        return "MISSED " + "; ".join(res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    what, out = sys.argv[1], sys.argv[2]
    jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else .15
    if what == "gen":
        return gen(out)
    done = {}
    log = out + "." + what
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done[d["id"]] = d
    ms = load(out)
    if what == "checks":
        t = {d["id"]: d for d in load(out + ".tests")}
        ms = [m for m in ms if t.get(m["id"], {}).get("result") == "survives"]
    ms = [m for m in ms if m["id"] not in done]
    random.Random(5).shuffle(ms)
    fn = test if what == "tests" else lambda m: check(m, scale)
    with open(log, "a") as o, ThreadPoolExecutor(jobs) as ex:
        for m, r in zip(ms, ex.map(fn, ms)):
            o.write(json.dumps(dict(m, result=r)) + "\n")
            o.flush()


main()
