#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/seeds_*.py (patches against /repo's HEAD)."""
import difflib, glob, importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH_HEAD = '''#!/bin/bash
# Run in the repository after its build; exits 0 if the behaviour is right.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
I=$PWD/_build/tools/Icdar17KwsEval
S=$PWD/_build/tools/SimpleKwsEval
fail() { echo "WRONG: $*"; exit 1; }
'''
CPP_SH = SH_HEAD + '''
g++ -std=gnu++14 -w -g %s -I"$PWD" "$here/demo.cc" -o "$T/demo" || { echo "cannot compile"; exit 2; }
timeout 120 "$T/demo" || fail "see above"
'''
CPP_HEAD = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''


def load():
    res = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds_*.py"))):
        s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        res += m.SEEDS
    return res


def main(only):
    for s in load():
        if only and s["id"] not in only:
            continue
        patch = ""
        files = {}
        for f, old, new in s["edits"]:
            t = files.get(f) or (open("/repo/" + f).read(),) * 2
            assert t[1].count(old) == 1, (s["id"], f, t[1].count(old), old)
            files[f] = (t[0], t[1].replace(old, new))
        for f, (a, b) in sorted(files.items()):
            out = []
            for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
                out.append(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
            patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(out)
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        if "sh" in s:
            sh = SH_HEAD + s["sh"].strip() + "\nexit 0\n"
        else:
            sh = CPP_SH % s.get("flags", "")
            sh += "exit 0\n"
            open(d + "/demo.cc", "w").write(CPP_HEAD + s["cc"].strip() + "\n")
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["p"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    main(sys.argv[1:])
