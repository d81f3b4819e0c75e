#!/usr/bin/env python3
"""try_seed.py [-c] [-a] ID... : validate planted changes in scratch copies of /repo
(apply, build, stable tests, demo without/with the change) and, with -c, run the
check of their property against the copy (-a: every check)."""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, t=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=t, env=env)


def build(r):
    cfg = ('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 '
           '-DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_STANDARD_LIBRARIES=-lgmock -lgtest" -DWITH_TESTS=ON')
    return sh("rm -rf _build && %s && ninja -C _build -j2" % cfg, r)


def one(sid, checks, allc):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="sd_", dir="/tmp")
    try:
        r = tmp + "/repo"
        subprocess.run("git clone -q /repo %s" % r, shell=True, check=True)
        dd = tmp + "/x y"
        shutil.copytree(d, dd)
        p = sh("git apply --check '%s/patch.diff'" % d, r)
        if p.returncode:
            return sid, prop, "PATCH " + p.stdout
        p = sh('env -i PATH="$PATH" bash "%s/demo.sh"' % dd, "/repo", 300)
        if p.returncode:
            return sid, prop, "DEMO FAILS ON CLEAN: " + p.stdout[-600:]
        sh("git apply '%s/patch.diff'" % d, r)
        p = build(r)
        if p.returncode:
            return sid, prop, "BUILD " + p.stdout[-1500:]
        sh('GTEST_OUTPUT="xml:%s/rep/" ctest --test-dir _build -j2 --timeout 120' % tmp, r)
        ok = set()
        for f in os.listdir(tmp + "/rep"):
            for tc in ET.parse(tmp + "/rep/" + f).getroot().iter("testcase"):
                if tc.find("failure") is None:
                    ok.add(tc.get("classname") + "::" + tc.get("name"))
        miss = STABLE - ok
        if miss:
            return sid, prop, "TESTS FAIL: " + " ".join(sorted(miss)[:5])
        p = sh('bash "%s/demo.sh"' % dd, r, 300)
        if p.returncode == 0:
            return sid, prop, "DEMO PASSES WITH PATCH"
        if p.returncode == 2:
            return sid, prop, "DEMO BROKEN: " + p.stdout[-600:]
        res = "valid [%s]" % p.stdout.strip().replace("\n", " | ")[:110]
        if checks:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            for c in (["C%02d" % i for i in range(1, 23)] if allc else [prop]):
                p = sh("python3 %s/run.py %s" % (V, c), V, 900, env)
                hit = p.returncode == 1 and ("VIOLATION property=%s " % c) in p.stdout
                res += "\n      %s: %s" % (c, "CAUGHT" if hit else "rc=%d %s" % (p.returncode, "missed" if p.returncode == 0 else p.stdout[-500:]))
        return sid, prop, res
    except subprocess.TimeoutExpired as e:
        return sid, prop, "TIMEOUT %s" % e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    checks, allc = "-c" in a or "-a" in a, "-a" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(2 if checks else 4) as ex:
        for sid, prop, res in ex.map(lambda s: one(s, checks, allc), ids):
            print("%-34s %s %s" % (sid, prop, res), flush=True)
