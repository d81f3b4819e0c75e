"""Builds harness drivers and the tools from /repo's current working tree.

Everything goes to /verif/build/<key>/, the key being a hash of every source
under /repo (headers and .cc files), of the harness and of the flags, so an
unchanged tree is not rebuilt and a changed one always is.
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "build")
STD = ["-std=gnu++14", "-w", "-I" + REPO]
OMP = ["-fopenmp"]       # the repository's own build uses it
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
# Uninitialised stack variables get a pattern, so that reading one shows.
PLAIN = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]

TARGETS = {
    # name: (compiler, source, flags)
    "icdar": ("g++", REPO + "/tools/Icdar17KwsEval.cc", PLAIN),
    "simple": ("g++", REPO + "/tools/SimpleKwsEval.cc", PLAIN),
    # as the repository's own build: what threads share stays in memory
    "icdar_dbg": ("g++", REPO + "/tools/Icdar17KwsEval.cc", ["-O0"]),
    "simple_dbg": ("g++", REPO + "/tools/SimpleKwsEval.cc", ["-O0"]),
    "icdar_san": ("g++", REPO + "/tools/Icdar17KwsEval.cc", ["-O1"] + SAN),
    "simple_san": ("g++", REPO + "/tools/SimpleKwsEval.cc", ["-O1"] + SAN),
}
for _f in glob.glob(os.path.join(VERIF, "harness", "*.cc")):
    _n = os.path.basename(_f)[:-3]
    if _n.startswith("fuzz_"):
        TARGETS[_n] = ("clang++", _f, ["-O1", "-g", "-fsanitize=fuzzer,address,undefined",
                       "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=all"])
    else:
        TARGETS[_n] = ("g++", _f, PLAIN)
        TARGETS[_n + "_san"] = ("g++", _f, ["-O1"] + SAN)


TARGETS["lim"] = ("gcc", VERIF + "/harness/lim.c", ["-O1"])
TARGETS["shim"] = ("gcc", VERIF + "/harness/shim.c", ["-O1", "-shared", "-fPIC", "-ldl"])


class BuildError(Exception):
    pass


def repo_sources():
    res = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "build", "examples"))
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".cc", ".cpp", ".hh", ".inc")) or f == "CMakeLists.txt":
                res.append(os.path.join(root, f))
    return res


def tree_hash():
    h = hashlib.sha256()
    for f in repo_sources():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h


def _cmake_fallback(name, dst):
    """The tool could not be compiled as a single file: let CMake do it."""
    d = tempfile.mkdtemp(prefix="cmk", dir=OUT)
    exe = "Icdar17KwsEval" if name.startswith("icdar") else "SimpleKwsEval"
    flags = " ".join(["-w"] + TARGETS[name][2])
    try:
        subprocess.run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                        "-DCMAKE_CXX_STANDARD=14", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                        "-DCMAKE_CXX_STANDARD_LIBRARIES=-lgmock -lgtest",
                        "-DCMAKE_EXE_LINKER_FLAGS=" + flags, "-DWITH_TESTS=OFF"],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, CXXFLAGS=flags, CC="gcc", CXX="g++"))
        subprocess.run(["ninja", "-C", d, exe], check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        shutil.move(os.path.join(d, "tools", exe), dst)
        return True
    except (subprocess.CalledProcessError, OSError):
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _build_one(name, base):
    cxx, src, flags = TARGETS[name]
    h = base.copy()
    h.update(" ".join([cxx, src] + flags).encode())
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))):
        if f == src or f.endswith(".h"):
            with open(f, "rb") as fd:
                h.update(fd.read())
    d = os.path.join(OUT, h.hexdigest()[:20])
    dst = os.path.join(d, name)
    if os.path.exists(dst):
        return dst
    os.makedirs(d, exist_ok=True)
    tmp = dst + ".%d.tmp" % os.getpid()
    std = [] if src.endswith(".c") else STD + OMP if cxx == "g++" else STD
    # A template argument of ours may be refused for good reasons: PORTABLE
    # leaves out those which the repository does not use itself.
    for extra in ([], ["-DPORTABLE"]) if name.startswith("drv_") else ([],):
        r = subprocess.run([cxx] + std + flags + extra + ["-I" + os.path.join(VERIF, "harness"), src,
                            "-o", tmp, "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            break
    if r.returncode != 0:
        if name.split("_")[0] in ("icdar", "simple") and _cmake_fallback(name, dst):
            return dst
        raise BuildError("cannot build %s:\n%s" % (name, r.stdout[-4000:]))
    os.replace(tmp, dst)
    return dst


def build(names):
    """Builds the targets in parallel; returns {name: path}."""
    os.makedirs(OUT, exist_ok=True)
    base = tree_hash()
    with ThreadPoolExecutor(8) as ex:
        futs = {n: ex.submit(_build_one, n, base) for n in names}
        return {n: f.result() for n, f in futs.items()}


if __name__ == "__main__":
    names = sys.argv[1:] or sorted(TARGETS)
    for n, pth in build(names).items():
        print(n, pth)
