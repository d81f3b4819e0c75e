"""Driver processes (persistent, line protocol) and one-shot tool runs."""
import fcntl, os, select, shutil, signal, subprocess, tempfile, time


class Crash(Exception):
    """The code under test died or hung; carries what it said."""


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99"}
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "MALLOC_PERTURB_": "165", "HOME": "/tmp"}
ENV.update(SAN_ENV)


def enc(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return x.hex() if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, bytes):
        return "x" + x.hex()
    if isinstance(x, str):
        return "x" + x.encode("utf-8", "surrogateescape").hex()
    raise TypeError(type(x))


class Words:
    """Reader of a response line."""
    __slots__ = ("t", "p")

    def __init__(self, line):
        self.t = line.split()
        self.p = 0

    def raw(self):
        v = self.t[self.p]
        self.p += 1
        return v

    def i(self):
        return int(self.raw())

    def b(self):
        return self.raw() == "1"

    def d(self):
        v = self.raw()
        return float.fromhex(v) if "x" in v else float(v)

    def s(self):
        return bytes.fromhex(self.raw()[1:])

    def end(self):
        return self.p == len(self.t)


class Driver:
    """A harness process.  `timeout` covers one request."""

    def __init__(self, path, timeout=60):
        self.path, self.timeout, self.p, self.served = path, timeout, None, 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=ENV, cwd="/")
        self.served = 0
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except OSError:
                pass
            self.err.close()
            self.p = None

    def _died(self, what):
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass
        rc = self.p.returncode
        self.err.seek(0)
        txt = self.err.read().decode("utf-8", "replace")
        self.stop()
        if rc == 77:
            raise RuntimeError("driver protocol error: " + txt[-500:])
        raise Crash("%s (status %s): %s" % (what, rc, _gist(txt)))

    def ask(self, *items):
        """items: flat sequence; a leading raw command word, then values."""
        if self.p is None:
            self.start()
        line = (items[0] + " " + " ".join(enc(x) for x in items[1:]) + "\n").encode()
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._died("driver died")
        fd = self.p.stdout.fileno()
        chunks = self.buf
        patience = self.timeout + min(140, len(line) / 2e4)      # a slower program is no worse a program
        while b"\n" not in chunks:
            r, _, _ = select.select([fd], [], [], patience)
            if not r:
                self.stop()
                raise Crash("no answer within %d s" % patience)
            c = os.read(fd, 1 << 20)
            if not c:
                self._died("driver died")
            chunks += c
        ans, self.buf = chunks.split(b"\n", 1)
        self.served += 1
        return Words(ans.decode())

    def stderr_text(self):
        self.err.seek(0)
        return self.err.read()


def _gist(txt):
    for key in ("ERROR: AddressSanitizer", "runtime error", "Assertion", "terminate called", "what():"):
        k = txt.find(key)
        if k >= 0:
            return txt[max(0, k - 120):k + 400].replace("\n", " | ")
    return txt[-300:].replace("\n", " | ")


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


class Tools:
    """Runs the tool binaries with files in a private scratch directory."""

    def __init__(self, paths, scratch):
        self.paths, self.dir, self.n = paths, scratch, 0
        self.out = os.path.join(scratch, "stdout")
        self.err = os.path.join(scratch, "stderr")
        self.fout = os.open(self.out, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        self.ferr = os.open(self.err, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        self.null = os.open("/dev/null", os.O_RDWR)
        self.pipes, self.piped = [], {}

    def pipe_in(self, data):
        """A path from which the next run can read the data, once and without seeking; None if they are too many."""
        rd, wr = os.pipe()
        if len(data) > _room(wr, len(data)):
            os.close(rd)
            os.close(wr)
            return None
        if data:
            os.write(wr, data)
        os.close(wr)
        self.pipes.append((rd, None, None))
        return "/dev/fd/%d" % (PIPE0 + len(self.pipes) - 1)

    def pipe_out(self, name):
        """A path to which the next run can write up to half a megabyte, without seeking, which `piped[name]` then
        holds; None if that is not possible."""
        rd, wr = os.pipe()
        if _room(wr, 1 << 20) < 1 << 20:
            os.close(rd)
            os.close(wr)
            return None
        self.pipes.append((wr, rd, name))
        return "/dev/fd/%d" % (PIPE0 + len(self.pipes) - 1)

    def file(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def remove(self, name):
        try:
            os.unlink(os.path.join(self.dir, name))
        except FileNotFoundError:
            pass

    def close(self):
        for fd in (self.fout, self.ferr, self.null):
            os.close(fd)

    def run(self, tool, args, stdin=None, stdout=None, timeout=30, wrap=(), env=None, pipe=False):
        """wrap: a program and its arguments to run the tool with; pipe: stderr is a pipe."""
        exe = self.paths[tool]
        cmd = list(wrap) + [exe] + list(args)
        for fd in (self.fout, self.ferr):
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, os.SEEK_SET)
        if isinstance(stdin, bytes):      # a pipe
            fin, w = os.pipe()
            if len(stdin) > _room(w, len(stdin)):
                raise ValueError("too much for a pipe")
            if stdin:
                os.write(w, stdin)
            os.close(w)
        else:
            fin = self.null if stdin is None else stdin if isinstance(stdin, int) else os.open(stdin, os.O_RDONLY)
        fo = self.fout if stdout is None else os.open(stdout, os.O_WRONLY)
        if pipe:
            rd, wr = os.pipe()
        acts = [(os.POSIX_SPAWN_DUP2, fin, 0), (os.POSIX_SPAWN_DUP2, fo, 1),
                (os.POSIX_SPAWN_DUP2, wr if pipe else self.ferr, 2)]
        acts += [(os.POSIX_SPAWN_DUP2, p[0], PIPE0 + i) for i, p in enumerate(self.pipes)]
        pid = os.posix_spawn(cmd[0], cmd, dict(ENV, **env) if env else ENV, file_actions=acts)
        timed_out = False
        if stdin is not None and not isinstance(stdin, int):
            os.close(fin)
        if stdout is not None:
            os.close(fo)
        for p in self.pipes:
            os.close(p[0])
        rc = _wait(pid, timeout)
        if rc is None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            timed_out = True
        self.piped = {}
        for _, fd, name in self.pipes:
            if fd is not None:
                self.piped[name] = b"".join(iter(lambda: os.read(fd, 1 << 20), b""))
                os.close(fd)
        self.pipes = []
        with open(self.out, "rb") as f:
            out = f.read()
        if pipe:
            os.close(wr)
            err = os.read(rd, 1 << 16)
            os.close(rd)
        else:
            with open(self.err, "rb") as f:
                err = f.read()
        self.n += 1
        return Run(rc, out, err, timed_out)


PIPE0 = 200      # descriptors of pipes in the tools


def _room(fd, n):
    """Makes room for n bytes in a pipe, if possible."""
    try:
        return fcntl.fcntl(fd, 1031, max(n + n // 4, 65536))
    except OSError:
        return fcntl.fcntl(fd, 1032)


def _wait(pid, timeout):
    end = None
    pause = 0.0003
    # Most runs take a few milliseconds: poll with growing pauses.
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return os.waitstatus_to_exitcode(st)
        now = time.monotonic()
        if end is None:
            end = now + timeout
        if now > end:
            return None
        time.sleep(pause)
        pause = min(pause * 1.5, 0.02)
