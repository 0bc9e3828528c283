"""Client of the in-process servers (src/unit.c)."""
import atexit, os, signal, struct, subprocess, tempfile, shutil
import build
from harness import ASAN_ENV, HarnessError, Violation, rmtree, scratch_root


class Server:
    def __init__(self, name="unit", variant="tests"):
        self.dir = tempfile.mkdtemp(prefix="vf-un-", dir=scratch_root())
        self.err = open(os.path.join(self.dir, "err"), "w+b")
        self.w = os.path.join(self.dir, "w")
        os.mkdir(self.w)
        e = dict(os.environ)
        e.update(ASAN_ENV)
        e["HOME"] = self.dir
        self.p = subprocess.Popen([build.harness(name, variant), self.w], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=self.w)
        self.n = 0

    def close(self):
        self.p.kill()
        self.p.wait()
        rmtree(self.dir)

    def rd(self, n):
        b = b""
        while len(b) < n:
            x = self.p.stdout.read(n - len(b))
            if not x:
                raise HarnessError("server ended")
            b += x
        return b

    def call(self, lines):
        """Output lines of the program, split into words (x.. decoded to bytes, - to None)."""
        data = "\n".join(lines).encode()
        self.err.seek(0)
        self.err.truncate()
        self.p.stdin.write(struct.pack("I", len(data)) + data)
        self.p.stdin.flush()
        st, n = struct.unpack("II", self.rd(8))
        out = self.rd(n)
        d = os.path.join(self.w, "c%d" % self.n)
        self.n += 1
        if os.path.isdir(d):
            rmtree(d)
        self.err.seek(0)
        err = self.err.read()
        prog = "\n".join(l if len(l) < 300 else l[:300] + "..." for l in lines[:60])
        if b"AddressSanitizer" in err or b"runtime error" in err:
            raise Violation("memory error: %s\nprogram:\n%s" % (err.decode(errors="replace")[:3000], prog))
        if os.WIFSIGNALED(st):
            raise Violation("ended by signal %d%s\nprogram:\n%s" % (os.WTERMSIG(st), " (hang)" if os.WTERMSIG(st) == signal.SIGALRM else "", prog))
        res = [[dec(x) for x in l.split(b" ")] for l in out.split(b"\n") if l]
        if os.WEXITSTATUS(st) or not res or res[-1] != [b"done"]:
            raise Violation("ended with status %d: %s\nprogram:\n%s" % (os.WEXITSTATUS(st), err.decode(errors="replace")[:2000], prog))
        return res[:-1]


def dec(x):
    if x[:1] == b"x":
        return Hex(bytes.fromhex(x[1:].decode()))
    return x


class Hex(bytes):
    pass


def h(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + b.hex()


_srv = {}


def server(name="unit", variant="tests"):
    s = _srv.get(name)
    if s is None or s.p.poll() is not None:
        s = _srv[name] = Server(name, variant)
        from multiprocessing import util
        util.Finalize(None, s.close, exitpriority=10)
        atexit.register(s.close)
    return s
