"""Running the real autark on generated projects in scratch directories."""
import atexit, os, shutil, signal, subprocess, sys, tempfile, time
import build

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
}
RUN_TIMEOUT = 60


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def _ms(ns):
    # same rounding as a reader of millisecond times: up at half
    return (ns + 500000) // 1000000


def rmtree(p):
    def onerr(f, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            f(path)
        except OSError:
            pass
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p, onerror=onerr)


class Res:
    __slots__ = ("rc", "out", "err", "argv")

    def __init__(self, rc, out, err, argv):
        self.rc, self.out, self.err, self.argv = rc, out, err, argv

    @property
    def ok(self):
        return self.rc == 0

    def text(self):
        return "rc=%s argv=%r\n--- stdout\n%s\n--- stderr\n%s" % (
            self.rc, self.argv, self.out.decode(errors="replace")[-3000:], self.err.decode(errors="replace")[-6000:])


class Tools:
    """Lazily built executables (shared by all cases of a process)."""
    def __init__(self, variant="asan"):
        self.variant = variant
        self.dir = build.variant(variant) if variant != "dist" else build.dist()
        self.autark = os.path.join(self.dir, "autark")
        t1, t2 = build.tool("fakecc"), build.tool("pt")
        self.path = ":".join([os.path.dirname(t1), os.path.dirname(t2)])
        self.fakecc, self.pt = t1, t2


_tools = {}
FORCE = None     # variant to use instead (C25)


def tools(variant="asan"):
    variant = FORCE or variant
    if variant not in _tools:
        _tools[variant] = Tools(variant)
    return _tools[variant]


class Box:
    """A scratch area with a project dir, a log and a private HOME. Everything is under self.root."""

    def __init__(self, variant="asan", name="p"):
        self.t = tools(variant)
        self.root = tempfile.mkdtemp(prefix="vf-", dir=scratch_root())
        self.proj = os.path.join(self.root, name)
        self.home = os.path.join(self.root, "home")
        self.log = os.path.join(self.root, "log")
        os.mkdir(self.proj)
        os.mkdir(self.home)
        self._last = 0
        self.nruns = 0
        self.extra_env = {}

    def close(self):
        rmtree(self.root)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # --- files
    def p(self, rel):
        return os.path.join(self.proj, rel)

    def write(self, rel, text, mode=None):
        p = self.p(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, str):
            text = text.encode("utf-8", "surrogateescape")
        with open(p, "wb") as f:
            f.write(text)
        if mode is not None:
            os.chmod(p, mode)

    def read(self, rel):
        try:
            with open(self.p(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def settle(self):
        """Waits until the file system clock (in rounded ms) is later than everything written so far."""
        probe = os.path.join(self.root, "probe")
        first = None
        while True:
            with open(probe, "w") as f:
                f.write("x")
            m = _ms(os.stat(probe).st_mtime_ns)
            if first is None:
                first = m
            elif m > first + 1:
                return
            time.sleep(0.001)

    # --- running
    def env(self, extra=None):
        e = {"PATH": self.t.path + ":/usr/local/bin:/usr/bin:/bin", "HOME": self.home, "LC_ALL": "C.UTF-8",
             "PT_LOG": self.log, "CC": "fakecc", "CXX": "fakecc"}
        e.update(ASAN_ENV)
        e.update(self.extra_env)
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
            # the order counts for code which goes through the environment: what is not in the base comes first
            e = {**{k: v for k, v in extra.items() if v is not None}, **e}
        return e

    def autark(self, args=(), env=None, cwd=None, timeout=RUN_TIMEOUT, stdin=None, preexec=None):
        argv = [self.t.autark] + list(args)
        self.nruns += 1
        return self.run(argv, self.env(env), cwd or self.proj, timeout, preexec)

    def run(self, argv, env, cwd, timeout=RUN_TIMEOUT, preexec=None):
        # own process group so that stray children can be ended; files instead of pipes so that a background
        # grandchild cannot keep us waiting
        of = open(os.path.join(self.root, "out"), "w+b")
        ef = open(os.path.join(self.root, "err"), "w+b")
        try:
            p = subprocess.Popen(argv, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=of, stderr=ef,
                                 start_new_session=True, preexec_fn=preexec)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                rc = "timeout"
            of.seek(0)
            ef.seek(0)
            r = Res(rc, of.read(), ef.read(), [os.path.basename(argv[0])] + list(argv[1:]))
        finally:
            of.close()
            ef.close()
        check_sane(r)
        return r

    # --- log
    def take_log(self):
        """Parsed and removed log: list of dicts."""
        try:
            with open(self.log, "rb") as f:
                data = f.read()
            os.unlink(self.log)
        except FileNotFoundError:
            return []
        out = []
        for l in data.split(b"\n"):
            if not l:
                continue
            c = l.split(b"\t")
            ev = c[0].decode()
            d = {"ev": ev, "pid": int(c[1]), "t": int(c[2]), "cwd": c[3].decode(errors="surrogateescape")}
            if ev.startswith("cc"):
                d["src"] = c[4].decode(errors="surrogateescape")
                d["obj"] = c[5].decode(errors="surrogateescape")
            else:
                a = []
                kv = {}
                for x in c[4:]:
                    if x.startswith(b"x"):
                        a.append(bytes.fromhex(x[1:].decode()).decode("utf-8", "surrogateescape"))
                    else:
                        k, _, v = x.partition(b"=")
                        kv[k.decode()] = None if v == b"-" else bytes.fromhex(v[1:].decode()).decode("utf-8", "surrogateescape")
                d["args"] = a
                d["kv"] = kv
            out.append(d)
        return out


def check_sane(r):
    """Memory errors, assertion failures and signals are violations of every property."""
    if r.rc == "timeout":
        raise Violation("autark did not finish within %ss (hang): %s" % (RUN_TIMEOUT, r.text()))
    if isinstance(r.rc, int) and r.rc < 0 and r.rc != -9:
        raise Violation("autark was killed by signal %d: %s" % (-r.rc, r.text()))
    if b"AddressSanitizer" in r.err or b"runtime error:" in r.err:
        raise Violation("memory or undefined-behaviour error: %s" % r.text())
    if r.rc == 99:
        raise Violation("sanitizer exit: %s" % r.text())


def snapshot(root, skip=()):
    """rel path -> (type, mode, content/link) of a tree, without following links."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if os.path.join(d, x) not in skip]
        for x in list(dirs) + files:
            p = os.path.join(d, x)
            if p in skip:
                continue
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            import stat as S
            if S.S_ISLNK(st.st_mode):
                out[rel] = ("l", 0, os.readlink(p))
            elif S.S_ISDIR(st.st_mode):
                out[rel] = ("d", S.S_IMODE(st.st_mode), None)
            elif S.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[rel] = ("f", S.S_IMODE(st.st_mode), f.read())
            else:
                out[rel] = ("o", S.S_IMODE(st.st_mode), None)
    return out


def diff_snap(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %r -> %r" % (k, _short(a.get(k)), _short(b.get(k))))
    return out


def _short(v):
    if v is None:
        return None
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


# ---------------------------------------------------------------- script text

def quote(s):
    """One literal that reads back as s. s must not contain both quote characters."""
    if s and all(c not in " \t\r\n{}\\'\"" for c in s) and not s.startswith("#"):
        return s
    if "'" not in s:
        q = "'"
    elif '"' not in s:
        q = '"'
    else:
        raise HarnessError("unquotable literal %r" % s)
    return q + s + q
