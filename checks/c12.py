"""C12: random install rules over plain files, executables, symlinks, generated and configured files in two scripts; then edits of files, tampering with and
removal of installed ones, changes of prefix, directories and rules, builds without install and failing builds. After every build
the trees under all prefixes are compared with a model; an unchanged repeat must not write anything."""
import hashlib, json, os, posixpath
from hypothesis import strategies as st
from harness import Box, Violation, quote, snapshot, rmtree
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful model-based property testing of install histories (expected tree under every prefix)"
RULE = ("random install rules and histories of edit, tamper, remove, re-prefix, re-direct, build without install and failing build; non-trivial: at least one installed file was repaired or replaced by a later install, and a file "
        "which is not a plain source (link, generated or configured) was installed")
ASSUMPTIONS = ["tampering leaves a later modification time", "changes of the mode alone are no edits", "names installed into one directory differ", "install directories are relative to the prefix"]
PARTS = {"hist": {"quick": 4800, "thorough": 80000}}
BUDGET = {"quick": 60, "thorough": 1800}

NAMES = ["a", "lib x.so.1", ".hidden", "tool.sh", "d/b.h", "d/e/c", "-opt", "é.txt", "x%s", "d/long" + "g" * 60]
BODY = ["", "one\n", "two\n", "q" * 8192, "r" * 8193, "\xff\xfebin", "s" * 70000]
MODES = [0o644, 0o755, 0o600, 0o444, 0o555, 0o4755, 0o640, 0o777]
DIRS = ["bin", "bin/", "share/x y", "./lib/../etc//n", ".", "${INSTALL_BIN_DIR}", "${INSTALL_DATA_DIR}", "^{${INSTALL_INCLUDE_DIR} /pkg}", "${DV}", "${INSTALL_LIB_DIR}", "S"]
OPTDIRS = {"bindir": "bin", "datadir": "share", "includedir": "include", "libdir": None}


def strategy(part):
    fl = st.tuples(st.integers(0, 1), st.integers(0, len(NAMES) - 1), st.sampled_from(["plain", "plain", "link", "alink", "gen", "conf", "glink"]), st.sampled_from(BODY), st.sampled_from(MODES)).map(list)
    rule = st.tuples(st.integers(0, 1), st.integers(0, len(DIRS) - 2), st.lists(st.integers(0, 20), min_size=1, max_size=4), st.sampled_from(["rel", "rel", "abs", "var"])).map(list)
    rules = st.lists(rule, min_size=1, max_size=4)
    op = st.one_of(st.tuples(st.just("edit"), st.integers(0, 20), st.sampled_from(BODY), st.sampled_from(MODES)), st.tuples(st.just("edit"), st.integers(0, 20), st.sampled_from(BODY), st.sampled_from(MODES)),
                   st.tuples(st.just("retarget"), st.integers(0, 20)),
                   st.tuples(st.just("tamper"), st.integers(0, 20), st.sampled_from(["write", "rm", "link", "replace", "append"])), st.tuples(st.just("tamper"), st.integers(0, 20), st.sampled_from(["write", "rm", "link", "replace", "append"])),
                   st.tuples(st.just("rmdir"), st.integers(0, 20)), st.tuples(st.just("foreign"), st.sampled_from(["bin/zz", "share/x y/zz", "other/f", "zz"])),
                   st.tuples(st.just("prefix"), st.integers(0, 3)), st.tuples(st.just("prefix"), st.integers(0, 3)), st.tuples(st.just("dir"), st.sampled_from(sorted(OPTDIRS)), st.sampled_from(["bin", "sbin", "o p/q", "./u/"])),
                   st.tuples(st.just("dv"), st.sampled_from(["v1", "v2/w", "bin"])), st.just(("nop",)), st.just(("nop",)), st.just(("noinst",)), st.just(("fail",)), st.tuples(st.just("rules"), rules),
                   st.tuples(st.just("noinst+edit"), st.integers(0, 20), st.sampled_from(BODY), st.sampled_from(MODES)), st.tuples(st.just("fail+edit"), st.integers(0, 20), st.sampled_from(BODY), st.sampled_from(MODES)))
    return st.tuples(st.lists(fl, min_size=1, max_size=5, unique_by=lambda f: (f[0], f[1])), rules, st.lists(op, min_size=1, max_size=7), st.integers(0, 3)).map(list)


def by(s):
    return s.encode("latin-1") if "\xff" in s else s.encode()


class Inst:
    def __init__(self, b, case):
        self.b = b
        self.f = [dict(u=f[0], name=NAMES[f[1]], kind=f[2], body=f[3], mode=f[4], alt=0) for f in case[0]]
        self.rules = case[1]
        self.prefix = case[3]
        self.dirs = {}
        self.dv = "v1"
        self.exp = {}        # prefix dir -> rel -> entry
        self.edirs = {}

    def pdir(self):
        return [self.b.home + "/.local", self.b.root + "/pre fix", self.b.proj + "/rel/pre", self.b.root + "/p3"][self.prefix]

    def args(self):
        a = [["-I"], ["-R", self.b.root + "/pre fix"], ["--prefix=./rel/x/../pre/"], ["-I", "--prefix", self.b.root + "//p3"]][self.prefix]
        return ["--%s=%s" % kv for kv in sorted(self.dirs.items())] + a

    def src(self, f):
        u = "sub/" if f["u"] else ""
        return u + f["name"] + {"gen": ".src", "glink": ".src", "conf": ".in"}.get(f["kind"], "")

    def wsrc(self, f):
        b = self.b
        p = self.src(f)
        if os.path.lexists(b.p(p)) and (f["kind"] in ("link", "alink") or f["alt"] == 0):
            os.unlink(b.p(p))
        if f["kind"] in ("link", "alink"):
            for i in range(2):
                b.write(p + ".t%d" % i, by(f["body"]))
            os.symlink(self.ltarget(f), b.p(p))
        else:
            b.write(p, by(f["body"]), f["mode"])

    def ltarget(self, f):
        t = f["name"] + ".t%d" % f["alt"]
        return posixpath.basename(t) if f["kind"] == "link" else self.b.p(("sub/" if f["u"] else "") + t)

    def want(self, f):
        """the entry an installed copy has"""
        k = f["kind"]
        if k in ("link", "alink"):
            return ("l", 0, self.ltarget(f))
        if k == "glink":
            return ("l", 0, posixpath.basename(f["name"]) + ".real")
        m = f["mode"]
        if k in ("gen", "conf"):
            cp = self.b.p("autark-cache/" + ("sub/" if f["u"] else "") + f["name"])
            m = os.stat(cp).st_mode & 0o7777
        return ("f", m, by(f["body"]))

    def dirval(self, i):
        d = DIRS[i]
        opt = lambda k: self.dirs.get(k, OPTDIRS[k] or "lib/x86_64-linux-gnu")
        d = {"${INSTALL_BIN_DIR}": opt("bindir"), "${INSTALL_DATA_DIR}": opt("datadir"), "^{${INSTALL_INCLUDE_DIR} /pkg}": opt("includedir") + "/pkg", "${INSTALL_LIB_DIR}": opt("libdir"), "${DV}": self.dv}.get(d, d)
        return posixpath.normpath(d)

    def plan(self):
        """-> [(rule, dir, [file])] without clashes"""
        seen = set()
        out = []
        for r in self.rules:
            d = self.dirval(r[1])
            fs = []
            for i in r[2]:
                f = self.f[i % len(self.f)]
                if r[3] != "abs" and f["u"] != r[0]:
                    continue
                k = posixpath.normpath(posixpath.join(d, posixpath.basename(f["name"])))
                if k in seen:
                    continue
                seen.add(k)
                fs.append((f, k))
            if fs:
                out.append((r, d, fs))
        # nothing may be installed to a place which is a directory for others
        ds = {x for _, d, _ in out for x in [d]}
        return [(r, d, [(f, k) for f, k in fs if not any(x == k or x.startswith(k + "/") for x in ds)]) for r, d, fs in out]

    def scripts(self):
        ls = {0: ["set { DV %s }" % quote(self.dv), "run { always exec { pt args RAN ${FAILNOW ok} } exec { sh -c ${DOFAIL 'exit 0'} } }"], 1: []}
        for f in self.f:
            n, L = quote(f["name"]), ls[f["u"]]
            if f["kind"] == "gen":
                L.append("run { exec { pt mk %s } exec { rm -f CC{%s} } exec { cp SS{%s} CC{%s} } consumes { SS{%s} } produces { %s } }" % (quote(f["name"] + ".stamp"), n, quote(f["name"] + ".src"), n, quote(f["name"] + ".src"), n))
            elif f["kind"] == "glink":
                rl = quote(f["name"] + ".real")
                L.append("run { exec { pt mk %s } exec { cp SS{%s} CC{%s} } exec { ln -sfn -- %s CC{%s} } consumes { SS{%s} } produces { %s %s } }" % (
                    quote(f["name"] + ".stamp"), quote(f["name"] + ".src"), rl, quote(posixpath.basename(f["name"]) + ".real"), n, quote(f["name"] + ".src"), rl, n))
            elif f["kind"] == "conf":
                L.append("configure { %s }" % quote(f["name"] + ".in"))
        for i, (r, d, fs) in enumerate(self.plan()):
            if not fs:
                continue
            ns = []
            for f, k in fs:
                if r[3] == "abs":
                    ns.append(("C{%s}" if f["kind"] in ("gen", "glink", "conf") else "S{%s}") % quote(("sub/" if f["u"] else "") + f["name"]))
                else:
                    ns.append(quote(f["name"]))
            L = ls[r[0]]
            if r[3] == "var":
                L.append("set { LV%d %s }" % (i, " ".join(ns)))
                ns = ["${LV%d}" % i]
            D = DIRS[r[1]]
            L.append("install {\n  %s\n  %s\n}" % (D if "$" in D else quote(D), "\n  ".join(ns)))
        return {"Autark": "\n".join(ls[0] + ["include { sub/Autark }"]) + "\n", "sub/Autark": "\n".join(ls[1]) + "\n"}


def stamps(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            s = os.lstat(os.path.join(d, x))
            out[os.path.relpath(os.path.join(d, x), root)] = (s.st_ino, s.st_mtime_ns, s.st_ctime_ns)
    return out


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 6 == 0 else "plain"
    repaired = special = 0
    with Box(v) as b:
        w = Inst(b, json.loads(json.dumps(case)))
        os.makedirs(b.p("sub"))
        b.write(b.root + "/victim", "victim")
        for f in w.f:
            w.wsrc(f)
        sc = {}
        last = None    # arguments of the last successful install, None if anything changed since
        for n, op in enumerate([["first"]] + json.loads(json.dumps(case[2]))):
            if n:
                b.settle()
            o = op[0]
            inst, fail = not o.startswith("noinst"), o.startswith("fail")
            P = w.pdir()
            exp = w.exp.setdefault(P, {})
            if o.endswith("edit"):
                f = w.f[op[1] % len(w.f)]
                f["body"], f["mode"] = op[2], op[3]
                w.wsrc(f)
            elif o == "retarget":
                fs = [f for f in w.f if f["kind"] in ("link", "alink")]
                if fs:
                    f = fs[op[1] % len(fs)]
                    f["alt"] ^= 1
                    w.wsrc(f)
            elif o == "tamper" and exp:
                k = sorted(exp)[op[1] % len(exp)]
                p = P + "/" + k
                how = op[2]
                if how == "append" and exp[k][0] == "f":
                    os.chmod(p, 0o644)
                    with open(p, "ab") as fh:
                        fh.write(b"tampered")
                    exp[k] = ("f", 0o644, exp[k][2] + b"tampered")
                else:
                    os.unlink(p)
                    del exp[k]
                    if how == "link":
                        os.symlink(b.root + "/victim", p)
                        exp[k] = ("l", 0, b.root + "/victim")
                    elif how != "rm":
                        with open(p, "wb") as fh:
                            fh.write(b"tampered")
                        os.chmod(p, 0o600)
                        exp[k] = ("f", 0o600, b"tampered")
            elif o == "rmdir" and exp:
                k = posixpath.dirname(sorted(exp)[op[1] % len(exp)])
                rmtree(P + "/" + k if k else P)
                for x in list(exp):
                    if not k or x.startswith(k + "/"):
                        del exp[x]
            elif o == "foreign":
                k = op[1]
                if not any(x == k or x.startswith(k + "/") or k.startswith(x + "/") for x in exp):
                    b.write(P + "/" + k, "foreign", 0o640)
                    exp[k] = ("f", 0o640, b"foreign")
            elif o == "prefix":
                w.prefix = op[1]
            elif o == "dir":
                w.dirs[op[1]] = op[2]
            elif o == "dv":
                w.dv = op[1]
            elif o == "rules":
                w.rules = op[1]
            P = w.pdir()
            exp = w.exp.setdefault(P, {})
            plan = w.plan()
            # a planned name may be a directory already, and a planned directory a file
            if any(os.path.isdir(P + "/" + k) and not os.path.islink(P + "/" + k) for _, _, fs in plan for _, k in fs):
                return False
            if any(x in exp for _, d, fs in plan for x in _up(d)):
                return False
            for f, x in w.scripts().items():
                if sc.get(f) != x:
                    b.write(f, x)
                    sc[f] = x
            before = stamps(P) if os.path.isdir(P) else {}
            args = (w.args() if inst else []) + (["-DDOFAIL=exit 3"] if fail else [])
            r = b.autark(args)
            b.take_log()
            show = "step %d %r args %r\n%s\nfiles %r\n%s" % (n, op, args, "\n".join("--- %s\n%s" % kv for kv in sc.items()), w.f, r.text())
            if fail:
                if r.ok:
                    raise Violation("a build with a failing command succeeds: " + show)
            elif not r.ok:
                raise Violation("build failed: " + show)
            dirs = set()
            if inst and not fail:
                for _, d, fs in plan:
                    if fs:
                        w.edirs.setdefault(P, set()).update(_up(d))
                    for f, k in fs:
                        e = w.want(f)
                        if k in exp and exp[k] != e:
                            repaired += 1
                        special += f["kind"] != "plain"
                        exp[k] = e
            for Q, want in w.exp.items():
                got = snapshot(Q) if os.path.isdir(Q) else {}
                files = {k: x for k, x in got.items() if x[0] != "d"}
                if files != want:
                    d = ["%s: %s, expected %s" % (k, _e(files.get(k)), _e(want.get(k))) for k in sorted(set(files) | set(want)) if files.get(k) != want.get(k)]
                    raise Violation("tree under %s: %s\n%s" % (Q, "; ".join(d), show))
                bad = {k for k, x in got.items() if x[0] == "d"} - {y for k in want for y in _up(posixpath.dirname(k))} - w.edirs.get(Q, set())
                if o not in ("rmdir", "tamper") and {x for x in bad if not any(k.startswith(x + "/") for k in got)} - {"other", "share", "bin", "share/x y"}:
                    raise Violation("directories %r appeared under %s\n%s" % (sorted(bad), Q, show))
            if b.read(b.root + "/victim") != b"victim":
                raise Violation("install wrote through a link\n" + show)
            if o == "nop" and last == args and before != stamps(P):
                d = [k for k in before if stamps(P).get(k) != before[k]]
                raise Violation("repeated install wrote %r again\n%s" % (d, show))
            last = args if inst and not fail else None
            label("op:" + o)
    label("repaired", repaired)
    return repaired > 0 and special > 0


def _up(d):
    out = []
    while d not in ("", "."):
        out.append(d)
        d = posixpath.dirname(d)
    return out


def _e(x):
    return x and (x[0], oct(x[1]), x[2][:80] if x[2] is not None else None)
