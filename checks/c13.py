"""C13: the program, linked with a guard which records every call that changes the file system (and ends the process before one outside of the scratch directory), run by an unprivileged user on generated cache
locations, invocations, cache contents and projects (also with sources and templates outside of the project); after each run the recorded paths and a snapshot of everything outside the cache are compared with a model
of where the cache is."""
import os, shutil, socket, subprocess
from hypothesis import strategies as st
import build
from harness import Box, Violation, diff_snap, quote, snapshot, check_sane
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing over cache locations, cache contents and project shapes; invariant over the recorded file system calls and snapshots, model of the cache location"
RULE = ("1-5 runs (build, clean, list, failing builds) with 1-2 cache locations of generated segments, generated junk in the cache; non-trivial: a run which cleaned a cache with junk in it, used a cache which is not the default one, refused "
        "one, or built sources outside of the project")
ASSUMPTIONS = ["paths shorter than PATH_MAX", "all of the cache can be removed by the user", "products a script itself declares outside of the cache are the script's doing"]
PARTS = {"cache": {"quick": 2200, "thorough": 40000}}
BUDGET = {"quick": 60, "thorough": 1800}

SEG = ["c", "c", "out", "..", "..", "..", ".", "", "p", "p2", "p-cache", "lnkroot", "lnkparent", "lnkout", "lnkdang", "deep", "er", "a", "sub", "sp ace", "data", "w", "autark-cache", "afile", "é", "c.autark-dist", ".autark-dist", "..c", "..."]
INV = ["here", "here", "here", "dot", "up", "upslash", "subup", "abs", "absdots", "lnk", "abslnk", "rootcwd"]
JUNK = ["f", "f", "d", "fo", "ldir", "lfile", "lrel", "ldang", "lloop", "lself", "lup", "fifo", "hard", "ro", "sock", "distlink", "distfile", "big"]
JSEG = ["a", "b", "c", ".autark-dist", "x.autark-dist", ".autark-distx", ".x", "..x", "-rf", "nl\nx", "*", "deepdeep" * 12, "sub", "x.o", ".autark-rules", "sp ace", "é", ".1.deps"]


def strategy(part):
    i = st.integers(0, 400)
    h = st.one_of(st.none(), st.none(), st.just([0, [0], 0]), st.tuples(st.integers(0, 2), st.lists(st.integers(0, len(SEG) - 1), min_size=1, max_size=5), st.integers(0, 2)).map(list), st.tuples(st.integers(0, 2), st.lists(st.integers(0, len(SEG) - 1), min_size=1, max_size=5), st.integers(0, 2)).map(list),
                  st.sampled_from(["", ".", "./", "..", "../", "../..", "//", "sub/..", "c/../..", "./.", "ABS", "ABS/", "ABSP", "ABSP/.", "/", "/..", "ABS/../p2/../p", "../../../../../../../../../../../../..", "lnkroot", "lnkparent", "lnkroot/", "../lnkp", "../p2", "../p-cache/", "../outd", "../p2/../p/c",
                                   "/usr/..ABS/c", "/usr/../..ABS/c/", "lnkroot/c", "lnkparent/c", "../lnkp/c", "lnkout", "lnkout/n", "afile", "afile/x"]))
    j = st.tuples(st.lists(i, min_size=1, max_size=4), st.integers(0, len(JUNK) - 1)).map(list)
    op = st.fixed_dictionaries({"k": st.sampled_from(["build", "build", "build", "clean", "clean", "clean", "list", "cleanlist"]), "h": st.integers(0, 1), "inv": st.integers(0, len(INV) - 1), "junk": st.lists(j, max_size=6), "deep": st.sampled_from([0] * 8 + [10, 30]), "fail": st.sampled_from([None] * 6 + ["cc", "run", "syntax", "check", "missing"]),
                                "edit": st.booleans(), "copy": st.sampled_from([False] * 5 + [True]), "jobs": st.sampled_from([None, 1, 3]), "install": st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({"h": st.tuples(h, h).map(list), "nest": st.booleans(), "feat": st.lists(st.integers(0, 13), max_size=9, unique=True), "ops": st.lists(op, min_size=1, max_size=5)})


class P:
    def __init__(self, b, c):
        self.b, self.c = b, c
        self.w = os.path.join(os.path.realpath(b.root), "w")
        self.proj = os.path.join(self.w, "a" if c["nest"] else ".", "p")
        self.proj = os.path.normpath(self.proj)
        up = os.path.dirname(self.proj)
        self.up = up
        for d in ("p2/sub", "p-cache", "outd/deep", "p3", "far/er", "p/sub", "p/data", "p/lib", "p/.autark"):
            os.makedirs(os.path.join(up, d))
        os.makedirs(os.path.join(self.w, "inst"), exist_ok=True)
        F = lambda p, t, r=None: self.f(os.path.join(r or up, p), t)
        for p in ("p2/keep", "p2/sub/keep", "p-cache/keep", "outd/keep", "outd/deep/keep", "p3/x.o", "p3/x", "far/keep", "p/data/d1", "p/lib/keep", "p/afile", "p/x.o", "p/cfg"):
            F(p, "keep " + p)
        F("ext.c", "ext\n"), F("ext.o", "not an object"), F("far/er/abs.c", "abs\n"), F("t.in", "t @A@\n"), F("t", "not a template"), F("far/conf.in", "conf @A@\n"), F("far/raw.txt", "raw @A@")
        os.symlink(".", os.path.join(self.proj, "lnkroot"))
        os.symlink("..", os.path.join(self.proj, "lnkparent"))
        os.symlink(os.path.join(up, "outd"), os.path.join(self.proj, "lnkout"))
        os.symlink("../nowhere/x", os.path.join(self.proj, "lnkdang"))
        os.symlink("p", os.path.join(up, "lnkp"))
        self.n = 0
        self.edit(None)

    def f(self, p, t):
        with open(p, "w") as f:
            f.write(t)

    def edit(self, fail):
        self.n += 1
        f = set(self.c["feat"])
        P = lambda p, t: self.f(os.path.join(self.proj, p), t)
        src = ["x.c", "lib/l.c"]
        P("lib/l.c", "l\n"), P("h.h", "h\n")
        P("x.c", '#include "h.h"\nx %d\n%s' % (self.n, "#error\n" if fail == "cc" else ""))
        if 0 in f:
            src.append("../ext.c")
        if 1 in f:
            src.append(os.path.join(self.up, "far/er/abs.c"))
        if 2 in f:
            src.append("../far/er/../er/abs.c" if 1 not in f else "../far/../ext.c" if 0 not in f else "sub/../x2.c")
        P("x2.c", "x2\n")
        s = ["set { A %d }" % self.n, 'option { OPT "text" }']
        if 3 not in f:
            s.append("cc { set { _ %s } }" % " ".join(map(quote, src)))
        t = ["cfg.in"]
        P("cfg.in", "c @A@\n"), P("raw.txt", "raw\n"), P("data/e.in", "e\n")
        if 4 in f:
            t.append("S{ ../t.in }")
        if 5 in f:
            t.append("raw.txt data/e.in")
        if 6 in f:
            t.append("'%s/far/conf.in' ../far/raw.txt" % self.up)
        if 7 not in f:
            s.append("configure { %s }" % " ".join(t))
        s.append("run { exec { pt %s G -o g.out deep/er/g2.out -i SS{ data/d1 } } consumes { SS{ data/d1 } } produces { g.out deep/er/g2.out } }" % ("fail 1" if fail == "run" else "mk"))
        if 8 in f:
            s.append("run { shell { 'cat g.out > /dev/null' } always } run { in-sources exec { pt args z } }" if 9 not in f else "run { exec { pt args @@{ pt say x } } }")
        P(".autark/chk.sh", "#!/bin/sh\nautark set K=%d\nautark dep chk.sh\n%s" % (self.n, "exit 1\n" if fail == "check" else ""))
        os.chmod(os.path.join(self.proj, ".autark/chk.sh"), 0o755)
        if 10 in f or fail == "check":
            s.append("check { chk.sh }")
        os.makedirs(os.path.join(self.proj, "sub/in"), exist_ok=True)
        P("sub/y.c", "y\n"), P("sub/s.in", "s\n"), P("sub/in/Autark", "cc { ../z.c } configure { ../q.in } cc { set { _ '../../sub/r.c' } }\n"), P("sub/z.c", "z\n"), P("sub/q.in", "q\n"), P("sub/r.c", "r\n")
        P("sub/Autark", "cc { set { _ y.c %s } }\nconfigure { s.in }\n%s" % ("../../ext.c" if 12 in f and 0 not in f else "", "include { in/Autark }\n" if 12 in f else ""))
        if 11 in f:
            s.append("include { sub/Autark }")
        s.append("if { ${INSTALL_ENABLED} install { 'share/x y' S{ data/d1 } } }")
        if fail == "missing":
            s.append("run { exec { pt mk H -o h.out -i nofile } consumes { nofile } produces { h.out } }")
        if fail == "syntax":
            s.append("run { }}")
        P("Autark", "\n".join(s) + "\n")

    def spec(self, h):
        if h is None:
            return None
        if isinstance(h, str):
            return h.replace("ABSP", self.up).replace("ABS", self.proj)
        kind, segs, sl = h
        p = "/".join(SEG[x] for x in segs) + "/" * sl
        if kind == 0:
            return p.lstrip("/")
        return (self.proj if kind == 1 else self.w) + "/" + p

    def cache(self, h):
        s = self.spec(h)
        if s is None:
            s = "autark-cache"
        s = os.path.normpath("/" + os.path.join(self.proj, s))
        return "/" + s.lstrip("/")


def within(p, d):
    return p == d or p.startswith(d.rstrip("/") + "/")


def run_case(part, case):
    nontriv = False
    with Box("plain") as b:
        pr = P(b, case)
        bd = os.path.join(b.root, "bin")
        os.mkdir(bd)
        for x in (os.path.join(build.variant("guard"), "autark"), b.t.fakecc, b.t.pt):
            shutil.copy(x, bd)
        glog = os.path.join(b.root, "guardlog")
        drop = None
        if os.geteuid() == 0:
            def drop():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            for d, ds, fs in os.walk(b.root):
                for x in [d] + [os.path.join(d, f) for f in fs + ds]:
                    os.lchown(x, 65534, 65534)
        own = lambda p: os.lchown(p, 65534, 65534) if drop else None
        env = b.env({"PATH": bd + ":/usr/local/bin:/usr/bin:/bin", "PT_GUARD": os.path.realpath(b.root), "PT_GUARD_LOG": glog})
        inst = os.path.join(pr.w, "inst")

        def remove(rc):
            for x in os.listdir(rc):
                p = os.path.join(rc, x)
                if x == ".autark-dist":
                    continue
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)

        def go(args, cwd):
            if os.path.exists(glog):
                os.unlink(glog)
            r = b.run([os.path.join(bd, "autark")] + args, env, cwd, preexec=drop)
            tr = []
            if os.path.exists(glog):
                with open(glog, "rb") as f:
                    tr = [tuple(x.decode(errors="surrogateescape").split("\t", 1)) for x in f.read().split(b"\0") if x]
            return r, tr

        for n, op in enumerate(case["ops"]):
            h = case["h"][op["h"]]
            if n and op["copy"]:   # a copy of everything, the original must not be touched any more
                w2 = pr.w[:-1] + "w%d" % n
                subprocess.check_call(["cp", "-a", pr.w, w2])
                rb = lambda p: w2 + p[len(pr.w):]
                pr.proj, pr.up, pr.w = rb(pr.proj), rb(pr.up), w2
                inst = os.path.join(w2, "inst")
                label("copied")
            lex = pr.cache(h)
            rc = os.path.realpath(lex)
            refuse = within(pr.proj, rc)
            lexrefuse = within(pr.proj, lex) or within(os.path.join(pr.up, "lnkp"), lex)
            root = os.path.realpath(b.root)
            if not refuse and not within(rc, root):
                continue   # not in the scratch directory
            over = [x for x in ("sub", "data", "lib", ".autark", "x.c", "Autark", "cfg.in") if within(rc, os.path.join(pr.proj, x))] or within(rc, os.path.join(pr.up, "far"))
            notdir = False
            q = rc
            while q != "/":
                if os.path.lexists(q) and not os.path.isdir(q):
                    notdir = True
                q = os.path.dirname(q)
            q = lex
            while q != "/":
                if os.path.islink(q) and not os.path.exists(q):
                    notdir = True
                q = os.path.dirname(q)
            if op["edit"] or op["fail"] or n:
                if over and not os.path.isdir(os.path.join(pr.proj, "data")):
                    return nontriv
                for x in ("sub", "data", "lib", ".autark", "sub/in"):   # a cache placed on sources may have been cleaned
                    os.makedirs(os.path.join(pr.proj, x), exist_ok=True)
                pr.edit(op["fail"])
                if not os.path.exists(os.path.join(pr.proj, "data/d1")):
                    pr.f(os.path.join(pr.proj, "data/d1"), "x")
                for d, ds, fs in os.walk(pr.proj):
                    for x in ds + fs:
                        own(os.path.join(d, x))
                b.settle()
            safe = not refuse and not notdir and not over and within(rc, pr.w) and rc != inst
            junk = 0
            if safe and (op["junk"] or op["deep"]):
                made = []
                q = rc
                while not os.path.lexists(q):
                    made.append(q)
                    q = os.path.dirname(q)
                for q in reversed(made):
                    os.mkdir(q)
                    own(q)
                items = [("/".join(JSEG[x % len(JSEG)] for x in segs), JUNK[k]) for segs, k in op["junk"]]
                if op["deep"]:
                    items.append(("/".join(["deepdeep" * 12] * op["deep"]), "f"))
                for rel, k in items:
                    if op["k"] in ("build", "list") and not rel.startswith(".autark-dist"):   # nothing in the way of products
                        rel = "j-" + rel
                    q = os.path.join(rc, rel)
                    if k in ("distlink", "distfile"):
                        q = os.path.join(rc, ".autark-dist")
                    d, ok = rc, True
                    for x in os.path.relpath(os.path.dirname(q), rc).split("/"):
                        d = os.path.normpath(os.path.join(d, x))
                        if os.path.islink(d) or (os.path.lexists(d) and not os.path.isdir(d)):
                            ok = False
                            break
                        if not os.path.exists(d):
                            os.mkdir(d)
                            own(d)
                    if not ok or os.path.lexists(q):
                        continue
                    if k in ("f", "distfile"):
                        pr.f(q, "junk")
                    elif k == "big":
                        pr.f(q, "x" * 70000)
                    elif k == "d":
                        os.mkdir(q)
                    elif k == "fo":
                        pr.f(q, "")
                        os.chmod(q, 0)
                    elif k == "ro":
                        pr.f(q, "r")
                        os.chmod(q, 0o444)
                    elif k == "fifo":
                        os.mkfifo(q)
                    elif k == "sock":
                        if len(q) < 100:
                            s = socket.socket(socket.AF_UNIX)
                            s.bind(q)
                            s.close()
                        else:
                            continue
                    elif k == "hard":
                        os.link(os.path.join(pr.up, "p2/keep"), q)
                    else:
                        os.symlink({"ldir": os.path.join(pr.up, "p2"), "lfile": os.path.join(pr.up, "p2/keep"), "lrel": os.path.relpath(os.path.join(pr.proj, "data"), os.path.dirname(q)), "ldang": "/nowhere/x", "lloop": rc, "lself": os.path.basename(q), "lup": "../../../..", "distlink": os.path.join(pr.up, "p2")}[k], q)
                    if k not in ("hard",):
                        own(q)
                    junk += 1
            inv = INV[op["inv"]]
            up = pr.up
            cwd, arg = {"here": (pr.proj, None), "dot": (pr.proj, "."), "up": (up, "p"), "upslash": (up, "./p//"), "subup": (os.path.join(pr.proj, "lib"), ".."), "abs": (b.root, pr.proj), "absdots": (b.root, pr.proj + "/lib/../"), "lnk": (up, "lnkp"), "abslnk": (b.root, up + "/lnkp/"), "rootcwd": ("/", os.path.relpath(pr.proj, "/"))}[inv]
            if not os.path.isdir(cwd):
                cwd, arg = pr.proj, None
            args = []
            sp = pr.spec(h)
            if sp is not None:
                args += [["-H", sp], ["--cache=" + sp], ["--cache", sp]][(len(sp) + n) % 3]
            cl = op["k"] in ("clean", "cleanlist")
            if cl:
                args += [["-c"], ["--clean"]][n % 2]
            if op["k"] in ("list", "cleanlist"):
                args.append("-l")
            if op["jobs"]:
                args.append("-J%d" % op["jobs"])
            doinst = op["install"] and op["k"] in ("build", "clean")
            if doinst:
                args += ["-R", inst]
            pos = [arg] if arg is not None else []
            skip = [rc] if not refuse and rc != "/" else []
            skip += [glog, b.log, os.path.join(b.root, "out"), os.path.join(b.root, "err"), os.path.join(b.root, "probe")] + ([inst] if doinst else [])
            made = set()
            q = os.path.dirname(rc)
            while q != "/" and not os.path.lexists(q):
                made.add(os.path.relpath(q, root))
                q = os.path.dirname(q)
            made.add(os.path.relpath(rc, root))
            before = snapshot(root, skip)
            inside = snapshot(rc) if safe and os.path.isdir(rc) else {}
            r, tr = go(args + pos, cwd)
            after = snapshot(root, skip)
            show = "run %d %r in %s, cache %s (%s)\n%s\n%s" % (n, op, cwd, lex, rc, "\n".join("%s %s" % x for x in tr[-25:]), r.text())
            if any(o == "ESCAPE" for o, p in tr):
                raise Violation("the file system is changed out of all test directories\n%s" % show)
            if refuse:
                label("refused")
                nontriv = True
                if r.ok or not r.err:
                    raise Violation("cache directory %s is the project root or its parent, but it's not refused\n%s" % (rc, show))
                if tr:
                    raise Violation("something is touched before a wrong cache directory has been refused\n%s" % show)
                d = diff_snap(before, after)
                if d:
                    raise Violation("refused, but changed\n%s\n%s" % ("\n".join(d), show))
                continue
            if lexrefuse and not r.ok and not tr:
                continue
            for o, p in tr:
                if p.startswith("-"):
                    continue
                if within(p, rc) or (doinst and within(p, inst)):
                    continue
                if o == "mkdir" and os.path.relpath(p, root) in made:
                    continue
                raise Violation("%s of %s, it's out of the cache directory\n%s" % (o, p, show))
            d = diff_snap(before, {k: v for k, v in after.items() if k in before or k not in made or v[0] != "d"})
            if d:
                raise Violation("changed out of the cache directory\n%s\n%s" % ("\n".join(d), show))
            if notdir:
                label("not a directory")
                if r.ok or not r.err:
                    raise Violation("the cache directory is not a directory, not reported\n%s" % show)
                continue
            if not safe:
                label("on sources")
                continue
            expok = not op["fail"] or (op["fail"] in ("cc", "run", "check", "missing") and op["k"] in ("list", "cleanlist")) or (op["fail"] == "cc" and 3 in case["feat"])
            if op["fail"] not in ("missing", "check") or op["k"] in ("build", "clean"):
                if r.ok != expok:
                    raise Violation("exit status is wrong\n%s" % show)
            if h is not None and sp is not None and lex != pr.proj + "/autark-cache":
                label("not default")
                nontriv = True
            if expok and {0, 1, 2, 4, 6} & set(case["feat"]):
                label("external source")
                nontriv = True
            if cl:
                now = snapshot(rc)
                dist = lambda s: {k: v for k, v in s.items() if k == ".autark-dist" or k.startswith(".autark-dist/")}
                if dist(now) != dist(inside):
                    raise Violation(".autark-dist is changed\n%r\n%r\n%s" % (dist(inside), dist(now), show))
                remove(rc)
                a2 = [x for x in args if x not in ("-c", "--clean")]
                r2, tr2 = go(a2 + pos, cwd)
                ref = snapshot(rc)
                k1, k2 = {(k, v[0]) for k, v in now.items()}, {(k, v[0]) for k, v in ref.items()}
                if k1 != k2:
                    raise Violation("the cache is not as after a build with an empty cache: left %r, missing %r\n%s" % (sorted(k1 - k2), sorted(k2 - k1), show))
                if (r2.rc == 0) != (r.rc == 0):
                    raise Violation("status differs from the one with an empty cache\n%s\n%s" % (show, r2.text()))
                if junk:
                    label("cleaned junk")
                    nontriv = True
    return nontriv
