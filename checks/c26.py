"""C26: while a project is built or installed, a chosen system call of autark fails (no space, I/O error, no process, no descriptor), once or, for lack of space, from then on; the build must either fail, or be right; and the builds after that, with and without edits, give the products of a clean build."""
import os, shutil, struct
from hypothesis import strategies as st
import build, proj
from harness import Box, Violation, rmtree, snapshot, diff_snap
from runner import label

LEVEL = "fault_enumeration"
TECHNIQUE = "property-based testing with fault injection at enumerated calls, differential against a clean build"
RULE = ("random project with a history; the next build (first or incremental) is replayed from the same saved state with a fault at chosen calls (of open, read, write, rename, mkdir, close, fork, pipe, exec and so on, also in the check commands), then built without faults, before or after an edit; "
        "non-trivial: a fault took effect in a build which had started executing steps, or which reported success; wide projects under a limit of open files: non-trivial if there are more rules or sources of a kind than the limit; installations: non-trivial if two or more faults took effect")
ASSUMPTIONS = ["a failing write loses the data; commands and compilers of the project report their own errors (faults are injected into autark only)"]
PARTS = {"fault": {"quick": 900, "thorough": 9000, "share": 0.65}, "many": {"quick": 240, "thorough": 2400, "share": 0.2}, "inst": {"quick": 500, "thorough": 8000, "share": 0.15}}
KINDS = ["src", "run", "subst", "cfg", "chk", "inc", "fe", "inst"]
BUDGET = {"quick": 60, "thorough": 2400}


def prepare():
    build.variant("crash")


def strategy(part):
    if part == "inst":
        f = st.tuples(st.sampled_from([0, 10, 5000, 9000, 20000]), st.sampled_from([0o644, 0o755, 0o600, 0o444]), st.sampled_from(["f", "f", "f", "l", "g"]), st.sampled_from(["dst", "dst/sub", "x"])).map(list)
        return st.tuples(st.lists(f, min_size=1, max_size=4), st.sampled_from([0o22, 0o77]), st.booleans(), st.lists(st.tuples(st.integers(0, 9999), st.sampled_from([2, 2, 2, 3, 4])), min_size=3, max_size=10)).map(list)
    if part == "many":
        return st.tuples(st.sampled_from([24, 32, 48]), st.dictionaries(st.sampled_from(KINDS), st.sampled_from([1, 3, 60, 60, 110]), min_size=1, max_size=3), st.lists(st.tuples(st.sampled_from(["hdr", "in", "none"]), st.integers(0, 200)), min_size=1, max_size=2)).map(list)
    return st.tuples(proj.specs(rules=5), st.lists(proj.edits(), max_size=2), st.lists(proj.edits(), min_size=1, max_size=3),
                     st.lists(st.tuples(st.integers(0, 9999), st.sampled_from([2, 2, 3, 4]), st.booleans(), proj.edits()), min_size=3, max_size=8), st.booleans()).map(list)


def arm(b, at, mode):
    p = os.path.join(b.root, "shm")
    with open(p, "wb") as f:
        f.write(struct.pack("qqqq", 0, at, mode, 0))
        if not at:
            f.truncate(32 + 8 * 65536)
    b.extra_env["CRASH_SHM"] = p


def state(b):
    with open(os.path.join(b.root, "shm"), "rb") as f:
        return struct.unpack("qqqq", f.read(32))


def sites(b):
    """Positions of the counted calls, grouped by the place in the program."""
    with open(os.path.join(b.root, "shm"), "rb") as f:
        n = struct.unpack("qqqq", f.read(32))[0]
        m = {}
        for i, s in enumerate(struct.unpack("%dq" % min(n, 65536), f.read(8 * min(n, 65536)))):
            m.setdefault(s, []).append(i + 1)
    return list(m.values())


def choose(groups, pos):
    """Half of the positions: of all calls; the others: of all places first."""
    if pos & 1:
        g = groups[pos * len(groups) // 10000]
        return g[pos * 7919 % len(g)]
    return 1 + pos * sum(map(len, groups)) // 10000


def inst(case):
    files, umask, first, points = case
    hits = 0
    with Box("crash") as b:
        t = []
        for i, (size, mode, kind, d) in enumerate(files):
            if kind == "l":
                b.write("target%d" % size, "t" * size, mode)
                os.symlink("target%d" % size, b.p("f%d" % i))
            else:
                b.write("f%d" % i, ("%d" % i) * size, mode)
            if kind == "g":
                t.append("run { exec { pt mk f%d -o g%d -i S{ f%d } } consumes { S{ f%d } } produces { g%d } }" % (i, i, i, i, i))
            t.append("install { '%s' %s }" % (d, "g%d" % i if kind == "g" else "S{ f%d }" % i))
        b.write("Autark", "\n".join(t) + "\n")
        pre = b.root + "/pre"

        def go():
            r = b.autark(["-I", "-R" + pre], preexec=lambda: os.umask(umask))
            b.take_log()
            return r

        def tree():
            out = snapshot(pre) if os.path.isdir(pre) else {}
            for p, v in out.items():
                if v[0] == "f":
                    out[p] = v + (os.stat(os.path.join(pre, p)).st_mtime_ns if not os.path.basename(p).startswith("g") else 0,)
            return {p: v if v[0] != "d" else "d" for p, v in out.items()}
        r = go()
        if not r.ok:
            raise Violation("install failed: %s" % r.text())
        want = tree()
        b.settle()
        if not first:
            for i, f in enumerate(files):
                if f[2] == "f":
                    os.utime(b.p("f%d" % i))
        save = b.root + "/save"
        rmtree(pre) if first else None
        if first:
            rmtree(b.p("autark-cache"))
        shutil.copytree(b.proj, save, symlinks=True)
        spre = b.root + "/spre"
        if os.path.isdir(pre):
            shutil.copytree(pre, spre, symlinks=True)

        def restore():
            for a, c in ((save, b.proj), (spre, pre)):
                rmtree(c)
                if os.path.isdir(a):
                    shutil.copytree(a, c, symlinks=True)
        totals, groups = {}, {}
        for mode in sorted({p[1] for p in points}):
            restore()
            b.settle()
            arm(b, 0, mode)
            r = go()
            if not r.ok:
                raise Violation("install failed: %s" % r.text())
            totals[mode] = state(b)[0]
            groups[mode] = sites(b)
        b.extra_env.pop("CRASH_SHM")
        want = tree()
        for pos, mode in points:
            if not totals[mode]:
                continue
            at = choose(groups[mode], pos)
            restore()
            b.settle()
            arm(b, at, mode)
            r = go()
            hit = state(b)[3]
            b.extra_env.pop("CRASH_SHM")
            hits += hit > 0
            if hit:
                label("inst:survived" if r.ok else "inst:refused")
            if r.ok and tree() != want:
                raise Violation("call %d of %d fails (mode %d, %d hits): installation reports success; %s\n%s" % (at, totals[mode], mode, hit, diff_snap(tree(), want), r.text()))
            b.settle()
            msg = r.text()
            r = go()
            if not r.ok or tree() != want:
                raise Violation("call %d of %d fails (mode %d); then installed again: %s\n%s\n%s" % (at, totals[mode], mode, diff_snap(tree(), want), msg, r.text()))
    return hits > 1


def many(case):
    limit, n, edits = case
    n = {k: n.get(k, 0) for k in KINDS}
    with Box("plain") as b:
        t, want = [], set()
        R = lambda k: range(n[k])
        for i in R("chk"):
            t.append("check { k%d.sh { S{ in/k%d } } }" % (i, i))
            b.write(".autark/k%d.sh" % i, "#!/bin/sh\nset -e\npt args k%d\nautark set K%d=1\nautark dep \"$1\"\n" % (i, i), 0o755)
            b.write("in/k%d" % i, "v\n")
            want.add("k%d" % i)
        for i in R("subst"):
            t.append("set { S%d @@{ pt say s%d } }" % (i, i))
            want.add("s%d" % i)
        if n["subst"]:
            t.append("run { always exec { pt args all %s } }" % " ".join("${S%d}" % i for i in R("subst")))
        for i in R("inc"):
            t.append("include { i%d/Autark }" % i)
            b.write("i%d/Autark" % i, "run { exec { pt mk i%d -o out -i SS{ f } } consumes { SS{ f } } produces { out } }\n" % i)
            b.write("i%d/f" % i, "v\n")
            want.add("i%d" % i)
        for i in R("run"):
            t.append("run { exec { pt mk r%d -o r%d.out -i S{ in/r%d } } consumes { S{ in/r%d } } produces { r%d.out } }" % (i, i, i, i, i))
            b.write("in/r%d" % i, "v\n")
            want.add("r%d" % i)
        for i in R("cfg"):
            t.append("configure { c%d.txt.in }" % i)
            b.write("c%d.txt.in" % i, "v @X@\n")
        if n["fe"]:
            t.append("foreach { IT set { _ %s } run { exec { pt mk fe -o ^{ ${IT} .fo } -i S{ ^{ in/ ${IT} } } } produces { ^{ ${IT} .fo } } consumes { S{ ^{ in/ ${IT} } } } } }" % " ".join("e%d" % i for i in R("fe")))
        for i in R("fe"):
            b.write("in/e%d" % i, "v\n")
        if n["src"]:
            b.write("h.h", "hdr v\n")
            t.append("cc { set { _ %s } }" % " ".join("a%d.c" % i for i in R("src")))
        for i in R("src"):
            b.write("a%d.c" % i, '#include "h.h"\nsrc\n')
            want.add("a%d.c" % i)
        for i in R("inst"):
            t.append("install { 'dst' S{ in/n%d } }" % i)
            b.write("in/n%d" % i, "v\n")
        b.write("Autark", "\n".join(t) + "\n")

        def lim():
            import resource
            resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))

        def go():
            r = b.autark(["-I", "-R" + b.root + "/pre"], preexec=lim)
            ev = set()
            for e in b.take_log():
                if e["ev"] == "cc":
                    ev.add(os.path.basename(e["src"]))
                elif e["ev"] in ("mk", "args", "say") and e["args"]:
                    ev.add(e["args"][0] if e["args"][0] != "fe" else e["args"][2])
            return r, {x for x in ev if x in want or x[-3:] == ".fo"}
        want |= {"e%d.fo" % i for i in R("fe")}
        r, ev = go()
        if not r.ok or ev != want:
            raise Violation("%s with at most %d open files: missing steps %s\n%s" % (n, limit, sorted(want - ev)[:8], r.text()))
        for i in R("inst"):
            if not os.path.exists(b.root + "/pre/dst/n%d" % i):
                raise Violation("%s with at most %d open files: not installed: n%d\n%s" % (n, limit, i, r.text()))
        for k, x in edits:
            b.settle()
            exp = set()
            if k == "hdr" and n["src"]:
                b.write("h.h", "hdr %d\n" % x)
                exp = {"a%d.c" % i for i in R("src")}
            elif k == "in":
                for j in ("run", "fe", "inc", "chk"):
                    if n[j]:
                        i = x % n[j]
                        f, e = {"run": ("in/r%d", "r%d"), "fe": ("in/e%d", "e%d.fo"), "inc": ("i%d/f", "i%d"), "chk": ("in/k%d", "k%d")}[j]
                        b.write(f % i, "x\n")
                        exp.add(e % i)
            r, ev = go()
            if not r.ok or ev != exp:
                raise Violation("%s with at most %d open files, %s: steps %s, expected %s\n%s" % (n, limit, (k, x), sorted(ev)[:8], sorted(exp)[:8], r.text()))
            for i in R("cfg"):
                if b.read("autark-cache/c%d.txt" % i) != b"v \n":
                    raise Violation("%s: configured file %d is %r" % (n, i, b.read("autark-cache/c%d.txt" % i)))
        for k in KINDS:
            if n[k] > limit:
                label("many:" + k)
        return max(n.values()) > limit


def run_case(part, case):
    if part == "many":
        return many(case)
    if part == "inst":
        return inst(case)
    spec, pre, ops, points, first = case
    nontriv = False
    with Box("crash") as b:
        proj.write_state(b, None, spec)
        s = spec

        def edit(s, op):
            ns, touched = proj.apply(s, op)
            proj.write_state(b, s, ns, touched)
            return ns

        def build_(s):
            return b.autark(proj.cli(s), env=proj.environ(s))

        def compare(s, r, want, trail):
            have = proj.products(b.p("autark-cache"))
            for p in sorted(want):
                if have.get(p) != want[p]:
                    raise Violation("%s: product %s differs from a clean build\n--- got\n%r\n--- clean\n%r\n%s" % ("; ".join(trail), p, have.get(p), want[p], r.text()))
        b.settle()
        if not first:
            r = build_(s)
            if not r.ok:
                raise Violation("clean build of a valid project failed: %s" % r.text())
            for op in pre:
                b.settle()
                s = edit(s, op)
                r = build_(s)
                if not r.ok:
                    raise Violation("build failed: %s" % r.text())
            b.settle()
            for op in ops:
                s = edit(s, op)
        b.take_log()
        save = os.path.join(b.root, "save")
        shutil.copytree(b.proj, save, symlinks=True)
        totals, groups = {}, {}
        for mode in {p[1] for p in points}:
            rmtree(b.proj)
            shutil.copytree(save, b.proj, symlinks=True)
            b.settle()
            arm(b, 0, mode)
            r = build_(s)
            if not r.ok:
                raise Violation("build failed: %s" % r.text())
            totals[mode] = state(b)[0]
            groups[mode] = sites(b)
        b.extra_env.pop("CRASH_SHM")
        b.take_log()
        cr, cp, _ = proj.clean_reference(b, s)
        if not cr.ok:
            raise Violation("clean build failed: %s" % cr.text())
        done = set()
        for pos, mode, between, op in points:
            if not totals[mode]:
                continue
            at = choose(groups[mode], pos)
            if (at, mode) in done:
                continue
            done.add((at, mode))
            rmtree(b.proj)
            shutil.copytree(save, b.proj, symlinks=True)
            b.settle()
            arm(b, at, mode)
            r = build_(s)
            hit = state(b)[3]
            b.extra_env.pop("CRASH_SHM")
            ev = b.take_log()
            trail = ["call %d of %d fails%s (%d faults), status %s, messages %s" % (at, totals[mode], " and all which need space after it" if mode == 3 else "", hit, r.rc, r.err.decode(errors="replace")[-1500:])]
            if not hit:
                label("not-reached")
            elif r.ok:
                label("survived")
                nontriv = True
                compare(s, r, cp, trail)
            else:
                label("refused")
                nontriv = nontriv or len(ev) > 0
            b.settle()
            s2, want = s, cp
            if between:
                r = build_(s2)
                b.take_log()
                trail.append("built again")
                if not r.ok:
                    raise Violation("%s: build after a fault failed: %s" % ("; ".join(trail), r.text()))
                compare(s2, r, want, trail)
                b.settle()
            s2 = edit(s2, op)
            trail.append("edited %r and built" % (op,))
            r = build_(s2)
            b.take_log()
            if not r.ok:
                raise Violation("%s: build after a fault failed: %s" % ("; ".join(trail), r.text()))
            x, want, _ = proj.clean_reference(b, s2)
            if not x.ok:
                raise Violation("clean build failed: %s" % x.text())
            compare(s2, r, want, trail)
            proj.write_state(b, s2, s)
    return nontriv
