"""C25: the self-contained build.sh which amalgamator.sh makes from the sources. "wrap": histories of calls of build.sh (from any place, by path, name, link or shell; project and cache paths with blanks and special characters; every form of -H; with changed, broken and
removed executables, a newer build.sh, failing compilers and failing projects) are compared with direct calls of the program in a twin project. "props": the program which build.sh compiles goes through cases of the other checks."""
import hashlib, importlib, json, os, re, shutil, stat
from hypothesis import strategies as st
import build, harness
from harness import Box, Violation, snapshot
from runner import label

LEVEL = "exploration"
TECHNIQUE = "differential property-based testing: build.sh against the program, and its program against the models of other properties"
RULE = ("histories of two to six calls of build.sh with edits in between; non-trivial: at least two calls, the executable had to be compiled again or its compilation failed, and a call was not made by ./build.sh in the project directory; cases of other checks: non-trivial as there")
ASSUMPTIONS = ["the compiler which build.sh calls is a stand-in which accepts only the complete source text and supplies the program compiled once for each source tree (by build.sh itself, with gcc)"]
PARTS = {"wrap": {"quick": 1500, "thorough": 30000, "share": 0.55}, "props": {"quick": 900, "thorough": 30000, "share": 0.45}}
BUDGET = {"quick": 45, "thorough": 1200}
OTHERS = [("c01", "history"), ("c09", "hist"), ("c11", "args"), ("c12", "hist"), ("c15", "prog"), ("c16", "hist"), ("c21", "hist"), ("c24", "life")]

NAMES = ["p", "p", "p q", "p'q", 'p"q', "pé", "p$HOME", "p*", "p q\\n", "a=b"]
CACHES = ["bb", "b c", "../ca", "@/cb", "@/c b", "x/y", "b*"]
STUB = r"""#!/bin/sh
printf 'cc\n' >> "$STUB_LOG"
[ -e "$STUB_FAIL" ] && { printf 'stub: fails\n' >&2; exit 1; }
src= out= prev=
for a; do
  [ "$prev" = -o ] && out=$a
  case "$a" in *.c) [ -z "$src" ] && src=$a;; esac
  prev=$a
done
for r in A B; do
  if cmp -s "$src" "$STUB_DIR/$r.c"; then rm -f "$out"; cp "$STUB_DIR/$r.exe" "$out"; exit $?; fi
done
printf 'bad %s -> %s\n' "$src" "$out" >> "$STUB_LOG"
exit 1
"""


def dist():
    d = build.dist()
    if os.path.exists(os.path.join(d, "failed")):
        raise Violation("build.sh does not work:\n" + open(os.path.join(d, "failed"), errors="replace").read())
    kit = os.path.join(d, "kit")
    if not os.path.exists(os.path.join(kit, "ok")):
        with build._Lock("kit"):
            if not os.path.exists(os.path.join(kit, "ok")):
                os.makedirs(kit + "/bin", exist_ok=True)
                a, b = (r.encode() for r in build.REVS)
                for f, x, to in (("autark", "A.exe", 0), ("autark", "B.exe", 1), ("autark.c", "A.c", 0), ("autark.c", "B.c", 1), ("build.sh", "A.sh", 0), ("build.sh", "B.sh", 1)):
                    t = open(os.path.join(d, f), "rb").read()
                    if to:
                        t = t.replace(a, b)
                    with open(os.path.join(kit, x), "wb") as o:
                        o.write(t)
                    os.chmod(os.path.join(kit, x), 0o755)
                for r in "AB":       # the program itself, found by its own directory
                    os.makedirs(os.path.join(kit, "prog" + r), exist_ok=True)
                    shutil.copy(os.path.join(kit, r + ".exe"), os.path.join(kit, "prog" + r, "autark"))
                for n in ("clang", "stubcc"):
                    with open(os.path.join(kit, "bin", n), "w") as o:
                        o.write(STUB)
                    os.chmod(os.path.join(kit, "bin", n), 0o755)
                open(os.path.join(kit, "ok"), "w").close()
    return kit


def prepare():
    try:
        dist()
    except Violation:
        pass


def strategy(part):
    if part == "props":
        return st.one_of([importlib.import_module(m).strategy(p).map(lambda c, m=m, p=p: [m, p, c]) for m, p in OTHERS])
    cache = st.tuples(st.sampled_from(["-H", "-Hx", "--cache="]), st.sampled_from(CACHES)).map(list)
    opt = st.one_of(st.sampled_from([["-DOA=v w"], ["-DOA=*"], ["-DOA="], ["-DOB=x", "-J2"], ["-DOB"], ["-c"], ["-c"], ["-I", "-R@/pre"], ["-I", "-R@/p re"], ["-l"], ["-v"], ["-h"], ["sub"], ["."], ["glob", "*.txt"], ["--nosuch"], ["-V"]]))
    call = st.tuples(st.just("call"), st.sampled_from(["./", "./", "./", "sh", "abs", "rel", "path"]), st.one_of(st.none(), st.none(), cache), st.lists(opt, max_size=2), st.sampled_from([None, None, None, "hm", "@/hm", "@/h m"]),
                     st.sampled_from(["stub", "stub", "stubcc", "nosuch", None]), st.sampled_from([None, None, "-O0", "-DX=1 -g"])).map(list)
    step = st.one_of(call, call, call, st.sampled_from([["rm"], ["garbage"], ["other"], ["empty"], ["swap"], ["ccfail"], ["ccfail"], ["fail"], ["edit"], ["edit"]]))
    return st.tuples(st.sampled_from(NAMES), st.booleans(), st.lists(step, min_size=2, max_size=9)).map(list)


PROJECT = """check { ck.sh }
set { OC ${CFLAGS} }
run { exec { pt mk T -o out.txt -i S{ in.txt } -a ${OA no} -a ${OB no} } consumes { S{ in.txt } } produces { out.txt } }
run { exec { pt args flags ${CFLAGS none} ${CK} ${CKE} } }
configure { conf.txt.in }
install { 'dst' conf.txt out.txt }
option { OA "first" } option { OB "second" }
"""


def run_case(part, case):
    if part == "props":
        build_only = dist()
        m, p, c = case
        harness.FORCE = "dist"
        try:
            label(m)
            return importlib.import_module(m).run_case(p, c)
        finally:
            harness.FORCE = None
    kit = dist()
    name, link, steps = case
    calls = recompiled = elsewhere = 0
    with Box("plain", name) as a, Box("plain", name) as t:
        roots = (a.root.encode(), t.root.encode())
        for b in (a, t):
            b.write("Autark", PROJECT)
            b.write("sub/Autark", "run { exec { pt args sub } }\n")
            b.write("conf.txt.in", "a @OA@ b @CK@\n")
            b.write("in.txt", "v0\n")
            b.write(".autark/ck.sh", "#!/bin/sh\npt args ck\nautark set CK=1\nautark env EV\nautark set CKE=x\n", 0o755)
            os.makedirs(b.root + "/elsewhere")
        sh = a.p("build.sh")
        if link:
            os.makedirs(a.p("dist"))
            os.symlink("dist/build.sh", sh)
            sh = a.p("dist/build.sh")
        rev = "A"
        shutil.copy(os.path.join(kit, "A.sh"), sh)
        stublog, ccfail = a.root + "/stublog", a.root + "/ccfail"
        exe = {}       # home directory -> revision of the intact executable there
        version = 0
        for s in steps:
            if s[0] in ("rm", "garbage", "other", "empty"):
                for d, _, fs in os.walk(a.root):
                    if "autark" in fs and os.path.basename(d) != "bin":
                        x = os.path.join(d, "autark")
                        os.unlink(x)
                        if s[0] != "rm":
                            with open(x, "w") as f:
                                f.write({"garbage": "garbage\n", "empty": "", "other": "#!/bin/sh\necho 0.8.0.%s\n" % build.REVS[0]}[s[0]])
                            os.chmod(x, 0o644 if s[0] == "garbage" else 0o755)
                exe.clear()
                continue
            if s[0] == "swap":
                rev = "B" if rev == "A" else "A"
                os.unlink(sh)
                shutil.copy(os.path.join(kit, rev + ".sh"), sh)
                continue
            if s[0] == "ccfail":
                if os.path.exists(ccfail):
                    os.unlink(ccfail)
                else:
                    open(ccfail, "w").close()
                continue
            if s[0] in ("edit", "fail"):
                version += 1
                for b in (a, t):
                    b.settle()
                    b.write("in.txt", "v%d\n%s" % (version, "#fail\n" if s[0] == "fail" else ""))
                continue
            _, how, cache, opts, home, cc, cflags = s
            args = lambda b: [x.replace("@", b.root) for x in (([] if not cache else ["-H", cache[1]] if cache[0] == "-H" else ["-H" + cache[1]] if cache[0] == "-Hx" else ["--cache=" + cache[1]]) + [o for l in opts for o in l])]
            extra = {"CC": os.path.join(kit, "bin/stubcc") if cc == "stub" else cc, "CFLAGS": cflags, "STUB_LOG": stublog, "STUB_FAIL": ccfail, "STUB_DIR": kit, "PATH": kit + "/bin:" + a.t.path + ":/usr/bin:/bin"}
            env = a.env(dict(extra, AUTARK_HOME=home and home.replace("@", a.root)))
            cwd, argv = a.proj, ["./build.sh"]
            if how == "sh":
                argv = ["/bin/sh", "build.sh"]
            elif how == "abs":
                cwd, argv = a.root + "/elsewhere", [a.p("build.sh")]
            elif how == "rel":
                cwd, argv = a.root + "/elsewhere", ["../%s/build.sh" % name]
            elif how == "path":
                cwd, argv = a.root + "/elsewhere", ["build.sh"]
                env["PATH"] = a.proj + ":" + env["PATH"]
            hd = os.path.normpath(os.path.join(a.proj, (cache[1] + "/.autark-dist" if cache else home or "autark-cache/.autark-dist").replace("@", a.root)))
            r = a.run(argv + args(a), env, cwd)
            la = a.take_log()
            calls += 1
            elsewhere += how != "./"
            cclog = ""
            if os.path.exists(stublog):
                cclog = open(stublog, errors="replace").read()
                os.unlink(stublog)
            n = cclog.count("cc\n")
            show = "call %d: %s %r in %s, home %s, CC %s\n%s\ncompiler: %s" % (calls, argv, args(a), cwd, home, cc, r.text(), cclog)
            if "bad " in cclog:
                raise Violation("the compiler gets something else than the program: " + show)
            fails = os.path.exists(ccfail)
            if exe.get(hd) == rev and n:
                raise Violation("the executable is compiled again: " + show)
            if n > 1:
                raise Violation("the executable is compiled %d times: %s" % (n, show))
            if n and fails or exe.get(hd) != rev and not n and r.rc and fails:
                label("cc-failed")
                recompiled += 1
                exe.pop(hd, None)
                if r.ok or la:
                    raise Violation("build.sh goes on although its executable was not compiled: " + show)
                continue
            if n and calls > 1:
                recompiled += 1
                label("recompiled")
            exe[hd] = rev
            # twin
            q = t.run([os.path.join(kit, "prog" + rev, "autark")] + args(t), t.env(dict(extra)), t.proj)
            lt = t.take_log()
            show += "\n--- twin\n" + q.text()
            norm = lambda x: x.replace(roots[1], roots[0])
            # what names the program itself, and its directory
            vb = lambda x: re.sub(rb"(?m)^.*AUTARK_HOME=.*\n", b"", re.sub(rb"(?m)^.*: (unrecognized option|invalid option)", rb"\1", x))
            if r.rc != q.rc:
                raise Violation("exit status %s, expected %s: %s" % (r.rc, q.rc, show))
            for x, y, w in ((r.out, q.out, "stdout"), (r.err, q.err, "stderr")):
                x, y = vb(x), norm(vb(y))
                if n and not x.endswith(y) or not n and x != y:
                    raise Violation("%s differs from that of the program: %s" % (w, show))
            ev = lambda l: [(e["ev"], e["cwd"].replace(t.root, a.root), [v.replace(t.root, a.root) for v in e["args"]]) for e in l]
            if ev(la) != ev(lt):
                raise Violation("executed commands differ:\n%s\n%s\n%s" % (ev(la), ev(lt), show))
            if not r.ok:
                label("failed")
            sn = []
            for b in (a, t):
                out = {}
                for k, v in snapshot(b.root, skip=[b.home, b.root + "/probe", b.root + "/out", b.root + "/err"]).items():
                    if ".autark-dist" in k or "hm" in k or "h m" in k or k.endswith("build.sh") or k.split("/")[-1] == "dist" or k.startswith(("stublog", "ccfail")):
                        continue
                    if ".deps" in k:
                        v = None
                    elif v[0] == "d":
                        continue
                    out[k] = repr(v).replace(t.root, a.root)
                sn.append(out)
            if sn[0] != sn[1]:
                raise Violation("files differ: %r\n%s" % ({k: (sn[0].get(k), sn[1].get(k)) for k in set(sn[0]) | set(sn[1]) if sn[0].get(k) != sn[1].get(k)}, show))
    return calls > 1 and recompiled > 0 and elsewhere > 0
