"""C22: random projects with declared options and probes, driven by random command lines: every spelling of the options, repeated, in any order, before and after the sources dir, and wrong ones. The values seen by probes,
the listing, the place of the cache and of the installed files are compared with a model of the documented meaning of the command line."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote, snapshot, diff_snap
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing of generated command lines against a model of the documented options"
RULE = "a project of probes and option declarations over up to three scripts, 1-3 command lines of 0-9 options each; non-trivial: some command line has at least four options and takes effect, or is refused"
ASSUMPTIONS = ["trailing line breaks of a -D value are dropped", "a relative -H or -R is used only when autark is started in the project dir", "values do not start with a \\1 byte"]
PARTS = {"cli": {"quick": 5000, "thorough": 100000}}
BUDGET = {"quick": 60, "thorough": 1500}

NAMES = ["A", "B", "C0", "x-y", "é", "two words", "D", "VERY_" * 20 + "LONG"]
VALS = ["", "1", "0", "a=b", "=", "two words", "é€", "x" * 3000, "'q'", '"', "{br}", "${A}", "%s%n", "-Dz", "--", "l1\nl2", "\n", "end\n", "end\r\n\n", "\\n", "a\tb", " lead", "*", "#c", "@{x}", "..", "\x7f", "tail "]
WORDS = ["Enable", "the", "100%", "%s", "é", "a b", "", "x" * 500, "'", "{}", "#", "--opt=<val>", "l1\nl2", "\\", "\t"]
DIRS = ["bindir", "libdir", "datadir", "includedir", "mandir", "pkgconfdir"]
INST = ["INSTALL_BIN_DIR", "INSTALL_LIB_DIR", "INSTALL_DATA_DIR", "INSTALL_INCLUDE_DIR", "INSTALL_MAN_DIR", "INSTALL_PKGCONFIG_DIR"]
DFLT = ["bin", None, "share", "include", "share/man", "lib/pkgconfig"]
SUBDIR = ["b1", "usr/b2", "two words", "é/x", "b1/"]
CACHE = ["c1", "./c/d", "two words", "c1/", "c//é", "sub/cache", "autark-cache"]
PRE = ["pfx", "./p/q/", "pfx two", "é"]
BADJ = ["abc", "3x", "", "-1", "99999999999999999999999", "0x2", "1.5", "- 1", "-9223372036854775808", "2 "]
GOODJ = ["1", "2", "0", "16", "17", "1000", "2147483648", "4294967297", "9223372036854775807", " 3", "+2", "007"]
BAD = [["-x"], ["--bogus"], ["-D"], ["-J"], ["--jobs"], ["--cache"], ["-H"], ["--clean=1"], ["--verbose=2"], ["-R"], ["--bindir"], ["-Zq"], ["--=3"], ["-?"]]


def strategy(part):
    i = st.integers(0, 100)
    d = st.tuples(st.just("D"), i, st.one_of(st.none(), i), i)
    opt = st.one_of(d, d, d, st.tuples(st.just("J"), i, i), st.tuples(st.just("H"), i, i), st.tuples(st.just("R"), i, i), st.tuples(st.just("dir"), st.integers(0, 5), i, i), st.tuples(st.just("I"), i), st.tuples(st.just("V"), i), st.tuples(st.just("c"), i)).map(list)
    rare = st.one_of(st.tuples(st.just("l"), i), st.tuples(st.just("l"), i), st.tuples(st.just("badJ"), i, i), st.tuples(st.just("bad"), i), st.tuples(st.just("v"), i), st.tuples(st.just("h"), i)).map(list)
    run = st.fixed_dictionaries({"opts": st.lists(opt, max_size=9), "rare": st.lists(st.tuples(rare, i).map(list), max_size=1), "cwd": st.sampled_from([0, 0, 1, 2, 3, 4]), "pos": i, "env": st.lists(st.tuples(i, i).map(list), max_size=2), "broken": st.sampled_from([0] * 12 + [1, 2, 3, 4, 5, 6, 7, 8, 9])})
    use = st.tuples(i, st.sampled_from(["plain", "plain", "plain", "set", "let", "ref", "refl", "subset", "subref", "rootset"])).map(list)
    decl = st.tuples(i, st.lists(i, max_size=5), st.integers(0, 4)).map(list)
    return st.fixed_dictionaries({"uses": st.lists(use, min_size=1, max_size=5), "decl": st.lists(decl, max_size=6), "runs": st.lists(run, min_size=1, max_size=3), "cond": i, "err": st.sampled_from([False, False, False, True])})


def project(case):
    """-> files, uses (name -> kind), list of (script, option line)"""
    uses = {}
    for n, k in case["uses"]:
        uses.setdefault(NAMES[n % len(NAMES)], k)
    cond = NAMES[case["cond"] % len(NAMES)]
    S = {"Autark": [], "sub/Autark": [], "sub/deep/Autark": [], "cond/Autark": []}
    decl = {k: [] for k in S}
    SC = ["Autark", "Autark", "sub/Autark", "sub/deep/Autark", "cond/Autark"]
    for n, w, s in case["decl"]:
        n, w, s = NAMES[n % len(NAMES)], [WORDS[x % len(WORDS)] for x in w], SC[s]
        S[s].append("option { %s %s }" % (quote(n), " ".join(quote(x) for x in w)))
        d = ""
        for x in w:   # joined by blanks; nothing before the first non-empty word
            d += (" " if d else "") + x
        decl[s].append("%s: %s\n" % (n, d))
    R, U = S["Autark"], S["sub/Autark"]
    for j, (n, k) in enumerate(uses.items()):
        q = quote(n)
        probe = "run { exec { pt args %s%s ${%s unset} } always }"
        if k == "set":
            R.append("set { %s lit }" % q)
        elif k == "let":
            R.append("let { %s lit }" % q)
        elif k == "ref":
            R.append("set { %s ^{'<' ${%s none} '>'} }" % (q, q))
        elif k == "refl":
            R.append("let { %s ^{'<' ${%s none} '>'} }" % (q, q))
        elif k == "subset":
            U.append("set { %s sublit }" % q)
        elif k == "subref":
            U.append("set { %s ^{'[' ${%s none} ']'} }" % (q, q))
        elif k == "rootset":
            U.append("set { root { %s } rlit }" % q)
        R.append(probe % ("r", j, q))
        U.append(probe % ("s", j, q))
    R.append("run { exec { pt env AUTARK_ROOT_DIR AUTARK_CACHE_DIR } always }")
    R.append("run { exec { pt args inst ${INSTALL_ENABLED no} ${INSTALL_PREFIX no} %s } always }" % " ".join("${%s no}" % x for x in INST))
    R.append("run { exec { pt mk G -o g.out } produces { g.out } }")
    for j, x in enumerate(INST):
        R.append("install { ${%s} f%d }" % (x, j))
    R.append("include { sub/Autark }")
    U.append("include { deep/Autark }")
    R.append("if { defined { %s } include { cond/Autark } }" % quote(cond))
    R.append("cc { set { _ %s } set { _ -g } }" % " ".join("s%d.c" % j for j in range(5)))
    if case["err"]:
        R.insert(0, "if { !defined { %s } error { 'need it' } }" % quote(cond))
    return {k: "\n".join(v) + "\n" for k, v in S.items()}, uses, decl, cond


def value(o, v):
    while v and v[-1] in "\r\n":
        v = v[:-1]
    return v


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    files, uses, decl, cond = project(case)
    nontrivial = False
    with Box(v) as b:
        for p, t in files.items():
            b.write(p, t)
        for j in range(6):
            b.write("f%d" % j, "file %d" % j)
        for j in range(5):
            b.write("s%d.c" % j, ("#sleep 6\n" if case["cond"] % 5 == 0 else "") + "src\n")
        src0 = None
        installed = set()
        for n, run in enumerate(case["runs"]):
            b.settle()
            # what the command line means
            D, J, H, R, dirs, I, V, clean = {}, None, None, None, {}, False, False, False
            incwd = run["cwd"] == 0
            toks = []
            for o in run["opts"]:
                k = o[0]
                if k == "D":
                    nm = list(uses)[o[1] % len(uses)] if o[1] % 3 else NAMES[o[1] // 3 % len(NAMES)]
                    val = None if o[2] is None else VALS[o[2] % len(VALS)]
                    t = nm if val is None else nm + "=" + val
                    toks.append(["-D" + t] if o[3] % 2 else ["-D", t])
                    D[nm] = value(o, val or "")
                elif k == "J":
                    J = GOODJ[o[1] % len(GOODJ)]
                    toks.append([["-J" + J], ["-J", J], ["--jobs=" + J], ["--jobs", J]][o[2] % 4])
                elif k == "H":
                    H = CACHE[o[1] % len(CACHE)]
                    if not incwd or o[2] // 4 % 3 == 0:
                        H = os.path.join(b.root, "abs", H)
                    toks.append([["-H" + H], ["-H", H], ["--cache=" + H], ["--cache", H]][o[2] % 4])
                elif k == "R":
                    R = PRE[o[1] % len(PRE)]
                    if not incwd or o[2] // 4 % 3 == 0:
                        R = os.path.join(b.root, "inst", R)
                    toks.append([["-R" + R], ["-R", R], ["--prefix=" + R], ["--prefix", R]][o[2] % 4])
                elif k == "dir":
                    d = SUBDIR[o[2] % len(SUBDIR)]
                    dirs[o[1]] = d
                    toks.append(["--%s=%s" % (DIRS[o[1]], d)] if o[3] % 2 else ["--" + DIRS[o[1]], d])
                else:
                    I, V, clean = I or k == "I", V or k == "V", clean or k == "c"
                    toks.append([("-" + k) if o[1] % 2 else {"I": "--install", "V": "--verbose", "c": "--clean"}[k]])
            rare, bad, badarg = None, False, None
            for (x, at) in run["rare"]:
                rare = x[0]
                if rare == "l":
                    t = [["-l"], ["--options"], ["-Vl"]][x[1] % 3]
                    V = V or t == ["-Vl"]
                elif rare == "badJ":
                    j = BADJ[x[1] % len(BADJ)]
                    t = [["-J", j], ["--jobs=" + j], ["--jobs", j]][x[2] % 3]
                elif rare == "bad":
                    t = BAD[x[1] % len(BAD)]
                    at = len(toks) if len(t) == 1 and t[0] in ("-D", "-J", "--jobs", "--cache", "-H", "-R", "--bindir") else at
                else:
                    t = ["-" + rare]
                toks.insert(at % (len(toks) + 1), t)
            # the sources dir
            where = [None, ".", "../p", b.proj, b.proj + "//"][run["cwd"]]
            cwd = b.proj if run["cwd"] < 2 else os.path.join(b.root, "home")
            if where:
                at = run["pos"] % (len(toks) + 1)
                last = [t[0] for t in toks[at:]]
                if rare == "bad" and toks[-1][0] in ("-D", "-J", "--jobs", "--cache", "-H", "-R", "--bindir") and at == len(toks) and len(toks[-1]) == 1:
                    at -= 1
                if at == len(toks) and run["pos"] % 2:
                    toks.append(["--"])
                    at += 1
                toks.insert(at, [where])
            argv = [x for t in toks for x in t]
            env = {}
            for i, w in run["env"]:
                env[NAMES[i % len(NAMES)]] = VALS[w % len(VALS)]
            # broken projects
            br = run["broken"]
            bn = None
            if br:
                bn = ["", "no script", "script is a dir", "no include", "include is a dir", "syntax", "no dir", "file as dir", "dangling", "cut"][br]
                label("broken: " + bn)
                if br == 1:
                    os.unlink(b.p("Autark"))
                elif br == 2:
                    os.unlink(b.p("Autark"))
                    os.mkdir(b.p("Autark"))
                elif br == 3:
                    os.unlink(b.p("sub/deep/Autark"))
                elif br == 4:
                    os.unlink(b.p("sub/deep/Autark"))
                    os.mkdir(b.p("sub/deep/Autark"))
                elif br == 5:
                    b.write("sub/Autark", files["sub/Autark"] + "run { exec { pt args z }\n")
                elif br == 8:
                    os.unlink(b.p("Autark"))
                    os.symlink("nowhere", b.p("Autark"))
                elif br == 9:
                    b.write("Autark", files["Autark"] + "}\n")
                elif where:
                    for t in toks:
                        if t == [where]:
                            t[0] = b.p("nodir") if br == 6 else b.p("f0")
                    argv = [x for t in toks for x in t]
                else:
                    br, bn = 0, None
            cache = os.path.normpath(os.path.join(b.proj, H or "autark-cache"))
            had = os.path.isdir(cache)
            before = snapshot(b.root, skip=(cache, b.p("log"), os.path.join(b.root, "out"), os.path.join(b.root, "err"), os.path.join(b.root, "log"), os.path.join(b.root, "probe")))
            r = b.autark(argv, env=env, cwd=cwd)
            log = b.take_log()
            after = snapshot(b.root, skip=(cache, b.p("log"), os.path.join(b.root, "out"), os.path.join(b.root, "err"), os.path.join(b.root, "log"), os.path.join(b.root, "probe")))
            show = "command line %d: %r (cwd %s, env %r)\n%s\nlog: %s\n%s" % (n, argv, cwd, env, "\n".join("--- %s\n%s" % x for x in sorted(files.items())), "\n".join("%s %r" % (e["ev"], e.get("args")) for e in log if not e["ev"].startswith("cc")), r.text())
            label("rare:%s" % rare)
            # undo the damage
            if br in (2, 4):
                os.rmdir(b.p("Autark" if br == 2 else "sub/deep/Autark"))
            if br:
                if os.path.islink(b.p("Autark")):
                    os.unlink(b.p("Autark"))
                for p, t in files.items():
                    b.write(p, t)
            if br:
                b.__dict__.pop("built", None)   # the scripts are written again
            elif clean and rare in (None, "l"):
                b.__dict__.get("built", set()).discard(os.path.realpath(cache))

            def quiet(what):
                if log:
                    raise Violation("%s, but programs are run\n%s" % (what, show))
                new = [x for x in diff_snap(before, after) if not x.startswith(("abs:", "p:")) and not any(cache.startswith(os.path.join(b.root, x.split(": ")[0])) for _ in [0])]
                if new:
                    raise Violation("%s, but files are changed: %r\n%s" % (what, new, show))
            if rare in ("bad", "badJ"):
                # a -h or -v has no influence on it here: only one rare option is used
                if r.rc == 0 or not r.err.strip():
                    raise Violation("an invalid command line is accepted\n%s" % show)
                quiet("the command line is invalid")
                nontrivial = True
                continue
            if rare == "h":
                if b"Usage" not in r.err + r.out:
                    raise Violation("no usage is printed\n%s" % show)
                quiet("help")
                continue
            if rare == "v":
                if r.rc != 0 or not r.out.strip():
                    raise Violation("no version is printed\n%s" % show)
                quiet("version")
                continue
            defined = cond in D or cond in env
            # a script may define it too
            k = uses.get(cond)
            ambiguous = k in ("set", "let", "ref", "refl", "rootset")
            if bn:
                if r.rc == 0 or not r.err.strip():
                    raise Violation("the build succeeds (%s)\n%s" % (bn, show))
                nontrivial = True
                continue
            if case["err"] and ambiguous:
                continue
            if case["err"] and not defined and rare != "l":
                if r.rc == 0 or b"need it" not in r.err:
                    raise Violation("error{} does not stop it\n%s" % show)
                continue
            if not r.ok:
                raise Violation("fails\n%s" % show)
            if rare == "l":
                quiet("only a list of options is asked for")
                if ambiguous:
                    continue
                exp = "".join(decl["Autark"]) + "".join(decl["sub/Autark"]) + "".join(decl["sub/deep/Autark"]) + ("".join(decl["cond/Autark"]) if defined else "")
                exp = ("\n" + exp).encode() if exp else b""
                if (r.err if not V else r.err[-len(exp):] if exp else b"") != exp:
                    raise Violation("listing is\n%s\nexpected\n%s\n%s" % (r.err.decode(errors="replace"), exp.decode(), show))
                if len(exp) > 1:
                    nontrivial = True
                    label("listing")
                continue
            # a build
            seen = {}
            for e in log:
                if e["ev"] == "args":
                    seen.setdefault(e["args"][0], []).append(e["args"][1:])
            for j, (nm, k) in enumerate(uses.items()):
                ext = D.get(nm, env.get(nm))
                root = {"set": "lit", "let": "lit", "rootset": "rlit", "ref": "<%s>" % ("none" if ext is None else ext), "refl": "<%s>" % ("none" if ext is None else ext)}.get(k, ext)
                sub = {"subset": "sublit", "subref": "[%s]" % ("none" if root is None else root)}.get(k, root)
                for w, x in (("r", root), ("s", sub)):
                    x = "unset" if x is None else x
                    exp = [[x] if x else []]
                    if seen.get(w + str(j)) != exp:
                        raise Violation("value of %r in the %s script is %.200r, expected %.200r\n%s" % (nm, {"r": "root", "s": "nested"}[w], seen.get(w + str(j)), exp, show))
            cachereal = os.path.realpath(cache)
            kv = [e["kv"] for e in log if e["ev"] == "env"][0]
            if kv["AUTARK_ROOT_DIR"] != b.proj or kv["AUTARK_CACHE_DIR"] != cachereal:
                raise Violation("project and cache dirs are %r, expected %s, %s\n%s" % (kv, b.proj, cachereal, show))
            if not os.path.exists(os.path.join(cache, "g.out")):
                raise Violation("the product is not in the cache dir %s\n%s" % (cache, show))
            mk = sum(1 for e in log if e["ev"] == "mk")
            if mk != (1 if clean or not had or not case_built(b, cache, n) else 0):
                raise Violation("the rule with a product runs %d times (clean: %s, cache existed: %s)\n%s" % (mk, clean, had, show))
            mark(b, cache)
            # parallel jobs
            lim = 4
            if J is not None:
                lim = int(J)
                lim = 4 if lim == 0 else min(lim, 16)
            act = peak = 0
            for e in sorted((e for e in log if e["ev"] in ("cc", "cc-end")), key=lambda e: e["t"]):
                act += 1 if e["ev"] == "cc" else -1
                peak = max(peak, act)
            if peak > lim:
                raise Violation("%d compilers at a time, allowed are %d\n%s" % (peak, lim, show))
            # installation
            inst = I or R is not None
            prefix = os.path.normpath(os.path.join(b.proj, R)) if R is not None else os.path.join(b.home, ".local")
            got = seen["inst"][0]
            ds = [dirs.get(j, DFLT[j]) for j in range(6)]
            if ds[1] is None:
                ds[1] = got[3] if got[3] in ("lib", "lib64", "lib/x86_64-linux-gnu") else "lib"
            exp = ["1" if inst else "no", prefix] + ds
            if got != exp:
                raise Violation("install variables are %r, expected %r\n%s" % (got, exp, show))
            want = {os.path.normpath(os.path.join(prefix, ds[j], "f%d" % j)) for j in range(6)} if inst else set()
            for f in want:
                if not os.path.isfile(f):
                    raise Violation("%s is not installed\n%s" % (f, show))
            bad = []
            for x in diff_snap(before, after):
                p = os.path.join(b.root, x.split(": ")[0])
                if p in want or any(w.startswith(p + "/") for w in want) or cache.startswith(p + "/") or p == cache:
                    continue
                bad.append(x)
            if bad:
                raise Violation("files besides the cache and the installed ones are changed: %r\n%s" % (bad, show))
            label("built")
            if where and [x for x in argv[argv.index(where) + 1:] if x != "--"]:
                label("options after the sources dir")
            if len(run["opts"]) >= 4:
                nontrivial = True
    return nontrivial


def mark(b, cache):
    b.__dict__.setdefault("built", set()).add(os.path.realpath(cache))


def case_built(b, cache, n):
    return os.path.realpath(cache) in b.__dict__.get("built", ())
