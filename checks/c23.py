"""C23: autark glob over random directory trees and patterns against a reference matcher, and library{} lookups over random placements of files in the cache, home and (redirected) system library directories against the
documented search order, over histories of changes of the placements."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing against a reference matcher and a model of the search order"
RULE = "glob: a tree of up to 25 names and 0-4 patterns; non-trivial: a wildcard pattern matches some but not all of the names; lib: 1-4 lookups over up to three scripts, files in up to eleven directories, 1-3 builds; non-trivial: a lookup finds a file which is not in the first directory searched"
ASSUMPTIONS = ["in one directory the names are tried in their order", "the cache directories are searched before the documented ones", "? and [..] are not matched against non-ASCII names", "system library directories are redirected to a scratch root by a link-time wrapper"]
PARTS = {"glob": {"quick": 9000, "thorough": 60000}, "lib": {"quick": 6000, "thorough": 50000}}
BUDGET = {"quick": 60, "thorough": 1200}

NAMES = ["a.c", "b.c", "B.c", "ab.c", "a", "b", "aa", ".h.c", ".hid", "a b.c", "a.cc", "main.cpp", "x-y.c", "-d.c", "z9.c", "z10.c", "é.c", "[q].c", "a*b", "q?", "\\w", "sub", "sub2", "sub/a.c", "sub/b.h", "sub/.x.c", "sub2/c.c", "sub/deep/d.c", "sub2/deep/e.c", "~t", "{a}", "n\nl.c", "long" * 50 + ".c", "_u", "^c", "]x", "!e", "A", "0", "00"]
PATS = ["*", "*.c", "*.[ch]", "?.c", "[ab]*", "[!a]*", "sub/*", "*/*.c", "*/deep/*", "a.c", "nope", "nope*", "sub*", ".*", ".h*", "[a-b].c", "[A-C]*", "*b*", "**", "a\\*b", "\\[q\\].c", "[[]q].c", "?", "??", "*.*", "./*.c", "sub/../*.c", "sub/", "*/", "-*", "z[0-9]*", "[]]x", "[^a]*", "*c", "a*c", "*.c*", "s*b/a*", "é*", "~t", "{a}", "*/nope", "[", "a[", "*[", "[!]]*", "q\\?", "\\\\w", "*\\?"]
LN = ["liba.a", "libb.so", "libc2.a", "lib d.a", "sub/libe.a", "libé.a", "libf.so.1.2", "liba.so"]


def strategy(part):
    i = st.integers(0, 200)
    if part == "glob":
        return st.fixed_dictionaries({"tree": st.lists(st.tuples(i, st.sampled_from("ffffdl")).map(list), max_size=25), "pats": st.lists(i, max_size=4), "dir": st.integers(0, 9), "form": i, "many": st.sampled_from([0] * 30 + [700])})
    look = st.tuples(st.sampled_from(["if", "neg", "plain", "sub", "parent", "root", "subif", "late", "dparent"]), st.lists(i, min_size=1, max_size=3), st.sampled_from("qqlovsm")).map(list)
    place = st.tuples(i, i, st.sampled_from("fffffld")).map(list)
    return st.fixed_dictionaries({"looks": st.lists(look, min_size=1, max_size=4), "builds": st.lists(st.lists(place, max_size=6), min_size=1, max_size=3), "home": st.sampled_from([True] * 5 + [False]), "var": st.booleans()})


# ------------------------------------------------------------------ reference matcher (POSIX, C locale, bytes)

def comp_match(p, s):
    """One path component; None: the pattern is outside of what the reference covers."""
    if s.startswith(b".") and not (p.startswith(b".") or p.startswith(b"\\.")):
        return False
    return _m(p, 0, s, 0)


def _m(p, i, s, j):
    while i < len(p):
        c = p[i:i + 1]
        if c == b"*":
            while p[i:i + 1] == b"*":
                i += 1
            return any(_m(p, i, s, k) for k in range(j, len(s) + 1))
        if j >= len(s):
            return False
        ch = s[j]
        if c == b"?":
            i += 1
        elif c == b"[":
            e = bracket(p, i)
            if e is None:   # no closing bracket: a plain character
                if ch != ord("["):
                    return False
                i += 1
            else:
                neg, items, i = e
                if any(lo <= ch <= hi for lo, hi in items) == neg:
                    return False
        else:
            if c == b"\\" and i + 1 < len(p):
                i += 1
            if p[i] != ch:
                return False
            i += 1
        j += 1
    return j == len(s)


def bracket(p, i):
    i += 1
    neg = p[i:i + 1] in (b"!", b"^")
    if neg:
        i += 1
    items, first = [], True
    while True:
        if i >= len(p):
            return None
        c = p[i]
        if c == ord("]") and not first:
            return neg, items, i + 1
        first = False
        if p[i + 1:i + 2] == b"-" and i + 2 < len(p) and p[i + 2] != ord("]"):
            items.append((c, p[i + 2]))
            i += 3
        else:
            items.append((c, c))
            i += 1


def has_magic(c):
    i = 0
    while i < len(c):
        if c[i:i + 1] in (b"*", b"?"):
            return True
        if c[i:i + 1] == b"[" and b"]" in c[i + 1:]:
            return True
        i += 2 if c[i:i + 1] == b"\\" else 1
    return False


def unesc(c):
    out, i = b"", 0
    while i < len(c):
        if c[i:i + 1] == b"\\" and i + 1 < len(c):
            i += 1
        out += c[i:i + 1]
        i += 1
    return out


def ref_glob(root, pat):
    pat = os.fsencode(pat)
    root = os.fsencode(root)
    tail = pat.endswith(b"/")
    comps = pat.rstrip(b"/").split(b"/")
    cur = [b""]
    for n, c in enumerate(comps):
        nxt = []
        for d in cur:
            full = os.path.join(root, d)
            if has_magic(c):
                try:
                    names = os.listdir(full or b".") + [b".", b".."]
                except OSError:
                    continue
                for x in names:
                    if comp_match(c, x):
                        q = d + x
                        if n < len(comps) - 1 or tail:
                            if not os.path.isdir(os.path.join(root, q)):
                                continue
                            q += b"/"
                        nxt.append(q)
            else:
                x = unesc(c)
                q = d + x
                if not os.path.lexists(os.path.join(root, q)):
                    continue
                if n < len(comps) - 1 or tail:
                    if not os.path.isdir(os.path.join(root, q)):
                        continue
                    q += b"/"
                nxt.append(q)
        cur = nxt
    return sorted(cur)


def glob_case(case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    with Box(v) as b:
        base = b.p("w")
        os.mkdir(base)
        names = []
        for i, k in case["tree"]:
            n = NAMES[i % len(NAMES)]
            p = os.path.join(base, n)
            if os.path.lexists(p) or any(os.path.lexists(os.path.join(base, x)) and not os.path.isdir(os.path.join(base, x)) for x in [os.path.dirname(n), n.split("/")[0]] if x):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if k == "d" or n in ("sub", "sub2"):
                os.mkdir(p)
            elif k == "l":
                os.symlink(["nowhere", "a.c", "sub"][i % 3], p)
            else:
                open(p, "w").close()
            names.append(n)
        for i in range(case["many"]):
            open(os.path.join(base, "m%d.c" % i), "w").close()
        pats = [PATS[i % len(PATS)] for i in case["pats"]]
        ascii_only = all(ord(c) < 128 for n in names for c in n)
        if not ascii_only:
            pats = [p for p in pats if "?" not in p and "[" not in p]
        D = [None, None, base, "w", "./w/", "w/../w", b.p("w") + "/.", "missing", "w/a.c", base][case["dir"]]
        cwd = base if D is None else b.proj
        opt = [] if D is None else [["-C", D], ["-C" + D], ["--dir=" + D], ["--dir", D]][case["form"] % 4]
        if D and case["form"] % 5 == 1:
            opt = ["-C", "elsewhere"] + opt   # the last one counts
        ps = list(pats)
        if any(p.startswith("-") for p in ps):
            argv = opt + ["--", "glob"] + ps
        elif case["form"] // 5 % 3 == 0:
            argv = ["glob"] + ps + opt
        elif case["form"] // 5 % 3 == 1 and ps:
            argv = ["glob"] + ps[:1] + opt + ps[1:]
        else:
            argv = opt + ["glob"] + ps
        r = b.autark(argv, cwd=cwd)
        show = "names %r\n%s" % (sorted(os.listdir(base))[:40], r.text())
        real = os.path.join(cwd, D) if D else base
        if not os.path.isdir(real):
            label("no such dir")
            if r.rc == 0 or not r.err.strip() or r.out:
                raise Violation("a missing directory is accepted\n%s" % show)
            return False
        lists = [ref_glob(real, p) for p in (pats or ["*"])]
        exp = b"".join(x + b"\n" for l in lists for x in l)
        if r.rc != 0 or r.out != exp:
            raise Violation("glob prints %r, expected %r\n%s" % (r.out[:1500], exp[:1500], show))
        label("glob")
        if opt and argv[0] == "glob":
            label("options after the patterns")
        top = os.listdir(real)
        return any(0 < len(l) < len(top) and has_magic(os.fsencode(p)) for l, p in zip(lists, pats or ["*"]))


# ------------------------------------------------------------------ library{}

def lib_case(case):
    v = "root64" if case["var"] else "root"
    nontrivial = False
    with Box(v) as b:
        ldir = "lib64" if case["var"] else "lib/x86_64-linux-gnu"
        R = os.path.join(b.root, "sysroot")
        cache = b.p("autark-cache")
        dirs = [(cache + "/" + ldir, None), (cache + "/lib", None)]
        if case["home"]:
            dirs += [(b.home + "/.local/" + ldir, None), (b.home + "/.local/lib", None)]
        for s in ("/usr/local/", "/usr/", "/"):
            for l in (ldir, "lib"):
                dirs.append((s + l, R + s + l))
        S = {"Autark": [], "sub/Autark": [], "sub/deep/Autark": []}
        probe = "run { exec { pt args %s ${%s} } always }"
        defs = []
        looks = []
        for j, (k, ns, how) in enumerate(case["looks"]):
            names = [LN[x % len(LN)] for x in ns]
            q = [quote(x) for x in names]
            if how == "l":
                defs.append("set { L%d %s }" % (j, " ".join(q)))
                txt = "${L%d}" % j
            elif how == "m":
                defs.append("set { L%d %s }" % (j, " ".join(q[:2])))
                txt = "${L%d} %s" % (j, " ".join(q[2:]))
            elif how == "o":
                txt = " ".join(q[1:] + ["${ON%d}" % j])
                names = names[1:] + [names[0]]
            elif how == "v":
                txt = "${UNDEF} " + " ".join(q)
            elif how == "s":
                txt = "set { _ %s }" % " ".join(q)
            else:
                txt = " ".join(q)
            X = "X%d" % j
            looks.append((k, names, how, j))
            if k in ("if", "neg"):
                S["Autark"].append("if { %slibrary { %s %s } %s } else { %s }" % ("!" if k == "neg" else "", X, txt, probe % ("y%d" % j, X), probe % ("n%d" % j, X)))
            elif k == "subif":
                S["sub/Autark"].append("if { library { %s %s } %s } else { %s }" % (X, txt, probe % ("y%d" % j, X), probe % ("n%d" % j, X)))
            elif k == "plain":
                S["Autark"].append("library { %s %s }\n%s" % (X, txt, probe % ("p%d" % j, X)))
            elif k == "late":
                S["Autark"].append("library { %s %s }" % (X, txt))
                S["sub/deep/Autark"].append(probe % ("p%d" % j, X))
            elif k == "sub":
                S["sub/Autark"].append("library { %s %s }\n%s" % (X, txt, probe % ("p%d" % j, X)))
                S["Autark"].append(probe % ("r%d" % j, X + " none"))
            elif k == "parent":
                S["sub/Autark"].append("library { parent { %s } %s }\n%s" % (X, txt, probe % ("p%d" % j, X)))
                S["Autark"].append(probe % ("q%d" % j, X))
            elif k == "dparent":   # visible in the parent script only
                S["sub/deep/Autark"].append("library { parent { %s } %s }\n%s" % (X, txt, probe % ("p%d" % j, X)))
                S["sub/Autark"].append(probe % ("q%d" % j, X))
                S["Autark"].append(probe % ("r%d" % j, X + " none"))
            elif k == "root":
                S["sub/deep/Autark"].append("library { root { %s } %s }\n%s" % (X, txt, probe % ("p%d" % j, X)))
                S["Autark"].append(probe % ("q%d" % j, X))
        S["Autark"] = defs + S["Autark"] + ["include { sub/Autark }"]
        S["sub/Autark"].append("include { deep/Autark }")
        S = {k: "\n".join(v) + "\n" for k, v in S.items()}
        for k, t in S.items():
            b.write(k, t)
        cli = ["-DON%d=%s" % (j, names[-1]) for k, names, how, j in looks if how == "o"]
        there = {}
        for bi, places in enumerate(case["builds"]):
            b.settle()
            for di, ni, k in places:
                d, real = dirs[di % len(dirs)]
                f = os.path.join(real or d, LN[ni % len(LN)])
                if os.path.lexists(f):
                    os.unlink(f)
                    continue
                os.makedirs(os.path.dirname(f), exist_ok=True)
                if k == "l":
                    os.symlink("nowhere", f)
                elif k == "d":
                    os.symlink("/dev/null", f)
                else:
                    open(f, "w").close()
            r = b.autark(cli, env={"PT_ROOT": R, "HOME": b.home if case["home"] else None})
            log = {}
            for e in b.take_log():
                log.setdefault(e["args"][0], []).append(e["args"][1:])
            show = "build %d\n%s\nfiles: %s\nlog: %r\n%s" % (bi, "\n".join("--- %s\n%s" % x for x in sorted(S.items())), "\n".join(sorted(os.path.join(d, x) for d, _, fs in list(os.walk(R)) + list(os.walk(b.home)) + list(os.walk(cache)) for x in fs if x.startswith("lib"))), log, r.text())
            if not r.ok:
                raise Violation("the build fails\n%s" % show)
            for k, names, how, j in looks:
                found = None
                for n, (d, real) in enumerate(dirs):
                    for x in names:
                        if os.path.exists(os.path.join(real or d, x)):
                            found = d + "/" + x
                            break
                    if found:
                        break
                arg = [found] if found else []
                exp = {}
                if k in ("if", "neg", "subif"):
                    yes = bool(found) != (k == "neg")
                    exp["y%d" % j] = [arg] if yes else None
                    exp["n%d" % j] = None if yes else [arg]
                else:
                    exp["p%d" % j] = [arg]
                    if k in ("sub", "dparent"):
                        exp["r%d" % j] = [["none"]]
                    if k in ("parent", "root", "dparent"):
                        exp["q%d" % j] = [arg]
                for t, e in exp.items():
                    if log.get(t) != e:
                        raise Violation("probe %s of the lookup of %r saw %r, expected %r\n%s" % (t, names, log.get(t), e, show))
                label("found" if found else "not found")
                if found and n > 0:
                    nontrivial = True
    return nontrivial


def run_case(part, case):
    return glob_case(case) if part == "glob" else lib_case(case)
