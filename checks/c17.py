"""C17: paths. path: normalisation, relative paths, containment and directory creation in process against an independent reference. helpers: S, SS, C, CC
and %{} evaluated by real builds in nested scripts with default and relocated caches."""
import os, posixpath
from hypothesis import strategies as st
import build
from harness import Box, Violation, quote
from runner import label
from server import h, server

LEVEL = "exploration"
TECHNIQUE = "property-based testing of path functions and path helper rules against an independent reference"
RULE = ("path: random paths, working directories and prefixes; non-trivial: a dot, dot-dot or empty segment was present or a path below a prefix was found; "
        "helpers: random arguments of helper rules in nested scripts, non-trivial: an argument with a dot segment, a list or an extension")
ASSUMPTIONS = ["paths are shorter than PATH_MAX", "helper rules get relative paths", "%{} of names without a stem (.x, ..) is not specified"]
PARTS = {"path": {"quick": 16000, "thorough": 600000, "share": 0.5}, "helpers": {"quick": 4000, "thorough": 60000, "share": 0.5}}
BUDGET = {"quick": 80, "thorough": 1800}


def prepare():
    build.harness("unit", "tests")
    build.variant("asan")


SEG = ["a", "b", "ab", "a.b", "..", ".", "", "...", "..a", ".a", "a..", " ", "é", "c", "x" * 250, "-"]


def paths(absolute=None):
    seg = st.one_of(st.sampled_from(SEG), st.sampled_from(["a", "b", "ab", "..", ".", ""]))
    p = st.tuples(st.booleans() if absolute is None else st.just(absolute), st.one_of(st.lists(seg, max_size=8), st.lists(seg, max_size=8), st.lists(seg, max_size=300)), st.booleans()).map(
        lambda t: ("/" if t[0] else "") + "/".join(t[1]) + ("/" if t[2] else ""))
    return p.map(lambda s: s[:1800])


def strategy(part):
    if part == "path":
        base = st.lists(st.sampled_from(["a", "b", "ab", "c"]), max_size=4).map(lambda l: "/" + "/".join(l))
        op = st.one_of(st.tuples(st.just("norm"), base, paths()), st.tuples(st.just("normp"), st.one_of(base, paths(True)), paths()), st.tuples(st.just("rel"), base, paths(), paths()), st.tuples(st.just("rel"), base, paths(), paths()),
                       st.tuples(st.just("pre"), base, paths(True), paths()), st.tuples(st.just("pre"), base, base, base),
                       st.tuples(st.just("base"), paths()), st.tuples(st.just("dir"), paths()), st.tuples(st.just("mkdirs"), paths(False)), st.tuples(st.just("mkdirsfor"), paths(False)))
        return st.lists(op.map(list), min_size=1, max_size=12)
    seg = st.one_of(st.sampled_from(["a", "b", "a/b", "..", ".", "./x", "a//b", "../y", "x.c", "d.d/z", "", "a b", "é", "a/", "../../.."]))
    nm = st.sampled_from(["a.c", "a", "d.d/z", "d/z.o", "a.b.c", "x.tar.gz", "d.1/a.o", "a.", "../up.h", "a b.c", "./p.q", "/abs/x.y", "/abs.d/x", "é.ü", "d/.e/f.g"])
    ext = st.sampled_from([None, None, ".o", "o", ".tar.gz", "", ".", "/x", "_test.c"])
    e = st.one_of(st.tuples(st.sampled_from(["S", "SS", "C", "CC"]), st.lists(st.one_of(seg, st.lists(st.sampled_from(["a", "b/c", "..", "z.z"]), min_size=1, max_size=3)), max_size=4)).map(list),
                  st.tuples(st.just("%"), nm, ext).map(list))
    return st.tuples(st.lists(st.tuples(st.sampled_from(["", "s", "s/t", "s.d"]), st.sampled_from(["arg", "set", "join", "env", "nested", "foreach"]), e).map(list), min_size=1, max_size=8),
                     st.sampled_from([None, None, "-H", "-H2", "dir"]), st.booleans()).map(list)


def norm(base, p):
    r = posixpath.normpath(posixpath.join(base, p))
    return "/" + r.lstrip("/")


def run_path(ops):
    lines, want = ["fs"], []
    nt = False
    for op in ops:
        o = op[0]
        if o in ("norm", "normp"):
            lines.append("%s %s %s" % (o, h(op[1]), h(op[2])))
            want.append(norm(op[1], op[2]))
            nt = nt or want[-1] != op[2]
        elif o == "rel":
            lines.append("rel %s %s %s" % (h(op[1]), h(op[2]), h(op[3])))
            want.append(("rel", norm(op[1], op[2] or op[1]), norm(op[1], op[3])))
            nt = True
        elif o == "pre":
            lines.append("pre %s %s %s" % (h(op[1]), h(op[2]), h(op[3])))
            a, b = norm(op[1], op[2]), norm(op[1], op[3])
            sa, sb = [x for x in a.split("/") if x], [x for x in b.split("/") if x]
            want.append("/".join(sb[len(sa):]) if sb[:len(sa)] == sa else None)
            nt = nt or want[-1] is not None
        elif o == "base":
            lines.append("base %s" % h(op[1]))
            s = op[1].rstrip("/")
            want.append("." if not op[1] else "/" if not s else s.rsplit("/", 1)[-1])
        elif o == "dir":
            lines.append("dir %s" % h(op[1]))
            s = op[1].rstrip("/")
            want.append("." if not op[1] else "/" if not s else "." if "/" not in s else s.rsplit("/", 1)[0].rstrip("/") or "/")
        else:
            # only below the scratch directory
            segs = [x for x in op[1].split("/")]
            if ".." in segs or not op[1].strip("/") or len(op[1]) > 900:
                continue
            lines.append("%s %s" % (o, h("m/" + op[1])))
            want.append((b"rc", b"0", b"1") if o == "mkdirs" else (b"rc", b"0"))
    got = server().call(lines)
    for op, w, g in zip(ops, want, got):
        pass
    if len(got) != len(want):
        raise Violation("%d results of %d calls" % (len(got), len(want)))
    for l, w, g in zip([x for x in lines[1:]], want, got):
        l = l.split(" ")[0] + " " + " ".join(repr(bytes.fromhex(x[1:]).decode("latin-1")) for x in l.split(" ")[1:])
        if isinstance(w, tuple) and w[0] == b"rc":
            if tuple(g) != w:
                raise Violation("%s: %r, expected %r" % (l, g, w))
        elif isinstance(w, tuple):
            r = bytes(g[1]).decode("latin-1")
            if norm(w[1], r) != w[2] or r.startswith("/"):
                raise Violation("%s: relative path %r from %r leads to %r, not to %r" % (l, r, w[1], norm(w[1], r), w[2]))
        else:
            e = b"-" if w is None else w.encode("latin-1")
            if l.startswith("dir ") and g[1] == b"//":
                g[1] = b"/"
            if g[1] != e:
                raise Violation("%s = %r, expected %r" % (l, bytes(g[1]), e))
    return nt


def run_helpers(items, cache, nested):
    with Box("asan") as b:
        root = b.proj
        args, cd = [], os.path.join(root, "autark-cache")
        if cache == "-H":
            args, cd = ["-H", "out/cache.d"], os.path.join(root, "out/cache.d")
        elif cache == "-H2":
            cd = os.path.join(b.root, "elsewhere")
            args = ["--cache=" + cd]
        cwd = None
        if cache == "dir":
            args, cwd = [root], b.root
        scripts = {"": [], "s": [], "s/t": [], "s.d": []}
        n = 0
        exp = []
        nt = False
        for sdir, how, e in items:
            sd = os.path.join(root, sdir) if sdir else root
            cdd = os.path.join(cd, sdir) if sdir else cd
            t = scripts[sdir]
            if e[0] == "%":
                name, ext = e[1], e[2]
                d, _, bn = name.rpartition("/")
                if "." in bn:
                    bn = bn[:bn.rindex(".")]
                w = name[:len(name) - len(name.rpartition("/")[2])] + bn + (ext or "")
                inner = quote(name)
                if nested:
                    t.append("set { N%d %s }" % (n, quote(name)))
                    inner = "${N%d}" % n
                x = "%%{%s%s}" % (inner, "" if ext is None else " " + quote(ext))
                nt = True
            else:
                segs, parts = [], []
                for k, s in enumerate(e[1]):
                    if isinstance(s, list):
                        t.append("set { L%d_%d %s }" % (n, k, " ".join(quote(y) for y in s)))
                        parts.append("${L%d_%d}" % (n, k))
                        segs += s
                        nt = True
                    else:
                        parts.append(quote(s))
                        segs += [s] if s else []
                        nt = nt or ".." in s
                w = norm({"S": root, "SS": sd, "C": cd, "CC": cdd}[e[0]], "/".join(segs) or ".")
                x = "%s{%s}" % (e[0], " ".join(parts))
            if how == "arg":
                t.append("run { always exec { pt args I%d %s } }" % (n, x))
            elif how == "set":
                t.append("set { V%d %s }\nrun { always exec { pt args I%d ${V%d} } }" % (n, x, n, n))
            elif how == "join":
                t.append("run { always exec { pt args I%d ^{'p' %s 's'} } }" % (n, x))
                w = "p" + w + "s"
            elif how == "env":
                t.append("let { V%d '-I' %s }\nrun { always exec { pt args I%d ${V%d} } }" % (n, x, n, n))
                exp.append((n, ["-I", w]))
                n += 1
                continue
            elif how == "foreach":
                t.append("foreach { X ONE run { always exec { pt args I%d %s } } }" % (n, x))
            else:
                t.append("if { defined { PATH } run { always exec { pt args I%d %s } } }" % (n, x))
            exp.append((n, [w]))
            n += 1
        scripts["s"].append("include { t/Autark }")
        scripts[""] += ["include { s/Autark }", "include { s.d/Autark }"]
        for k, v in scripts.items():
            b.write(os.path.join(k, "Autark"), "\n".join(v) + "\n")
        r = b.autark(args, cwd=cwd)
        log = b.take_log()
        if not r.ok:
            raise Violation("build failed\n" + r.text())
        res = {l["args"][0]: l["args"][1:] for l in log}
        for i, w in exp:
            w = [x for x in w if x]
            if res.get("I%d" % i) != w:
                raise Violation("%r evaluated to %r, expected %r\n%s" % (items[i], res.get("I%d" % i), w, "\n".join("%s:\n%s" % (k, "\n".join(v)) for k, v in scripts.items())))
        return nt


def run_case(part, case):
    return run_path(case) if part == "path" else run_helpers(*case)
