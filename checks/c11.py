"""C11: random argument vectors passed through exec, shell, check, @{} and @@{} (literals, lists, joins, options, environment) received by a probe
program, with its working directory, PATH and environment; and random output patterns (sizes, pauses, interleaving, closed streams) which
have to arrive complete, also in the value of @{}/@@{} and when the command fails."""
import hashlib, json, os, shlex
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing: random argument vectors and output schedules against a probe program's exact dump"
RULE = ("args: random commands over two scripts; non-trivial: a list, an empty argument and a byte needing quoting reached a command; io: random write patterns; non-trivial: both streams carried data and more than one pipe "
        "buffer (64 kB) or a pause was involved")
ASSUMPTIONS = ["lists inside a join and list arguments written inside shell quotes are not used", "a value of @{} holds no zero byte", "one argument stays below the limit of the system (128 kB)", "a command does not leave a background process holding its output open"]
PARTS = {"args": {"quick": 5000, "thorough": 120000, "share": 0.5}, "io": {"quick": 2600, "thorough": 40000, "share": 0.5}}
BUDGET = {"quick": 60, "thorough": 1800}

LIT = ["a", "two words", "", "-x", "--long=v w", "it's", "say \"hi\"", "k=v", "$HOME", "`id`", "*", "a;b", "&", "|", "#h", "{br}", "}", "\\", "a\\ b", "é€", "tab\there", "l\nm", " lead", "trail ", "..", "%s", "~", "(", "!", "x" * 3000, "'", "\"", "&1", "@", "^"]
RAW = LIT + ["'\"", "\x7f\x03", "\\'\\\"", "${A}", "@{x}", "a\\n", "q" * 12000]
WORDS = ["a", "b2", "'c d'", "\"e  f\"", "x'y'z", "-n", "k=\"v w\"", "\\$q", "''", "\"it's\"", "a\\ b"]


def exprs(d):
    lit = st.sampled_from(LIT).map(lambda t: ["l", t])
    var = st.sampled_from(["LST", "LST1", "STR", "O1", "O2", "E1", "NONE", "SPL"]).map(lambda n: ["v", n])
    dv = st.tuples(st.sampled_from(["NONE", "STR", "LST"]), st.sampled_from(LIT)).map(lambda t: ["d", t[0], t[1]])
    if d <= 0:
        return st.one_of(lit, lit, var, var, dv)
    return st.one_of(lit, lit, var, var, dv, st.lists(st.one_of(lit, st.sampled_from(["STR", "O1", "E1", "NONE"]).map(lambda n: ["v", n])), min_size=1, max_size=3).map(lambda x: ["j", x]),
                     st.lists(exprs(0), min_size=1, max_size=3).map(lambda x: ["s", x]))


def strategy(part):
    if part == "args":
        cmd = st.tuples(st.integers(0, 1), st.sampled_from(["exec", "exec", "shell", "check", "subst", "csubst", "insrc", "insubst", "fe", "env", "tool", "envs", "clist"]), st.lists(exprs(1), max_size=5),
                        st.lists(st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.just(["v", "WL"]), st.just(["q"])), max_size=5)).map(list)
        val = st.sampled_from(RAW)
        return st.tuples(st.lists(cmd, min_size=1, max_size=6), st.tuples(val, val, val, st.sampled_from(LIT), st.lists(st.sampled_from([x for x in LIT if x]), min_size=2, max_size=4)).map(list),
                         st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["EV1", "EV2", "E1"]), exprs(0)).map(list), max_size=3)).map(list)
    size = st.one_of(st.integers(0, 40), st.sampled_from([1022, 1023, 1024, 1025, 2047, 4096, 65535, 65536, 65537, 130000, 300000]))
    piece = st.one_of(st.tuples(st.sampled_from("oe"), size).map(lambda t: "%s%d" % t), st.tuples(st.sampled_from("oe"), size).map(lambda t: "%s%d" % t),
                      st.sampled_from([0, 1, 3]).map(lambda p: "p%d" % p), st.sampled_from(["n", "s", "n", "s"]))
    spec = st.lists(piece, max_size=9)
    close = st.sampled_from([None] * 6 + ["co", "ce"])
    return st.tuples(st.sampled_from(["exec", "exec", "shell", "subst", "csubst", "subst", "check", "fail", "cat", "many", "nocmd"]), spec, close, spec, st.sampled_from([0, 1, 7, 255, "k"]), st.binary(max_size=3000).map(lambda b: b.hex())).map(list)


def lit(t):
    return quote(t)


def rexpr(e):
    k = e[0]
    return lit(e[1]) if k == "l" else "${%s}" % e[1] if k == "v" else "${%s %s}" % (e[1], lit(e[2])) if k == "d" else "^{%s}" % " ".join(map(rexpr, e[1])) if k == "j" else "set { _ %s }" % " ".join(map(rexpr, e[1]))


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 6 == 0 else "plain"
    with Box(v) as b:
        return (args_case if part == "args" else io_case)(b, case)


def args_case(b, case):
    cmds, (o1, o2, e1, s, lst), envs = case
    o1, o2 = o1.rstrip(), o2.rstrip()
    wl = ["w1", "'w 2'", "w3"]
    V = {"LST": tuple(lst), "LST1": ("one el",), "STR": s, "O1": o1, "O2": o2, "E1": e1, "SPL": ("sp", "l it")}

    def ev(e):
        k = e[0]
        if k == "l":
            return e[1]
        if k == "v":
            return V.get(e[1], "")
        if k == "d":
            return V.get(e[1], e[2])
        if k == "j":
            return "".join(ev(x) for x in e[1])
        vs = [ev(x) for x in e[1]]
        if len(vs) == 1 and not isinstance(vs[0], tuple):
            return vs[0]
        out = []
        for x in vs:
            out += [y for y in (x if isinstance(x, tuple) else (x,)) if y != ""]
        return tuple(out)

    def flat(es):
        out = []
        for e in es:
            x = ev(e)
            out += [y for y in (x if isinstance(x, tuple) else (x,)) if y != ""]
        return out
    E = {"E1": e1}
    seta = "set { STR %s }\nset { LST %s }\nset { LST1 ..${NONE %s} }\nset { SPL ..${NONE %s} }\nset { WL %s }" % (
        lit(s), " ".join(map(lit, lst)), lit("'one el'"), lit("sp 'l it'"), " ".join(map(lit, wl)))
    ls = {0: [seta], 1: []}
    for u, k, x in envs:
        ls[u].append("env { %s %s }" % (k, rexpr(x)))
    want = []
    nontriv = [0, 0, 0]
    # env rules take effect in the setup phase in document order: root, then the included script (it comes last)
    final = dict(E)
    own = {0: {}, 1: {}}

    def scope(u):
        # the value in the script itself, else in the enclosing one, else in the environment
        V["E1"] = own[u].get("E1", own[0].get("E1", final["E1"]))
    for u in (0, 1):
        for w, k, x in envs:
            if w == u:
                # E1 evaluates to what it was before
                scope(u)
                val = ev(x)
                if isinstance(val, tuple):
                    return False   # unspecified
                own[u][k] = final[k] = val
    cdir = {0: b.p("autark-cache"), 1: b.p("autark-cache/sub")}
    sdir = {0: b.proj, 1: b.p("sub")}
    for u in (0, 1):
        os.makedirs(cdir[u], exist_ok=True)
        os.makedirs(sdir[u], exist_ok=True)
    sh = "#!/bin/sh\nexec pt args \"%s\" \"$@\"\n"
    uses_e1 = any(c[1] in ("subst", "csubst", "insubst", "check") for c in cmds) and any(k == "E1" for _, k, _ in envs)
    if uses_e1:
        return False   # evaluated before or after the env rule: not specified here
    nchk = 0
    for i, (u, k, a, words) in enumerate(cmds):
        tag = "T%d" % i
        scope(u)
        t = " ".join(map(rexpr, a))
        fa = flat(a)
        for e in a:
            x = ev(e)
            nontriv[0] += isinstance(x, tuple)
            nontriv[1] += x == ""
        nontriv[2] += any(c in " '\"\\$*#\n" for y in fa for c in y)
        if k == "exec":
            ls[u].append("run { always exec { pt args %s %s } }" % (tag, t))
            want.append(("args", [tag] + fa, cdir[u], None))
        elif k == "clist":
            ls[u].append("set { CL%d pt args %s }\nrun { always exec { ${CL%d} %s } }" % (i, tag, i, t))
            want.append(("args", [tag] + fa, cdir[u], None))
        elif k == "insrc":
            ls[u].append("in-sources { run { always exec { pt args %s %s } } }" % (tag, t))
            want.append(("args", [tag] + fa, sdir[u], None))
        elif k == "shell":
            ls[u].append("run { always shell { pt args %s %s } }" % (tag, " ".join("${WL}" if x == ["v", "WL"] else "'\"' ${WL} '\"'" if x == ["q"] else quote(x) if '"' not in x or "'" not in x else "x" for x in words)))
            line = " ".join(" ".join(wl) if x == ["v", "WL"] else '" %s "' % " ".join(wl) if x == ["q"] else x if '"' not in x or "'" not in x else "x" for x in words)
            want.append(("args", [tag] + shlex.split(line), cdir[u], None))
        elif k == "check":
            # one script per check; the script lies in the root
            b.write(".autark/c%d.sh" % i, sh % tag, 0o755)
            # lists are not yet known at this point in the sub script only if they were set later: all are set first
            ls[u].append("check { c%d.sh { %s } }" % (i, t))
            want.append(("args", [tag] + fa, b.p("autark-cache/.autark"), "once"))
        elif k in ("subst", "csubst", "insubst"):
            x = "%s{pt csay %s %s}" % ("@@" if k == "csubst" else "@", tag, t)
            y = " ".join([tag] + fa).rstrip(" \t\n\v\f\r")
            if k == "insubst":
                ls[u].append("set { R%d in-sources { %s } }\nrun { always exec { pt args R%s ${R%d} } }" % (i, x, tag, i))
            else:
                ls[u].append("run { always exec { pt args R%s %s } }" % (tag, x))
            want.append(("csay", [tag] + fa, sdir[u], "once" if k == "csubst" else None))
            want.append(("args", ["R" + tag, y], cdir[u], None))
        elif k == "fe":
            it = ["i1", "i 2", "-i3"]
            ls[u].append("foreach { IT set { _ %s } run { always exec { pt args %s ${IT} %s ^{< ${IT} >} } } }" % (" ".join(map(lit, it)), tag, t))
            for x in it:
                want.append(("args", [tag, x] + fa + ["<%s>" % x], cdir[u], None))
        elif k == "env":
            ls[u].append("run { always exec { pt env EV1 EV2 E1 O1 LST P PA PATHX E EV } }")
            want.append(("env", u, cdir[u], None))
        elif k == "envs":
            ls[u].append("run { always shell { pt env EV1 EV2 E1 O1 LST P PA PATHX E EV } }")
            want.append(("env", u, cdir[u], None))
        elif k == "tool":
            # where the program lies: cache dir of the script before its source dir, both before PATH
            w = len(words) % 3
            name = "tool%d" % i
            if len(words) > 3:
                # not a program: a plain file or a directory of that name
                b.write(cdir[u] + "/" + name, "x") if w == 1 else None
                os.makedirs(sdir[u] + "/" + name) if w == 0 else None
            if w != 1:
                b.write(cdir[u] + "/" + name, sh % (tag + "C"), 0o755)
            if w != 0:
                b.write(sdir[u] + "/" + name, sh % (tag + "S"), 0o755)
            ls[u].append("run { always exec { %s %s } }" % (name, t))
            want.append(("args", [tag + ("S" if w == 1 else "C")] + fa, cdir[u], None))
    b.write("Autark", "\n".join(ls[0] + ["include { sub/Autark }"]) + "\n")
    b.write("sub/Autark", "\n".join(ls[1]) + "\n")
    show = "--- Autark\n%s\n--- sub/Autark\n%s\nO1 %r O2 %r E1 %r" % ("\n".join(ls[0]), "\n".join(ls[1]), o1[:50], o2[:50], e1[:50])
    # variables with names near that of PATH, which autark changes for its commands
    near = {"P": e1, "PA": e1[:3] + "/", "PATHX": "/x:/y", "E": "e", "EV": e1[:1]}
    for n in (0, 1):
        r = b.autark(["-DO1=" + o1, "-DO2=" + o2], env={"E1": e1, **near})
        log = b.take_log()
        if not r.ok:
            raise Violation("build failed: %s\n%s" % (r.text(), show))
        exp = [w for w in want if not n or w[3] != "once"]
        got = []
        for x in log:
            if x["ev"] == "env":
                u = 0 if x["cwd"] == cdir[0] else 1
                pre = "%s:%s:" % (cdir[u], sdir[u])
                if not x["kv"]["PATH"].startswith(pre) or cdir[0] not in x["kv"]["PATH"].split(":") or not x["kv"]["PATH"].endswith(b.env()["PATH"]):
                    raise Violation("PATH of a command in %s is %r\n%s" % (x["cwd"], x["kv"]["PATH"], show))
                w = {"EV1": final.get("EV1"), "EV2": final.get("EV2"), "E1": final["E1"], "O1": None, "LST": None, **near}
                g = {q: x["kv"].get(q) for q in w}
                if g != w:
                    raise Violation("environment of a command: %r, expected %r\n%s" % (g, w, show))
                got.append(("env", u, x["cwd"]))
            else:
                got.append((x["ev"], x["args"], x["cwd"]))
        e = sorted((w[:3] for w in exp), key=repr)
        g = sorted(got, key=repr)
        if e != g:
            cut = lambda l: [(x[0], [y[:80] for y in x[1]] if isinstance(x[1], list) else x[1], x[2]) for x in l]
            raise Violation("build %d: executed but not expected: %r\nexpected but not executed: %r\n%s" % (n, cut([x for x in g if x not in e]), cut([x for x in e if x not in g]), show))
    for w in want:
        label("cmd:" + w[0])
    return all(nontriv)


def stream(spec):
    """what `pt out` writes to stdout and stderr"""
    out = {"o": [], "e": []}
    cnt = {"o": 0, "e": 0}
    for p in spec:
        if p[0] in "oe":
            n = int(p[1:])
            c = cnt[p[0]]
            b0 = c // 8
            t = "".join("%s%06d%s" % (p[0], k % 1000000, "\n" if k % 16 == 15 else ".") for k in range(b0, (c + n) // 8 + 1))
            out[p[0]].append(t[c - b0 * 8:][:n])
            cnt[p[0]] += n
        elif p == "n":
            out["o"].append("\n")
        elif p == "s":
            out["o"].append(" \t")
    return "".join(out["o"]).encode(), "".join(out["e"]).encode()


def io_case(b, case):
    kind, spec, close, spec2, code, raw = case
    if close:
        # nothing is written to a closed stream
        spec = spec + [close] + [x for x in spec2 if x[0] == "p" or x[0] == ("e" if close == "co" else "o") or (close == "ce" and x in ("n", "s"))]
    o, e = stream([x for x in spec if x not in ("co", "ce")])
    text = ",".join(spec) or "p0"
    raw = bytes.fromhex(raw) * (1 + len(spec) * 5)
    want_ok = True
    val = None
    if kind in ("exec", "shell"):
        s = "run { always %s { pt out %s } }\n" % (kind, text)
    elif kind == "check":
        b.write(".autark/c.sh", "#!/bin/sh\npt out %s\n" % text, 0o755)
        s = "check { c.sh }\n"
    elif kind in ("subst", "csubst"):
        b.write("val.in", "<@V@>\n")
        s = "set { V %s{pt out %s} }\nconfigure { val.in }\n" % ("@@" if kind == "csubst" else "@", text)
        val = b"<" + o.rstrip(b" \t\n\v\f\r") + b">\n"
    elif kind == "fail":
        want_ok = False
        s = "run { always exec { pt out %s } }\n" % (text + "," + ("k" if code == "k" else "x%d" % (code or 1)))
    elif kind == "nocmd":
        # nothing to execute: an error for rules, an empty value for @{}
        w = ["exec { ${NONE} }", "exec { '' '' }", "exec { set { _ '' } }", "exec { ${NONE ''} ${NONE} }", "exec { @{} }", "exec { pt args x @{''} y @@{${NONE}} z }"][len(raw) % 6]
        s = "run { always %s }\n" % w
        want_ok = "pt" in w
        o = e = b""
    elif kind == "cat":
        b.write("raw", raw)
        s = "run { always exec { pt cat S{raw} } }\n"
        o, e = raw, b""
        want_ok = b"#fail" not in raw
    else:
        o2, e2 = stream(spec2)
        s = "run { always exec { pt out %s } exec { pt out %s } }\n" % (text, ",".join(spec2) or "p0")
    b.write("Autark", s)
    for n in (0, 1):
        r = b.autark()
        b.take_log()
        if r.ok != want_ok:
            raise Violation("exit status %r: %s\n%s" % (r.rc, s, r.text()[-1500:]))
        if n and kind in ("csubst", "check"):
            pass
        elif kind == "many":
            i, j = r.out.find(o), r.err.find(e)
            if i < 0 or j < 0 or r.out.find(o2, i + len(o)) < 0 or r.err.find(e2, j + len(e)) < 0:
                raise Violation("output of two commands is not complete: %s\n%s" % (s, diff(r, o, e)))
        elif o not in r.out or e not in r.err:
            raise Violation("output is not passed through completely: %s\n%s" % (s, diff(r, o, e)))
        if val is not None and b.read("autark-cache/val") != val:
            g = b.read("autark-cache/val") or b""
            raise Violation("build %d: value of %s has %d bytes, expected %d (first difference at %d)" % (
                n, s, len(g), len(val), next((i for i in range(min(len(g), len(val))) if g[i] != val[i]), min(len(g), len(val)))))
    label("io:" + kind)
    return bool(o) and (bool(e) or kind == "cat") and (len(o) + len(e) > 65536 or any(x[0] == "p" for x in spec))


def diff(r, o, e):
    return "stdout: %d bytes written, %d received in all; stderr: %d written, %d received in all\n%r\n%r" % (len(o), len(r.out), len(e), len(r.err), r.out[-300:], r.err[-300:])
