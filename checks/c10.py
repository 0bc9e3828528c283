"""C10: random check scripts (set, dep, env, 'dep -' in any order, values from literals, arguments, files and the environment), checked by one to
three build scripts with random arguments; then edits with a build after each. A cache model says which checks must run, which may
and which must not, and what every variable has to evaluate to in each script."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful model-based property testing (check scripts and edit histories against a reference cache model)"
RULE = ("random check scripts and scripts which check them, then random edits of files, environment, options, check scripts and build scripts with a build after each; non-trivial: some build ran some but not all "
        "of its checks, and a reused result supplied a value that a literal argument or rule could not have supplied")
ASSUMPTIONS = ["environment variables unset and empty are not told apart", "registered files exist when they are registered", "values hold no zero byte and no list separator (byte 1) or byte 2", "a check script's arguments are non-empty or dropped"]
PARTS = {"hist": {"quick": 2200, "thorough": 40000}}
BUDGET = {"quick": 80, "thorough": 1800}

KEYS = ["K0", "K1", "K2", "K3", "with-dash.x"]
LIT = ["1", "0", "", "v", "two words", " lead", "trail ", "k=v", "=", "q'q\"q", "$HOME", "\\n\\", "a\nb", "\n", "\tt", "é€", "%s", "#c", "*", "l" * 5000, "-x"]
FILES = ["f0", "f1", "d/f2"]
ENVS = ["E0", "E1"]
UD = [".", "s1", "s2/x"]


def strategy(part):
    key, lit, fi, en = st.sampled_from(KEYS), st.sampled_from(LIT), st.integers(0, 2), st.integers(0, 1)
    stmt = st.one_of(st.tuples(st.just("set"), key, lit), st.tuples(st.just("seta"), key, st.integers(1, 2)), st.tuples(st.just("setf"), key, fi), st.tuples(st.just("sete"), key, en),
                     st.tuples(st.just("ife"), en, key, lit), st.tuples(st.just("dep"), fi, st.booleans()), st.tuples(st.just("dep"), fi, st.booleans()), st.tuples(st.just("env"), en), st.tuples(st.just("env"), en),
                     st.tuples(st.just("setn"), st.integers(0, 3)))
    script = st.tuples(st.lists(stmt, min_size=1, max_size=6), st.sampled_from([0] * 9 + [1])).map(list)
    arg = st.one_of(st.sampled_from(["a", "b", "two words", "k=v", "", "a'b", "-n"]).map(lambda s: ["l", s]), st.integers(0, 1).map(lambda i: ["o", i]), key.map(lambda k: ["k", k]), st.just(["L"]))
    chk = st.tuples(st.integers(0, 2), st.lists(arg, max_size=2), st.booleans()).map(list)
    op = st.one_of(st.tuples(st.just("file"), fi, st.sampled_from(["1", "2", "three words"])), st.tuples(st.just("file"), fi, st.sampled_from(["1", "2", "three words"])),
                   st.tuples(st.just("envv"), en, st.sampled_from([None, "", "1", "2 x", "a\nb"])), st.tuples(st.just("envv"), en, st.sampled_from([None, "", "1", "2 x", "a\nb"])),
                   st.tuples(st.just("opt"), st.integers(0, 1), st.sampled_from([None, "", "x", "y z"])), st.tuples(st.just("script"), st.integers(0, 3), script),
                   st.tuples(st.just("note"), st.integers(0, 2)), st.just(("nop",)), st.just(("nop",)), st.tuples(st.just("arg"), st.integers(0, 9), st.lists(arg, max_size=2)),
                   st.tuples(st.just("touch"), fi), st.tuples(st.just("rmchk"), st.integers(0, 9)), st.just(("clean",)))
    unit = st.lists(chk, max_size=3)
    return st.tuples(st.lists(script, min_size=4, max_size=4), st.lists(unit, min_size=3, max_size=3).filter(lambda u: any(u)), st.lists(op, min_size=1, max_size=7), st.booleans()).map(list)


def sh(s):
    return "'" + s.replace("'", "'\\''") + "'"


class World:
    def __init__(self, case):
        self.scripts, self.units = case[0], case[1]
        self.own = case[3]     # script 2 has a version of its own in s1 (number 3)
        self.files = {i: "1" for i in range(3)}
        self.fver = {i: 0 for i in range(3)}     # touched
        self.env = {i: None for i in range(2)}
        self.opt = {i: None for i in range(2)}
        self.notes = [0, 0, 0]

    def sid(self, u, i):
        return 3 if i == 2 and u == 1 and self.own else i

    def spath(self, i):
        return ("s1/.autark/c2.sh" if i == 3 else ".autark/c%d.sh" % i)

    def render_check(self, b, i):
        out = ["#!/bin/sh", "pt args CK%d \"$@\" || exit 3" % i]
        for s in self.scripts[i][0]:
            k = s[0]
            if k == "set":
                out.append("autark set %s" % sh(s[1] + "=" + s[2]))
            elif k == "setn":
                out.append("".join("autark set %s\n" % sh("%s=%d" % (KEYS[j], j)) for j in range(s[1])))
            elif k == "seta":
                out.append("autark set \"%s=${%d}\"" % (s[1], s[2]))
            elif k == "setf":
                out.append("autark set \"%s=$(cat %s)\"" % (s[1], sh(b.p(FILES[s[2]]))))
            elif k == "sete":
                out.append("autark set \"%s=$%s\"" % (s[1], ENVS[s[2]]))
            elif k == "ife":
                out.append("if [ -n \"$%s\" ]; then autark set %s; fi" % (ENVS[s[1]], sh(s[2] + "=" + s[3])))
            elif k == "dep":
                out.append("autark dep %s" % (sh(b.p(FILES[s[1]])) if s[2] or i == 3 else sh("../../" + FILES[s[1]])))
            elif k == "env":
                out.append("autark env %s" % ENVS[s[1]])
        if self.scripts[i][1]:
            out.append("autark dep -")
        return "\n".join(out) + "\n"

    def run(self, i, args):
        """-> (variables, registered files, registered environment)"""
        v, f, e = {}, set(), set()
        for s in self.scripts[i][0]:
            k = s[0]
            if k == "set":
                v[s[1]] = s[2]
            elif k == "setn":
                for j in range(s[1]):
                    v[KEYS[j]] = str(j)
            elif k == "seta":
                v[s[1]] = args[s[2] - 1] if len(args) >= s[2] else ""
            elif k == "setf":
                v[s[1]] = self.files[s[2]].rstrip("\n")
            elif k == "sete":
                v[s[1]] = self.env[s[2]] or ""
            elif k == "ife":
                if self.env[s[1]]:
                    v[s[2]] = s[3]
            elif k == "dep":
                f.add(s[1])
            elif k == "env":
                e.add(s[1])
        return v, f, e

    def render(self, u):
        out = ["# note %d" % self.notes[u]]
        if u == 0:
            out.append("set { LST e1 'e 2' }")
        for j, (i, args, brk) in enumerate(self.units[u]):
            a = " ".join(quote(x[1]) if x[0] == "l" else "${O%d}" % x[1] if x[0] == "o" else "${%s}" % x[1] if x[0] == "k" else "${LST}" for x in args)
            out.append("check {\n  c%d.sh%s\n}" % (i, " { %s }" % a if args or brk else ""))
            out.append("if { ${K0} set { T%d%d yes } } else { set { T%d%d no } }" % (u, j, u, j))
        out.append("run { always exec { pt args V%d %s } }" % (u, " ".join("^{< ${%s undef} >}" % k for k in KEYS)))
        out.append("run { always exec { pt args T%d %s } }" % (u, " ".join("${T%d%d none}" % (u, j) for j in range(len(self.units[u])))))
        if u == 0:
            out.append("include { s1/Autark }\ninclude { s2/x/Autark }")
        return "\n".join(out) + "\n"


def run_case(part, case):
    w = World(json.loads(json.dumps(case)))
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    some = reused = 0
    with Box(v) as b:
        for f in FILES:
            b.write(f, "1")
        os.makedirs(b.p("s2/x"))
        state = {}    # (u, j) -> record of the last run
        old = {}
        for n, op in enumerate([["first"]] + case[2]):
            if n:
                b.settle()
            o = op[0]
            if o == "file":
                w.files[op[1]] = op[2]
                w.fver[op[1]] += 1
                b.write(FILES[op[1]], op[2])
            elif o == "touch":
                w.fver[op[1]] += 1
                os.utime(b.p(FILES[op[1]]))
            elif o == "envv":
                w.env[op[1]] = op[2]
            elif o == "opt":
                w.opt[op[1]] = op[2]
            elif o == "script":
                w.scripts[op[1]] = op[2]
            elif o == "note":
                w.notes[op[1]] += 1
            elif o in ("arg", "rmchk"):
                al = [(u, j) for u in range(3) for j in range(len(w.units[u]))]
                if al:
                    u, j = al[op[1] % len(al)]
                    if o == "arg":
                        w.units[u][j][1] = op[2]
                    else:
                        del w.units[u][j]
            elif o == "clean":
                state = {}
            cur = {}
            for i in range(4):
                if i < 3 or w.own:
                    cur[w.spath(i)] = w.render_check(b, i)
            for u in range(3):
                cur[(UD[u] + "/Autark").replace("./", "")] = w.render(u)
            edited = {f for f in cur if cur[f] != old.get(f)}
            for f in edited:
                b.write(f, cur[f], 0o755 if f.endswith(".sh") else 0o644)
            old = cur
            r = b.autark((["--clean"] if o == "clean" else []) + ["-DO%d=%s" % (i, x) for i, x in w.opt.items() if x is not None], env={ENVS[i]: x for i, x in w.env.items()})
            log = b.take_log()
            show = "step %d %r\n%s\nfiles %r env %r opt %r\n%s" % (n, op, "\n".join("--- %s\n%s" % kv for kv in cur.items()), w.files, w.env, w.opt, r.text())
            if not r.ok:
                raise Violation("build failed: " + show)
            got = [(x["args"][0][2:], x["args"][1:]) for x in log if x["ev"] == "args" and x["args"][0][:2] == "CK"]
            probes = {}
            for x in log:
                if x["ev"] == "args" and x["args"][0][:2] != "CK":
                    if x["args"][0] in probes:
                        raise Violation("probe ran twice: " + show)
                    probes[x["args"][0]] = x["args"][1:]
            # walk the checks in order of execution
            vars = {0: {}, 1: {}, 2: {}}
            new = {}
            ran = pos = tot = 0
            tests = {}

            def get(u, k):
                return vars[u].get(k, vars[0].get(k))
            for u in range(3):
                for j, (i, args, _) in enumerate(w.units[u]):
                    tot += 1
                    sid = w.sid(u, i)
                    raw = []
                    for x in args:
                        raw += [x[1]] if x[0] == "l" else [w.opt[x[1]] or ""] if x[0] == "o" else [get(u, x[1]) or ""] if x[0] == "k" else ["e1", "e 2"]
                    a = [x for x in raw if x != ""]
                    p = state.get((u, j))
                    f_own, f_root = (UD[u] + "/Autark").replace("./", ""), "Autark"
                    always = bool(w.scripts[sid][1])
                    if p is None:
                        must, may = True, True
                    else:
                        must = (always or a != p["args"] or w.spath(sid) in edited or f_own in edited or f_root in edited or any(w.files[x] != y[0] for x, y in p["files"].items())
                                or any((w.env[x] or "") != y for x, y in p["env"].items()))
                        may = must or raw != p["raw"] or any(w.fver[x] != y[1] for x, y in p["files"].items())
                    is_run = pos < len(got) and got[pos] == (str(sid), a)
                    if is_run and not may:
                        # maybe this execution belongs to a later check with the same script and arguments
                        is_run = False
                    if must and not is_run:
                        raise Violation("check %d of %s (c%d.sh %r) has to run, executed: %r (next %d)\n%s" % (j, UD[u], i, a, got, pos, show))
                    if is_run:
                        pos += 1
                        ran += 1
                        vv, ff, ee = w.run(sid, a)
                        new[(u, j)] = {"args": a, "raw": raw, "vars": vv, "files": {x: (w.files[x], w.fver[x]) for x in ff}, "env": {x: w.env[x] or "" for x in ee}}
                    else:
                        new[(u, j)] = p
                        reused += any(s[0] in ("setf", "sete", "seta") for s in w.scripts[sid][0])
                    vars[u].update(new[(u, j)]["vars"])
                    tests.setdefault(u, []).append("yes" if get(u, "K0") not in (None, "", "0") else "no")
            if pos != len(got):
                raise Violation("check execution %r is not needed (executed: %r)\n%s" % (got[pos], got, show))
            state = new
            for u in range(3):
                want = ["<%s>" % ("undef" if get(u, k) is None else get(u, k)) for k in KEYS]
                if probes.get("V%d" % u) != want:
                    raise Violation("variables in %s are %r, expected %r\n%s" % (UD[u], probes.get("V%d" % u), want, show))
                if probes.get("T%d" % u) != tests.get(u, []):
                    raise Violation("conditions in %s are %r, expected %r\n%s" % (UD[u], probes.get("T%d" % u), tests.get(u), show))
            some += 0 < ran < tot
            label("op:" + o)
            label("checks run", ran)
            label("checks reused", tot - ran)
    return some > 0 and reused > 0

