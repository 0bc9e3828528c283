"""C21: random projects with occurrences of @@{} and @{} in many contexts (arguments, variables, conditions, included scripts, macros, nested), histories of changes of arguments, programs, scripts, stored outputs and of
what the programs print; a model of the cached outputs says for each build which of them run and which value every use of an occurrence sees."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a model of cached and fresh outputs"
RULE = "2-7 occurrences over up to three scripts, 2-8 changes with a build after each; non-trivial: a cached output was used although a fresh run would print something else, and in the same history the program of another or the same occurrence ran again"
ASSUMPTIONS = ["outputs hold no zero byte and do not start with a \\1 byte", "a macro with a cached output is not called conditionally", "occurrences inside of foreach are left to the foreach model"]
PARTS = {"hist": {"quick": 1600, "thorough": 50000}}
BUDGET = {"quick": 60, "thorough": 1800}

TEXT = ["one", "two words", "", "  lead", "trail  \t", "a\nb\n\n", "é€", "x" * 5000, "{br}'\"\\", "${A}", "%s%n", "\x02\x03", "l\r\nm\r\n", "y" * 70000, "=", "#", " \n\t ", "z\x0b\x0c", "one\x01two", "\xa0nb", "tab\tx", "1", "0", "abc", "ab", "\\1", "@{x}"]
ARGS = ["a", "b", "ab", "a b", "é", "x" * 4095, "x" * 4096 + "1", "x" * 4096 + "2", "l\nm", "-n", "k=v", "c", "bc", "l\x02m", "A", "*", "[dir]", "..", "a\tb"]
CTX = ["run", "run", "set", "let", "sub", "sub", "macro", "if", "cond", "dep", "subset", "nested", "join", "meta", "inc2", "deep", "cflags", "env", "echo", "xset", "xset", "rset", "er", "twice"]


def strategy(part):
    i = st.integers(0, 100)
    arg = st.one_of(st.tuples(st.sampled_from("oesvlabp"), i).map(list), st.tuples(st.sampled_from("oesv"), i).map(list))
    occ = st.tuples(st.integers(0, len(CTX) - 1), st.sampled_from([2, 2, 2, 1]), i, st.lists(arg, max_size=3)).map(list)
    op = st.one_of(st.tuples(st.just("data"), st.lists(st.tuples(i, i).map(list), min_size=1, max_size=4)), st.tuples(st.just("data"), st.lists(st.tuples(i, i).map(list), min_size=1, max_size=4)), st.tuples(st.just("opt"), i, i), st.tuples(st.just("env"), i, i), st.tuples(st.just("var"), i, i), st.tuples(st.just("prog"), i), st.tuples(st.just("touch"), i), st.just(("nop",)),
                   st.tuples(st.just("cond"),), st.tuples(st.just("rmcache"), i), st.tuples(st.just("tamper"), i), st.tuples(st.just("clean"),), st.tuples(st.just("fail"), i), st.tuples(st.just("fail"), i), st.tuples(st.just("otherfile"),), st.tuples(st.just("split"), i), st.tuples(st.just("J"),)).map(list)
    return st.fixed_dictionaries({"occ": st.lists(occ, min_size=2, max_size=7), "ops": st.lists(op, min_size=2, max_size=8), "init": st.lists(i, min_size=12, max_size=12)})


class M:
    def __init__(self, b, c):
        self.b, self.c = b, c
        i = c["init"]
        self.data = {}
        self.opt = [ARGS[i[0] % 8], ARGS[i[1] % 8]]
        self.env = [ARGS[i[2] % 8], ARGS[i[3] % 8]]
        self.var = [ARGS[i[4] % 8], ARGS[i[5] % 8]]
        self.prog = 0
        self.cond = bool(i[6] % 2)
        self.split = (ARGS[0], ARGS[12])
        self.touch = {}
        self.fails = set()
        self.occ = []
        for n, (cx, at, d, args) in enumerate(c["occ"]):
            o = {"id": str(n), "ctx": CTX[cx], "at": at, "args": args, "d": d}
            self.occ.append(o)
        for o in self.occ:
            for k in self.ids(o):
                self.data[k] = TEXT[(o["d"] + len(k)) % len(TEXT)]
        for x in ("a", "b"):
            self.data["n" + x] = TEXT[i[7] % len(TEXT)]

    def ids(self, o):
        return {"macro": [o["id"] + "k1", o["id"] + "k2"], "nested": [o["id"], o["id"] + "i"]}.get(o["ctx"], [o["id"]])

    def script(self, o):
        return {"sub": "sub/Autark", "subset": "sub/Autark", "inc2": "inc%s/Autark" % o["id"], "deep": "sub/deep/Autark", "rset": "sub/deep/Autark", "er": "sub/deep/er/Autark", "twice": "tw%s/Autark" % o["id"]}.get(o["ctx"], "Autark")

    def chain(self, o):
        return {"Autark": ["Autark"], "sub/Autark": ["sub/Autark", "Autark"], "sub/deep/Autark": ["sub/deep/Autark", "sub/Autark", "Autark"], "sub/deep/er/Autark": ["sub/deep/er/Autark", "sub/deep/Autark", "sub/Autark", "Autark"]}.get(self.script(o)) or [self.script(o), "Autark"]

    def rarg(self, a):
        k, i = a
        return {"o": "${O%d}" % (i % 2), "e": "${E%d}" % (i % 2), "s": "${S%d}" % (i % 2), "v": "set { _ ${O%d} ${S%d} }" % (i % 2, i % 2), "l": quote(ARGS[i % len(ARGS)]), "a": "^{x ${O0} ${E1}}", "b": "${SP1} ${SP2}", "p": "${UNDEF dflt}"}[k]

    def varg(self, a):
        k, i = a
        return {"o": [self.opt[i % 2]], "e": [self.env[i % 2]], "s": [self.var[i % 2]], "v": [self.opt[i % 2], self.var[i % 2]], "l": [ARGS[i % len(ARGS)]], "a": ["x" + self.opt[0] + self.env[1]], "b": list(self.split), "p": ["dflt"]}[k]

    def expr(self, o, key=None, extra=""):
        key = key or o["id"]
        f = self.b.p("data/f" + key)
        return "%s{ ${P} grab %s %s %s }" % ("@" * o["at"], quote(f), extra, " ".join(self.rarg(a) for a in o["args"]))

    def files(self):
        S = {"Autark": [], "sub/Autark": [], "sub/deep/Autark": [], "sub/deep/er/Autark": []}
        add = lambda s, t: S.setdefault(s, []).append(t)
        opt = ["option { O0 'x' }", "option { O1 'y' }", "set { S0 %s }" % quote(self.var[0]), "set { S1 %s }" % quote(self.var[1]), "option { SP1 'x' }", "option { SP2 'x' }", "option { P 'p' }"]
        S["Autark"] = opt
        for o in self.occ:
            i, c = o["id"], o["ctx"]
            pr = lambda k, e: "run { exec { pt args v%s %s } always }" % (k, e)
            if c == "run":
                add("Autark", pr(i, self.expr(o)))
            elif c == "set":
                add("Autark", "set { V%s %s }\n%s\n%s" % (i, self.expr(o), pr(i, "${V%s}" % i), pr(i, "${V%s}" % i)))
            elif c == "xset":   # used in other scripts than the declaring one
                add("Autark", "set { V%s %s }" % (i, self.expr(o)))
                for s in [["sub/Autark"], ["sub/Autark", "sub/deep/Autark"], ["sub/deep/Autark"]][o["d"] % 3]:
                    add(s, pr(i, "${V%s}" % i))
            elif c == "er":
                add("sub/deep/er/Autark", pr(i, self.expr(o)))
            elif c == "twice":   # two occurrences with the same text
                add("tw%s/Autark" % i, pr(i, self.expr(o)))
                add("Autark", "include { tw%s/Autark }\ninclude { tw%s/Autark }" % (i, i))
            elif c == "rset":   # declared by a nested script for the root one
                add("sub/deep/Autark", "set { root { V%s } %s }\n%s" % (i, self.expr(o), pr(i, "${V%s}" % i)))
                add("sub/Autark", "include { late%s/Autark }" % i)
                add("sub/late%s/Autark" % i, pr(i, "${V%s}" % i))
            elif c == "env":
                add("Autark", "env { V%s %s }\n%s" % (i, self.expr(o), pr(i, "${V%s}" % i)))
            elif c == "let":
                add("Autark", "let { V%s %s }\n%s\n%s" % (i, self.expr(o), pr(i, "${V%s}" % i), pr(i, "${V%s}" % i)))
            elif c == "sub":
                add("sub/Autark", pr(i, self.expr(o)))
            elif c == "subset":
                add("sub/Autark", "set { V%s %s }\n%s" % (i, self.expr(o), pr(i, "${V%s}" % i)))
            elif c == "deep":
                add("sub/deep/Autark", pr(i, self.expr(o)))
            elif c == "macro":
                e = "%s{ ${P} grab ^{%s &{1}} %s }" % ("@" * o["at"], quote(self.b.p("data/f" + i)), " ".join(self.rarg(a) for a in o["args"]))
                add("Autark", "macro { M%s run { exec { pt args ^{v%s &{1}} %s } always } }\ncall { M%s k1 }\ncall { M%s k2 }" % (i, i, e, i, i))
            elif c == "if":
                add("Autark", "if { eq { %s one } %s } else { %s }" % (self.expr(o), pr(i, "yes"), pr(i, "no")))
            elif c == "cond":
                add("Autark", "if { defined { COND } %s }" % pr(i, self.expr(o)))
            elif c == "dep":
                add("Autark", "run { exec { pt mk G%s -o g%s.out -a %s } produces { g%s.out } }" % (i, i, self.expr(o), i))
            elif c == "nested":
                inner = "%s{ ${P} grab %s }" % ("@" * (2 if o["d"] % 3 else 1), quote(self.b.p("data/f" + i + "i")))
                add("Autark", pr(i, self.expr(o, extra=inner)))
            elif c == "join":
                add("Autark", pr(i, "^{ '<' %s '>' }" % self.expr(o)))
            elif c == "meta":
                add("Autark", "meta { V%s { %s } }\n%s" % (i, "x", pr(i, self.expr(o))))
            elif c == "inc2":
                add("inc%s/Autark" % i, pr(i, self.expr(o)))
                add("Autark", "include { inc%s/Autark }" % i)
            elif c == "cflags":
                add("Autark", "cc { set { _ x%s.c } set { _ %s } }" % (i, self.expr(o)))
            elif c == "echo":
                add("Autark", "echo { build { %s } }" % self.expr(o))
        add("Autark", "include { sub/Autark }")
        add("sub/Autark", "include { deep/Autark }")
        add("sub/deep/Autark", "include { er/Autark }")
        return {p: "# %d\n%s\n" % (self.touch.get(p, 0), "\n".join(x)) for p, x in S.items()}


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    sp = " \t\n\v\f\r"
    with Box(v) as b:
        m = M(b, case)
        state = {}   # key -> (program, arguments, value, script versions)
        ver, written = {}, {}
        stale = rerun = False

        def put(p, t):
            if written.get(p) != t:
                written[p] = t
                ver[p] = ver.get(p, 0) + 1
                b.write(p, t)
        for n, op in enumerate([["first"]] + case["ops"]):
            if n:
                b.settle()
            k = op[0]
            m.fails = set()
            cli = []
            keys = sorted(m.data)
            if k == "data":
                for i, t in op[1]:
                    m.data[keys[i % len(keys)]] = TEXT[t % len(TEXT)]
            elif k == "opt":
                m.opt[op[1] % 2] = ARGS[op[2] % len(ARGS)]
            elif k == "env":
                m.env[op[1] % 2] = ARGS[op[2] % len(ARGS)]
            elif k == "var":
                m.var[op[1] % 2] = ARGS[op[2] % len(ARGS)]
            elif k == "prog":
                m.prog ^= 1
            elif k == "touch":
                s = sorted(m.files())
                s = s[op[1] % len(s)]
                m.touch[s] = n
            elif k == "cond":
                m.cond = not m.cond
            elif k in ("rmcache", "tamper"):
                fs = []
                for d, _, f in os.walk(b.p("autark-cache")):
                    fs += [os.path.join(d, x) for x in f if x.endswith(".cache")]
                txt = {}
                for f in sorted(fs):
                    with open(f, "rb") as h:
                        txt[f] = h.read().decode("utf-8", "surrogateescape")
                # one of them, when it is clear whose it is; otherwise all of them
                f = sorted(fs)[op[1] % len(fs)] if fs else None
                who = [i for i, s in state.items() if s[2] == txt.get(f)]
                if op[1] % 3 == 0 or len(who) != 1 or list(txt.values()).count(txt[f]) != 1:
                    who, hit = list(state), sorted(fs)
                else:
                    hit = [f]
                    label("one stored output")
                for w in who:
                    state.pop(w)
                for f in hit:
                    if k == "rmcache":
                        os.unlink(f)
                    else:
                        with open(f, "a") as h:
                            h.write("tampered")
            elif k == "clean":
                cli.append("-c")
                state.clear()
            elif k == "fail":
                m.fails = {keys[op[1] % len(keys)], keys[op[1] * 7 % len(keys)]} - {o["id"] for o in m.occ if o["ctx"] == "twice"}
                m.opt = [ARGS[op[1] % len(ARGS)], ARGS[op[1] // 5 % len(ARGS)]]
            elif k == "otherfile":
                b.write("data/other", str(n))
                b.write("autark-cache/other", str(n))
            elif k == "split":
                m.split = [("a", "bc"), ("ab", "c"), ("abc", ""), ("a b", "c"), ("a", "b c")][op[1] % 5]
            for p, t in m.data.items():
                b.write("data/f" + p, t + ("#fail" if p in m.fails else ""))
            for i in range(len(case["occ"])):
                if not os.path.exists(b.p("x%d.c" % i)):
                    b.write("x%d.c" % i, "x")
            for p, t in m.files().items():
                put(p, t)
            env = {"E0": m.env[0], "E1": m.env[1]}
            cli += ["-DO0=" + m.opt[0], "-DO1=" + m.opt[1], "-DSP1=" + m.split[0], "-DSP2=" + m.split[1], "-DP=" + ["pt", b.t.pt][m.prog]] + (["-DCOND"] if m.cond else []) + (["-J2"] if k == "J" else [])
            r = b.autark(cli, env=env)
            log = [e for e in b.take_log() if e["ev"] in ("grab", "args")]
            ran, seen = {}, {}
            show = "build %d %r\n%s\nlog: %s\n%s" % (n, op, "\n".join("--- %s\n%s" % x for x in sorted(m.files().items())), "\n".join("%r" % [a[:60] for a in e["args"]] for e in log), r.text()[-3000:])
            for e in log:
                a = e["args"]
                if e["ev"] == "grab":
                    ran.setdefault(os.path.basename(a[0])[1:], []).append(a[1:])
                elif e["ev"] == "args":
                    seen.setdefault(a[0][1:], []).append(a[1:])
            failed = False

            def ev(key, at, o, args):
                """Value of the occurrence; checks whether it ran."""
                nonlocal stale, rerun, failed
                cur = m.data[key].rstrip(sp)
                vers = tuple(ver[x] for x in m.chain(o))
                stt = state.get(key)
                must = at == 1 or stt is None or stt[0] != m.prog or stt[1] != args or stt[3] != vers
                l = ran.pop(key, [])
                two = o["ctx"] == "twice"
                if len(l) > 1 + two or two and len(l) == 1 and key not in m.fails and r.ok:
                    raise Violation("%s is evaluated %d time(s) in one build\n%s" % (key, len(l), show))
                if l and not must:
                    raise Violation("program of the cached output %s runs although nothing changed\n%s" % (key, show))
                if must and not l and r.ok:
                    raise Violation("program of %s does not run (known: %r)\n%s" % (key, stt and stt[:2], show))
                if l:
                    if l[0] != [x for x in args if x]:   # empty arguments are not passed
                        raise Violation("arguments of %s are %r, expected %r\n%s" % (key, l[0], args, show))
                    if key in m.fails:
                        failed = True
                        state.pop(key, None)
                        return None
                    if at == 2:
                        state[key] = (m.prog, args, cur, vers)
                        if n and stt is not None:
                            rerun = True
                    return cur
                if at == 1 or stt is None:
                    return None
                if stt[2] != cur:
                    stale = True
                    label("stale value")
                return stt[2]
            vals = {}
            for o in m.occ:
                args = [x for a in o["args"] for x in m.varg(a)]
                if o["ctx"] == "cond" and not m.cond:
                    continue
                for key in m.ids(o):
                    if o["ctx"] == "nested":
                        if key.endswith("i"):
                            continue
                        iv = ev(key + "i", 2 if o["d"] % 3 else 1, o, ())
                        if iv is None:
                            if key in ran:
                                raise Violation("%s runs although its argument is unknown\n%s" % (key, show))
                            continue
                        vals[key] = ev(key, o["at"], o, tuple([iv] + args))
                    else:
                        vals[key] = ev(key, o["at"], o, tuple(args))
            if ran:
                raise Violation("unexpected runs: %r\n%s" % (ran, show))
            if r.ok and m.fails and failed:
                raise Violation("the build succeeds although a program fails\n%s" % show)
            if not r.ok and not failed:
                raise Violation("the build fails\n%s" % show)
            if not r.ok:
                label("failed build")
            for o in m.occ:
                for key in m.ids(o):
                    if key not in vals or (o["ctx"] == "nested" and key.endswith("i")):
                        continue
                    val, got = vals[key], seen.get(key, [])
                    c = o["ctx"]
                    if val is None:
                        if got and key in m.fails:
                            raise Violation("a command which uses the failed %s runs\n%s" % (key, show))
                        continue
                    if c in ("dep", "cflags", "echo"):
                        continue
                    exp = [["yes"] if val == "one" else ["no"]] if c == "if" else [["<%s>" % val]] if c == "join" else [[val] if val else []] * (2 if c in ("set", "let", "rset") or c == "twice" or c == "xset" and o["d"] % 3 == 1 else 1)
                    if got != exp and (r.ok or got and got[0] != exp[0]):
                        raise Violation("value of %s is %.300r, expected %.300r\n%s" % (key, got, exp, show))
            label("op:" + k)
        return stale and rerun
