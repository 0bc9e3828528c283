"""C24: a generated tree of scripts whose rules report when they take effect: echo in any phase, checks, sets, conditions, run rules with dependencies in both directions, foreach, macro calls, installs and run-on-install,
error rules and failing commands, in active and inactive branches. One ordered log of each build of a history is compared with a model of the documented life cycle."""
import hashlib, json, os, re
from hypothesis import strategies as st
from harness import Box, Violation
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing of generated scripts against a model of the build life cycle"
RULE = ("random rules over up to four nested scripts with branches which depend on what is known at that point, builds with and without install, with options, failing checks, commands and error rules and their repair; non-trivial: a run rule had to be executed before "
        "one written above it, or a build ended early (error, failing check or command), and the scripts have a branch which depends on the order of initialisation")
ASSUMPTIONS = ["echo reports on the console, the stream is not looked at", "which of the run rules are up to date in later builds is left to C01 and C02"]
PARTS = {"life": {"quick": 4500, "thorough": 80000}}
BUDGET = {"quick": 50, "thorough": 1500}

DIRS = [".", "s1", "s1/t", "s2"]
VARS = ["V0", "V1", "K0", "K1", "O0", "O1"]


def strategy(part):
    var = st.sampled_from(VARS)
    cond = st.tuples(var, st.sampled_from(["t", "n", "n", "d", "nd"])).map(list)
    leaf = st.one_of(
        st.tuples(st.just("echo"), st.lists(st.sampled_from("ISB"), max_size=3, unique=True)),
        st.tuples(st.just("echo"), st.lists(st.sampled_from("ISB"), max_size=3, unique=True)),
        st.tuples(st.just("check"), st.integers(0, 1)),
        st.tuples(st.just("set"), st.sampled_from(VARS[:4]), st.sampled_from(["1", "1", "0", ""])),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("run"), st.lists(st.integers(0, 30), max_size=3), st.integers(0, 5).map(lambda x: x == 0)),
        st.tuples(st.just("roi")), st.tuples(st.just("inst")), st.tuples(st.just("fe"), st.integers(0, 3)), st.tuples(st.just("call")), st.tuples(st.just("inc")), st.tuples(st.just("inc"))).map(list)
    item = st.recursive(leaf, lambda ch: st.one_of(
        st.tuples(st.just("if"), cond, st.lists(ch, min_size=1, max_size=3), st.lists(ch, max_size=2)).map(list),
        st.tuples(st.just("ins"), st.lists(ch, min_size=1, max_size=2)).map(list)), max_leaves=4)
    ends = st.tuples(st.sampled_from(["iferr", "ifbad"]), cond, st.integers(0, 14)).map(lambda x: [x[0], [x[1][0], x[1][1] if x[2] == 9 else ("t" if x[0] == "iferr" else "n")]])
    item = st.one_of(item, item, item, item, item, item, st.tuples(st.just("if"), cond, st.lists(item, min_size=1, max_size=3), st.lists(item, max_size=2)).map(list), ends)
    build = st.tuples(st.sampled_from([None, None, "-I", "-R"]), st.dictionaries(st.sampled_from(VARS[4:]), st.sampled_from(["1", "0"]), max_size=2),
                      st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["run", "run", "check", "roi"]), st.integers(0, 30)).map(list)), st.integers(0, 7).map(lambda x: x == 0)).map(list)
    return st.tuples(st.tuples(st.lists(item, min_size=3, max_size=7), *[st.lists(item, max_size=6)] * 3).map(list), st.lists(build, min_size=1, max_size=3)).map(list)


class Prog:
    """Rules with identities, as written."""
    def __init__(self, units):
        self.n = 0
        self.incs = []       # next scripts to include
        self.todo = {".": ["s1", "s2"], "s1": ["s1/t"], "s1/t": [], "s2": []}
        self.units = {}
        self.runs, self.rois, self.sure = [], [], set()
        self.deep = 0        # within how many conditions
        self.src = units
        self.script(".")

    def script(self, u):
        self.units[u] = None
        self.units[u] = self.items(u, self.src[DIRS.index(u)], False)

    def items(self, u, l, ins):
        out = []
        for x in l:
            k = x[0]
            self.n += 1
            i = self.n
            if k == "inc":
                if not self.todo[u]:
                    continue
                d = self.todo[u].pop(0)
                self.script(d)
                out.append(("inc", i, d))
            elif k == "if":
                self.deep += 1
                out.append(("if", i, x[1], self.items(u, x[2], ins), self.items(u, x[3], ins)))
                self.deep -= 1
            elif k == "ins":
                out.append(("ins", i, self.items(u, x[1], True)))
            elif k == "run":
                if ins:
                    continue
                self.runs.append((i, u))
                if not self.deep:
                    self.sure.add(i)
                out.append(("run", i, x[1], x[2]))
            elif k == "roi" and ins:
                continue
            else:
                if k == "roi":
                    self.rois.append(i)
                out.append((k, i) + tuple(x[1:]))
        return out


def rel(frm, to):
    return os.path.relpath(to, frm)


class Case:
    def __init__(self, case):
        self.p = Prog(case[0])
        self.dir = dict(self.p.runs)
        order = [i for i, _ in self.p.runs]
        # dependencies: any direction, no cycles: by a hash order of the runs
        self.rank = {i: hashlib.md5(b"%d" % (i * 7919)).digest() for i in order}
        self.order = order

    def deps(self, i, picks):
        c = [j for j in self.order if self.rank[j] < self.rank[i]]
        sure = [j for j in c if j in self.p.sure] or c     # rules under a condition are consumed less often
        return sorted({(c[x % len(c)] if x > 27 else sure[x % len(sure)]) for x in picks}) if c else []

    # ------------------------------------------------------------ text
    def cond(self, c):
        v, f = c
        return {"t": "${%s}" % v, "n": "!${%s}" % v, "d": "defined { %s }" % v, "nd": "!defined { %s }" % v}[f]

    def text(self, u, items):
        out = []
        for x in items:
            k, i = x[0], x[1]
            if k == "echo":
                ph = {"I": "init", "S": "setup", "B": "build"}
                out.append("echo { %s }" % (" ".join("%s { T%d%s }" % (ph[p], i, p) for p in x[2]) if x[2] else "T%dB" % i))
            elif k == "check":
                out.append("check { k%d.sh { %d } }" % (x[2], i))
            elif k == "set":
                out.append("set { %s %s }" % (x[2], x[3] or "''"))
            elif k == "run":
                d = [j for j in self.deps(i, x[2])]
                nm = lambda j: "C{ %s }" % os.path.join(self.dir[j], "p%d" % j)
                out.append("run { %s exec { pt mk R%d -o p%d -i S{ f%d } %s } consumes { S{ f%d } %s } produces { p%d } }" % (
                    "always" if x[3] else "", i, i, i, " ".join(map(nm, d)), i, " ".join(map(nm, d)), i))
            elif k == "roi":
                out.append("run-on-install { exec { pt args ROI%d } exec { pt mk R%dI -o roi%d -i S{ f%d } } }" % (i, i, i, i))
            elif k == "inst":
                out.append("install { 'dst' S{ i%d } }" % i)
            elif k == "fe":
                out.append("foreach { IT set { _ %s } run { always exec { pt args FE%d ${IT} } } }" % (" ".join("x%d" % j for j in range(x[2])), i))
            elif k == "call":
                out.append("macro { M%d echo { &{1} } }\ncall { M%d T%dB }" % (i, i, i))
            elif k == "inc":
                out.append("include { %s/Autark }" % rel(u, x[2]))
            elif k == "if":
                out.append("if { %s\n%s\n}%s" % (self.cond(x[2]), self.text(u, x[3]) or "set { DUMMY 1 }", " else {\n%s\n}" % self.text(u, x[4]) if x[4] else ""))
            elif k == "ins":
                out.append("in-sources {\n%s\n}" % self.text(u, x[2]))
            elif k == "iferr":
                out.append("if { %s echo { init { T%dI } setup { T%dS } } error { E%d } }" % (self.cond(x[2]), i, i, i))
            elif k == "ifbad":
                out.append("if { %s set { DUMMY 1 } } else { include { %s } }" % (self.cond(x[2]), rel(u, "broken.aut" if i % 2 else "nofile")))
        return "\n".join(out)

    # ------------------------------------------------------------ model
    def model(self, opts, failing):
        """events of the phases: lists of (kind, position, ...)"""
        self.scopes = {d: {} for d in DIRS}
        self.scopes["."].update(opts)
        self.pos = 0
        self.init, self.flat = [], []
        self.stop = None
        self.sens = False
        self.walk(".", self.p.units["."], failing)

    def get(self, u, v):
        while True:
            if v in self.scopes[u]:
                return self.scopes[u][v]
            if u == ".":
                return None
            u = os.path.dirname(u) or "."

    def test(self, u, c):
        v = self.get(u, c[0])
        return {"t": v not in (None, "", "0"), "n": v in (None, "", "0"), "d": v is not None, "nd": v is None}[c[1]]

    def walk(self, u, items, failing):
        for x in items:
            if self.stop:
                return
            self.pos += 1
            k, i = x[0], x[1]
            if k == "echo" and "I" in x[2]:
                self.init.append(("echo", "T%dI" % i))
            if k == "check":
                bad = failing == ["check", x[2]]
                self.init.append(("check", "CK%d %d" % (x[2], i)))
                if bad:
                    self.stop = "check"
                    return
                self.scopes[u]["K%d" % x[2]] = "1"
            elif k == "set":
                self.scopes[u][x[2]] = x[3]
            elif k == "inc":
                self.walk(x[2], self.p.units[x[2]], failing)
            elif k == "ins":
                self.walk(u, x[2], failing)
            elif k == "if":
                if x[2][0][0] in "VK":
                    self.sens = True
                self.walk(u, x[3] if self.test(u, x[2]) else x[4], failing)
            elif k == "iferr":
                if self.test(u, x[2]):
                    self.init.append(("echo", "T%dI" % i))
                    self.flat.append((self.pos, "err", i))
            elif k == "ifbad":
                if not self.test(u, x[2]):
                    self.stop = "bad"
                    return
            if k in ("echo", "run", "roi", "inst", "fe", "call"):
                self.flat.append((self.pos, k, i) + x[2:])


EV = re.compile(rb"^(?:INFO|WARN|ERROR) .*?(?:\w+): (T\d+[ISB])\s*$")


def take(b):
    """ordered log: ('echo', tag) ('args'|'mk', args)"""
    try:
        with open(b.log, "rb") as f:
            data = f.read()
        os.unlink(b.log)
    except FileNotFoundError:
        return [], ""
    out, txt = [], []
    for l in data.split(b"\n"):
        c = l.split(b"\t")
        if len(c) > 3 and c[0] in (b"args", b"mk"):
            out.append((c[0].decode(), [bytes.fromhex(x[1:].decode()).decode() for x in c[4:]]))
            txt.append("%s %s" % out[-1])
        else:
            m = EV.search(l)
            if m:
                out.append(("echo", m.group(1).decode()))
            txt.append(l.decode(errors="replace"))
    return out, "\n".join(txt)


def run_case(part, case):
    c = Case(case)
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    early = reorder = sens = False
    with Box(v) as b:
        texts = {d: c.text(d, it) for d, it in c.p.units.items()}
        for d, t in texts.items():
            b.write(os.path.join(d, "Autark"), t + "\n")
        fver = {}
        ids = [i for i in range(1, c.p.n + 1)]
        for i in ids:
            b.write("f%d" % i, "v0\n")
            b.write("i%d" % i, "inst\n")
        b.write("broken.aut", "set { A\n")
        b.write("nothere/x", "")
        cks = {}

        def ck(k, bad):
            t = "#!/bin/sh\npt args CK%d $1\nautark set K%d=1\n%s" % (k, k, "exit 3\n" if bad else "")
            if cks.get(k) != t:
                for d in DIRS:
                    b.write(os.path.join(d, ".autark/k%d.sh" % k), t, 0o755)
                cks[k] = t
        failed = set()
        for n, (inst, opts, fail, clean) in enumerate(case[1]):
            if n:
                b.settle()
            fl = list(fail) if fail else None
            if fl and fl[0] == "check":
                fl[1] %= 2
            runs = c.order
            if fl and fl[0] == "run":
                if not runs:
                    fl = None
                else:
                    fl[1] = runs[fl[1] % len(runs)]
            if fl and fl[0] == "roi":
                fl[1] = c.p.rois[fl[1] % len(c.p.rois)] if c.p.rois else 0
            for k in (0, 1):
                ck(k, fl == ["check", k])
            want_bad = {fl[1]} if fl and fl[0] in ("run", "roi") else set()
            for i in (want_bad | failed) & set(ids):
                fver[i] = fver.get(i, 0) + 1
                b.write("f%d" % i, "v%d\n%s" % (fver[i], "#fail\n" if i in want_bad else ""))
            failed = want_bad
            # products left by an earlier build, also of rules which are not active any more
            made = set() if clean else {j for j, d in c.dir.items() if os.path.exists(os.path.join(b.p("autark-cache"), d, "p%d" % j))}
            pre = b.p("pre%d" % n)
            args = (["-c"] if clean else []) + ["-D%s=%s" % kv for kv in sorted(opts.items())] + (["-I", "-R" + pre] if inst == "-I" else ["-R", pre] if inst else [])
            argv = ["/bin/sh", "-c", 'exec "$0" "$@" 2>>"$PT_LOG"', b.t.autark] + args
            b.nruns += 1
            r = b.run(argv, b.env(), b.proj)
            ev, txt = take(b)
            show = "build %d %r install %r fail %r\n%s\n--- log\n%s\n%s" % (n, args, inst, fl, "\n".join("--- %s\n%s" % kv for kv in texts.items()), txt, r.text())
            if "AddressSanitizer" in txt or "runtime error:" in txt:
                raise Violation("memory or undefined-behaviour error: " + show)
            c.model(opts, fl)
            sens = sens or c.sens
            first = n == 0 or clean

            def bad(msg):
                raise Violation("%s\n%s" % (msg, show))
            isinit = lambda e: e[0] == "echo" and e[1][-1] == "I" or e[0] == "args" and e[1][0][:2] == "CK"
            # phases in order
            ph = []
            for e in ev:
                ph.append(0 if isinit(e) else 1 if e[0] == "echo" and e[1][-1] == "S" else 3 if e[1][0][:3] == "ROI" or e[0] == "mk" and e[1][0][-1] == "I" else 2)
            if ph != sorted(ph):
                bad("the phases are mixed: %r" % ev)
            got = [e for e, q in zip(ev, ph) if q == 0]
            g, w = [("echo", e[1]) if e[0] == "echo" else ("check", " ".join(e[1])) for e in got], list(c.init)
            if not first:
                # results of checks may be reused
                k = 0
                for e in w:
                    if k < len(g) and g[k] == e:
                        k += 1
                    elif e[0] == "echo" or fl and c.stop == "check" and e is w[-1]:
                        bad("init phase: %r expected, executed %r" % (e, g))
                if k != len(g):
                    bad("init phase: %r is out of place, expected %r" % (g[k], w))
            elif g != w:
                bad("init phase: expected %r\ngot %r" % (w, g))
            if c.stop:
                early = True
                label("stop:" + c.stop)
                if r.ok or any(ph):
                    bad("the build goes on after a failure in the init phase")
                continue
            # setup
            ws, err = [], None
            for x in c.flat:
                if x[1] == "echo" and "S" in x[3]:
                    ws.append(("echo", "T%dS" % x[2]))
                elif x[1] == "err":
                    ws.append(("echo", "T%dS" % x[2]))
                    err = x[2]
                    break
            # unresolved dependencies: a consumed product whose rule is not active
            active = {x[2] for x in c.flat if x[1] == "run"}
            posn = {x[2]: x[0] for x in c.flat}
            dep = {x[2]: c.deps(x[2], x[3]) for x in c.flat if x[1] == "run"}
            gone = {j for i in active for j in dep[i] if j not in active and j not in made}
            missing = {i for i in active if any(j in gone for j in dep[i])}
            gs = [e for e, q in zip(ev, ph) if q == 1]
            if gs != ws:
                bad("setup phase: expected %r\ngot %r" % (ws, gs))
            if err is not None:
                early = True
                label("error")
                if r.ok or any(q > 1 for q in ph):
                    bad("the build goes on after an error rule")
                if "E%d" % err not in txt:
                    bad("the message of the error rule is not printed")
                continue
            # build
            close = {}

            def reach(i):
                if i not in close:
                    close[i] = {i}
                    for j in dep.get(i, []):
                        close[i] |= reach(j)
                return close[i]
            seq = []
            for e, q in zip(ev, ph):
                if q == 2:
                    if e[0] == "echo":
                        seq.append(("e", int(e[1][1:-1])))
                    elif e[0] == "mk":
                        seq.append(("r", int(e[1][0][1:])))
                    else:
                        seq.append(("f", int(e[1][0][2:]), e[1][1]))
            # the rule at which the build has to end
            nodes = [x for x in c.flat if x[1] in ("run", "fe", "call") or x[1] == "echo" and ("B" in x[3] or not x[3])]
            enders = [x[0] for x in nodes if x[1] == "run" and any(j in gone or j in want_bad and j in active for j in reach(x[2]))]
            end = min(enders) if enders else None
            ok = set()
            for x in nodes:
                want = [("e", x[2])] if x[1] in ("echo", "call") else [("f", x[2], "x%d" % j) for j in range(x[3])] if x[1] == "fe" else [("r", x[2])]
                there = [s for s in seq if s[:2] == want[0][:2]] if want else []
                if end is not None and x[0] > end and x[1] != "run" and there:
                    bad("%r takes effect after a failure" % (want,))
                if len(there) > len(want) or there and there != want:
                    bad("%r takes effect as %r" % (want, there))
                if (end is None or x[0] < end) and not there and want and (x[1] != "run" or x[4] or first):
                    bad("%r does not take effect" % (want,))
                if x[1] == "run" and there and (missing | want_bad & active) & (reach(x[2]) - ({x[2]} & want_bad)):
                    bad("run rule %d is executed although something it depends on failed or is missing" % x[2])
                ok.update(want)
            if [s for s in seq if s not in ok]:
                bad("unexpected events %r" % [s for s in seq if s not in ok])
            for a in range(len(seq)):
                for z in range(a + 1, len(seq)):
                    x, y = seq[a], seq[z]    # x before y
                    if x[0] == y[0] == "r" and y[1] in reach(x[1]):
                        bad("run rule %d is executed before %d, which it consumes" % (x[1], y[1]))
                    if posn[x[1]] > posn[y[1]]:
                        if x[0] != "r" or not any(x[1] in reach(i) and posn[i] <= posn[y[1]] for i in active):
                            bad("%r takes effect before %r, which is written above it" % (x, y))
                        reorder = True
            if end is not None:
                early = True
                label("failed")
                if r.ok or any(q == 3 for q in ph):
                    bad("the build goes on after a failure in the build phase")
                if os.path.exists(pre):
                    bad("something was installed by a failed build")
                continue
            # post build
            wp = []
            broken = False
            for x in c.flat:
                if x[1] == "roi" and inst and not broken:
                    wp += [("args", ["ROI%d" % x[2]]), ("mk", "R%dI" % x[2])]
                    broken = x[2] in want_bad
            gp = [e if e[0] == "args" else ("mk", e[1][0]) for e, q in zip(ev, ph) if q == 3]
            if gp != wp:
                bad("post-build phase: expected %r\ngot %r" % (wp, gp))
            if r.ok == broken:
                bad("exit status")
            want = []
            for x in c.flat:
                if x[1] == "roi" and x[2] in want_bad:
                    break
                if x[1] == "inst" and inst:
                    want.append("i%d" % x[2])
            have = sorted(os.listdir(pre + "/dst")) if os.path.isdir(pre + "/dst") else []
            if have != sorted(want):
                bad("installed %r, expected %r" % (have, want))
            if inst:
                label("install")
            if broken:
                early = True
                label("failed on install")
        for k, x in (("reorder", reorder), ("early", early)):
            if x:
                label(k)
    return sens and (reorder or early)
