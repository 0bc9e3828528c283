"""C07: scripts of nested if/else over every condition form, in every position, compared with a reference interpreter. The branch
not taken holds statements which would be visible in any way (sets, includes, runs, duplicate products, errors, missing files)."""
import hashlib, json
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing of generated conditional scripts against a reference interpreter"
RULE = ("random script of sets, probes, includes, env, macros, calls and nested if/else (at statement level, inside exec, set and foreach bodies) with condition trees over undefined, empty, "
        "0, plain and list values; the branch not taken contains statements with visible effects; non-trivial: at least two conditions evaluated, one true and one false, and a probe ran")
ASSUMPTIONS = ["empty strings inside a list are not elements of it (they are dropped wherever a list is used)", "eq/prefix/contains are compared on string values; lists are compared only by eq with lists of two or more elements", "library{} finds files under $HOME/.local/lib of the scratch home"]
PARTS = {"cond": {"quick": 12000, "thorough": 200000}}
BUDGET = {"quick": 60, "thorough": 1500}

VARS = ["A", "B", "C", "D", "O", "E"]   # O: -D option, E: environment variable
STR = ["", "0", "1", "a", "ab", "abc", "00", "0 ", " ", "no", "b c", "-x", "00x"]
VALS = [["s", x] for x in STR] + [["m", x] for x in (["a", "b"], ["0", "0"], ["0", "1", "0"], ["a"], ["0"], ["ab", "c", "d"])]
MACROS = ["M0", "M1"]


def vals():
    return st.sampled_from(VALS)


def cexpr():
    v = st.sampled_from(VARS)
    return st.one_of(v.map(lambda x: ["v", x]), v.map(lambda x: ["v", x]), st.tuples(v, st.sampled_from(STR)).map(lambda t: ["v", t[0], t[1]]),
                     st.lists(st.one_of(st.sampled_from(STR).map(lambda s: ["l", s]), v.map(lambda x: ["v", x])), min_size=1, max_size=2).map(lambda x: ["j", x]),
                     st.sampled_from(STR).map(lambda s: ["p", s]))


def conds(d):
    neg = st.booleans()
    ev = st.tuples(st.just("ev"), neg, cexpr())
    de = st.tuples(st.just("def"), neg, st.lists(st.sampled_from(VARS), min_size=1, max_size=3))
    arg = st.one_of(cexpr(), st.sampled_from(STR).map(lambda s: ["l", s]))
    bi = st.tuples(st.sampled_from(["eq", "prefix", "contains"]), neg, st.tuples(arg, arg).map(list))
    lib = st.tuples(st.just("lib"), neg, st.lists(st.sampled_from(["libyes.a", "libyes2.so", "libno.a", "libno.so"]), min_size=1, max_size=2))
    base = st.one_of(ev, ev, de, bi, bi, lib).map(list)
    if d <= 0:
        return base
    return st.one_of(base, base, st.tuples(st.sampled_from(["or", "and"]), neg, st.lists(conds(d - 1), min_size=1, max_size=3)).map(list))


def args(d):
    lit = st.sampled_from(["x", "y", "z w", "q"]).map(lambda s: ["l", s])
    var = st.sampled_from(VARS).map(lambda x: ["v", x])
    if d <= 0:
        return st.one_of(lit, lit, var)
    sub = st.lists(args(d - 1), max_size=2)
    return st.one_of(lit, var, st.tuples(conds(1), sub, st.one_of(st.none(), sub)).map(lambda t: ["if", t[0], t[1], t[2]]))


def items(d):
    probe = st.lists(args(1), max_size=4).map(lambda x: ["probe", x])
    sets = st.tuples(st.sampled_from(VARS[:5]), vals()).map(lambda t: ["set", t[0], t[1]])
    setif = st.tuples(st.sampled_from(VARS[:4]), conds(0), st.lists(st.sampled_from(["a", "0", "0 "]), max_size=2), st.one_of(st.none(), st.lists(st.sampled_from(["a", "b"]), max_size=2))).map(
        lambda t: ["setif"] + list(t))
    env = st.tuples(st.sampled_from(["EV0", "EV1", "A"]), st.sampled_from(["1", "two", "0"])).map(lambda t: ["env", t[0], t[1]])
    inc = st.integers(0, 2).map(lambda i: ["inc", i])
    fe = st.tuples(st.lists(st.sampled_from(["i1", "i2", "i3"]), min_size=1, max_size=3, unique=True), st.lists(args(1), max_size=3)).map(lambda t: ["fe", t[0], t[1]])
    call = st.tuples(st.sampled_from(MACROS), st.sampled_from(["a", "ab", "zz"])).map(lambda t: ["call", t[0], t[1]])
    prod = st.just(["prod"])
    dead = st.sampled_from(["error", "noinc", "nocheck", "noconf", "noconsume", "nocall", "badcmd"]).map(lambda k: ["dead", k])
    base = st.one_of(probe, probe, probe, sets, sets, setif, env, inc, fe, call, prod)
    if d <= 0:
        return st.one_of(base, base, base, dead)
    body = st.lists(items(d - 1), max_size=3)
    iff = st.tuples(conds(2), body, st.one_of(st.none(), body)).map(lambda t: ["if", t[0], t[1], t[2]])
    return st.one_of(base, base, iff, iff, iff)


def strategy(part):
    top = st.lists(items(2), min_size=1, max_size=7)
    subs = st.lists(st.lists(items(1), max_size=3), min_size=3, max_size=3)
    mac = st.lists(st.lists(st.one_of(st.lists(args(0), max_size=2).map(lambda x: ["probe", x]),
                            st.tuples(st.sampled_from(["eq", "prefix", "contains"]), st.booleans(), st.sampled_from(["a", "ab", "b"]), st.booleans()).map(lambda t: ["mif"] + list(t))), min_size=1, max_size=2),
                   min_size=2, max_size=2)
    return st.tuples(top, subs, mac, st.one_of(st.none(), st.sampled_from(STR)).filter(lambda s: s is None or s == s.rstrip()), st.one_of(st.none(), st.sampled_from(STR))).map(list)


class Unspec(Exception):
    pass


class Err(Exception):
    pass


def text_of_vals(v):
    return quote(v[1]) if v[0] == "s" else None


class Ref:
    """Renders the program and interprets it."""

    def __init__(self, case):
        self.top, self.subs, self.mac, o, e = case
        self.units = {".": {}, "s0": {}, "s1": {}, "s2": {}}
        if o is not None:
            self.units["."]["O"] = o
        self.env = {}
        if e is not None:
            self.env["E"] = e
        self.files = {}
        self.n = 0
        self.libn = 0
        self.included = set()
        self.probes = []    # (tag, unit, [thunk...])
        self.envset = []
        self.macs = False
        self.true = self.false = 0
        self.prod = 0
        self.envsets = []

    def get(self, u, k, local=False):
        for x in (u, "."):
            if k in self.units[x]:
                return self.units[x][k]
        return self.env.get(k)

    def ev(self, u, e):
        if e[0] == "l":
            return e[1]
        if e[0] == "v":
            v = self.get(u, e[1])
            return (e[2] if len(e) > 2 else "") if v is None else v
        if e[0] == "p":
            return e[1].rstrip()
        vs = [self.ev(u, x) for x in e[1]]
        if any(isinstance(v, tuple) for v in vs):
            raise Unspec()
        return "".join(vs)

    def cond(self, u, c):
        k, neg = c[0], c[1]
        if k == "ev":
            v = self.ev(u, c[2])
            r = (len(v) > 1 or (len(v) == 1 and v[0] not in ("", "0"))) if isinstance(v, tuple) else v not in ("", "0")
        elif k == "def":
            r = any([self.get(u, x) is not None for x in c[2]])
        elif k in ("eq", "prefix", "contains"):
            a, b = [self.ev(u, x) for x in c[2]]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if k != "eq" or any(isinstance(x, tuple) and len(x) < 2 for x in (a, b)) or not (isinstance(a, tuple) and isinstance(b, tuple)):
                    raise Unspec()
            r = a == b if k == "eq" else a.startswith(b) if k == "prefix" else b in a
        elif k == "lib":
            r = any("yes" in x for x in c[2])
        else:
            # all operands are evaluated as often as needed; evaluation has no side effects besides probes' output
            r = any(self.cond(u, x) for x in c[2]) if k == "or" else all(self.cond(u, x) for x in c[2])
        r = r != neg
        if r:
            self.true += 1
        else:
            self.false += 1
        return r

    # --- rendering
    def rexpr(self, e):
        if e[0] == "l":
            return quote(e[1])
        if e[0] == "v":
            return "${%s%s}" % (e[1], " " + quote(e[2]) if len(e) > 2 else "")
        if e[0] == "p":
            return "@{pt csay %s}" % quote(e[1])
        return "^{%s}" % " ".join(self.rexpr(x) for x in e[1])

    def rcond(self, c):
        k, n = c[0], "!" if c[1] else ""
        if k == "ev":
            return n + self.rexpr(c[2])
        if k == "def":
            return "%sdefined { %s }" % (n, " ".join(c[2]))
        if k == "lib":
            self.libn += 1
            return "%slibrary { LIB%d %s }" % (n, self.libn, " ".join(c[2]))
        if k in ("or", "and"):
            return "%s%s { %s }" % (n, k, " ".join(self.rcond(x) for x in c[2]))
        return "%s%s { %s }" % (n, k, " ".join(self.rexpr(x) for x in c[2]))

    def rargs(self, a):
        out = []
        for x in a:
            if x[0] == "if":
                out.append("if { %s %s }" % (self.rcond(x[1]), self.rargs(x[2])) + (" else { %s }" % self.rargs(x[3]) if x[3] is not None else ""))
            else:
                out.append(self.rexpr(x))
        return " ".join(out)

    # --- one pass: text and effect. live = False for code which must have no effect
    def resolve_args(self, u, a, live):
        """evaluates the conditions now (init); returns remaining expressions"""
        out = []
        for x in a:
            if x[0] == "if":
                t = self.cond(u, x[1]) if live else False
                br = x[2] if t else x[3]
                if live and br:
                    out += self.resolve_args(u, br, True)
            else:
                out.append(x)
        return out

    def body(self, u, lst, live, ind=0):
        out = []
        pad = "  " * ind
        for it in lst:
            k = it[0]
            if k == "probe":
                tag = "P%d" % self.n
                self.n += 1
                out.append(pad + "run { always exec { pt args %s %s } }" % (tag, self.rargs(it[1])))
                rest = self.resolve_args(u, it[1], live)
                if live:
                    self.probes.append((tag, u, rest))
            elif k == "set":
                v = it[2]
                if v[0] == "s":
                    out.append(pad + "set { %s %s }" % (it[1], quote(v[1])))
                    val = v[1]
                else:
                    # a list also of one element
                    out.append(pad + "set { %s %s }" % (it[1], " ".join(quote(x) for x in v[1]) if len(v[1]) > 1 else "..${NONE %s}" % v[1][0]))
                    val = tuple(v[1])
                if live:
                    self.units[u][it[1]] = val
            elif k == "setif":
                _, nm, c, a, b = it
                out.append(pad + "set { %s if { %s %s }%s }" % (nm, self.rcond(c), " ".join(quote(x) for x in a),
                                                                " else { %s }" % " ".join(quote(x) for x in b) if b is not None else ""))
                if live:
                    e = a if self.cond(u, c) else (b or [])
                    self.units[u][nm] = "" if not e else e[0] if len(e) == 1 else tuple(e)
            elif k == "env":
                out.append(pad + "env { %s %s }" % (it[1], it[2]))
                if live:
                    self.units[u][it[1]] = it[2]
                    self.envsets.append((it[1], it[2]))
            elif k == "inc":
                s = "s%d" % it[1]
                if u != "." or s in self.included:
                    continue
                self.included.add(s)
                out.append(pad + "include { %s/Autark }" % s)
                self.files[s + "/Autark"] = "\n".join(self.body(s, self.subs[it[1]], live, 0)) + "\n"
            elif k == "fe":
                tag = "F%d" % self.n
                self.n += 1
                out.append(pad + "foreach { I %s run { always exec { pt args %s ${I} %s } } }" % (" ".join(it[1]) if len(it[1]) == 1 else "set { _ %s }" % " ".join(it[1]), tag, self.rargs(it[2])))
                rest = self.resolve_args(u, it[2], live)
                if live:
                    for i in it[1]:
                        self.probes.append((tag, u, [["l", i]] + rest))
            elif k == "call":
                if u != ".":
                    continue
                out.append(pad + "call { %s %s }" % (it[1], it[2]))
                i = MACROS.index(it[1])
                for j, mi in enumerate(self.mac[i]):
                    if live:
                        if mi[0] == "probe":
                            self.probes.append(("K%d.%d" % (i, j), u, [["l", it[2]]] + mi[1]))
                        else:
                            a, b = it[2], mi[3]
                            r = {"eq": a == b, "prefix": a.startswith(b), "contains": b in a}[mi[1]] != mi[2]
                            if r or mi[4]:
                                self.probes.append(("K%d.%d" % (i, j), u, [["l", "T" if r else "E"], ["l", it[2]]]))
            elif k == "prod":
                # claimed once by live code, any number of times by dead code
                if live:
                    if self.prod:
                        continue
                    self.prod += 1
                    self.probes.append(("PROD", u, []))
                out.append(pad + "run { exec { pt args PROD } exec { touch C{prod.txt} } produces { C{prod.txt} } }")
            elif k == "dead":
                if live:
                    continue
                out.append(pad + {"error": "error { must not be evaluated }", "noinc": "include { nosuch/Autark }", "nocheck": "check { nosuch.sh }",
                                  "noconf": "configure { nosuch.in }", "noconsume": "run { exec { pt args DEAD } consumes { nosuch.file } produces { dead.out } }",
                                  "nocall": "call { NOSUCH a }", "badcmd": "run { always exec { nosuchprogram } }"}[it[1]])
            else:
                c = self.rcond(it[1])
                t = self.cond(u, it[1]) if live else False
                # the branches' texts are produced in document order
                a = self.body(u, it[2], live and t, ind + 1)
                out.append(pad + "if { " + c)
                out += a
                out.append(pad + "}")
                if it[3] is not None:
                    b = self.body(u, it[3], live and not t, ind + 1)
                    out[-1] += " else {"
                    out += b
                    out.append(pad + "}")
        return out

    def go(self):
        m = []
        for i, mb in enumerate(self.mac):
            ls = []
            for j, mi in enumerate(mb):
                if mi[0] == "probe":
                    ls.append("  run { always exec { pt args K%d.%d &{1} %s } }" % (i, j, self.rargs(mi[1])))
                else:
                    _, op, neg, b, els = mi
                    ls.append("  if { %s%s { &{1} %s }\n    run { always exec { pt args K%d.%d T &{1} } }\n  }%s" % (
                        "!" if neg else "", op, b, i, j, " else {\n    run { always exec { pt args K%d.%d E &{1} } }\n  }" % (i, j) if els else ""))
            m.append("macro {\n  %s\n%s\n}" % (MACROS[i], "\n".join(ls)))
        t = self.body(".", self.top, True)
        self.files["Autark"] = "\n".join(m + t + ["run { always exec { pt env EV0 EV1 } }"]) + "\n"
        for k, v in self.envsets:
            self.env[k] = v
        want = {}
        for tag, u, a in self.probes:
            vs = []
            for x in a:
                v = self.ev(u, x)
                vs += [y for y in (v if isinstance(v, tuple) else (v,)) if y != ""]
            want.setdefault(tag, []).append(vs)
        return want


def run_case(part, case):
    r = Ref(case)
    try:
        want = r.go()
    except Unspec:
        label("unspecified")
        return False
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 4 == 0 else "plain"
    with Box(v) as b:
        for f, t in r.files.items():
            b.write(f, t)
        for f in ("libyes.a", "libyes2.so"):
            b.write(b.home + "/.local/lib/" + f, "x")
        o, e = case[3], case[4]
        res = b.autark([] if o is None else ["-DO=%s" % o], env={} if e is None else {"E": e})
        log = b.take_log()
        show = "\n".join("--- %s\n%s" % kv for kv in sorted(r.files.items())) + "O=%r E=%r\n" % (o, e)
        if not res.ok:
            raise Violation("build failed: %s\n%s" % (res.text(), show))
        got = {}
        for x in log:
            if x["ev"] == "args":
                got.setdefault(x["args"][0], []).append(x["args"][1:])
        if got != want:
            d = ["%s: got %r, expected %r" % (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            raise Violation("probes differ: %s\n%s" % ("; ".join(d), show))
        ev = [x for x in log if x["ev"] == "env"]
        for k in ("EV0", "EV1"):
            w = None
            for kk, vv in r.envsets:
                if kk == k:
                    w = vv
            if len(ev) != 1 or ev[0]["kv"][k] != w:
                raise Violation("environment variable %s: got %r, expected %r\n%s" % (k, ev and ev[0]["kv"].get(k), w, show))
        label("conditions true", r.true)
        label("conditions false", r.false)
        return r.true > 0 and r.false > 0 and bool(want)
