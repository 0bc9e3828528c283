"""C06: programs of set / let / env / meta over nested scripts, -D options and environment variables, compared with a
reference evaluator (lazy set, let per access, lexical scopes, self reference = previous definition, spreading)."""
import re
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing of generated variable programs against a reference evaluator"
RULE = ("random set/let/env/meta program over up to four nested scripts with -D options and environment variables, every value observed by a probe program, "
        "echo and joins; non-trivial: a compared probe value involved a self reference, a spread, a lookup through an enclosing scope or the environment, or a scope-redirected set")
ASSUMPTIONS = ["definitions which are mutually recursive over several names, and lists used as a part of a join, have no specified value and are not compared"]
PARTS = {"vars": {"quick": 18000, "thorough": 150000}}
BUDGET = {"quick": 60, "thorough": 1500}

NAMES = ["A", "B", "C", "D", "my-var", "x.y"]
LITS = ["a", "b1", "two words", "", "#h", "k=v", "it's", 'say "hi"', "back\\slash", "-Dq=1", "0", "{br}", "tab\there", "é", "/abs/p", "..", ".x", "../up", "..a b", ".a  b", "..a \"b c\"",
        "a  b", " lead", "trail ", "$X", "@y", "'q w' e", '"q w" e', "esc\\ aped x", "%", "^", "l\nm", "long" * 40]
NODES = ["."] , ["s1"], ["s1", "s1/t"], ["s1", "s2"], ["s1", "s1/t", "s2"]
SCR = [["."], [".", "s1"], [".", "s1", "s1/t"], [".", "s1", "s2"], [".", "s1", "s1/t", "s2"]]


def word(q):
    """one word in one of its spellings: bare, quoted by q, escapes outside of and inside quotes"""
    def spell(t):
        w, how = t
        esc = "".join("\\" + c if c in " '\"\\\t\n" or how == 3 else c for c in w)
        inq = "".join("\\" + c if c in q + "\\" or how == 4 else c for c in w)
        return esc if how in (0, 3) else q + inq + q if how in (1, 4) else inq[:0] + "x" + q + inq + q + "y"
    return st.tuples(st.text("ab \\" + q, max_size=5), st.integers(0, 4)).map(spell)


def wordlist():
    """a text which is a list of words"""
    return st.tuples(st.sampled_from("'\""), st.sampled_from(["", "", ".."])).flatmap(
        lambda t: st.lists(word(t[0]), min_size=1, max_size=4).map(lambda ws: t[1] + " ".join(ws)))


def texts():
    return st.one_of(st.sampled_from(LITS), st.sampled_from(LITS), wordlist(), st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=8)) \
        .filter(lambda t: not ("'" in t and '"' in t))


def name():
    return st.sampled_from(NAMES + ["A", "A", "B"])


def exprs(d):
    lit = texts().map(lambda t: ["l", t])
    var = st.one_of(name().map(lambda n: ["v", n]), name().map(lambda n: ["v", n]),
                    st.tuples(name(), texts()).map(lambda t: ["v", t[0], ["l", t[1]]]))
    if d <= 0:
        return st.one_of(lit, var)
    sub = exprs(d - 1)
    return st.one_of(lit, var, st.tuples(name(), sub).map(lambda t: ["v", t[0], t[1]]), st.lists(sub, min_size=1, max_size=3).map(lambda x: ["j", x]),
                     st.tuples(st.sampled_from(["_", "_", "A", "B"]), st.lists(elem(d - 1), max_size=3)).map(lambda t: ["s", t[0], t[1]]),
                     st.lists(sub, min_size=1, max_size=3).map(lambda x: ["p", x]))


def elem(d):
    """element of a set: expression or spread"""
    e = exprs(d)
    sp = st.one_of(name().map(lambda n: ["v", n]), name().map(lambda n: ["v", n]), st.tuples(name(), texts()).map(lambda t: ["v", t[0], ["l", t[1]]]),
                   st.lists(exprs(0), min_size=1, max_size=2).map(lambda x: ["p", x]))
    return st.one_of(e, e, sp.map(lambda x: ["..", x]))


def stmts():
    tgt = st.sampled_from([None, None, None, "parent", "root"])
    setst = st.tuples(st.sampled_from(["set", "set", "set", "let", "let", "env"]), tgt, name(), st.lists(elem(2), max_size=4)).map(list)
    selfref = st.tuples(st.sampled_from(["set", "set", "let"]), tgt, name(), st.lists(elem(1), max_size=2), st.booleans()).map(
        lambda t: [t[0], t[1], t[2], ([["..", ["v", t[2]]]] if t[4] else [["v", t[2]]]) + t[3]])
    meta = st.tuples(st.just("meta"), st.lists(st.tuples(st.sampled_from(["name", "ver", "let"]), name(), st.lists(exprs(1), min_size=1, max_size=3)).map(list), min_size=1, max_size=2)).map(list)
    probe = st.tuples(st.just("probe"), exprs(1)).map(list)
    pv = name().map(lambda n: ["probe", ["v", n]])
    echo = st.tuples(st.just("echo"), st.lists(exprs(1), min_size=1, max_size=3)).map(list)
    return st.one_of(setst, setst, setst, selfref, selfref, meta, probe, pv, pv, pv, echo)


def strategy(part):
    inc = st.just(["inc"])
    return st.tuples(st.sampled_from(SCR), st.lists(st.lists(st.one_of(stmts(), stmts(), stmts(), inc), max_size=8), min_size=4, max_size=4),
                     st.dictionaries(st.sampled_from(NAMES[:5]), texts().filter(lambda t: t == t.rstrip()), max_size=2),
                     st.dictionaries(st.sampled_from(["A", "B", "C", "D"]), texts(), max_size=2), st.booleans()).map(list)


# ------------------------------------------------------------------ reference

class Unspec(Exception):
    pass


class Node:
    """A set-like definition: one occurrence in a script."""
    def __init__(self, kind, unit, key, elems):
        self.kind, self.unit, self.key, self.elems = kind, unit, key, elems
        self.memo = None
        self.prev = None      # Node or raw value
        self.up = False
        self.inlet = False


class Model:
    """Values: str or tuple (list)."""

    def __init__(self, scripts, stm, opts, env):
        self.dirs, self.env = scripts, dict(env)
        self.units = {d: {} for d in scripts}
        self.units["."].update({k: ("raw", v) for k, v in opts.items()})
        self.active = []
        self.out = []
        self.interesting = False
        self.tree = self.build_tree(stm)

    def parent(self, u):
        if u == ".":
            return None
        return "s1" if u == "s1/t" else "."

    def chain(self, u):
        while u is not None:
            yield u
            u = self.parent(u)

    # --- program tree with node identities
    def expr(self, u, e, inlet):
        k = e[0]
        if k == "l":
            return ("l", e[1])
        if k == "v":
            return ("v", u, e[1], self.expr(u, e[2], inlet) if len(e) > 2 else None)
        if k == "j":
            return ("j", [self.expr(u, x, inlet) for x in e[1]], {}, inlet)
        if k == "p":
            return ("p", [self.expr(u, x, inlet) for x in e[1]], {})
        if k == "..":
            return ("..", self.expr(u, e[1], inlet))
        n = Node("set", u, e[1], None)
        n.inlet = inlet
        n.tunit = u
        n.elems = [self.expr(u, x, inlet) for x in e[2]]
        return ("s", n)

    def build_tree(self, stm):
        kids = {d: [c for c in self.dirs if self.parent(c) == d] for d in self.dirs}
        self.used = {}
        todo = []

        def script(u, lst):
            out = []
            rest = list(kids[u])
            for s in lst:
                if s[0] == "inc":
                    if rest:
                        c = rest.pop(0)
                        out.append(("inc", c, script(c, self.stm[c])))
                elif s[0] in ("set", "let", "env"):
                    n = Node(s[0], u, s[2], None)
                    n.tunit = u
                    tgt = s[1] if u != "." else None
                    if tgt == "parent":
                        n.tunit = self.parent(u)
                    elif tgt == "root":
                        n.tunit = "."
                    n.redirect = tgt
                    n.elems = [self.expr(u, x, s[0] == "let") for x in s[3]]
                    out.append(("set", n, tgt))
                elif s[0] == "meta":
                    out.append(("meta", u, [(x[0], x[1], [self.expr(u, y, x[0] == "let") for y in x[2]]) for x in s[1]]))
                else:
                    out.append((s[0], u, [self.expr(u, x, False) for x in (s[1] if s[0] == "echo" else [s[1]])], len(todo)))
                    todo.append(s[0])
            for c in rest:
                out.append(("inc", c, script(c, self.stm[c])))
            return out
        self.stm = {d: stm[i] for i, d in enumerate(self.dirs)}
        return script(".", self.stm["."])

    # --- evaluation
    def define(self, n, init):
        t = self.units[n.tunit]
        if init:
            old = t.get(n.key)
            if old is not None and old[1] is not n:
                n.prev = old
        t[n.key] = ("node", n)

    def setup_expr(self, e):
        k = e[0]
        if k == "v" and e[3]:
            self.setup_expr(e[3])
        elif k in ("j", "p"):
            for x in e[1]:
                self.setup_expr(x)
        elif k == "..":
            self.setup_expr(e[1])
        elif k == "s":
            self.setup(e[1])

    def setup(self, n):
        if n.up:
            return
        n.up = True
        for x in n.elems:
            self.setup_expr(x)
        if n.kind == "let":
            self.define(n, False)
        if n.kind == "env":
            v = self.node_value(n)
            if v is not None:
                if isinstance(v, tuple):
                    raise Unspec()
                self.env[n.key] = v

    def node_value(self, n, prev=False):
        if not prev:
            self.setup(n)
        if any(a is n for a in self.active):
            i = max(i for i, a in enumerate(self.active) if a is n)
            if any((a.tunit, a.key) != (n.tunit, n.key) for a in self.active[i:]):
                raise Unspec()
            self.interesting = True
            if n.prev is None:
                return None
            if n.prev[0] == "raw":
                return n.prev[1]
            return self.node_value(n.prev[1], True)
        if n.kind != "let" and not n.inlet and n.memo is not None:
            return n.memo
        self.active.append(n)
        try:
            v = self.set_value(n)
        finally:
            self.active.pop()
        n.memo = v
        return v

    def set_value(self, n):
        if not n.elems:
            return ""
        if len(n.elems) == 1 and n.elems[0][0] != "..":
            return self.value(n.elems[0])
        out = []
        for e in n.elems:
            if e[0] == "..":
                self.interesting = True
                v = self.value(e[1])
                out += list(v) if isinstance(v, tuple) else split(v)
            else:
                v = self.value(e)
                out += list(v) if isinstance(v, tuple) else [v]
        return tuple(out) if out else ""

    def lookup(self, u, key):
        for i, x in enumerate(self.chain(u)):
            d = self.units[x].get(key)
            if d is not None:
                v = d[1] if d[0] == "raw" else self.node_value(d[1])
                if v is not None:
                    if i or (d[0] == "node" and getattr(d[1], "redirect", None)):
                        self.interesting = True
                    return v
        if key in self.env:
            self.interesting = True
        return self.env.get(key)

    def value(self, e):
        self.setup_expr(e)
        k = e[0]
        if k == "l":
            return e[1]
        if k == "v":
            # a default is evaluated with the variable
            d = self.value(e[3]) if e[3] else ""
            v = self.lookup(e[1], e[2])
            return d if v is None else v
        if k == "j":
            if "v" in e[2] and not e[3]:
                return e[2]["v"]
            vs = [self.value(x) for x in e[1]]
            if any(isinstance(v, tuple) for v in vs):
                raise Unspec()
            e[2]["v"] = "".join(vs)
            return e[2]["v"]
        if k == "p":
            if "v" not in e[2]:
                e[2]["v"] = " ".join(flat([self.value(x) for x in e[1]])).rstrip(" \t\n\r\v\f")
            return e[2]["v"]
        return self.node_value(e[1])

    # --- phases
    def init_expr(self, e):
        k = e[0]
        if k == "v" and e[3]:
            self.init_expr(e[3])
        elif k in ("j", "p"):
            for x in e[1]:
                self.init_expr(x)
        elif k == "..":
            self.init_expr(e[1])
        elif k == "s":
            for x in e[1].elems:
                self.init_expr(x)
            self.define(e[1], True)

    def phase(self, tree, ph):
        for s in tree:
            if s[0] == "inc":
                self.phase(s[2], ph)
            elif s[0] == "set":
                n = s[1]
                if ph == "init":
                    for x in n.elems:
                        self.init_expr(x)
                    self.define(n, True)
                elif ph == "setup":
                    self.setup(n)
                elif n.kind == "let":
                    self.define(n, False)
            elif s[0] == "meta":
                if ph == "init":
                    for kind, nm, es in s[2]:
                        for x in es:
                            self.init_expr(x)
                    for kind, nm, es in s[2]:
                        vs = [self.value(x) for x in es]
                        if kind != "let" and any(isinstance(v, tuple) for v in vs):
                            raise Unspec()
                        if any(isinstance(v, tuple) and "" in v for v in vs):
                            raise Unspec()
                        v = " ".join(" ".join(v) if isinstance(v, tuple) else v for v in vs)
                        self.units[s[1]][nm if kind == "let" else "META_" + kind.upper()] = ("raw", v)
                elif ph == "setup":
                    for kind, nm, es in s[2]:
                        for x in es:
                            self.setup_expr(x)
            elif ph == "init":
                for x in s[2]:
                    self.init_expr(x)
            elif ph == "setup":
                for x in s[2]:
                    self.setup_expr(x)
            else:
                self.out.append((s[0], s[3], [self.value(x) for x in s[2]]))

    def run(self):
        for ph in ("init", "setup", "build"):
            self.phase(self.tree, ph)
        return self.out


def flat(vs):
    return [x for v in vs for x in (v if isinstance(v, tuple) else (v,)) if x != ""]


def split(s):
    """words of a string: blanks separate, quotes group, a backslash takes the next character as is"""
    out, cur, q, i = [], None, None, 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            cur = cur or ""
            if i + 1 < len(s):
                cur += s[i + 1]
            i += 2
            continue
        if q:
            if c == q:
                q = None
            else:
                cur += c
        elif c in " \t\n\r\v\f":
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = cur or ""
            if c in "'\"":
                q = c
            else:
                cur += c
        i += 1
    if cur is not None:
        out.append(cur)
    return out


# ------------------------------------------------------------------ rendering

def rexpr(e):
    k = e[0]
    if k == "l":
        return quote(e[1])
    if k == "v":
        return "${%s%s}" % (e[1], " " + rexpr(e[2]) if len(e) > 2 else "")
    if k == "j":
        return "^{%s}" % " ".join(rexpr(x) for x in e[1])
    if k == "p":
        return "@{pt csay %s}" % " ".join(rexpr(x) for x in e[1])
    if k == "..":
        return ".." + rexpr(e[1])
    return "set {%s %s}" % (e[1], " ".join(rexpr(x) for x in e[2]))


def render(dirs, stm, m):
    files = {}
    cnt = [0]

    def script(u, lst):
        out = []
        rest = [c for c in dirs if m.parent(c) == u]

        def inc(c):
            rel = c if u == "." else c[len(u) + 1:]
            out.append("include { %s/Autark }" % rel)
            script(c, m.stm[c])
        for s in lst:
            if s[0] == "inc":
                if rest:
                    inc(rest.pop(0))
            elif s[0] in ("set", "let", "env"):
                t = s[1] if u != "." else None
                out.append("%s { %s %s }" % (s[0], "%s {%s}" % (t, s[2]) if t else s[2], " ".join(rexpr(x) for x in s[3])))
            elif s[0] == "meta":
                out.append("meta { %s }" % " ".join(
                    "%s {%s%s}" % (x[0], x[1] + " " if x[0] == "let" else "", " ".join(rexpr(y) for y in x[2])) for x in s[1]))
            elif s[0] == "echo":
                out.append("echo { E%d %s }" % (cnt[0], " ".join(rexpr(x) for x in s[1])))
                cnt[0] += 1
            else:
                e = rexpr(s[1])
                out.append("run { always exec { pt args P%d %s } }" % (cnt[0], e))
                cnt[0] += 1
        for c in rest:
            inc(c)
        files["Autark" if u == "." else u + "/Autark"] = "\n".join(out) + "\n"
    script(".", m.stm["."])
    return files


def variant_of(case):
    import hashlib, json
    return "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 4 == 0 else "plain"


def run_case(part, case):
    dirs, stm, opts, env, _ = case
    m = Model(dirs, stm, opts, env)
    try:
        exp = m.run()
    except Unspec:
        label("unspecified")
        return False
    files = render(dirs, stm, m)
    with Box(variant_of(case)) as b:
        for f, t in files.items():
            b.write(f, t)
        r = b.autark(["-D%s=%s" % kv for kv in opts.items()], env=env)
        log = b.take_log()
        show = "\n".join("--- %s\n%s" % kv for kv in files.items()) + "-D %r env %r\n" % (opts, env)
        if not r.ok:
            raise Violation("build failed: %s\n%s" % (r.text(), show))
        got = {}
        for e in log:
            if e["ev"] == "args":
                if e["args"][0] in got:
                    raise Violation("probe %s executed twice\n%s" % (e["args"][0], show))
                got[e["args"][0]] = e["args"][1:]
        for kind, n, vs in exp:
            if kind == "probe":
                want = flat(vs)
                g = got.get("P%d" % n)
                if g != want:
                    raise Violation("probe P%d: got %r, expected %r\n%s" % (n, g, want, show))
            else:
                s = "E%d" % n
                if "" in [y for v in vs for y in (v if isinstance(v, tuple) else (v,))]:
                    continue  # separators around empty elements are not specified
                for x in [y for v in vs for y in (v if isinstance(v, tuple) else (v,))]:
                    s += " " + x
                if ("echo: " + s + "\n").encode() not in r.out + r.err:
                    raise Violation("echo E%d: expected %r\n%s\n%s" % (n, s, show, r.text()))
        label("compared", len(exp))
        return m.interesting and bool(exp)
