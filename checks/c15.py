"""C15: a random script with macros (indexed and sequential placeholders, rules and expressions as arguments, calls inside macros, recursion ended by a condition, calls inside rules) is expanded by hand by
the check; both scripts are built from the same files over the same history of edits and must execute the same commands with the same arguments in the same order, leave the same products
and print the same. Wrong calls (missing arguments, invalid indexes, unknown macros, endless recursion) must end with an error."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote
from proj import products
from runner import label

LEVEL = "exploration"
TECHNIQUE = "metamorphic property-based testing: macro script against its hand-expanded form, over histories; generated wrong calls"
RULE = ("random macro programs compared with their expansion in up to four builds; non-trivial: at least two calls, an argument which is not a plain word was substituted, and either a sequential placeholder after an indexed one, a call inside a macro or "
        "a call inside a rule took place; wrong calls: non-trivial if the wrong call lies behind another call or in a nested one")
ASSUMPTIONS = ["an argument in the place of a rule at the top of a script is a rule", "a macro is defined in the script which calls it, before the call", "recursion deeper than 100 calls is not required to work"]
PARTS = {"prog": {"quick": 4200, "thorough": 90000, "share": 0.75}, "wrong": {"quick": 1600, "thorough": 30000, "share": 0.25}}
BUDGET = {"quick": 60, "thorough": 1800}

W = ["a", "b c", "x1", "-q", "k=v", "", "it's", "0", "1", "{z}", "#h", "..", "&", "&1", "l\nm", "é", "$X", "%s"]
NM = ["A", "B", "O1", "E1", "NONE"]
# AST: ["l", text] | ["r", rule name, [children]] | ["&", n or None] | ["call", macro index, [args]] | ["rec", ...]


def R(n, *c):
    return ["r", n, list(c)]


def L(t):
    return ["l", t]


def exprs(d, arg):
    """expression nodes. arg: may contain placeholders"""
    base = [st.sampled_from(W).map(L), st.sampled_from(NM).map(lambda n: R("${", L(n))), st.tuples(st.sampled_from(NM), st.sampled_from(W)).map(lambda t: R("${", L(t[0]), L(t[1])))]
    if arg:
        base += [ph(), ph(), ph()]
    if d <= 0:
        return st.one_of(*base)
    sub = exprs(d - 1, arg)
    return st.one_of(*(base + base + [st.lists(sub, min_size=1, max_size=3).map(lambda c: R("^{", *c)), st.lists(sub, min_size=1, max_size=3).map(lambda c: R("set {", L("_"), *c)),
                                      st.lists(sub, min_size=1, max_size=2).map(lambda c: R("@{", L("pt"), L("say"), *c)), st.lists(sub, min_size=1, max_size=2).map(lambda c: R("S{", *c)),
                                      st.lists(sub, min_size=1, max_size=2).map(lambda c: R("@@{", L("pt"), L("csay"), *c)),
                                      st.tuples(conds(d - 1, arg), sub, sub).map(lambda t: ["ife", t[0], [t[1]], [t[2]]]),
                                      st.tuples(st.integers(0, 1), st.lists(sub, min_size=1, max_size=6)).map(lambda t: ["call", "X%d" % t[0], noelse(t[1])])]))


def ph():
    return st.one_of(st.integers(1, 4), st.integers(1, 4), st.none(), st.none()).map(lambda n: ["&", n])


def conds(d, arg):
    e = exprs(0, arg)
    return st.one_of(st.sampled_from(NM).map(lambda n: R("${", L(n))), e.map(lambda x: R("defined {", x)), st.tuples(e, e).map(lambda t: R("eq {", *t)), st.tuples(e, e).map(lambda t: R("!eq {", *t)), *([ph()] if arg else []), st.tuples(st.integers(0, 1), st.lists(e, max_size=3)).map(lambda t: ["call", "X%d" % t[0], t[1]]))


def stmts(d, arg):
    ex = st.lists(exprs(1, arg), max_size=3)
    one = st.lists(exprs(1, arg), min_size=1, max_size=2)
    tag = st.one_of(st.just(L("t")), ph()) if arg else st.just(L("t"))
    probe = st.tuples(tag, ex).map(lambda t: R("run {", L("always"), R("exec {", L("pt"), L("args"), t[0], *t[1])))
    prod = st.tuples(tag, st.integers(0, 9), ex, st.integers(0, 2)).map(
        lambda t: R("run {", R("exec {", L("pt"), L("mk"), R("^{", L("T"), t[0]), L("-o"), R("^{", L("p%d." % t[1]), t[0]), L("-i"), R("S{", L("f%d" % t[3])), L("-a"), *t[2]), R("consumes {", R("S{", L("f%d" % t[3]))), R("produces {", R("^{", L("p%d." % t[1]), t[0]))))
    setr = st.tuples(st.sampled_from(["set {", "let {"]), st.one_of(st.sampled_from(["A", "B", "C"]).map(L), *([st.integers(1, 2).map(lambda n: R("^{", L("V"), ["&", n]))] if arg else [])), one).map(lambda t: R(t[0], t[1], *t[2]))
    echo = ex.map(lambda c: R("echo {", L("E:"), *c))
    fe = st.tuples(st.lists(exprs(0, arg), min_size=1, max_size=3), ex).map(lambda t: R("foreach {", L("IT"), R("set {", L("_"), *t[0]), R("run {", L("always"), R("exec {", L("pt"), L("args"), L("fe"), R("${", L("IT")), *t[1]))))
    base = [probe, probe, prod, setr, echo, fe]
    if d > 0:
        sub = st.lists(stmts(d - 1, arg), min_size=1, max_size=2)
        base += [st.tuples(conds(1, arg), sub, sub).map(lambda t: ["ife", t[0], t[1], t[2]]), st.tuples(conds(1, arg), sub).map(lambda t: ["ife", t[0], t[1], None]), sub.map(lambda c: R("in-sources {", *c)),
                 st.tuples(st.integers(0, 3), st.lists(st.one_of(exprs(1, arg), exprs(1, arg), stmts(0, arg)) if not arg else exprs(1, arg), min_size=4, max_size=7)).map(lambda t: ["call", "M%d" % t[0], noelse(t[1])]),
                 st.tuples(st.integers(1, 4), exprs(0, False)).map(lambda t: ["call", "REC", [L(str(i)) for i in range(t[0])] + [L("end"), t[1]]]),
                 st.lists(exprs(0, arg), min_size=3, max_size=6).map(lambda c: ["call", "SHIFT", noelse(c)])]
        base += [base[-3], base[-3]]
    if arg:
        base.append(st.integers(1, 3).map(lambda n: ["&", n]))   # a rule as an argument, else a word which is no rule
    return st.one_of(*base)


def strategy(part):
    macros = st.tuples(*[st.lists(stmts(1, True), min_size=1, max_size=3) for _ in range(4)], *[st.lists(exprs(1, True), min_size=1, max_size=3) for _ in range(2)]).map(list)
    body = st.lists(st.one_of(stmts(2, False), stmts(1, False), call()), min_size=1, max_size=6)
    if part == "prog":
        op = st.one_of(st.tuples(st.just("f"), st.integers(0, 2)), st.tuples(st.just("o"), st.sampled_from(W)), st.tuples(st.just("e"), st.sampled_from(W)), st.just(("nop",))).map(list)
        return st.tuples(macros, body, body, st.lists(op, max_size=3), st.tuples(st.sampled_from(W), st.sampled_from(W)).map(list), st.integers(0, 7)).map(list)
    return st.tuples(st.sampled_from(["missing", "index", "unknown", "self", "mutual", "ifself", "elseself", "argself", "many", "noname", "exprself", "later", "inself", "feself", "setname", "nomacro", "seq", "rec"]), st.integers(0, 70), st.sampled_from(["0", "-1", "65", "x", "1x", "", "99999999999999999999", " 1", "4294967297", "64"]), st.booleans(), st.booleans()).map(list)


def call():
    return st.tuples(st.integers(0, 3), st.lists(st.one_of(exprs(2, False), exprs(1, False), stmts(1, False)), min_size=4, max_size=7)).map(lambda t: ["call", "M%d" % t[0], noelse(t[1])])


# ------------------------------------------------------------------ rendering and expansion

def rend(n, ind=0):
    k = n[0]
    if k == "l":
        return quote(n[1])
    if k == "&":
        return "&{}" if n[1] is None else "&{%s}" % n[1]
    if k == "call":
        return "call { %s %s }" % (n[1], " ".join(rend(x) for x in n[2]))
    if k == "ife":
        t = "if { %s %s }" % (rend(n[1]), " ".join(rend(x) for x in n[2]))
        return t + (" else { %s }" % " ".join(rend(x) for x in n[3]) if n[3] is not None else "")
    sep = "\n" if n[1] in ("run {", "foreach {", "in-sources {") else " "
    return n[1] + " " + sep.join(rend(x) for x in n[2]) + " }"


def noelse(a):
    """arguments of a call: `if` and `else` are two arguments, so an argument has no `else`"""
    return [["ife", x[1], x[2], None] if x[0] == "ife" else x for x in a]


class Bad(Exception):
    """the program has no expansion"""


class Skip(Exception):
    """endless recursion, see `wrong`: arguments may grow exponentially"""


class Exp:
    def __init__(self, macros):
        self.m = macros
        self.dead = 0
        self.stack = []
        self.calls = self.fancy = self.seqidx = self.nested = self.inner = 0

    def subst(self, n, args, st_):
        """list of nodes which replace n"""
        k = n[0]
        if k == "&":
            i = st_[0] + 1 if n[1] is None else int(n[1]) - 1
            if n[1] is None and st_[1]:
                self.seqidx += 1
            st_[1] = n[1] is not None
            if not 0 <= i < 64 or i >= len(args):
                raise Bad()
            st_[0] = i
            if args[i][0] != "l":
                self.fancy += 1
            return [args[i]]
        if k == "l":
            return [n]
        if k == "ife":
            c = self.subst(n[1], args, st_)[0]
            a = [y for x in n[2] for y in self.subst(x, args, st_)]
            b = None if n[3] is None else [y for x in n[3] for y in self.subst(x, args, st_)]
            return [["ife", c, a, b]]
        return [[k, n[1], [y for x in n[2] for y in self.subst(x, args, st_)]]]

    def expand(self, n, lvl=0, inrule=False):
        k = n[0]
        if k in ("l", "&"):
            return [n]
        if k == "call":
            self.calls += 1
            self.nested += lvl > 0
            self.inner += inrule
            body = self.m.get(n[1])
            if body is None or lvl > 100:
                raise Bad()
            if n[1] in self.stack and n[1] != "REC":
                raise Skip()
            self.stack.append(n[1])
            s = [-1, False]
            out = []
            for x in body:
                for y in self.subst(x, n[2], s):
                    out += self.expand(y, lvl + 1, inrule)
            self.stack.pop()
            return out
        if k == "ife":
            c = n[1]
            if c[0] == "r" and c[1] == "!eq {" and len(c[2]) == 2 and c[2][0][0] == c[2][1][0] == "l" and c[2][1][1] in ("end",):
                # known already: decides whether a recursion goes on
                l = n[2] if c[2][0][1] != "end" else (n[3] or [])
                return [y for x in l for y in self.expand(x, lvl, inrule)]
            cc = self.expand(c, lvl, True)
            self.dead += 1   # calls in a branch which is not taken are not expanded
            a = [y for x in n[2] for y in self.expand(x, lvl, inrule)]
            b = None if n[3] is None else [y for x in n[3] for y in self.expand(x, lvl, inrule)]
            self.dead -= 1
            return [["ife", cc[0], cc[1:] + a, b]]
        return [[k, n[1], [y for x in n[2] for y in self.expand(x, lvl, True)]]]


REC = [R("run {", L("always"), R("exec {", L("pt"), L("args"), L("rec"), ["&", 1])), ["ife", R("!eq {", ["&", 2], L("end")), [["call", "REC", [["&", 2], ["&", 3], ["&", 3], L("end")]]], [R("echo {", L("ended"), ["&", 1])]]]
SHIFT = [R("run {", L("always"), R("exec {", L("pt"), L("args"), L("sh"), ["&", 2], ["&", None], ["&", 1], ["&", None]))]


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 6 == 0 else "plain"
    if part == "wrong":
        return wrong(v, case)
    macros, body, sub, ops, (o1, e1), pos = case
    o1 = o1.rstrip()
    ms = {"M%d" % i: macros[i] for i in range(4)}
    ms.update({"X0": macros[4], "X1": macros[5], "REC": REC, "SHIFT": SHIFT})
    if body == sub:
        return False
    used = [set(), set()]
    E = Exp(ms)
    exp = []
    bad = False
    try:
        for b in (body, sub):
            exp.append([y for x in b for y in E.expand(x)])
    except Bad:
        bad = True
    except Skip:
        return False
    if not bad and any(x[0] == "l" for l in exp for x in l):
        return False   # a plain word at the top of a script is no rule
    mt = "\n".join("macro { %s\n%s\n}" % (k, "\n".join(rend(x) for x in b)) for k, b in ms.items())
    pre = "set { A a0 }\nset { B 'b 0' b1 }\n"

    def script(b, i, lst):
        t = "\n".join(rend(x) for x in lst)
        inc = "include { sub/Autark }\n" if i == 0 else ""
        return pre + (inc if pos % 2 else "") + t + "\n" + ("" if pos % 2 else inc)
    with Box(v) as a, Box(v) as h:
        for b, lists, m in ((a, (body, sub), mt + "\n"), (h, exp, "")):
            for i, l in enumerate(lists):
                b.write("sub/Autark" if i else "Autark", m + script(b, i, l))
            for i in range(3):
                b.write("f%d" % i, "file %d" % i)
        f = [0, 0, 0]
        for n, op in enumerate([["first"]] + ops):
            if n:
                a.settle()
                h.settle()
            if op[0] == "f":
                f[op[1]] += 1
                for b in (a, h):
                    b.write("f%d" % op[1], "file %d v%d" % (op[1], f[op[1]]))
            elif op[0] == "o":
                o1 = op[1].rstrip()
            elif op[0] == "e":
                e1 = op[1]
            ra = a.autark(["-DO1=" + o1], env={"E1": e1})
            show = "build %d %r -DO1=%s E1=%r\n--- Autark\n%s--- sub/Autark\n%s%s" % (n, op, o1, e1, a.read("Autark").decode(), script(a, 1, sub), ra.text())
            if bad:
                if E.dead:
                    return False
                if ra.ok:
                    raise Violation("a call with a missing argument is accepted\n" + show)
                label("missing argument")
                return False
            rh = h.autark(["-DO1=" + o1], env={"E1": e1})
            show += "\n=== by hand\n--- Autark\n%s--- sub/Autark\n%s%s" % (h.read("Autark").decode(), h.read("sub/Autark").decode(), rh.text())
            la, lh = norm(a, a.take_log()), norm(h, h.take_log())
            if ra.ok != rh.ok:
                raise Violation("status %r, by hand %r\n%s" % (ra.rc, rh.rc, show))
            if la != lh:
                raise Violation("executed commands differ: %r, by hand %r\n%s" % ([x for x in la if x not in lh] or la, [x for x in lh if x not in la] or lh, show))
            pa, ph_ = tree(a), tree(h)
            if pa != ph_:
                raise Violation("products differ: %r\n%s" % ([k for k in set(pa) | set(ph_) if pa.get(k) != ph_.get(k)], show))
            oa, oh = (x.out.replace(b.root.encode(), b"ROOT") for x, b in ((ra, a), (rh, h)))
            if oa != oh:
                raise Violation("output differs\n%s" % show)
            if not ra.ok:
                label("both fail")
                return False
        label("calls", E.calls)
        for k in ("fancy", "seqidx", "nested", "inner"):
            if getattr(E, k):
                label(k)
        return E.calls > 1 and E.fancy > 0 and (E.seqidx + E.nested + E.inner) > 0


def norm(b, log):
    return [(x["ev"], [y.replace(b.root, "ROOT") for y in x.get("args", [])], os.path.relpath(x["cwd"], b.proj)) for x in log]


def tree(b):
    c = b.p("autark-cache")
    return {k.replace(b.root[1:], "ROOT"): v.replace(b.root.encode(), b"ROOT") for k, v in (products(c) if os.path.isdir(c) else {}).items() if not k.endswith(".cache")}


def wrong(v, case):
    kind, n, idx, deep, behind = case
    good = "macro { G run { always exec { pt args g &{} } } }\n"
    pre = good + "call { G 1 }\n" if behind else ""
    args = " ".join("a%d" % i for i in range(n))
    m, c, ok = "", "call { M %s }" % args, False
    P = "run { always exec { pt args m %s } }"
    if kind == "missing":
        k = n % 5 + 1
        m = "macro { M %s }" % (P % "".join("&{%s} " % (i + 1 if i % 2 else "") for i in range(k)))
        c = "call { M %s }" % " ".join("z" for _ in range(k - 1))
    elif kind == "index":
        m = "macro { M %s }" % (P % ("&{%s}" % quote(idx)))
        if idx == "64":
            c = "call { M %s }" % " ".join("a%d" % i for i in range(n % 65))
            ok = n % 65 >= 64
        if idx == " 1":
            return False
    elif kind == "unknown":
        c = "call { NOSUCH%d x }" % n
    elif kind == "self":
        m = "macro { M call { M %s } }" % args
    elif kind == "mutual":
        m = "macro { M call { N x } }\nmacro { N %s call { M y } }" % (P % "q")
    elif kind == "ifself":
        m = "macro { M if { 1 call { M %s } } }" % args
    elif kind == "elseself":
        m = "macro { M if { ${NONE} echo { x } } else { echo { y } call { M %s } } }" % args
    elif kind == "argself":
        m = "macro { M &{1} }"
        c = "call { M call { M call { M %s } } }" % args
        ok = None
    elif kind == "exprself":
        m = "macro { M ^{ a call { M } } }"
        c = P % "call { M }"
    elif kind == "inself":
        m = "macro { M in-sources { call { M %s } } }" % args
    elif kind == "feself":
        m = "macro { M foreach { I a call { M } } }"
    elif kind == "many":
        k = 60 + n % 12
        m = "macro { M %s }" % (P % "&{60}")
        c = "call { M %s }" % " ".join("a%d" % i for i in range(k))
        ok = k <= 64
    elif kind == "noname":
        c = "call { '' x }"
    elif kind == "seq":   # any number of calls which are not nested
        m = "macro { M %s }" % (P % "&{}")
        c = "\n".join("call { M a%d }" % i for i in range(n * 4))
        ok = True
    elif kind == "rec":   # recursion which ends
        m = "macro { M if { !contains { ^{ &{1} . } %s } call { M ^{ &{1} x } } } else { %s } }" % (quote("x" * (n + 1) + "."), P % "&{1}")
        c = "call { M x }"
        ok = True
    elif kind == "later":
        c = "call { M x }\nmacro { M %s }" % (P % "1")
    elif kind == "setname":
        m = "set { M x }"
    elif kind == "nomacro":
        m = "macro { M }"
        ok = None
    if deep:
        m += "\nmacro { D %s }" % c
        c = "call { D }"
    with Box(v) as b:
        b.write("Autark", pre + m + "\n" + c + "\n")
        r = b.autark(timeout=40)
        log = b.take_log()
        show = b.read("Autark").decode() + r.text()
        if ok is False and r.ok:
            raise Violation("a wrong call is accepted: %s" % show)
        if ok is False and log:
            raise Violation("commands were executed although a macro call is wrong: %s" % show)
        if kind in ("seq", "rec") and r.ok and [x["args"][1:] for x in log if x["args"][:1] != ["g"]] != ([["a%d" % i] for i in range(n * 4)] if kind == "seq" else [["x" * (n + 1)]]):
            raise Violation("wrong commands: %s" % show)
        if ok and not r.ok:
            raise Violation("a correct call is refused: %s" % show)
        if not r.ok and not r.err:
            raise Violation("no message for a wrong call: %s" % show)
    label("wrong:" + kind)
    return (deep or behind) and ok is False
