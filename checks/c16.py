"""C16: a generated foreach over source files, absolute paths, products of rules, words from which consumed names are derived, or words without consumed files; the expected commands
of every build of a history are computed by a model (per item, in the order of the list) and compared with the log, products with their exact expected contents."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against an explicit model of per item execution"
RULE = ("random list (literals, spliced variables, an option; duplicates), consumption mode, body of one to three commands with the variable in joins, base names, paths, lists and defaults, producers / consumers / a second foreach before or after, "
        "history of edits; non-trivial: at least three items of which in some later build a proper, non empty part was executed, or a list changed by an option, or a failure of one item")
ASSUMPTIONS = ["the body of foreach is one run rule", "when the list itself changes, items which stay may be executed again"]
PARTS = {"hist": {"quick": 6500, "thorough": 60000}}
BUDGET = {"quick": 60, "thorough": 1800}

FILES = ["a.in", "b.x.in", "c", "e-1", "sp ace.in", "é.in", "-g.in", "h.in.in", "d.d/c.in", "d.d/k"]
WORDS = ["a", "b c", "-x", "k=v", "it's", "0", "#h", "..", "é", "$X", "%s", "{z}", "/abs", "a.b/c"]
LITS = ["w", "b c", "-q", "", "it's", "%d", "{}"]


def strategy(part):
    lit = st.sampled_from(LITS)
    arg = st.one_of(st.just(["it"]), st.tuples(st.just("join"), st.sampled_from(["p", "", "x y"]), st.sampled_from([".o", "", "'"])).map(list), st.tuples(st.just("base"), st.sampled_from(["", ".e"])).map(list), st.just(["S"]),
                    st.tuples(st.just("lst"), lit).map(list), st.just(["opt"]), st.tuples(st.just("lit"), lit).map(list), st.just(["def"]), st.just(["nest"]))
    cmd = st.tuples(st.sampled_from(["exec", "exec", "shell", "mk", "mk"]), st.lists(arg, max_size=4)).map(list)
    seg = st.one_of(st.tuples(st.just("lit"), st.integers(0, 40)), st.tuples(st.just("lit"), st.integers(0, 40)), st.tuples(st.just("var"), st.lists(st.integers(0, 40), max_size=4)), st.tuples(st.just("opt"), st.integers(0, 40))).map(list)
    lst = st.one_of(st.lists(seg, max_size=6), st.lists(seg, min_size=3, max_size=7))
    i = st.integers(0, 20)
    op = st.one_of(st.tuples(st.just("own"), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just("own"), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just("own"), st.lists(i, min_size=1, max_size=3)), st.tuples(st.just("own2"), i), st.tuples(st.just("common")), st.tuples(st.just("opt"), st.sampled_from(["", "1", "x y"])),
                   st.tuples(st.just("list"), lst), st.tuples(st.just("olist"), st.integers(0, 40)), st.tuples(st.just("nop")), st.tuples(st.just("fail"), i), st.tuples(st.just("body"))).map(list)
    spec = st.fixed_dictionaries({
        "mode": st.sampled_from(["src", "abs", "prod", "prod", "der", "der", "derp", "none"]), "unit": st.sampled_from(["", "", "sub"]), "insrc": st.integers(0, 4).map(lambda x: x == 0), "list": lst, "shape": st.integers(0, 2),
        "body": st.lists(cmd, min_size=1, max_size=3), "common": st.integers(0, 2), "extra": st.booleans(), "always": st.integers(0, 7).map(lambda x: x == 0), "down": st.integers(0, 3), "chain": st.integers(0, 3), "first": st.booleans(), "uniq": st.integers(0, 3).map(bool)})
    return st.tuples(spec, st.lists(op, max_size=4)).map(list)


class Model:
    def __init__(self, b, s):
        self.b, self.s = b, s
        self.dir = os.path.join(b.proj, s["unit"]) if s["unit"] else b.proj
        self.cache = os.path.join(b.p("autark-cache"), s["unit"]) if s["unit"] else b.p("autark-cache")
        self.insrc = s["insrc"]
        self.mk = s["mode"] in ("prod", "der", "derp", "none") and not self.insrc
        self.list = s["list"]
        self.opt, self.olist, self.bodyv = "o", 0, 0
        self.files = {}

    def pool(self):
        s = self.s
        if s["mode"] == "none":
            return FILES[:4] if self.mk and any(c[0] == "mk" for c in s["body"]) or any(c[0] == "shell" for c in s["body"]) else WORDS
        p = FILES
        if any(c[0] == "shell" for c in s["body"]):
            p = [x for x in p if x not in ("sp ace.in",)]
        if s["mode"] in ("prod", "derp") or self.has_mk():
            p = [x for x in p if "/" not in x and x[0] != "-"]
        return p

    def has_mk(self):
        return self.mk and any(c[0] == "mk" for c in self.s["body"])

    def src(self, nm):   # the source file behind an item
        m = self.s["mode"]
        return None if m == "none" else os.path.join(self.dir, nm + (".x" if m == "der" else ""))

    def item(self, nm):
        m = self.s["mode"]
        return nm + ".p" if m == "prod" else os.path.join(self.dir, nm) if m == "abs" else nm

    def value(self, nm):
        m = self.s["mode"]
        cwd = self.dir if self.insrc else self.cache
        if m in ("src", "abs"):
            return os.path.relpath(os.path.join(self.dir, nm), cwd)
        if m == "prod":
            return os.path.relpath(os.path.join(self.cache, nm + ".p"), cwd)
        return nm

    def items_expr(self):
        p = self.pool()
        sp = lambda nm: ("SS{ %s }" % quote(nm)) if self.s["mode"] == "abs" else quote(self.item(nm))
        if self.s["uniq"]:
            l = [sp(x) for x in self.names_fixed()]
            sets = []
            parts = l
            if self.s["shape"] == 1 and len(l) > 2:
                sets = ["set { LST %s }" % " ".join(l[1:])]
                parts = [l[0], "${LST}"]
        else:
            sets, parts = [], []
            for n, (k, v) in enumerate(self.list):
                if k == "lit":
                    parts.append(sp(p[v % len(p)]))
                elif k == "var":
                    sets.append("set { L%d %s }" % (n, " ".join(sp(p[x % len(p)]) for x in v)))
                    parts.append("${L%d}" % n)
                else:
                    parts.append(self.optexpr())
        if self.s["uniq"] and self.uopt():
            parts = parts + [self.optexpr()]
        if len(parts) == 1 and self.s["shape"]:
            return sets, parts[0]
        if self.s["shape"] == 2:
            sets.append("set { ALL %s }" % " ".join(parts))
            return sets, "${ALL}"
        return sets, "set { _ %s }" % " ".join(parts)

    def optexpr(self):
        return "^{ ${O2} .p }" if self.s["mode"] == "prod" else "SS{ ${O2} }" if self.s["mode"] == "abs" else "${O2}"

    # a list without duplicates: the element given by the option comes last
    def uopt(self):
        return any(k == "opt" for k, _ in self.list)

    def names_fixed(self):
        p = self.pool()
        out = []
        for k, v in self.list:
            if k != "opt":
                out += [p[x % len(p)] for x in (v if k == "var" else [v])]
        return list(dict.fromkeys(out))

    def all(self):
        if not self.s["uniq"]:
            p = self.pool()
            return [p[x % len(p)] for k, v in self.list for x in (v if k == "var" else [self.olist if k == "opt" else v])]
        l = self.names_fixed()
        if self.uopt():
            p = self.pool()
            l.append(p[self.olist % len(p)])
        return l

    # ---------------------------------------------------------------- text
    def arg_text(self, a):
        k = a[0]
        return {"it": "${IT}", "S": "S{ ${IT} }", "opt": "${O1}", "def": "${NONE ${IT}}", "nest": "^{ ^{ < ${IT} } ${IT} }"}.get(k) or (
            "^{ %s ${IT} %s }" % (quote(a[1]), quote(a[2])) if k == "join" else "%%{ ${IT} %s }" % a[1] if k == "base" else "set { _ %s ${IT} }" % quote(a[1]) if k == "lst" else quote(a[1]))

    def arg_vals(self, a, v):
        k = a[0]
        if k == "base":
            h, dot, _ = v.rpartition(".")
            return [(h if dot and "/" not in _ else v) + a[1]]
        if k == "lst":
            return ([a[1]] if a[1] else []) + [v]
        return [{"it": lambda: v, "def": lambda: v, "nest": lambda: "<" + v + v, "opt": lambda: self.opt, "S": lambda: os.path.normpath(self.b.proj + "/" + v), "join": lambda: a[1] + v + a[2], "lit": lambda: a[1]}[k]()]

    def args_of(self, c):
        # paths are normalized, not looked at
        return [a for a in c[1] if not (a[0] == "S" and (self.s["mode"] in ("src", "abs") or self.insrc or self.pool() is WORDS))
                and not (c[0] == "shell" and (a[0] in ("opt", "nest", "lit", "lst") or a[0] == "join" and (a[1] == "x y" or a[2] == "'")))]

    def body(self):
        out = []
        for j, c in enumerate(self.s["body"]):
            args = " ".join(self.arg_text(a) for a in self.args_of(c))
            if c[0] == "mk" and self.mk:
                ins = {"prod": "${IT}", "der": "SS{ ^{ ${IT} .x } }", "derp": "^{ ${IT} .p }", "none": ""}[self.s["mode"]]
                out.append("exec { pt mk ^{ T%d ${IT} } -o ^{ ${IT} .o%d } -i %s %s -a %s %s }" % (j, j, ins, " ".join("SS{ c%d }" % x for x in range(self.s["common"])), args, "v%d" % self.bodyv if self.bodyv else ""))
            else:
                out.append("%s { pt args X%d ${IT} %s %s }" % ("shell" if c[0] == "shell" else "exec", j, args, "v%d" % self.bodyv if self.bodyv else ""))
        return out

    def prods(self):
        return [".o%d" % j for j, c in enumerate(self.s["body"]) if c[0] == "mk"] if self.mk else []

    def pick(self):
        """the product others consume"""
        return self.prods()[-1 if (self.s["down"] + self.s["chain"]) % 2 else 0]

    def script(self):
        s = self.s
        sets, ie = self.items_expr()
        cons = {"src": ["${IT}"], "abs": ["${IT}"], "prod": ["${IT}"], "der": ["^{ ${IT} .x }"], "derp": ["^{ ${IT} .p }"], "none": []}[s["mode"]]
        cons += ["^{ %{${IT}} .y }"] if self.extra() else []
        cons = ["SS{ c%d }" % x for x in range(s["common"])][:1] + (cons[::-1] if s["first"] else cons) + ["SS{ c%d }" % x for x in range(s["common"])][1:]
        fe = "foreach {\n IT\n %s\n run {\n  %s %s\n  %s\n  %s\n }\n}" % (ie, "always" if s["always"] else "", "\n  ".join(self.body()), "consumes { %s }" % " ".join(cons) if cons else "", "produces { %s }" % " ".join("^{ ${IT} %s }" % p for p in self.prods()) if self.prods() else "")
        if self.insrc:
            fe = "in-sources {\n%s\n}" % fe
        names = list(dict.fromkeys(self.all()))
        pre, post = [], []
        if s["mode"] in ("prod", "derp"):
            for nm in names:
                (pre if s["first"] else post).append("run { exec { pt mk P -o %s -i SS{ %s } } consumes { SS{ %s } } produces { %s } }" % (quote(nm + ".p"), quote(nm), quote(nm), quote(nm + ".p")))
        if self.downs():
            nm = quote(self.item(self.downs()[0]) + self.pick())
            (post if s["first"] else pre).append("run { exec { pt mk D -o down -i %s } consumes { %s } produces { down } }" % (nm, nm))
        if self.chain():
            (pre if s["chain"] == 1 else post).append("foreach { J %s run { exec { pt args second ${J} } consumes { ^{ ${J} %s } } } }" % (ie, self.pick()))
        return "\n".join(["set { KEEP x }"] + sets + pre + [fe] + post) + "\n"

    def extra(self):
        return self.s["extra"] and self.s["mode"] in ("src", "prod")

    def downs(self):
        return list(dict.fromkeys(self.all()))[:1] if self.s["down"] and self.prods() else []

    def chain(self):
        return self.s["chain"] in (1, 2) and bool(self.prods())

    def write(self):
        b = self.b
        if self.s["unit"]:
            self.file(b.p("Autark"), "include { sub/Autark }\n")
        self.file(os.path.join(self.dir, "Autark"), self.script())
        for nm in self.all():
            f = self.src(nm)
            if f:
                self.file(f)
            if self.extra():
                self.file(self.yfile(nm))
        for x in range(self.s["common"]):
            self.file(os.path.join(self.dir, "c%d" % x))

    def yfile(self, nm):
        it = self.item(nm)
        h, dot, t = it.rpartition(".")
        return os.path.join(self.dir, (h if dot and "/" not in t else it) + ".y")

    def file(self, p, t=None):
        if p in self.files and t in (None, self.files[p]):
            return
        self.files[p] = t if t is not None else "%s v0" % os.path.basename(p)
        self.b.write(os.path.relpath(p, self.b.proj), self.files[p])

    def edit(self, p, fail=False):
        n = int(self.files[p].split(" v")[1].split("\n")[0]) + 1
        self.file(p, "%s v%d%s" % (os.path.basename(p), n, "\n#fail" if fail else ""))

    # ---------------------------------------------------------------- expectations
    def text(self, tag, ins, args, outs):
        t = "TAG %s\n" % tag
        for nm, c in ins:
            t += "IN %s\n%s\n" % (os.path.basename(nm), c)
        for a in args:
            t += "ARG %s\n" % a
        return t + "OUT 0\n"

    def ptext(self, nm):
        f = self.src(nm)
        return self.text("P", [(f, self.files[f])], [], 1)

    def own(self, nm):
        """content of what is consumed for this item only"""
        f = self.src(nm)
        return (self.files.get(f), self.files.get(self.yfile(nm)) if self.extra() else None)

    def commands(self, nm):
        """[(event, args)], products {name: text}"""
        v = self.value(nm)
        out, pr = [], {}
        bv = ["v%d" % self.bodyv] if self.bodyv else []
        for j, c in enumerate(self.s["body"]):
            args = [x for a in self.args_of(c) for x in self.arg_vals(a, v) if x] + bv   # empty arguments are not passed
            if c[0] == "mk" and self.mk:
                m = self.s["mode"]
                ins = {"prod": [(v, v, None)], "der": [(self.src(nm),) * 2 + (None,)], "derp": [(nm + ".p",) * 2 + (None,)], "none": []}[m]
                ins = [(x[0], self.ptext(nm) if m in ("prod", "derp") else self.files[self.src(nm)]) for x in ins] + [(os.path.join(self.dir, "c%d" % x), self.files[os.path.join(self.dir, "c%d" % x)]) for x in range(self.s["common"])]
                out.append(("mk", ["T%d%s" % (j, v), "-o", v + ".o%d" % j, "-i"] + [x[0] for x in ins] + ["-a"] + args))
                pr[self.item(nm) + ".o%d" % j] = self.text("T%d%s" % (j, v), ins, args, 1)
            else:
                out.append(("args", ["X%d" % j, v] + args))
        return out, pr


def run_case(part, case):
    spec, ops = case
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 6 == 0 else "plain"
    with Box(v) as b:
        m = Model(b, spec)
        part_run = optlist = failed = False
        done = None      # state of the last good build: (names, {item: own}, common, script text, opt)
        stale = True
        prodfiles = {}
        for n, op in enumerate([["first"]] + ops):
            failk = None
            names = m.all()
            k = op[0]
            if n:
                b.settle()
            if k == "own" and spec["mode"] != "none":
                for i in op[1]:
                    if names:
                        m.edit(m.src(names[i % len(names)]))
            elif k == "own2" and m.extra() and names:
                m.edit(m.yfile(names[op[1] % len(names)]))
            elif k == "common" and spec["common"]:
                m.edit(os.path.join(m.dir, "c%d" % (spec["common"] - 1)))
            elif k == "opt":
                m.opt = op[1]
            elif k == "list":
                m.list = op[1]
            elif k == "olist":
                m.olist = op[1]
            elif k == "body":
                m.bodyv += 1
            elif k == "fail" and names and spec["mode"] == "der" and m.has_mk():
                failk = names[op[1] % len(names)]
                m.edit(m.src(failk), True)
            m.write()
            fixed = None
            for rnd in (0, 1) if failk is not None else (0,):
                if rnd:
                    b.settle()
                    m.edit(m.src(failk))
                names = m.all()
                cur = ({x: m.own(x) for x in names}, [m.files[os.path.join(m.dir, "c%d" % x)] for x in range(spec["common"])], m.script(), m.opt if any(a[0] == "opt" for c in spec["body"] for a in m.args_of(c)) else None)
                p = m.pool()
                r = b.autark(["-DO1=" + m.opt, "-DO2=" + p[m.olist % len(p)]])
                log = b.take_log()
                show = "build %d %r round %d, items %r\n%s%s\n" % (n, op, rnd, names, b.read("sub/Autark" if spec["unit"] else "Autark").decode(), r.text())
                bad = failk is not None and not rnd
                # which items have to be executed, which may be
                if done is None or stale or spec["always"] or cur[1:] != done[1:4]:
                    must, may = list(names), []
                else:
                    must = [x for x in names if x not in done[0] or done[0][x] != cur[0][x]]
                    may = [x for x in names if x not in must] if names != done[4] else []
                if spec["always"] or not (spec["mode"] != "none"):
                    if must or (names != done[4] if done else True):
                        must, may = list(names), []
                if done is not None and not stale and names != done[4] and not names:
                    must = []
                if r.ok == bad:
                    raise Violation("the build %s\n%s" % ("fails" if not r.ok else "succeeds although a command failed", show))
                exp = []
                obs = [(e["ev"], e["args"], e["cwd"]) for e in log if e["ev"] in ("mk", "args") and not (e["ev"] == "mk" and e["args"][0] in ("P", "D")) and e["args"][:1] != ["second"]]
                want_cwd = m.dir if m.insrc else m.cache
                # greedy matching of the log with the items in the order of the list
                pos = 0
                ran = []
                for x in names:
                    cmds = m.commands(x)[0]
                    if bad and x == failk:
                        j = [i for i, c in enumerate(cmds) if c[0] == "mk"][0]
                        cmds = cmds[:j + 1]
                    got = [o[:2] for o in obs[pos:pos + len(cmds)]]
                    if got == cmds:
                        if x not in must and x not in may:
                            raise Violation("item %r is executed again although nothing it depends on has been changed\n%s" % (x, show))
                        wrong = [o for o in obs[pos:pos + len(cmds)] if o[2] != want_cwd]
                        if wrong:
                            raise Violation("working directory %r instead of %r\n%s" % (wrong[0][2], want_cwd, show))
                        ran.append(x)
                        pos += len(cmds)
                    elif x in must:
                        raise Violation("item %r: expected commands %r, got %r\n%s" % (x, cmds, got, show))
                    if bad and x == failk:
                        break
                if pos != len(obs):
                    raise Violation("unexpected commands %r\n%s" % (obs[pos:], show))
                if bad:
                    stale = True
                    failed = True
                    done = None
                    continue
                # producers come first, downstream after
                tm = {}
                for e in log:
                    if e["ev"] in ("mk", "args"):
                        tm.setdefault((e["ev"], tuple(e["args"])), e["t"])
                first = min((e["t"] for e in log if e["ev"] in ("mk", "args") and e["args"][0][:1] in ("X", "T") and len(e["args"][0]) > 1), default=None)
                last = max((e["t"] for e in log if e["ev"] in ("mk", "args") and e["args"][0][:1] in ("X", "T") and len(e["args"][0]) > 1), default=None)
                for e in log:
                    if e["ev"] == "mk" and e["args"][0] == "P" and first is not None and e["t"] > first and any(e["args"][2] == y + ".p" for y in names):
                        raise Violation("the producer of %s is executed after the foreach\n%s" % (e["args"][2], show))
                    if (e["ev"] == "mk" and e["args"][0] == "D" or e["args"][:1] == ["second"]) and last is not None and e["t"] < last:
                        raise Violation("a consumer of products is executed before the foreach\n%s" % show)
                # products
                newp = {}
                for x in names:
                    newp.update(m.commands(x)[1])
                for f, t in newp.items():
                    try:
                        with open(os.path.join(m.cache, f), "rb") as fh:
                            g = fh.read()
                    except OSError:
                        g = None
                    if g != t.encode():
                        raise Violation("product %s is %r, expected %r\n%s" % (f, g, t, show))
                if m.downs():
                    f = m.item(m.downs()[0])
                    dn = [e for e in log if e["ev"] == "mk" and e["args"][0] == "D"]
                    pf = f + m.pick()
                    if prodfiles.get(pf) != newp.get(pf) and not dn and pf in newp:
                        raise Violation("the consumer of %s is not executed although it has been changed\n%s" % (pf, show))
                if m.chain():
                    sec = [e["args"][1] for e in log if e["args"][:1] == ["second"]]
                    want = [m.item(x) for x in names]
                    miss = [y for y in want if prodfiles.get(y + m.pick()) != newp[y + m.pick()] and y not in sec]
                    if miss:
                        raise Violation("second foreach: items %r are not executed, got %r\n%s" % (miss, sec, show))
                    if [y for y in want if y in sec] != sec and len(set(want)) == len(want):
                        raise Violation("second foreach: order %r\n%s" % (sec, show))
                    same = done is not None and not stale and cur[2] == done[2] and names == done[4]
                    extra = [y for y in sec if same and y not in [m.item(x) for x in ran]]
                    if extra:
                        raise Violation("second foreach: items %r are executed although their products are the same\n%s" % (extra, show))
                prodfiles = newp
                if done is not None and ran and len(ran) < len(names) and len(names) > 2:
                    part_run = True
                if done is not None and k == "olist" and names != done[4]:
                    optlist = True
                done = cur + (names,)
                stale = False
        label(spec["mode"])
        for k, x in (("part", part_run), ("option list", optlist), ("failed", failed), ("chain", m.chain()), ("down", bool(m.downs())), ("dups", len(set(m.all())) < len(m.all())), ("in-sources", m.insrc)):
            if x:
                label(k)
        return part_run or optlist or failed
