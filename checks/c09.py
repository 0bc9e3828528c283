"""C09: random templates (substitutions, lone and doubled '@', autarkdef forms, long lines, any line ends, missing final newline) in one or two
configure rules over two scripts, with variables from scripts, options and the environment; then edits with a build after each. The
outputs' content and mode are compared with a reference substitution, and files whose inputs did not change must not be rewritten."""
import hashlib, json, os, re
from hypothesis import strategies as st
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a reference substitution"
RULE = ("random templates of lines with @..@ pairs, unpaired and doubled '@', autarkdef forms and arbitrary bytes, in the source tree, a generated one, with several modes and path forms; random assignments "
        "and edits; non-trivial: a non-empty value was substituted, an autarkdef line was replaced, and a later edit changed one output and left another untouched")
ASSUMPTIONS = ["templates hold no zero bytes", "text after the name of an autarkdef line is empty, a quote or starts with a digit", "a change of the mode alone is not an edit"]
PARTS = {"hist": {"quick": 3200, "thorough": 60000}}
BUDGET = {"quick": 60, "thorough": 1800}

VARS = ["A", "BB", "C_C", "x.y", "a b", "O1", "O2", "E1", "E2", "S1"]   # O: -D, E: environment, S1: the sub script, others: root script
UNDEF = ["NOPE", "A ", "a", "BBB", "", "A=1", "/", "é"]
STR = ["", "0", "1", "v", "two words", "q\"q", "x@y", "@A@", "#", "a\\b", "%s", "é", "long" * 300, "//autarkdef A", "'"]
VAL = st.one_of(st.none(), st.sampled_from(STR), st.sampled_from(STR), st.lists(st.sampled_from(["a", "b c", "1", "@BB@", "-x"]), min_size=2, max_size=4), st.just(["one"]))
PLAIN = ["", " ", "text", "#define X 1", "a b  c", "\t", "$HOME ${A} &{1}", "//autarkdef", " //autarkdef A", "/* x */", "\\", "\"", "%d%s%n", "é€", "\x01", "\x7f", "\xff\xfe", "{}", "line" * 40, "w " * 3000]
EOL = ["\n", "\n", "\n", "\n", "\r\n", "\n\n", "\r"]
MODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o640, 0o711]
# template: path under its script's directory
TPATHS = ["t0.h.in", "d/t1.txt.in", "t2.cfg", "d/e/t3.in.in", "t4.IN", ".in5.in", "t 6.in"]
FORMS = ["rel", "rel", "S", "dot", "var", "list"]


def line():
    name = st.one_of(st.sampled_from(VARS), st.sampled_from(VARS), st.sampled_from(UNDEF))
    seg = st.one_of(st.sampled_from(PLAIN), name.map(lambda n: "@%s@" % n), name.map(lambda n: "@%s@" % n), name.map(lambda n: "@%s@" % n), st.sampled_from(["@", "@@", "@@@", "@A", "A@"]))
    sub = st.lists(seg, max_size=6).map("".join)
    df = st.tuples(st.sampled_from(["//autarkdef ", "//autarkdef ", "//autarkdef   ", "//autarkdef \t"]), st.sampled_from([v for v in VARS if " " not in v] + ["NOPE", ""]),
                   st.sampled_from(["", "", " ", " \"", " \" ", "\t\"x\"", " 1", " 1", " 0x10 /* c */", "  42"])).map("".join)
    return st.one_of(sub, sub, df)


def text():
    ls = st.lists(st.tuples(line(), st.sampled_from(EOL)), max_size=8)
    return st.tuples(ls, st.one_of(st.just(""), line()), st.sampled_from([1, 1, 1, 1, 1, 1, 1, 40])).map(
        lambda t: "".join(a + (b if not a.startswith("//autarkdef ") or b[0] == "\n" else "\n") for a, b in t[0]) * t[2] + t[1])


def strategy(part):
    tm = st.tuples(st.sampled_from([0, 0, 1]), st.integers(0, len(TPATHS) - 1), st.sampled_from(FORMS), st.integers(0, 2), text(), st.sampled_from(MODES), st.sampled_from([0, 0, 0, 1]))
    var = st.tuples(st.sampled_from(VARS), VAL)
    op = st.one_of(st.tuples(st.just("text"), st.integers(0, 9), text(), st.sampled_from(MODES)), st.tuples(st.just("text"), st.integers(0, 9), text(), st.sampled_from(MODES)),
                   st.tuples(st.just("add"), st.integers(0, 9), line(), st.sampled_from(MODES)),
                   st.tuples(st.just("var"), st.lists(var, min_size=1, max_size=2)), st.tuples(st.just("var"), st.lists(var, min_size=1, max_size=2)),
                   st.tuples(st.just("var"), st.lists(st.tuples(st.sampled_from(["O1", "O2", "E1", "E2"]), VAL), min_size=1, max_size=2)),
                   st.tuples(st.just("touch"), st.integers(0, 9)), st.just(("nop",)))
    return st.tuples(st.lists(tm, min_size=1, max_size=4, unique_by=lambda t: (t[0], t[1])), st.lists(var, max_size=7), st.lists(op, min_size=1, max_size=6)).map(list)


def opt_val(k, v):
    """the value as it can be given for a name of this kind"""
    if k[0] in "OE" and isinstance(v, list):
        v = " ".join(v)
    if k[0] == "O" and v is not None:
        v = v.rstrip()
    return v


SP = " \t\n\v\f\r"


def reference(text, get):
    """-> (output, number of non-empty substitutions, number of replaced autarkdef lines, names used)"""
    out = []
    subs = defs = 0
    names = set()

    def val(k):
        names.add(k)
        v = get(k)
        return v if v is None else " ".join(v) if isinstance(v, list) else v
    for ln in re.findall("[^\n]*\n|[^\n]+", text):
        if ln.startswith("//autarkdef "):
            r = ln[len("//autarkdef "):].lstrip(SP)
            k = re.match("[^%s]*" % SP, r).group(0)
            r = r[len(k):].lstrip(SP)
            v = val(k)
            if v is None:
                out.append("#define %s 0\n" % k if r[:1].isdigit() else ln)
                continue
            defs += 1
            out.append("#define %s \"%s\"\n" % (k, v) if r[:1] == "\"" else "#define %s %s" % (k, r) if r[:1].isdigit() else "#define %s\n" % k)
            continue
        p = ln.split("@")
        i = 0
        o = p[0]
        while i + 2 < len(p):
            v = val(p[i + 1])
            subs += bool(v)
            o += (v or "") + p[i + 2]
            i += 2
        if i + 1 < len(p):
            o += "@" + p[i + 1]
        out.append(o)
    return "".join(out), subs, defs, names


def enc(s):
    # characters up to U+00FF that are not valid text stand for single bytes
    return b"".join(c.encode("latin-1") if c in "\xff\xfe" else c.encode() for c in s)


class Proj:
    def __init__(self, tms, vs):
        self.t = [dict(u=t[0], p=TPATHS[t[1]], form=t[2], rule=t[3], text=t[4], mode=t[5], gen=t[6] and not t[0]) for t in tms]
        for t in self.t:
            if t["gen"]:
                t["p"] = "g_" + t["p"].replace("/", "_") + ("" if t["p"].endswith(".in") else ".in")   # a rule cannot produce what another rule rewrites in place
        self.v = {}
        for k, v in vs:
            self.v[k] = opt_val(k, v)

    def get(self, u):
        def f(k):
            if k == "S1" and not u:
                return None
            return self.v.get(k)
        return f

    def src(self, t):
        return ("sub/" if t["u"] else "") + t["p"] + (".src" if t["gen"] else "")

    def tmpl(self, t):
        return "autark-cache/" + t["p"] if t["gen"] else self.src(t)

    def out(self, t):
        p = "autark-cache/" + ("sub/" if t["u"] else "") + t["p"]
        return p[:-3] if p.endswith(".in") else p

    def scripts(self):
        ls = {0: [], 1: []}
        for k in VARS:
            v = self.v.get(k)
            if k[0] not in "OE" and v is not None:
                ls[k == "S1"].append("set { %s %s }" % (quote(k), quote(v) if isinstance(v, str) else " ".join(map(quote, v)) if len(v) > 1 else "..${NONE %s}" % quote(v[0])))
        for t in self.t:
            if t["gen"]:
                ls[0].append("run { exec { cp S{%s} C{%s} } consumes { S{%s} } produces { C{%s} } }" % tuple(map(quote, (self.src(t), t["p"], self.src(t), t["p"]))))
        rules = {}
        for i, t in enumerate(self.t):
            u = t["u"]
            if t["gen"]:
                f = "C{%s}" % quote(t["p"])
            elif t["form"] == "S":
                f = "S{%s}" % quote(self.src(t))
            elif t["form"] == "dot":
                f = quote("./d/../" + t["p"])
            elif t["form"] == "var":
                ls[u].append("set { TP%d %s }" % (i, quote(t["p"])))
                f = "${TP%d}" % i
            elif t["form"] == "list":
                ls[u].append("set { TL%d%d ..${TL%d%d} %s }" % (u, t["rule"], u, t["rule"], quote(t["p"])))
                f = "${TL%d%d}" % (u, t["rule"])
            else:
                f = quote(t["p"])
            fs = rules.setdefault((u, t["rule"]), [])
            if f not in fs:
                fs.append(f)
        for (u, n), fs in sorted(rules.items()):
            ls[u].append("configure {\n  %s\n}" % "\n  ".join(fs))
        # a consumer of the first output
        t = self.t[0]
        o = quote(self.out(t)[len("autark-cache/"):])
        ls[0].append("run { exec { cp C{%s} C{consumer.out} } consumes { C{%s} } produces { C{consumer.out} } }" % (o, o))
        return {"Autark": "\n".join(ls[0] + ["include { sub/Autark }"]) + "\n", "sub/Autark": "\n".join(ls[1]) + "\n"}


def run_case(part, case):
    p = Proj(case[0], case[1])
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 4 == 0 else "plain"
    subs = defs = parts = 0
    with Box(v) as b:
        os.makedirs(b.p("d/e"))
        os.makedirs(b.p("sub/d/e"))
        for t in p.t:
            b.write(p.src(t), enc(t["text"]), t["mode"])
        sc = p.scripts()
        for f, x in sc.items():
            b.write(f, x)
        prev = {}
        for i, op in enumerate([("first",)] + case[2]):
            exact = None   # outputs which have to be left alone
            if i:
                b.settle()
                for f in prev:
                    os.utime(b.p(f), ns=(10 ** 18, 10 ** 18))   # so that a rewritten file is noticed; old enough to stay current for its consumers
                o = op[0]
                names = {t["p"] + str(t["u"]): reference(t["text"], p.get(t["u"]))[3] for t in p.t}
                if o in ("text", "add", "touch"):
                    t = p.t[op[1] % len(p.t)]
                    if o == "text":
                        t["text"], t["mode"] = op[2], op[3]
                    elif o == "add":
                        x = t["text"]
                        t["text"], t["mode"] = x + ("" if x.endswith("\n") or not x else "\n") + op[2], op[3]
                    os.unlink(b.p(p.src(t))) if o == "add" else None
                    b.write(p.src(t), enc(t["text"]), t["mode"])
                    exact = {p.out(x) for x in p.t if x is not t}
                elif o == "var":
                    old = dict(p.v)
                    for k, x in op[1]:
                        p.v[k] = opt_val(k, x)
                    ch = {k for k in VARS if old.get(k) != p.v.get(k)}
                    ns = p.scripts()
                    if ns == sc:
                        hit = {(t["u"], t["rule"]) for t in p.t if names[t["p"] + str(t["u"])] & ch}
                        exact = {p.out(t) for t in p.t if (t["u"], t["rule"]) not in hit}
                    for f, x in ns.items():
                        if x != sc[f]:
                            b.write(f, x)
                    sc = ns
                else:
                    exact = {p.out(t) for t in p.t}
            r = b.autark(["-D%s=%s" % (k, p.v[k]) for k in ("O1", "O2") if p.v.get(k) is not None], env={k: p.v.get(k) for k in ("E1", "E2")})
            show = "step %d %r\n%s\nvariables %r\ntemplates %r\n%s" % (i, op, "\n".join("--- %s\n%s" % kv for kv in sc.items()), p.v, p.t, r.text())
            if not r.ok:
                raise Violation("build failed: " + show)
            changed = same = 0
            for t in p.t:
                want, s, d, _ = reference(t["text"], p.get(t["u"]))
                subs += s
                defs += d
                f = p.out(t)
                got = b.read(f)
                if got != enc(want):
                    raise Violation("output %s is %r, expected %r\n%s" % (f, got, enc(want), show))
                sm, om = os.stat(b.p(p.tmpl(t))).st_mode & 0o7777, os.stat(b.p(f)).st_mode & 0o7777
                if sm != om:
                    raise Violation("output %s has mode %o, its template %o\n%s" % (f, om, sm, show))
                if f in prev:
                    w = os.stat(b.p(f)).st_mtime_ns != 10 ** 18
                    if exact is not None and f in exact and w:
                        raise Violation("output %s was written again although nothing it depends on changed\n%s" % (f, show))
                    if prev[f] != got:
                        changed += 1
                    elif not w:
                        same += 1
                prev[f] = got
            if b.read("autark-cache/consumer.out") != prev[p.out(p.t[0])]:
                raise Violation("the consumer has an older copy of %s\n%s" % (p.out(p.t[0]), show))
            parts += changed > 0 and same > 0
            label("op:" + op[0])
    label("substitutions", subs)
    label("defines", defs)
    label("selective rebuilds", parts)
    return subs > 0 and defs > 0 and parts > 0
