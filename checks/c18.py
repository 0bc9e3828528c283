"""C18: dependency records. Random sequences of entries are written (in one or several sessions, interleaved with reading), files, variables and
environment are changed, and the record is read back: entries, kinds, flags, names and values must be those written, and each is stale exactly as a model says."""
import posixpath
from hypothesis import strategies as st
import build
from harness import Violation
from runner import label
from server import h, server

LEVEL = "exploration"
TECHNIQUE = "stateful model-based property testing of dependency records (write/change/read histories against a reference model, ASan+UBSan)"
RULE = "random histories of opening, adding, changing files and variables, and reading; non-trivial: an entry became stale, and an entry with a list, a line break or more than 1000 bytes was read back"
ASSUMPTIONS = ["values hold no bytes 0 and 2 (2 stands for a line break in the record), names and paths no line breaks", "one value is at most 200000 bytes long"]
PARTS = {"rec": {"quick": 9600, "thorough": 300000}}
BUDGET = {"quick": 80, "thorough": 1800}


def prepare():
    build.harness("unit", "tests")


PATHS = ["f1", "f2", "d/f3", "./f1", "d/../f2", "d//f3", "f 4", "l1", "l2", "missing", "d/missing", "d/é", "-", "a=b", "d/./../d/f3", "d/x/../../f1"]
FILES = ["f1", "f2", "d/f3", "f 4", "d/é", "-", "a=b"]
KEYS = ["A", "B", "CC", "long_name", "K.x"]
ch = st.characters(min_codepoint=1, max_codepoint=255, exclude_characters="\2")
VALS = ["", "a", "b", "\1a\1b", "\1a", "\1", "a\1b", "x\ny", "\n", "\n\n", "a=b", "1", "\1" + "1", "a\1" + "12", "f", " lead", "trail ", "é", "%s%n%d", "\r\n", "\1x\ny\1\1z", "u", "q" * 5000]


def vals():
    return st.one_of(st.sampled_from(VALS), st.sampled_from(VALS), st.text(ch, max_size=10), st.tuples(st.text("ab\1\n", min_size=1, max_size=3), st.sampled_from([10, 1000, 20000, 66000])).map(lambda t: t[0] * t[1]))


def strategy(part):
    t = st.tuples(st.sampled_from([0, 1, 2, 1000, 1001, 1700000000]), st.sampled_from([0, 1, 499999, 500000, 500001, 999499999, 999500000, 999999999, 7000000]))
    key = st.sampled_from(KEYS)
    op = st.one_of(
        st.tuples(st.just("f"), st.sampled_from(PATHS), st.sampled_from([0, 5, 10 ** 13])),
        st.tuples(st.just("o"), st.sampled_from(PATHS)),
        st.tuples(st.just("v"), st.sampled_from("0eau%v"), vals(), st.one_of(st.integers(0, 100), st.sampled_from([2 ** 31, 2 ** 62, -1]))),
        st.tuples(st.just("a"), st.sampled_from("0s"), st.sampled_from(PATHS), st.sampled_from(PATHS)),
        st.tuples(st.just("e"), st.sampled_from("0u"), key, vals()), st.tuples(st.just("e"), st.sampled_from("0u"), key, vals()),
        st.tuples(st.just("s"), st.just("0"), key, vals()), st.tuples(st.just("cur"), st.sampled_from("es"), key), st.tuples(st.just("cur"), st.sampled_from("es"), key),
        st.tuples(st.just("x"), st.sampled_from(["-", "z", "a b"])))
    chg = st.one_of(st.tuples(st.just("touch"), st.sampled_from(FILES), t), st.tuples(st.just("touch"), st.sampled_from(FILES), t), st.tuples(st.just("rm"), st.sampled_from(FILES + ["l1", "l2"])),
                    st.tuples(st.just("link"), st.sampled_from(["f1", "f2", "nothing", "d/f3"]), st.sampled_from(["l1", "l2"]), t),
                    st.tuples(st.just("set"), key, vals()), st.tuples(st.just("unset"), key), st.tuples(st.just("setenv"), key, vals()), st.tuples(st.just("unsetenv"), key))
    ses = st.tuples(st.sampled_from([0, 0, 1]), st.lists(st.one_of(op, op, op, chg, st.just(("one",))), max_size=10), st.lists(chg, max_size=5))
    return st.tuples(st.lists(chg, max_size=8), st.lists(ses, min_size=1, max_size=4)).map(list)


def L(x):
    return x.encode("latin-1")


def ms(t):
    return t[0] * 1000 + (t[1] + 500000) // 1000000


class Model:
    def __init__(self):
        self.files = {}   # path -> ms
        self.links = {}   # name -> (target, ms)
        self.vars = {}
        self.env = {}
        self.rec = []

    def mtime(self, p):
        """None if missing"""
        if p in self.links:
            tgt, m = self.links[p]
            return max(m, self.files[tgt]) if tgt in self.files else m
        return self.files.get(p)


def change(m, op, lines):
    o = op[0]
    if o == "touch":
        m.files[op[1]] = ms(op[2])
        lines.append("touch %s %d %d" % (h(op[1]), op[2][0], op[2][1]))
    elif o == "rm":
        m.files.pop(op[1], None)
        m.links.pop(op[1], None)
        lines.append("rm %s" % h(op[1]))
    elif o == "link":
        m.links[op[2]] = (op[1], ms(op[3]))
        lines.append("link %s %s %d %d" % (h(op[1]), h(op[2]), op[3][0], op[3][1]))
    elif o == "set":
        m.vars[op[1]] = op[2]
        lines.append("set %s %s" % (h(op[1]), h(op[2])))
    elif o == "unset":
        m.vars.pop(op[1], None)
        lines.append("unset %s" % h(op[1]))
    elif o == "setenv":
        m.env[op[1]] = op[2]
        lines.append("setenv %s %s" % (h(op[1]), h(op[2])))
    elif o == "unsetenv":
        m.env.pop(op[1], None)
        lines.append("unsetenv %s" % h(op[1]))
    else:
        return False
    return True


def stale(m, e):
    k = e[0]
    if k == "f":
        t = m.mtime(e[3])
        return t is None or t > e[4]
    if k == "a":
        t = m.mtime(e[2])
        return t is None or t > e[4]
    if k == "e":
        v = m.vars.get(e[2], m.env.get(e[2]))
        if e[1] == "u":
            return v is not None
        return v != e[3]
    if k == "s":
        return m.env.get(e[2], "") != e[3]
    return k == "x"


def run_case(part, case):
    init, sessions = case
    m = Model()
    lines = ["deps"]
    exp = []
    nstale = big = 0
    for k in KEYS:
        lines.append("unsetenv %s" % h(k))
    lines.append("touch %s 1 1" % h("d/zz"))
    for op in init:
        change(m, op, lines)

    norm = lambda p: posixpath.normpath(posixpath.join("/CWD", p))[5:] if posixpath.normpath(posixpath.join("/CWD", p)).startswith("/CWD/") else None

    def entry(e):
        nonlocal nstale, big
        s = stale(m, e)
        nstale += s
        big += e[3] is not None and (len(e[3]) > 1000 or "\1" in e[3] or "\n" in e[3])
        exp.append(("e", e, s))

    for mode, ops, after in sessions:
        lines.append("open %d" % mode)
        exp.append([b"open", b"0"])
        if mode == 1:
            m.rec = []
        pos = reg = 0
        for op in ops:
            o = op[0]
            if change(m, op, lines):
                continue
            if o == "one":
                lines.append("one")
                if pos < len(m.rec):
                    entry(m.rec[pos])
                    pos += 1
                else:
                    exp.append([b"end"])
                continue
            if o == "cur":
                # the present value, as a script would register it
                k = op[2]
                v = m.vars.get(k, m.env.get(k)) if op[1] == "e" else m.env.get(k, "")
                op = (op[1], "u" if v is None else "0", k, v or "")
                o = op[0]
            if o in ("f", "o"):
                p = norm(op[1])
                t = m.mtime(p)
                ser = 0 if o == "o" else op[2] if t is None else t
                m.rec.append(("f", " ", None, p, ser))
                lines.append("add x%02x 0 %s %d" % (ord(o), h(op[1]), op[2] if o == "f" else 3))
            elif o == "v":
                m.rec.append(("v", " " if op[1] == "0" else op[1], None, op[2], op[3]))
                lines.append("add x76 %s %s %d" % (op[1], h(op[2]), op[3]))
            elif o == "a":
                r, al = norm(op[2]), norm(op[3])
                t = m.mtime(al)
                m.rec.append(("a", " " if op[1] == "0" else op[1], al, r, 0 if t is None else t))
                lines.append("alias %s %s %s" % (op[1], h(op[2]), h(op[3])))
            elif o in ("e", "s"):
                m.rec.append((o, " " if op[1] == "0" else op[1], op[2], op[3], None))
                lines.append("%s %s %s %s" % ("env" if o == "e" else "senv", op[1], h(op[2]), h(op[3])))
            else:
                m.rec.append(("x", " ", None, op[1], None))
                lines.append("add x78 0 %s 0" % h(op[1]))
            exp.append([b"rc", b"0"])
            reg += 1
        lines.append("close")
        exp.append([b"close", b"%d" % reg])
        for op in after:
            change(m, op, lines)
        lines += ["open 2", "read", "close"]
        exp.append([b"open", b"0"])
        for e in m.rec:
            entry(e)
        exp += [[b"end"], [b"close", b"0"]]
    got = server().call(lines)
    cwd = bytes(got[0][1])
    got = got[1:]
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else None
        if isinstance(e, list):
            want = e
        else:
            _, (k, fl, al, res, ser), s = e
            if k in ("f", "a"):
                res = cwd + b"/" + L(res)
                al = al is not None and cwd + b"/" + L(al) or None
            else:
                res = L(res)
                al = L(al) if al is not None else None
            want = [b"e", b"%d" % ord(k), b"%d" % ord(fl), b"-" if al is None else al, res, b"%d" % ser if ser is not None else g[5] if g and len(g) == 7 else None, b"%d" % s]
        if g != want:
            cut = lambda x: [y[:200] if isinstance(y, bytes) else y for y in x] if x else x
            raise Violation("record history %r\ngot      %r\nexpected %r (kind, flags, name, value, serial, stale)" % ([x[:120] for x in lines], cut(g), cut(want)))
    if len(got) != len(exp):
        raise Violation("additional output %r" % got[len(exp):])
    label("stale entries", nstale)
    return nstale > 0 and big > 0
