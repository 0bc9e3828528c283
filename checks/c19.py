"""C19: containers and string utilities against reference models, stateful operation sequences executed under ASan+UBSan."""
import re
from hypothesis import strategies as st
import build
from harness import Violation
from runner import label
from server import h, server

LEVEL = "exploration"
TECHNIQUE = "stateful model-based property testing (random operation sequences against reference models, executed under ASan+UBSan)"
RULE = ("map/list/xstr/pool: random operation sequences, non-trivial: the container grew over its initial capacity or elements were removed; "
        "str: random arguments of the string functions, non-trivial: a call whose result is not its argument")
ASSUMPTIONS = ["removal from a map during its iteration is not done", "parsing an empty text as a number is not specified"]
PARTS = {"map": {"quick": 9000, "thorough": 200000, "share": 0.3}, "list": {"quick": 9600, "thorough": 200000, "share": 0.25},
         "xstr": {"quick": 5600, "thorough": 120000, "share": 0.15}, "pool": {"quick": 2800, "thorough": 80000, "share": 0.1},
         "str": {"quick": 12000, "thorough": 240000, "share": 0.2}}
BUDGET = {"quick": 90, "thorough": 2400}


def prepare():
    build.harness("unit", "tests")


# ------------------------------------------------------------------ generators

def skeys():
    return st.one_of(st.sampled_from(["a", "b", "k1", "k2", "k3", "", "aa"]), st.text("ab", max_size=3), st.integers(0, 2000).map(lambda i: "n%d" % i), st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=8))


def ukeys(bits):
    return st.one_of(st.integers(0, 6), st.integers(0, 300), st.sampled_from([0, 1, 2 ** bits - 1, 2 ** (bits - 1), 2 ** 31, 2 ** 31 - 1]), st.integers(0, 2 ** bits - 1))


def data():
    return st.one_of(st.binary(max_size=4), st.binary(max_size=40), st.sampled_from([b"", b"a", b"\0", b"x" * 15, b"y" * 16, b"z" * 17, b"q" * 1023, b"r" * 1024, b"s" * 5000]))


def cstr():
    return st.one_of(st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=8), st.sampled_from(["", "a", "x" * 15, "y" * 16, "z" * 100, "w" * 1030, "%s%n", " "])).map(lambda s: s.encode("latin-1"))


def strategy(part):
    n = st.integers(0, 40)
    if part == "map":
        def ops(k):
            return st.lists(st.one_of(
                st.tuples(st.just("put"), k), st.tuples(st.just("put"), k), st.tuples(st.just("get"), k), st.tuples(st.just("del"), k),
                st.tuples(st.just("fill"), st.integers(0, 400), st.integers(1, 300)), st.tuples(st.just("drain"), st.integers(0, 400), st.integers(1, 300)),
                st.tuples(st.just("drop"), st.integers(1, 300)),
                st.tuples(st.just("iter")), st.tuples(st.just("count")), st.tuples(st.just("clear"))), max_size=30)
        return st.one_of(st.tuples(st.just(0), ops(skeys())), st.tuples(st.just(1), ops(ukeys(32))), st.tuples(st.just(2), ops(ukeys(64)))).map(list)
    if part == "list":
        el = st.integers(0, 255)
        idx = st.one_of(st.integers(0, 4), st.integers(0, 80))
        op = st.one_of(st.tuples(st.just("push"), el), st.tuples(st.just("push"), el), st.tuples(st.just("unshift"), el), st.tuples(st.just("pop")), st.tuples(st.just("shift")),
                       st.tuples(st.just("ins"), idx, el), st.tuples(st.just("set"), idx, el), st.tuples(st.just("rm"), idx), st.tuples(st.just("rmby"), el), st.tuples(st.just("find"), el),
                       st.tuples(st.just("peek")), st.tuples(st.just("clone")), st.tuples(st.just("swap")), st.tuples(st.just("clear")), st.tuples(st.just("reset")),
                       st.tuples(st.sampled_from(["push*", "unshift*", "pop*", "shift*", "rm*"]), st.integers(1, 70)))
        return st.tuples(st.sampled_from([0, 1, 2, 5, 32, 33, 64]), st.sampled_from([1, 4, 8, 16]), st.lists(op, max_size=40)).map(list)
    if part == "xstr":
        op = st.one_of(st.tuples(st.just("cat2"), data()), st.tuples(st.just("cat"), cstr()), st.tuples(st.just("shift"), n), st.tuples(st.just("pop"), n), st.tuples(st.just("unshift"), data()),
                       st.tuples(st.just("ins"), n, cstr()), st.tuples(st.just("printf"), cstr(), st.integers(-2 ** 62, 2 ** 62), cstr()), st.tuples(st.just("rep"), st.integers(1, 255), st.integers(0, 30)), st.tuples(st.just("clear")))
        return st.tuples(st.integers(0, 40), st.lists(op.map(lambda t: [x.decode("latin-1") if isinstance(x, bytes) else x for x in t]), max_size=30), st.booleans()).map(list)
    if part == "pool":
        size = st.one_of(st.integers(1, 40), st.integers(1, 5000))
        op = st.one_of(st.tuples(st.sampled_from(["alloc", "calloc"]), size), st.tuples(st.just("dup"), cstr()), st.tuples(st.just("ndup"), cstr(), st.integers(0, 20)),
                       st.tuples(st.just("printf"), cstr(), st.integers(-99, 99), cstr()),
                       st.tuples(st.just("split"), st.text("ab, ;\t", max_size=14).map(str.encode), st.sampled_from([b",", b",;", b" ", b""]), st.booleans().map(int)), st.tuples(st.just("nulls")))
        return st.tuples(st.integers(0, 2), st.integers(0, 300), st.lists(op.map(lambda t: [x.decode("latin-1") if isinstance(x, bytes) else x for x in t]), max_size=30)).map(list)
    words = st.one_of(st.text("ab '\"\\\t\n", max_size=14), st.text(st.characters(min_codepoint=2, max_codepoint=255), max_size=8))
    numtxt = st.one_of(st.integers(-2 ** 65, 2 ** 65).map(str), st.text("0123456789-+x abfF\n", min_size=1, max_size=6),
                       st.sampled_from(["0", "-1", " 7", "+5", "0x1f", "010", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1\n", "1\n2", "5 ", "zz", "1.5", "-", "+", "0x"]))
    sub = st.text("ab/.", max_size=5)
    op = st.one_of(
        st.tuples(st.just("words"), words), st.tuples(st.just("words"), words, words), st.tuples(st.just("words"), words),
        st.tuples(st.just("words"), st.lists(st.text("ab ", max_size=3), max_size=4).map(lambda l: "".join("\1" + x for x in l)), words),
        st.lists(st.text(st.characters(min_codepoint=2, max_codepoint=255), max_size=4), max_size=6).map(lambda l: ["vlist"] + l),
        st.tuples(st.sampled_from(["strtol", "strtoll"]), numtxt, st.sampled_from([10, 10, 16, 0, 8]), st.sampled_from([0, 34, 2])),
        st.tuples(st.sampled_from(["swith", "ewith"]), sub, sub), st.tuples(st.just("strncpy"), sub, st.integers(0, 8)), st.tuples(st.just("strnncpy"), sub, st.integers(0, 8), st.integers(0, 8)),
        st.tuples(st.just("replace"), sub, st.sampled_from("ab/"), st.sampled_from("ab/")), st.tuples(st.just("lround"), st.one_of(st.integers(-10 ** 6, 10 ** 6).map(lambda i: "%r" % (i / 4)), st.sampled_from(["0.5", "-0.5", "2.49999", "1e300", "-1e300", "999999.999999"]))),
        st.tuples(st.just("file"), data().map(lambda b: b.decode("latin-1")), data().map(lambda b: b.decode("latin-1")), st.booleans(), st.sampled_from([-1, 0, 3, 16, 5000, 8192, 100000]), st.sampled_from([0, 8191, 8192, 8193, 20000])))
    return st.lists(op.map(list), min_size=1, max_size=14)


# ------------------------------------------------------------------ models

def expect(got, want, what):
    if got != want:
        raise Violation("%s\ngot      %r\nexpected %r" % (what, got, want))


def run_map(kind, ops):
    K = (lambda k: h(k)) if kind == 0 else str
    enc = (lambda k: k.encode("latin-1")) if kind == 0 else (lambda k: str(k).encode())
    lines = ["map %d" % kind]
    model = {}
    exp = []
    v = 0
    grown = removed = 0

    def put(k):
        nonlocal v
        lines.append("put %s %d" % (K(k), v))
        if k in model:
            exp.append([b"free", enc(k) if kind == 0 else b"-", b"%d" % model[k]])
        model[k] = v
        v += 1

    def rem(k):
        lines.append("del %s" % K(k))
        if k in model:
            exp.append([b"free", enc(k) if kind == 0 else b"-", b"%d" % model.pop(k)])
            exp.append([b"del", b"1"])
        else:
            exp.append([b"del", b"0"])

    mk = (lambda i: "n%d" % i) if kind == 0 else (lambda i: i * 7)
    for op in ops:
        o = op[0]
        if o == "put":
            put(op[1])
        elif o == "get":
            lines.append("get %s" % K(op[1]))
            exp.append([b"get", b"%d" % model.get(op[1], -1)])
        elif o == "del":
            removed += op[1] in model
            rem(op[1])
        elif o == "fill":
            for i in range(op[1], op[1] + op[2]):
                put(mk(i))
            grown = max(grown, len(model))
        elif o == "drain":
            for i in range(op[1], op[1] + op[2]):
                if mk(i) in model:
                    removed += 1
                    rem(mk(i))
        elif o == "drop":
            for k in list(model)[:op[1]]:
                removed += 1
                rem(k)
        elif o == "iter":
            lines.append("iter")
            exp.append(("iter", dict(model)))
        elif o == "count":
            lines.append("count")
            exp.append([b"count", b"%d" % len(model)])
        elif o == "clear":
            lines.append("clear")
            exp.append(("freeall", dict(model), b"cleared"))
            model.clear()
    for k in list(model)[:50]:
        lines.append("get %s" % K(k))
        exp.append([b"get", b"%d" % model[k]])
    lines += ["count", "iter", "destroy"]
    exp += [[b"count", b"%d" % len(model)], ("iter", dict(model)), ("freeall", dict(model), b"destroyed")]
    got = server().call(lines)
    i = 0
    for e in exp:
        if isinstance(e, list):
            expect(got[i] if i < len(got) else None, e, "map operations %r" % lines[:40])
            i += 1
        elif e[0] == "iter":
            items = []
            while i < len(got) and got[i][0] == b"it":
                items.append((bytes(got[i][1]), got[i][2]))
                i += 1
            expect(got[i], [b"end"], "map iteration")
            i += 1
            expect(sorted(items), sorted((enc(k), b"%d" % x) for k, x in e[1].items()), "map iteration after %r" % lines[:40])
        else:
            fr = []
            while i < len(got) and got[i][0] == b"free":
                fr.append((bytes(got[i][1]), got[i][2]))
                i += 1
            expect(got[i], [e[2]], "map end")
            i += 1
            expect(sorted(fr), sorted((enc(k) if kind == 0 else b"-", b"%d" % x) for k, x in e[1].items()), "values released by %s" % e[2].decode())
    expect(got[i:], [], "map output")
    return grown > 64 or removed > 0


def run_list(ini, us, ops):
    lines = ["list %d %d" % (ini, us)]
    m, m2 = [], None
    exp = []
    el = lambda x: bytes((x * (i + 1) + i) % 256 for i in range(us))
    E = lambda x: h(el(x))
    dump = lambda l: [b"list", b"%d" % len(l)] + [el(x) for x in l] + [b"ok"]
    big = 0
    c = 0
    for op in ops:
        o = op[0]
        if o == "push":
            lines.append("push " + E(op[1]))
            m.append(op[1])
        elif o == "unshift":
            lines.append("unshift " + E(op[1]))
            m.insert(0, op[1])
        elif o in ("pop", "shift"):
            lines.append(o)
            if m:
                m.pop(-1 if o == "pop" else 0)
        elif o == "ins":
            lines.append("ins %d %s" % (op[1], E(op[2])))
            if op[1] <= len(m):
                m.insert(op[1], op[2])
        elif o == "set":
            lines.append("set %d %s" % (op[1], E(op[2])))
            if op[1] < len(m):
                m[op[1]] = op[2]
        elif o == "rm":
            lines.append("rm %d" % op[1])
            if op[1] < len(m):
                m.pop(op[1])
        elif o in ("rmby", "find"):
            lines.append("%s %s" % (o, E(op[1])))
            i = next((i for i, x in enumerate(m) if el(x) == el(op[1])), -1)
            exp.append([o.encode(), b"%d" % i])
            if o == "rmby" and i >= 0:
                m.pop(i)
        elif o == "peek":
            lines.append("peek")
            exp.append([b"peek", el(m[-1]) if m else b"-"])
        elif o == "clone":
            lines.append("clone")
            m2 = list(m)
            exp.append(dump(m2))
        elif o == "swap":
            lines.append("swap")
            if m2 is not None:
                m, m2 = m2, m
        elif o in ("clear", "reset"):
            lines.append(o)
            m.clear()
        elif o in ("push*", "unshift*"):
            for k in range(op[1]):
                c = (c + 1) % 256
                lines.append("%s %s" % (o[:-1], E(c)))
                m.insert(len(m) if o == "push*" else 0, c)
        else:
            for k in range(op[1]):
                if o == "rm*":
                    lines.append("rm %d" % (len(m) // 2))
                    if m:
                        m.pop(len(m) // 2)
                else:
                    lines.append(o[:-1])
                    if m:
                        m.pop(-1 if o == "pop*" else 0)
        big = max(big, len(m))
        lines.append("dump")
        exp.append(dump(m))
    lines.append("destroy")
    exp.append([b"destroyed", b"1"])
    got = server().call(lines)
    for i, e in enumerate(exp):
        expect(got[i] if i < len(got) else None, e, "list operations %r" % lines)
    expect(len(got), len(exp), "list output")
    return big > 32 or any(o[0] in ("pop", "shift", "rm", "rmby", "shift*", "pop*", "rm*") for o in ops)


def L(x):
    return x.encode("latin-1")


def run_xstr(ini, ops, keep):
    lines = ["sb %d" % ini]
    m = b""
    exp = []
    for op in ops:
        o = op[0]
        if o in ("cat2", "cat"):
            m += L(op[1])
            lines.append("%s %s" % (o, h(op[1])))
        elif o == "unshift":
            m = L(op[1]) + m
            lines.append("unshift %s" % h(op[1]))
        elif o == "shift":
            m = m[op[1]:]
            lines.append("shift %d" % op[1])
        elif o == "pop":
            m = m[:max(0, len(m) - op[1])]
            lines.append("pop %d" % op[1])
        elif o == "ins":
            if op[1] <= len(m):
                m = m[:op[1]] + L(op[2]) + m[op[1]:]
            lines.append("ins %d %s" % (op[1], h(op[2])))
        elif o == "printf":
            m += L(op[1]) + b"|%d|" % op[2] + L(op[3]).ljust(5) + b"|%"
            lines.append("printf %s %d %s" % (h(op[1]), op[2], h(op[3])))
        elif o == "rep":
            m += bytes([op[1]]) * op[2]
            lines.append("rep x%02x %d" % (op[1], op[2]))
        else:
            m = b""
            lines.append("clear")
        lines.append("dump")
        exp.append([b"sb", m, b"0"])
    if keep:
        lines.append("keep")
        exp.append([b"keep", m])
    else:
        lines.append("destroy")
    got = server().call(lines)
    for i, e in enumerate(exp):
        expect(got[i] if i < len(got) else None, e, "string builder operations %r" % [x[:80] for x in lines])
    return len(m) > 16 or any(o[0] in ("shift", "pop", "ins", "unshift") for o in ops)


def ref_split(s, chars, ws):
    out, cur = [], ""
    for c in s:
        if c in chars:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return [x.strip(" \t\n\v\f\r") if ws else x for x in out]


def run_pool(mode, pre, ops):
    lines = ["pool %d %d" % (mode, pre)]
    exp = []
    n = 0
    tot = 0
    for op in ops:
        o = op[0]
        if o in ("alloc", "calloc"):
            lines.append("%s %d" % (o, op[1]))
            n += 1
            tot += op[1]
        elif o == "dup":
            lines.append("dup %s" % h(op[1]))
            n += 1
        elif o == "ndup":
            lines.append("ndup %s %d" % (h(op[1]), op[2]))
            exp.append([b"ndup", L(op[1])[:op[2]]])
            n += 1
        elif o == "printf":
            lines.append("printf %s %d %s" % (h(op[1]), op[2], h(op[3])))
            exp.append([b"printf", L(op[1]) + b"/%d/" % op[2] + L(op[3]).rjust(5) + b"%"])
            n += 1
        elif o == "split":
            lines.append("split %s %s %d" % (h(op[1]), h(op[2]), op[3]))
            r = ref_split(op[1], op[2], op[3])
            exp.append([b"split"] + [x.encode() for x in r])
            n += len(r)
        else:
            lines.append("nulls")
            exp.append([b"nulls", b"1"])
    lines += ["verify", "destroy"]
    exp += [[b"verified", b"%d" % n], [b"destroyed", b"%d" % (mode == 2)]]
    got = server().call(lines)
    for i, e in enumerate(exp):
        expect(got[i] if i < len(got) else None, e, "pool operations %r" % [x[:80] for x in lines])
    expect(len(got), len(exp), "pool output")
    return n > 3


SP = " \t\n\v\f\r"


def ref_words(s):
    out = []
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in SP:
            i += 1
        if i >= n:
            return out
        w, q = "", ""
        while i < n and (q or s[i] not in SP):
            c = s[i]
            if c == "\\":
                if i + 1 < n:
                    w += s[i + 1]
                i += 2
            elif q and c == q:
                q = ""
                i += 1
            elif not q and c in "'\"":
                q = c
                i += 1
            else:
                w += c
                i += 1
        out.append(w)


def ref_num(t, base, lo, hi, nl):
    """strtol of the whole text"""
    m = re.match(r"[ \t\n\v\f\r]*([+-]?)(.*)\Z", t, re.S)
    sign, d = m.group(1), m.group(2)
    if nl and "\n" in d:
        d = d[:d.index("\n")]
    b = base
    if b in (0, 16) and re.match(r"0[xX][0-9a-fA-F]", d):
        d, b = d[2:], 16
    elif b == 0:
        b = 8 if d.startswith("0") else 10
    digs = "0123456789abcdef"[:b]
    if not d or any(c.lower() not in digs for c in d):
        return None
    v = int(d, b) * (-1 if sign == "-" else 1)
    return v if lo <= v <= hi else None


def run_str(ops):
    lines, exp = ["fs"], []
    nt = False
    for k, op in enumerate(ops):
        o = op[0]
        if o == "words":
            if any("\0" in x for x in op[1:]):
                continue
            lines.append("words " + " ".join(h(x) for x in op[1:]))
            ws = []
            for a in op[1:]:
                if a.startswith("\1"):
                    ws += a[1:].split("\1")
                else:
                    ws += ref_words(a)
            exp.append([b"words", L("".join("\1" + x for x in ws)), b"items"] + [L(x) for x in ws if x])
            nt = nt or len(ws) > 1
        elif o == "vlist":
            lines.append("vlist " + " ".join(h(x) for x in op[1:]))
            exp.append([b"vlist", L("".join("\1" + x for x in op[1:])), b"items"] + [L(x) for x in op[1:] if x])
        elif o in ("strtol", "strtoll"):
            if o == "strtoll" and op[1].startswith("\n"):
                continue
            lines.append("%s %s %d %d" % (o, h(op[1]), op[2], op[3]))
            v = ref_num(op[1], op[2], -2 ** 63, 2 ** 63 - 1, o == "strtoll")
            exp.append([b"num", b"%d" % (v or 0), b"%d" % (v is None)])
            nt = True
        elif o in ("swith", "ewith"):
            lines.append("%s %s %s" % (o, h(op[1]), h(op[2])))
            exp.append([b"b", b"%d" % (op[1].startswith(op[2]) if o == "swith" else op[1].endswith(op[2]))])
        elif o == "strncpy":
            lines.append("strncpy %s %d" % (h(op[1]), op[2]))
            exp.append([b"cpy", L(op[1])[:op[2] - 1] if op[2] else b"Z"])
        elif o == "strnncpy":
            if op[2] > len(op[1]):
                continue
            lines.append("strnncpy %s %d %d" % (h(op[1]), op[2], op[3]))
            exp.append([b"cpy", L(op[1])[:min(op[2], op[3] - 1)] if op[3] else b"Z"])
        elif o == "replace":
            lines.append("replace %s %s %s" % (h(op[1]), h(op[2]), h(op[3])))
            exp.append([b"cpy", L(op[1].replace(op[2], op[3]))])
        elif o == "lround":
            x = float(op[1])
            lines.append("lround %s" % h(op[1]))
            v = int(abs(x) + 0.5) if abs(x) < 1e15 else 2 ** 63
            v = v if x >= 0 else -v
            exp.append([b"num", b"%d" % max(-2 ** 63, min(2 ** 63 - 1, v)), b"0"])
        elif o == "file":
            f = h("f%d" % k)
            g = h("g%d" % k)
            a, b, app, lim, big = op[1:]
            content = L(b) + (b"" if not app else b"")
            lines.append("fwrite %s %s 0" % (f, h(a)))
            lines.append("fwrite %s %s %d" % (f, h(b), app))
            exp += [[b"rc", b"0"]] * 2
            content = (L(a) if app else b"") + L(b)
            lines += ["fcopy %s %s" % (f, g), "fread %s %d" % (g, lim)]
            exp.append([b"rc", b"0"])
            over = 0 <= lim < len(content)
            exp.append(("file", over, content))
            lines += ["fren %s %s" % (g, f), "fread %s -1" % f, "fread %s -1" % g, "mk %s %d" % (g, big), "fcopy %s %s" % (g, f), "fread %s -1" % f, "fcopy %s %s" % (h("nope"), f)]
            exp += [[b"rc", b"0"], [b"file", b"0", content, b"0"], [b"file", b"1", b"-"], [b"rc", b"0"], [b"file", b"0", bytes(97 + i % 26 for i in range(big)), b"0"], [b"rc", b"1"]]
            nt = True
    got = server().call(lines)
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else None
        if isinstance(e, tuple):
            if e[1]:
                if not g or g[1] != b"1":
                    raise Violation("file longer than the limit was read without an error: %r" % (g,))
                continue
            e = [b"file", b"0", e[2], b"0"]
        expect(g, e, "calls %r" % [x[:100] for x in lines])
    return nt


def run_case(part, case):
    return {"map": run_map, "list": run_list, "xstr": run_xstr, "pool": run_pool, "str": lambda *a: run_str(list(a))}[part](*case)
