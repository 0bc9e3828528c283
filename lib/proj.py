"""Generated projects of run / cc / configure / check / foreach rules over nested scripts, their edits, and a dependency
model. A project is a JSON value (spec); render() gives its files, apply() performs one edit."""
import copy, json, os
from hypothesis import strategies as st
from harness import quote

UDIRS = [["."], [".", "sub1"], [".", "sub1", "sub2"], [".", "sub1", "sub1/deep"]]
TEXTS = ["a", "b", "x1", "two words", "k=v", "-Dq", "0", "1", "long" * 9, "t\tab", "#h", "e.x"]
SAFE = ["a", "b", "x1", "k=v", "-Dq", "0", "1", "e.x"]
NOPT, NENV, NVAR = 3, 2, 5


def parent_of(u, udirs):
    """Index of the unit that includes unit u."""
    if u == 0:
        return None
    d = udirs[u]
    if "/" in d:
        return udirs.index(os.path.dirname(d))
    return 0


def chain(u, udirs):
    out = []
    while u is not None:
        out.append(u)
        u = parent_of(u, udirs)
    return out


def join(d, f):
    return f if d == "." else d + "/" + f


# ------------------------------------------------------------------ generation

def lit():
    return st.sampled_from(TEXTS).map(lambda t: ["l", t])


def names():
    return st.one_of(st.integers(0, NVAR - 1).map(lambda i: "V%d" % i), st.integers(0, NOPT - 1).map(lambda i: "O%d" % i),
                     st.integers(0, NENV - 1).map(lambda i: "E%d" % i))


def exprs(depth, vmax, nfiles, subst=True):
    """Expression over literals and names; V<j> only with j < vmax."""
    nm = st.one_of(*([st.integers(0, vmax - 1).map(lambda i: "V%d" % i)] if vmax else []),
                   st.integers(0, NOPT - 1).map(lambda i: "O%d" % i), st.integers(0, NENV - 1).map(lambda i: "E%d" % i))
    base = [lit(), nm.map(lambda n: ["v", n, None]), st.tuples(nm, st.sampled_from(SAFE)).map(lambda t: ["v", t[0], t[1]])]
    if subst and nfiles:
        base.append(st.integers(0, nfiles - 1).map(lambda i: ["f", i]))
    if depth <= 0:
        return st.one_of(*base)
    sub = exprs(depth - 1, vmax, nfiles, False)
    rec = [st.lists(sub, min_size=1, max_size=3).map(lambda x: ["j", x]),
           st.tuples(nm, sub, st.one_of(st.none(), sub)).map(lambda t: ["if", t[0], t[1], t[2]])]
    if subst:
        rec += [st.lists(sub, min_size=1, max_size=2).map(lambda x: ["a", x]),
                st.lists(sub, min_size=1, max_size=2).map(lambda x: ["c", x])]
    return st.one_of(*(base + base + rec))


FEATURES = dict(cc=True, cfg=True, chk=True, fe=True, always=True, subst=True, guard=True, mac=True, units=3, rules=7)


@st.composite
def specs(draw, **kw):
    F = dict(FEATURES)
    F.update(kw)
    I = lambda a, b: draw(st.integers(a, b))
    B = lambda p=2: draw(st.integers(0, p - 1)) == p - 1
    udirs = draw(st.sampled_from(UDIRS[:max(1, F["units"] + 1)]))
    nu = len(udirs)
    s = {"udirs": udirs, "files": [], "vars": [], "rules": [], "opts": {}, "env": {}, "J": None, "hdrs": [], "order": 0, "extra": []}
    for i in range(I(2, 5)):
        s["files"].append({"u": I(0, nu - 1), "v": 0})
    for i in range(I(0, 3)):
        # headers: include later headers only
        s["hdrs"].append({"u": I(0, nu - 1), "v": 0, "inc": []})
    for i, h in enumerate(s["hdrs"]):
        if i + 1 < len(s["hdrs"]) and B():
            h["inc"] = [I(i + 1, len(s["hdrs"]) - 1)]
    nf = len(s["files"])
    for i in range(NOPT):
        if B():
            s["opts"]["O%d" % i] = draw(st.sampled_from(TEXTS + [""]))
    for i in range(NENV):
        if B():
            s["env"]["E%d" % i] = draw(st.sampled_from(TEXTS + [""]))
    for i in range(NVAR):
        k = I(0, 3)
        if k == 0:
            continue
        ex = draw(st.lists(exprs(1, i, nf if F["subst"] else 0, F["subst"]), min_size=1, max_size=3))
        s["vars"].append({"n": "V%d" % i, "u": I(0, nu - 1), "let": B(4), "ex": ex, "sp": B(4)})
    kinds = ["run", "run", "run"] + (["cc", "cc"] if F["cc"] else []) + (["cfg"] if F["cfg"] else []) + \
            (["chk"] if F["chk"] else []) + (["fe"] if F["fe"] else [])
    nr = I(2, F["rules"])
    focus = draw(st.sampled_from([None, None, ["run", "cc"], ["cfg"], ["chk", "run", "cfg"], ["fe", "run"], ["cc", "cfg"]]))
    if focus:
        kinds = [k for k in kinds if k in focus] or kinds
        nr = min(nr, 4)
    nchk = 0
    for n in range(nr):
        k = draw(st.sampled_from(kinds))
        u = I(0, nu - 1)
        r = {"k": k, "id": n, "u": u, "on": True}
        prods = [x["id"] for x in s["rules"] if x["k"] in ("run", "cfg", "fe")]
        ccs = [x["id"] for x in s["rules"] if x["k"] == "cc" and x["u"] == u]
        ar = st.lists(exprs(2, NVAR, nf if F["subst"] else 0, F["subst"]), max_size=3)
        if k == "run":
            ins = []
            for _ in range(I(0, 3)):
                c = I(0, 2)
                if c == 0 or (c == 1 and not prods) or (c == 2 and not ccs):
                    ins.append(["f", I(0, nf - 1)])
                elif c == 1:
                    ins.append(["r", draw(st.sampled_from(prods)), I(0, 1)])
                else:
                    ins.append(["o", draw(st.sampled_from(ccs))])
            r.update(ins=ins, nout=I(1, 2), args=draw(ar), sh=B(4), always=F["always"] and B(8), mac=F["mac"] and B(5),
                     guard=draw(names()) if F["guard"] and B(4) else None, gen=B(3), two=B(5))
        elif k == "cc":
            srcs = []
            gens = [x["id"] for x in s["rules"] if x["k"] == "run" and x["u"] == u and x.get("gen") and not x["guard"]
                    and not any(y["k"] == "cc" and any(z.get("gen") == x["id"] for z in y["srcs"]) for y in s["rules"])]
            hprod = [x["id"] for x in s["rules"] if x["k"] in ("cfg", "run") and x["u"] == u]
            for j in range(I(1, 4)):
                if gens and I(0, 2):
                    g = gens.pop()
                    srcs.append({"gen": g})
                    continue
                srcs.append({"v": 0, "inc": draw(st.lists(st.integers(0, len(s["hdrs"]) - 1), max_size=2, unique=True)) if s["hdrs"] else [],
                             "ginc": draw(st.lists(st.sampled_from(hprod), max_size=1)) if hprod else []})
            r.update(srcs=srcs, args=draw(st.lists(exprs(1, NVAR, nf if F["subst"] else 0, F["subst"]), max_size=2)),
                     cxx=B(4), ccvar=draw(st.sampled_from([None, None, "lit", "var"])),
                     cons=sorted({g for x in srcs for g in x.get("ginc", [])}))
        elif k == "cfg":
            r.update(lines=draw(st.lists(tmpl_line(), min_size=1, max_size=4)), ext=draw(st.sampled_from([".h.in", ".txt.in", ".txt"])),
                     more=draw(st.lists(st.lists(tmpl_line(), min_size=1, max_size=2), max_size=2)))
        elif k == "chk":
            r.update(deps=draw(st.lists(st.integers(0, nf - 1), max_size=2, unique=True)), env=draw(st.lists(st.integers(0, NENV - 1), max_size=2, unique=True)),
                     sets=draw(st.lists(st.integers(0, 2), min_size=1, max_size=2, unique=True)), v=0, arg=draw(st.lists(lit(), max_size=1)))
            nchk += 1
        elif k == "fe":
            its = draw(st.lists(st.integers(0, nf - 1), min_size=1, max_size=3, unique=True))
            its = [i for i in its if s["files"][i]["u"] == s["files"][its[0]]["u"]]
            rp = [x["id"] for x in s["rules"] if x["k"] == "run" and x["u"] == u]
            r.update(items=its, ritems=draw(st.lists(st.sampled_from(rp), min_size=1, max_size=3, unique=True)) if rp and B() else None,
                     ins=[["r", draw(st.sampled_from(prods)), 0]] if prods and B(3) else [], args=draw(ar), always=False)
        s["rules"].append(r)
    s["order"] = draw(st.one_of(st.just(0), st.integers(0, 5000)))
    if F["guard"]:
        for _ in range(I(0, 2)):
            s["extra"].append({"u": I(0, nu - 1), "guard": draw(names()), "pos": I(0, 6), "mac": B()})
    return s


def tmpl_line():
    n = names()
    return st.one_of(st.sampled_from(["plain", "", "a@b", "x @ y"]).map(lambda t: ["l", t]), n.map(lambda x: ["@", x]),
                     n.map(lambda x: ["d", x, ""]), n.map(lambda x: ["d", x, '"']), n.map(lambda x: ["d", x, "1"]))


# ------------------------------------------------------------------ rendering

def r_expr(s, u, e):
    t = e[0]
    if t == "l":
        return quote(e[1])
    if t == "v":
        return "${%s}" % e[1] if e[2] is None else "${%s %s}" % (e[1], quote(e[2]))
    if t == "j":
        return "^{%s}" % " ".join(r_expr(s, u, x) for x in e[1])
    if t == "if":
        r = "if { ${%s} %s }" % (e[1], r_expr(s, u, e[2]))
        if e[3] is not None:
            r += " else { %s }" % r_expr(s, u, e[3])
        return r
    if t == "a":
        return "@{pt say %s}" % " ".join(r_expr(s, u, x) for x in e[1])
    if t == "c":
        return "@@{pt csay %s}" % " ".join(r_expr(s, u, x) for x in e[1])
    if t == "f":
        return "@{pt cat S{%s}}" % fpath(s, e[1])
    raise ValueError(e)


def fpath(s, i):
    return join(s["udirs"][s["files"][i]["u"]], "f%d.txt" % i)


def hpath(s, i):
    return join(s["udirs"][s["hdrs"][i]["u"]], "h%d.h" % i)


def spath(s, r, j):
    return join(s["udirs"][r["u"]], "s%d_%d%s" % (r["id"], j, ".cc" if r["cxx"] else ".c"))


def tpath(s, r):
    return join(s["udirs"][r["u"]], "t%d%s" % (r["id"], r["ext"]))


def tnames(r):
    return ["t%d%s" % (r["id"], r["ext"])] + ["t%d%s%s" % (r["id"], "abc"[i], r["ext"]) for i in range(len(r["more"]))]


def rule(s, n):
    for r in s["rules"]:
        if r["id"] == n:
            return r


def items_of(s, r):
    return r["items"]


def outs(s, r):
    """Product file names (relative to the unit's cache directory)."""
    if r["k"] == "run":
        if r["gen"]:
            return ["r%d_%d.c" % (r["id"], j) for j in range(r["nout"])]
        return ["r%d_%d.out" % (r["id"], j) for j in range(r["nout"])]
    if r["k"] == "cfg":
        return [b[:-3] if b.endswith(".in") else b for b in tnames(r)]
    if r["k"] == "fe":
        return ["%s.fo%d" % (i, r["id"]) for i in fe_items(s, r)]
    if r["k"] == "cc":
        o = []
        for j, x in enumerate(r["srcs"]):
            if "gen" in x:
                o.append("r%d_0.o" % x["gen"])
            else:
                o.append("s%d_%d.o" % (r["id"], j))
        return o
    return []


def fe_items(s, r):
    if r["ritems"]:
        return [outs(s, rule(s, i))[0].rsplit(".", 1)[0] for i in r["ritems"] if rule(s, i)["on"]]
    return ["f%d" % i for i in r["items"]]


def pick_out(s, n, o):
    os_ = outs(s, rule(s, n))
    return os_[o % len(os_)]


def ref_name(s, u, ref, use):
    """Text naming a reference from unit u. use: 'c' in consumes, 'i' as a command argument."""
    if ref[0] == "f":
        fu = s["files"][ref[1]]["u"]
        if use == "c" and fu == u:
            return "f%d.txt" % ref[1]
        return "S{%s}" % fpath(s, ref[1])
    if ref[0] == "r":
        r = rule(s, ref[1])
        nm = pick_out(s, ref[1], ref[2])
        if r["u"] == u:
            return nm
        return "C{%s}" % join(s["udirs"][r["u"]], nm)
    if ref[0] == "o":
        return "${OBJS%d}" % ref[1]
    raise ValueError(ref)


def live_ins(s, r):
    """References to rules which are switched off are not used."""
    return [x for x in r["ins"] if x[0] == "f" or rule(s, x[1])["on"]]


def r_rule(s, r, lines):
    u, n = r["u"], r["id"]
    ex = lambda l: " ".join(r_expr(s, u, e) for e in l)
    if r["k"] == "run":
        o = outs(s, r)
        ins = live_ins(s, r)

        def body(tag):
            cmd = "pt mk %s -o %s" % (tag, " ".join(o))
            if ins:
                cmd += " -i " + " ".join(ref_name(s, u, x, "i") for x in ins)
            args = "-a " + ex(r["args"])
            t = "run {\n" + ("  always\n" if r["always"] else "")
            if r.get("bad"):
                t += "  %s\n" % r["bad"]
            if r["two"]:
                t += "  exec { pt args pre%d }\n" % n
            if r["sh"]:
                t += "  shell { %s %s }\n" % (cmd, args)
            else:
                t += "  exec { %s\n    %s }\n" % (cmd, args)
            cons = [ref_name(s, u, x, "c") for x in ins] + r.get("xin", [])
            if cons:
                t += "  consumes { %s }\n" % " ".join(cons)
            t += "  produces { %s }\n}" % " ".join(o + r.get("xout", []))
            return t
        tag = "r%d" % n
        if r["mac"]:
            mac = "macro {\n M%d\n %s\n}\n" % (n, body("&{1}"))
            call = "call { M%d %s }" % (n, tag)
            if r["guard"]:
                call = "if { ${%s} %s } else { call { M%d %s } }" % (r["guard"], call, n, tag + "e")
            lines.append(mac + call)
        elif r["guard"]:
            lines.append("if { ${%s}\n%s\n} else {\n%s\n}" % (r["guard"], body(tag), body(tag + "e")))
        else:
            lines.append(body(tag))
    elif r["k"] == "cc":
        names_ = []
        for j, x in enumerate(r["srcs"]):
            if "gen" in x:
                names_.append("r%d_0.c" % x["gen"])
            else:
                names_.append(os.path.basename(spath(s, r, j)))
        inc = " ".join("-I S{%s}" % d for d in sorted({s["udirs"][h["u"]] for h in s["hdrs"]}))
        t = "%s {\n  set { _ %s }\n  set { _ %s %s }\n" % ("cxx" if r["cxx"] else "cc", " ".join(names_), ex(r["args"]), inc)
        if r["ccvar"] == "lit":
            t += "  fakecc\n"
        elif r["ccvar"] == "var":
            t += "  ${MYCC fakecc}\n"
        cons = [rule(s, c) for c in r["cons"] if rule(s, c)["on"]]
        if cons:
            t += "  consumes { %s }\n" % " ".join(outs(s, c)[0] for c in cons)
        t += "  objects { OBJS%d }\n}" % n
        lines.append(t)
    elif r["k"] == "cfg":
        lines.append("configure { %s }" % " ".join(tnames(r)))
    elif r["k"] == "chk":
        a = ["CHK%d" % n] + ["S{%s}" % fpath(s, i) for i in r["deps"]] + [r_expr(s, u, x) for x in r["arg"]]
        lines.append("check { c%d.sh { %s } }" % (n, " ".join(a)))
    elif r["k"] == "fe":
        it = "IT%d" % n
        ins = live_ins(s, r)
        if r["ritems"]:
            # products of the same script, consumed as they are
            lst = " ".join(outs(s, rule(s, i))[0] for i in r["ritems"] if rule(s, i)["on"])
            name, inp = "%%{${%s}}" % it, "${%s}" % it
        else:
            lst = " ".join("f%d" % i for i in r["items"])
            name = "${%s}" % it
            inp = "S{%s ^{${%s} .txt}}" % (s["udirs"][s["files"][r["items"][0]]["u"]], it)
        cmd = "pt mk ^{F%d. %s} -o ^{%s .fo%d} -i %s %s -a %s" % (
            n, name, name, n, inp, " ".join(ref_name(s, u, x, "i") for x in ins), ex(r["args"]))
        lines.append("foreach {\n  %s\n  set { _ %s }\n  run {\n    %s exec { %s }\n    consumes { %s %s }\n    produces { ^{%s .fo%d} }\n  }\n}" % (
            it, lst, r.get("bad") or "", cmd, inp, " ".join(ref_name(s, u, x, "c") for x in ins), name, n))


def rotate(l, k):
    """A permutation of l chosen by k."""
    l = list(l)
    out = []
    while l:
        out.append(l.pop(k % len(l)))
        k = k // max(1, len(l) + 1)
    return out


def render(s):
    """rel path -> (text, mode)"""
    out = {}
    for i, f in enumerate(s["files"]):
        out[fpath(s, i)] = (f.get("t") or "file %d v%s" % (i, f["v"]), None)
    for i, h in enumerate(s["hdrs"]):
        t = "".join('#include "h%d.h"\n' % j for j in h["inc"] if j > i) + (h.get("t") or "hdr %d v%s\n" % (i, h["v"]))
        out[hpath(s, i)] = (t, None)
    for u, d in enumerate(s["udirs"]):
        lines = []
        for v in s["vars"]:
            if v["u"] == u:
                e = [r_expr(s, u, x) for x in v["ex"]]
                if v["sp"] and v["ex"][0][0] in ("v", "a", "c", "j"):
                    e[0] = ".." + e[0]
                lines.append("%s { %s %s }" % ("let" if v["let"] else "set", v["n"], " ".join(e)))
        for r in s["rules"]:
            if r["u"] == u and r["k"] == "chk" and r["on"]:
                r_rule(s, r, lines)
        body = []
        for r in s["rules"]:
            if r["u"] == u and r["k"] != "chk" and r["on"]:
                one = []
                r_rule(s, r, one)
                body += one
        for c, cd in enumerate(s["udirs"]):
            if c and parent_of(c, s["udirs"]) == u:
                rel = cd if d == "." else os.path.relpath(cd, d)
                body.append("include { %s/Autark }" % rel)
        if s.get("err") and s["err"][0] == u:
            body.append("error { stop here }" if s["err"][1] else "if { !defined { NOSUCH } error { stop ${V0} } }")
        body = rotate(body, s["order"])
        for i, x in enumerate(s["extra"]):
            if x["u"] == u:
                if x["mac"]:
                    lines.append("macro { MX%d run { exec { pt mk X%d -o x%d.out -a &{} } produces { x%d.out } } }" % (i, i, i, i))
                    t = "if { ${%s} call { MX%d q } }" % (x["guard"], i)
                else:
                    t = "if { ${%s} include { x%d.aut } }" % (x["guard"], i)
                    out[join(d, "x%d.aut" % i)] = ("run { exec { pt mk X%d -o x%d.out -a ${V0} } produces { x%d.out } }" % (i, i, i), None)
                body.insert(x["pos"] % (len(body) + 1), t)
        lines += body
        out[join(d, "Autark")] = ("\n".join(lines) + "\n# end\n" + "\n" * s.get("nl%d" % u, 0), None)
    for r in s["rules"]:
        if not r["on"]:
            continue
        if r["k"] == "cc":
            for j, x in enumerate(r["srcs"]):
                if "gen" not in x:
                    t = "".join('#include "h%d.h"\n' % h for h in x["inc"])
                    t += "".join('#include "%s"\n' % outs(s, rule(s, g))[0] for g in x["ginc"] if g in r["cons"] and rule(s, g)["on"])
                    t += x.get("t") or "src v%s\n" % x["v"]
                    out[spath(s, r, j)] = (t, None)
        elif r["k"] == "cfg":
            for nm, ls in zip(tnames(r), [r["lines"]] + r["more"]):
                t = []
                for l in ls:
                    if l[0] == "l":
                        t.append(l[1])
                    elif l[0] == "@":
                        t.append("p @%s@ q" % l[1])
                    else:
                        t.append(("//autarkdef %s %s" % (l[1], l[2])).rstrip())
                out[join(s["udirs"][r["u"]], nm)] = ("\n".join(t) + "\n", None)
        elif r["k"] == "chk":
            t = "#!/bin/sh\nset -e\npt args \"$1\"\n"
            for k, i in enumerate(r["deps"]):
                t += 'autark dep "$%d"\n' % (k + 2)
                t += 'if grep -q "#fail" "$%d"; then exit 3; fi\n' % (k + 2)
            for e in r["env"]:
                t += "autark env E%d\n" % e
            for k in r["sets"]:
                val = "c%d-%s" % (r["id"], r["v"])
                if r["deps"]:
                    val += "-$(cat \"$2\")"
                if r["env"]:
                    val += "-$E%d" % r["env"][0]
                if r["arg"]:
                    val += "-$%d" % (len(r["deps"]) + 2)
                # variables of options, so that rules read them
                t += 'autark set "V%d=%s"\n' % (k, val)
            out[join(s["udirs"][r["u"]], ".autark/c%d.sh" % r["id"])] = (t, 0o755)
    return out


def cli(s):
    a = []
    for k in sorted(s["opts"]):
        if s["opts"][k] is not None:
            a.append("-D%s=%s" % (k, s["opts"][k]))
    if s["J"]:
        a.append("-J%d" % s["J"])
    return a


def environ(s):
    e = {"E%d" % i: None for i in range(NENV)}
    e.update({k: v for k, v in s["env"].items()})
    return e


# ------------------------------------------------------------------ edits

def edits(structural=True):
    i = st.integers(0, 1000)
    v = st.integers(0, 3)
    tog = st.one_of(st.none(), st.sampled_from(["", "0", "1", "two words"]), st.sampled_from(TEXTS + [""]))
    ops = [st.tuples(st.just("file"), i, v), st.tuples(st.just("touch"), i),
           st.tuples(st.just("hdr"), i, v), st.tuples(st.just("src"), i, v), st.tuples(st.just("hdr"), i, v),
           st.tuples(st.just("opt"), i, tog), st.tuples(st.just("opt"), i, tog),
           st.tuples(st.just("env"), i, tog), st.tuples(st.just("env"), i, tog),
           st.tuples(st.just("J"), st.integers(1, 6)), st.tuples(st.just("none"))]
    if structural:
        ops += [st.tuples(st.just("var"), i, exprs(1, 0, 0, False)), st.tuples(st.just("args"), i, st.lists(exprs(1, NVAR, 1), max_size=2)),
                st.tuples(st.just("ins"), i, i), st.tuples(st.just("on"), i), st.tuples(st.just("inc"), i, i), st.tuples(st.just("tmpl"), i, tmpl_line()),
                st.tuples(st.just("chk"), i, v), st.tuples(st.just("order"), st.integers(0, 5000)), st.tuples(st.just("items"), i, i),
                st.tuples(st.just("nl"), i), st.tuples(st.just("chkarg"), i, st.sampled_from(TEXTS)), st.tuples(st.just("hinc"), i, i)]
    return st.one_of(*ops).map(list)


def leaf(s, r):
    n = r["id"]
    for x in s["rules"]:
        if x is r:
            continue
        if any(y[0] in ("r", "o") and y[1] == n for y in x.get("ins", [])):
            return False
        if x["k"] == "fe" and x["ritems"] and n in x["ritems"]:
            return False
        if x["k"] == "cc" and (n in x["cons"] or any(y.get("gen") == n for y in x["srcs"])):
            return False
    return True


def used_names(s):
    acc = set()
    for a in steps(s).values():
        acc |= {x[1] for x in a if x[0] == "name"}
    return acc


def apply(s, op):
    """Returns (new spec, set of touched paths without content change)."""
    r = _apply(s, op)
    if op[0] not in ("none", "file", "opt", "env", "J") and r[0] == s and not r[1]:
        # not applicable to this project
        r = _apply(s, ["file", op[1], 1 + op[1] % 3] if op[1] % 2 else ["opt", op[1] // 2, ["", "0", "1", None][op[1] // 2 % 4]])
    return r


def _apply(s, op):
    s = copy.deepcopy(s)
    touched = set()
    o = op[0]
    by = lambda *k: [r for r in s["rules"] if r["k"] in k]
    if o == "file":
        s["files"][op[1] % len(s["files"])]["v"] = op[2]
    elif o == "touch":
        ps = sorted(render(s))
        touched.add(ps[op[1] % len(ps)])
    elif o == "hdr" and s["hdrs"]:
        s["hdrs"][op[1] % len(s["hdrs"])]["v"] = op[2]
    elif o == "src":
        l = [x for r in by("cc") for x in r["srcs"] if "gen" not in x]
        if l:
            l[op[1] % len(l)]["v"] = op[2]
    elif o in ("opt", "env"):
        d, p = (s["opts"], "O") if o == "opt" else (s["env"], "E")
        us = sorted(x for x in used_names(s) if x[0] == p)
        k = us[op[1] % len(us)] if us else "%s%d" % (p, op[1] % 2)
        if op[2] is None:
            d.pop(k, None)
        else:
            d[k] = op[2]
    elif o == "J":
        s["J"] = op[1]
    elif o == "var" and s["vars"]:
        us = used_names(s)
        l = [v for v in s["vars"] if v["n"] in us] or s["vars"]
        l[op[1] % len(l)]["ex"] = [op[2]]
    elif o == "args":
        l = by("run", "cc", "fe")
        if l:
            l[op[1] % len(l)]["args"] = op[2]
    elif o == "ins":
        l = by("run")
        if l:
            r = l[op[1] % len(l)]
            if r["ins"] and op[2] % 3 == 0:
                r["ins"].pop(op[2] % len(r["ins"]))
            else:
                c = [["f", i] for i in range(len(s["files"]))] + [["r", x["id"], 0] for x in s["rules"] if x["k"] in ("run", "cfg", "fe") and x["id"] < r["id"]]
                x = c[op[2] % len(c)]
                if x not in r["ins"]:
                    r["ins"].append(x)
    elif o == "on":
        l = [r for r in s["rules"] if r["k"] == "chk" or leaf(s, r)]
        if l:
            r = l[op[1] % len(l)]
            r["on"] = not r["on"]
    elif o == "inc" and s["hdrs"]:
        l = [x for r in by("cc") for x in r["srcs"] if "gen" not in x]
        if l:
            x = l[op[1] % len(l)]
            h = op[2] % len(s["hdrs"])
            x["inc"] = [y for y in x["inc"] if y != h] if h in x["inc"] else x["inc"] + [h]
    elif o == "hinc" and len(s["hdrs"]) > 1:
        i = op[1] % (len(s["hdrs"]) - 1)
        h = s["hdrs"][i]
        j = i + 1 + op[2] % (len(s["hdrs"]) - 1 - i)
        h["inc"] = [y for y in h["inc"] if y != j] if j in h["inc"] else h["inc"] + [j]
    elif o == "tmpl":
        l = by("cfg")
        if l:
            r = l[op[1] % len(l)]
            ls = ([r["lines"]] + r["more"])[op[1] // 7 % (1 + len(r["more"]))]
            ls[op[1] % len(ls)] = op[2]
    elif o == "chk":
        l = by("chk")
        if l:
            r = l[op[1] % len(l)]
            r["v"] = op[2]
            if op[2] == 3:
                # other variables than before
                r["sets"] = [(r["sets"][0] + 1) % 3]
    elif o == "chkarg":
        l = by("chk")
        if l:
            l[op[1] % len(l)]["arg"] = [["l", op[2]]]
    elif o == "order":
        s["order"] = op[1]
    elif o == "items":
        l = by("fe")
        if l:
            r = l[op[1] % len(l)]
            same = [i for i, f in enumerate(s["files"]) if f["u"] == s["files"][r["items"][0]]["u"]]
            i = same[op[2] % len(same)]
            if i in r["items"] and len(r["items"]) > 1:
                # keep items that another rule consumes by position stable: only leaf lists shrink
                if leaf(s, r):
                    r["items"] = [y for y in r["items"] if y != i]
            elif i not in r["items"]:
                r["items"] = r["items"] + [i]
    elif o == "nl":
        k = "nl%d" % (op[1] % len(s["udirs"]))
        s[k] = (s.get(k, 0) + 1) % 3
    return s, touched


def write_state(box, old, s, touched=()):
    """Writes the differences between the rendered states; returns the changed paths."""
    a = render(old) if old is not None else {}
    b = render(s)
    changed = set(touched)
    for p in a:
        if p not in b:
            os.unlink(box.p(p))
            changed.add(p)
    for p, (t, m) in b.items():
        if a.get(p) != (t, m) or p in touched:
            box.write(p, t, m)
            changed.add(p)
    return changed


# ------------------------------------------------------------------ dependency model

def expr_atoms(s, e, acc):
    t = e[0]
    if t == "v":
        name_atoms(s, e[1], acc)
    elif t in ("j", "a", "c"):
        for x in e[1]:
            expr_atoms(s, x, acc)
    elif t == "if":
        name_atoms(s, e[1], acc)
        expr_atoms(s, e[2], acc)
        if e[3] is not None:
            expr_atoms(s, e[3], acc)
    elif t == "f":
        acc.add(("path", fpath(s, e[1])))


def name_atoms(s, n, acc):
    if ("name", n) in acc:
        return
    acc.add(("name", n))
    for v in s["vars"]:
        if v["n"] == n:
            acc.add(("unit", v["u"]))
            for e in v["ex"]:
                expr_atoms(s, e, acc)
    for r in s["rules"]:
        if r["k"] == "chk" and r["on"] and any(n == "V%d" % k for k in r["sets"]):
            acc.add(("rule", r["id"]))


def steps(s):
    """step id -> set of atoms: ('path', p) ('unit', u) ('name', n) ('rule', id) ('step', id).
    Step ids: 'r3', 'c2:<src path>', 't4' (configure), 'k5' (check), 'e6:<item>'."""
    out = {}
    for r in s["rules"]:
        if not r["on"]:
            continue
        base = {("unit", x) for x in chain(r["u"], s["udirs"])}
        for e in r.get("args", []) + r.get("arg", []):
            expr_atoms(s, e, base)
        n = r["id"]

        def refs(ins, acc):
            for x in ins:
                if x[0] == "f":
                    acc.add(("path", fpath(s, x[1])))
                else:
                    acc.add(("rule", x[1]))
        if r["k"] == "run":
            refs(live_ins(s, r), base)
            if r["guard"]:
                name_atoms(s, r["guard"], base)
            out["r%d" % n] = base
        elif r["k"] == "fe":
            refs(live_ins(s, r), base)
            if r["ritems"]:
                for i, nm in zip([i for i in r["ritems"] if rule(s, i)["on"]], fe_items(s, r)):
                    out["e%d:%s" % (n, nm)] = base | {("rule", i)}
            else:
                for i in r["items"]:
                    out["e%d:f%d" % (n, i)] = base | {("path", fpath(s, i))}
        elif r["k"] == "cc":
            for c in r["cons"]:
                if rule(s, c)["on"]:
                    base.add(("rule", c))
            name_atoms(s, "CC", base)
            for j, x in enumerate(r["srcs"]):
                a = set(base)
                if "gen" in x:
                    a.add(("rule", x["gen"]))
                    sid = "c%d:r%d_0.c" % (n, x["gen"])
                else:
                    sid = "c%d:%s" % (n, os.path.basename(spath(s, r, j)))
                    a.add(("path", spath(s, r, j)))
                    todo, seen = list(x["inc"]), set()
                    while todo:
                        h = todo.pop()
                        if h not in seen:
                            seen.add(h)
                            a.add(("path", hpath(s, h)))
                            todo += [y for y in s["hdrs"][h]["inc"] if y > h]
                out[sid] = a
        elif r["k"] == "cfg":
            for nm in tnames(r):
                base.add(("path", join(s["udirs"][r["u"]], nm)))
            for l in sum([r["lines"]] + r["more"], []):
                if l[0] != "l":
                    name_atoms(s, l[1], base)
            out["t%d" % n] = base
        elif r["k"] == "chk":
            base.add(("path", join(s["udirs"][r["u"]], ".autark/c%d.sh" % n)))
            for i in r["deps"]:
                base.add(("path", fpath(s, i)))
            for e in r["env"]:
                base.add(("name", "E%d" % e))
            out["k%d" % n] = base
    for i, x in enumerate(s["extra"]):
        base = {("unit", y) for y in chain(x["u"], s["udirs"])}
        base.add(("path", join(s["udirs"][x["u"]], "x%d.aut" % i)))
        name_atoms(s, x["guard"], base)
        name_atoms(s, "V0", base)
        out["X%d" % i] = base
    return out


def step_rule(sid):
    if sid[0] == "X":
        return -1 - int(sid[1:])
    return int(sid[1:].split(":")[0])


def closure(s, hit):
    """All steps which depend, transitively, on a direct hit. hit(step, atoms) -> bool."""
    st_ = steps(s)
    res = {k for k, a in st_.items() if hit(k, a)}
    while True:
        rules = {step_rule(k) for k in res}
        add = {k for k, a in st_.items() if k not in res and any(x[0] == "rule" and x[1] in rules for x in a)}
        if not add:
            return res
        res |= add


def executed(s, log):
    """Step ids executed according to the log (list form, in order), plus 'sub' events."""
    out = []
    for e in log:
        if e["ev"] == "mk":
            tag = e["args"][0]
            if tag.startswith("F"):
                n, _, item = tag[1:].partition(".")
                out.append("e%s:%s" % (n, item))
            else:
                out.append(tag.rstrip("e"))
        elif e["ev"] == "cc":
            b = os.path.basename(e["src"])
            if b.startswith("s"):
                out.append("c%s:%s" % (b[1:].split("_")[0], b))
            else:
                g = int(b[1:].split("_")[0])
                n = [r["id"] for r in s["rules"] if r["k"] == "cc" and any(x.get("gen") == g for x in r["srcs"])]
                out.append("c%d:%s" % (n[0], b))
        elif e["ev"] == "args" and e["args"] and e["args"][0].startswith("CHK"):
            out.append("k%s" % e["args"][0][3:])
    return out


def products(root):
    """Files of a cache dir which are products: everything but autark's own records."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != ".autark" and not x.endswith(".deps")]
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if f.startswith(".autark") or ".deps" in f or f.endswith(".d"):
                continue
            if f.startswith(".") and d.endswith(".autark"):
                continue
            with open(p, "rb") as h:
                out[rel] = h.read()
    return out


def clean_reference(box, s, args=(), cache="autark-cache"):
    """Result of a clean build of the current files at the same place: (Res, products, log). The cache is put back."""
    c = box.p(cache)
    aside = os.path.join(box.root, "aside")
    had = os.path.isdir(c)
    if had:
        os.rename(c, aside)
    keep = box.log
    box.log = os.path.join(box.root, "log2")
    try:
        r = box.autark(cli(s) + list(args), env=environ(s))
        ps = products(c) if os.path.isdir(c) else {}
        log = box.take_log()
    finally:
        box.log = keep
        from harness import rmtree
        rmtree(c)
        if had:
            os.rename(aside, c)
    return r, ps, log
