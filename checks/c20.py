"""C20: generated include graphs (cycles, several dirs, awkward names, generated headers, included sources, thousands of prerequisites in lists wrapped in different ways) over a history of edits; the prerequisites of
every source at the time of its last compilation are computed by a model of the include resolution, and each build must recompile exactly the sources with a changed one. With the stand-in compiler objects must have
their exact expected contents; the same is done with gcc and clang themselves."""
import hashlib, json, os
from hypothesis import strategies as st
import build
from harness import Box, Violation, quote
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing against a model of include resolution, with a stand-in compiler and real ones"
RULE = ("random include graph of 1-8 headers and 1-5 sources in up to two scripts, histories of edits of headers, sources, include lines, unrelated files, errors and repairs; non-trivial: a header which is included only through another header, or by an "
        "object not recompiled in the build before, changed and exactly the right proper part of the sources was recompiled")
ASSUMPTIONS = ["a new file which shadows a header is not a change of a prerequisite", "files reported by the compiler are what it reads"]
PARTS = {"graph": {"quick": 2600, "thorough": 60000, "share": 0.7}, "real": {"quick": 260, "thorough": 6000, "share": 0.3}}
BUDGET = {"quick": 70, "thorough": 2400}

NAMES = ["h.h", "a.b.h", "noext", "sp ace.h", "ha#sh.h", "dol$lar.h", "é.h", "x.inc", "UP.H", "a:b.h", "two  sp.h", "l" + "o" * 120 + "ng.h", "t~'q.h", "%d.h", "$$.h", "a# b.h", "c@d,e.h", "eq=.h", "-m.h", "h.h.h", "(x)&.h", "*.h", ":.h", "h.o", "h.d"]
DIRS = ["", "", "inc", "inc/deep.d", "../shared", "sp dir"]
SRCS = ["s.c", "s.v1.c", "t.c", "src/u.c", "q q.c", "w.cc", "src.d/x.y.c", "é.c", "s-.c"]


def strategy(part):
    i = st.integers(0, 30)
    e = st.tuples(i, st.integers(0, 1)).map(list)
    hdr = st.tuples(i, st.integers(0, 5), st.lists(e, max_size=3)).map(list)
    src = st.tuples(i, st.lists(e, min_size=1, max_size=4)).map(list)
    op = st.one_of(st.tuples(st.just("h"), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just("h"), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just("h"), st.lists(i, min_size=1, max_size=1)), st.tuples(st.just("s"), st.lists(i, min_size=1, max_size=2)), st.tuples(st.just("edge"), i, e), st.tuples(st.just("sedge"), i, e), st.just(("unrel",)),
                   st.tuples(st.just("drop"), i), st.one_of(st.tuples(st.just("bad"), i), st.tuples(st.just("sbad"), i), st.tuples(st.just("rm"), i)), st.just(("fix",)), st.just(("nop",)), st.just(("gen",)), st.tuples(st.just("many"), st.integers(0, 5000)), st.just(("script",))).map(list)
    return st.fixed_dictionaries({
        "hdrs": st.lists(hdr, min_size=2, max_size=8), "srcs": st.lists(src, min_size=2, max_size=6), "split": st.integers(0, 5), "ops": st.lists(op, min_size=2, max_size=7), "wrap": st.sampled_from([75, 75, 1, 20, 100000]),
        "many": st.sampled_from([0, 0, 0, 0, 0, 0, 0, 30, 30, 400, 3000] if part == "graph" else [0, 0, 0, 0, 0, 0, 0, 200]), "gen": st.booleans() if part == "graph" else st.just(False), "mflag": st.sampled_from([None, None, "-MMD", "-MD"]), "flags": st.lists(st.sampled_from(["-m64", "-mtune=generic", "-g", "-Wall", "-DMMD", "-O1", "-fPIC", "-w", "-D-M=1"] if part == "graph" else ["-m64", "-mtune=generic", "-g", "-Wall", "-DMMD", "-fPIC", "-w"]), max_size=2), "cc": st.sampled_from(["gcc", "clang"]), "jobs": st.sampled_from([None, 1, 8]), "incsrc": st.booleans(), "dash": st.booleans()})


class G:
    def __init__(self, b, c, real):
        self.b, self.c, self.real = b, c, real
        self.hdrs = {}   # path relative to the project -> dict(inc, v, bad, gone)
        for nm, d, inc in c["hdrs"]:
            n = NAMES[nm % len(NAMES)]
            p = os.path.normpath(os.path.join("u", DIRS[d % len(DIRS)], n))
            if n not in [os.path.basename(x) for x in self.hdrs]:   # no shadowing
                self.hdrs[p] = {"inc": [list(x) for x in inc], "v": 0, "bad": False, "gone": False}
        self.hl = list(self.hdrs)
        for d in DIRS:
            os.makedirs(b.p(os.path.join("u", d)), exist_ok=True)
        self.srcs = {}
        two = c["split"] == 0
        for k, (nm, inc) in enumerate(c["srcs"]):
            n = SRCS[nm % len(SRCS)]
            if real and n == "w.cc":
                n = "w.c"
            u = "u2" if two and k % 2 else "u"
            p = os.path.join(u, n)
            if p not in self.srcs and not any(os.path.splitext(p)[0] == os.path.splitext(x)[0] for x in self.srcs):
                self.srcs[p] = {"inc": [list(x) for x in inc], "v": 0, "bad": False, "u": u}
        self.sl = list(self.srcs)
        self.units = sorted({x["u"] for x in self.srcs.values()})
        self.gen = 0 if c["gen"] else None
        self.scr = 0
        self.many = {k: 0 for k in range(c["many"])}
        self.written = {}
        self.ver = {}   # writes and removals

    def w(self, p, t):
        if self.written.get(p) != t:
            self.written[p] = t
            self.ver[p] = self.ver.get(p, 0) + 1
            self.b.write(p, t)
            return True

    def incline(self, frm, e):
        t = self.hl[e[0] % len(self.hl)] if e[0] % 31 or not self.c["incsrc"] else self.sl[0]
        if t == frm:
            return ""
        nm = os.path.relpath(t, os.path.dirname(frm)) if e[1] == 0 or t in self.srcs else os.path.basename(t)
        return '#include "%s"\n' % nm

    def decl(self, p, v):
        ident = hashlib.sha1(p.encode()).hexdigest()[:8]
        return "extern int x%s_%d;\n" % (ident, v)

    def guard(self, p, t):
        return "#pragma once\n" + t if self.real else t

    def files(self):
        f = {}
        for p, h in self.hdrs.items():
            if not h["gone"]:
                f[p] = self.guard(p, "".join(self.incline(p, e) for e in h["inc"]) + self.decl(p, h["v"]) + ("#error\n" if h["bad"] else ""))
        for p, s in self.srcs.items():
            f[p] = (self.guard(p, "") if p == self.sl[0] else "") + ("#wrap %d\n" % self.c["wrap"] if not self.real else "") + "".join(self.incline(p, e) for e in s["inc"]) + (
                '#include "gen.h"\n' if self.gen is not None and p == self.sl[-1] else "") + ('#include "m/all.h"\n' if self.many and p == self.sl[0] else "") + self.decl(p, s["v"]) + ("#error\n" if s["bad"] else "")
        for k, v in self.many.items():
            f["u/m/m%d.h" % k] = self.decl("m%d" % k, v)
        if self.many:
            f["u/m/all.h"] = self.guard("", "".join('#include "m%d.h"\n' % k for k in self.many))
        if self.gen is not None:
            for u in self.units:
                f[u + "/gen.in"] = "gen %d" % self.gen
        f["Autark"] = "set { O1 x }\n" + "".join("include { %s/Autark }\n" % u for u in self.units)
        for u in self.units:
            fl = "set { _ -DU %s %s -I SS{} -I S{ u/inc } -I %s -I S{ u } %s }" % (self.c["mflag"] or "", " ".join(self.c["flags"]), "S{ 'u/sp dir' }" if self.c["split"] % 2 else "S{ shared }", "-I S{ shared } -I S{ 'u/sp dir' } -I S{ u/inc/deep.d }")
            ss = " ".join(quote(os.path.relpath(p, u)) for p in self.sl if self.srcs[p]["u"] == u)
            f[u + "/Autark"] = "# %d\n%scc { set { _ %s } %s %s }\n" % (self.scr, "run { exec { pt mk G -o gen.h -i SS{ gen.in } } consumes { SS{ gen.in } } produces { gen.h } }\n" if self.gen is not None else "", ss, fl, "consumes { gen.h }" if self.gen is not None else "")
        return f

    def incs(self, u):
        b = self.b
        return [b.p(u), b.p("u/inc"), b.p("u/sp dir") if self.c["split"] % 2 else b.p("shared"), b.p("u"), b.p("shared"), b.p("u/sp dir"), b.p("u/inc/deep.d"), "./"]

    def simulate(self, p):
        """(prerequisites as project relative paths, text of the object or None if it does not compile)"""
        u = self.srcs[p]["u"]
        cwd = self.b.p("autark-cache/" + u)
        files = self.files()
        gtext = None
        if self.gen is not None:
            gtext = "TAG G\nIN gen.in\ngen %d\nOUT 0\n" % self.gen
        rel = lambda x: os.path.relpath(os.path.normpath(os.path.join(cwd, x)), self.b.proj)

        def load(path):
            r = rel(path)
            if r == "autark-cache/%s/gen.h" % u:
                return gtext
            if r in files:
                return files[r]
            return None
        out, deps, ok = [], [], [True]
        seen = set()

        def process(path, depth):
            if depth > 60:
                return
            t = load(path)
            if t is None:
                ok[0] = False
                return
            d = path[:path.rfind("/") + 1]
            for l in (t[:-1] if t.endswith("\n") else t).split("\n"):
                if l.startswith('#include "'):
                    nm = l[10:].split('"')[0]
                    for cand in [d + nm] + [nm if i == "./" else i + "/" + nm for i in self.incs(u)]:
                        if load(cand) is not None:
                            break
                    else:
                        ok[0] = False
                        continue
                    key = rel(cand)   # the same file by different names
                    if key not in seen:
                        seen.add(key)
                        deps.append(cand)
                        out.append("{" + nm + "\n")
                        process(cand, depth + 1)
                        out.append("}\n")
                elif l.startswith("#error"):
                    ok[0] = False
                elif l.startswith("#wrap") or l.startswith("#pragma"):
                    pass
                else:
                    out.append(l + "\n")
        src = os.path.relpath(self.b.p(p), cwd)
        if self.real and p == self.sl[0]:
            seen.add(p)   # has a guard
        process(src, 0)
        return {rel(x) for x in deps} | {p}, "FLAGS:[-DU]%s\n" % "".join("[%s]" % x for x in self.c["flags"]) + "".join(out) if ok[0] else None


def run_case(part, case):
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 6 == 0 else "plain"
    real = part == "real"
    with Box(v) as b:
        g = G(b, case, real)
        if not g.sl:
            return False
        env = {}
        if real:
            env = {"CC": build.tool("realcc"), "REALCC": case["cc"]}
        state = {}     # source -> {file: content} at its last compilation, None: has to be compiled
        gens = None
        last = set()
        nontriv = False
        for n, op in enumerate([["first"]] + case["ops"]):
            if n:
                b.settle()
            k = op[0]
            if last is None:   # repair
                for x in list(g.hdrs.values()) + list(g.srcs.values()):
                    x["bad"] = x["gone"] = False
            hl = g.hl
            if k == "h":
                pre = [g.simulate(p)[0] for p in g.sl]
                used = [h for h in hl if any(h in x for x in pre)]
                some = [h for h in used if not all(h in x for x in pre)]
                for j, i in enumerate(op[1]):
                    l = [hl, some, used][(i + j) % 3] or hl
                    g.hdrs[l[i // 3 % len(l)]]["v"] += 1
            elif k == "s":
                for i in op[1]:
                    g.srcs[g.sl[i % len(g.sl)]]["v"] += 1
            elif k in ("edge", "sedge"):
                l = (g.hdrs[hl[op[1] % len(hl)]] if k == "edge" else g.srcs[g.sl[op[1] % len(g.sl)]])["inc"]
                if op[2] in l:
                    l.remove(op[2])
                else:
                    l.append(list(op[2]))
            elif k == "drop":
                h = op[1] % len(hl)
                for x in list(g.hdrs.values()) + list(g.srcs.values()):
                    x["inc"] = [e for e in x["inc"] if e[0] % len(hl) != h]
                g.hdrs[hl[h]]["gone"] = True
            elif k == "rm":
                g.hdrs[hl[op[1] % len(hl)]]["gone"] = True
            elif k == "bad":
                g.hdrs[hl[op[1] % len(hl)]]["bad"] = True
            elif k == "sbad":
                g.srcs[g.sl[op[1] % len(g.sl)]]["bad"] = True
            elif k == "fix":
                for x in list(g.hdrs.values()) + list(g.srcs.values()):
                    x["bad"] = False
                    x["gone"] = False
            elif k == "gen" and g.gen is not None:
                g.gen += 1
            elif k == "many" and g.many:
                g.many[op[1] % len(g.many)] += 1
            elif k == "script":
                g.scr += 1
            elif k == "unrel":
                b.write("u/unrelated%d.h" % n, "x")
                b.write("shared/other", str(n))
            files = g.files()
            before = {p: state.get(p) for p in g.sl}
            gone = [p for p in g.written if p not in files]
            for p in gone:
                del g.written[p]
                g.ver[p] += 1
                os.unlink(b.p(p))
            for p, t in files.items():
                g.w(p, t)
            r = b.autark((["-J%d" % case["jobs"]] if case["jobs"] else []), env=env)
            log = [e for e in b.take_log() if e["ev"] == "cc"]
            comp = [os.path.relpath(os.path.normpath(os.path.join(e["cwd"], e["src"])), b.proj) for e in log]
            show = "build %d %r\n%s\ncompiled: %r\n%s" % (n, op, "\n".join("--- %s\n%s" % (p, t) for p, t in sorted(files.items()) if "/m/" not in p), comp, r.text())
            sims = {p: g.simulate(p) for p in g.sl}
            scr = {u: (files["Autark"], files[u + "/Autark"]) for u in g.units}
            cont = lambda p: g.ver.get(p, 0) if not p.startswith("autark-cache/") else str(g.gen)
            if len(set(comp)) != len(comp):
                raise Violation("a source is compiled twice\n%s" % show)
            stop = False
            for u in g.units:
                us = [p for p in g.sl if g.srcs[p]["u"] == u]
                if stop:   # the build has ended in the unit before
                    if any(p in comp for p in us):
                        raise Violation("sources are compiled after a failure in another script\n%s" % show)
                    continue
                full = any(state.get(p) is None and state.get(("seen", p)) is None for p in us) or state.get(("scr", u)) != scr[u]
                anygen = g.gen is not None and state.get(("gen", u)) != g.gen
                must, may = set(), set()
                for p in us:
                    stt = state.get(p)
                    if full or stt is None or any(cont(f) != t for f, t in stt.items()):
                        must.add(p)
                    elif anygen:
                        may.add(p)
                for p in us:
                    if p in must and p not in comp:
                        ch = [f for f, t in (state.get(p) or {}).items() if cont(f) != t]
                        raise Violation("%s is not compiled although %s changed\n%s" % (p, ch or "its last compilation failed or its script", show))
                    if p in comp and p not in must and p not in may:
                        raise Violation("%s is compiled although none of its prerequisites %r changed\n%s" % (p, sorted(state[p]), show))
                bad = [p for p in us if sims[p][1] is None]
                for p in us:
                    if p in comp:
                        state[p] = None if p in bad else {f: cont(f) for f in sims[p][0]}
                        state[("seen", p)] = True
                state[("scr", u)] = scr[u]
                if g.gen is not None:
                    state[("gen", u)] = g.gen
                if n and must and len(must) < len(us) and not bad and k in ("h", "many") and r.ok:
                    label("partial")
                    direct = lambda p: {hl[e[0] % len(hl)] for e in g.srcs[p]["inc"]}
                    if last is not None and any(p not in last or not any(cont(f) != t for f, t in (before[p] or {}).items() if f in direct(p)) for p in must):
                        nontriv = True
                if [p for p in bad if p in comp]:
                    stop = True
            anybad = stop
            if r.ok == anybad:
                raise Violation("the build %s\n%s" % ("succeeds although a compilation fails" if r.ok else "fails", show))
            if r.ok and not real:
                for p in g.sl:
                    o = os.path.join(b.p("autark-cache"), os.path.splitext(p)[0] + ".o")
                    try:
                        with open(o, "rb") as f:
                            t = f.read().decode()
                    except OSError:
                        t = None
                    if t != sims[p][1]:
                        raise Violation("object of %s is not up to date: %r, expected %r\n%s" % (p, t, sims[p][1], show))
            last = set(comp)
            if anybad:
                last = None
                label("failed build")
        if g.many:
            label("many")
        if real:
            label(case["cc"])
        return nontriv
