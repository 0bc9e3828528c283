"""C14: one to three compile rules with 1..40 sources and any -J; sources take their time, fail, are killed, or wait for the end of another source's compilation (a schedule
which only comes to an end if J compilers are kept busy). The log of the compiler stand-in gives the intervals: never more than J at a time, every stale
source exactly once, all of them before a consumer of the objects. The same history with -J1 must give the same objects, statuses and compiled sources."""
import hashlib, json, os
from hypothesis import strategies as st
from harness import Box, Violation, rmtree
from proj import products
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing of schedules: interval log invariants, generated wait-for graphs, differential against -J1"
RULE = ("random sources with durations, failures and a wait-for graph admissible for J slots, histories of edits with changing J; every build is repeated with -J1 in a second tree; non-trivial: at least two compilers ran at a time, "
        "there were more stale sources than slots, and a later build recompiled a part of the sources")
ASSUMPTIONS = ["a -J value of 0 or less stands for the default level 4", "one compile rule runs at a time", "a compilation waiting for another one gives up after 10 s"]
PARTS = {"hist": {"quick": 1400, "thorough": 30000}}
BUDGET = {"quick": 60, "thorough": 1800}

JS = [None, 1, 2, 3, 4, 5, 8, 15, 16, 17, 40, 1000, 0]
SPELL = ["-J%d", "-J %d", "--jobs=%d", "--jobs %d"]


def level(j):
    return 4 if j is None or j <= 0 else min(j, 16)


def strategy(part):
    # per source: (waits for these others), duration, header
    src = st.tuples(st.lists(st.integers(0, 39), max_size=2), st.sampled_from([0, 0, 0, 1, 3, 8]), st.integers(0, 3)).map(list)
    rule = st.tuples(st.one_of(st.lists(src, min_size=1, max_size=5), st.lists(src, min_size=3, max_size=18), st.lists(src, min_size=12, max_size=40)), st.booleans(), st.integers(0, 3).map(lambda x: x == 0)).map(list)
    js = st.tuples(st.sampled_from(JS), st.sampled_from([2, 3, 4]), st.integers(0, 3)).map(lambda t: [t[0] if t[2] else t[1], t[2]])
    op = st.one_of(st.tuples(st.just("src"), st.lists(st.integers(0, 60), min_size=1, max_size=12)), st.tuples(st.just("src"), st.lists(st.integers(0, 60), min_size=1, max_size=12)), st.tuples(st.just("hdr"), st.integers(1, 3)),
                   st.tuples(st.just("bad"), st.lists(st.integers(0, 60), min_size=1, max_size=4), st.sampled_from(["#error", "#kill", "#include \"none.h\""])),
                   st.tuples(st.just("bad"), st.lists(st.integers(0, 60), min_size=1, max_size=4), st.sampled_from(["#error", "#kill"])),
                   st.tuples(st.just("fix")), st.tuples(st.just("flags")), st.just(("nop",)), st.just(("nocc",)))
    return st.tuples(st.lists(rule, min_size=1, max_size=3).filter(lambda r: sum(len(x[0]) for x in r) <= 60), st.lists(st.tuples(op, js).map(list), min_size=1, max_size=5), js, st.booleans()).map(list)


def admissible(waits, j):
    """Drops waits until J slots which take the sources in order come to an end."""
    n = len(waits)
    w = [{x % n for x in l if x % n != i} for i, l in enumerate(waits)]
    while True:
        started, done = [], set()
        while True:
            run = [i for i in started if i not in done]
            while len(run) < j and len(started) < n:
                started.append(len(started))
                run.append(started[-1])
            fin = [i for i in run if w[i] <= done]
            if not fin:
                break
            done |= set(fin)
        if len(done) == n:
            return w
        w[min(i for i in started if i not in done)] = set()


class Proj:
    def __init__(self, case, j):
        self.rules = []
        k = 0
        for srcs, cxx, gate in case[0]:
            w = admissible([[] if gate else x[0] for x in srcs], level(j))
            g = min(level(j), len(srcs)) if gate else 0
            self.rules.append(dict(cxx=cxx, srcs=[dict(n="s%d.%s" % (k + i, "cc" if cxx else "c"), w=["s%d.%s" % (k + q, "cc" if cxx else "c") for q in sorted(w[i])], ms=0 if gate else x[1], h=x[2], v=0, bad=None, gate="#gate %d g%d\n" % (g, k) if i < g else "") for i, x in enumerate(srcs)]))
            k += len(srcs)
        self.all = [s for r in self.rules for s in r["srcs"]]
        self.hv = {}
        self.flags = 0
        self.nocc = False
        self.order = case[3]

    def files(self):
        out = {}
        for s in self.all:
            out[s["n"]] = s["gate"] + "".join("#waitfor %s\n" % x for x in s["w"]) + ("#sleep %d\n" % s["ms"] if s["ms"] else "") + ("#include \"h%d.h\"\n" % s["h"] if s["h"] else "") + ((s["bad"] + "\n") if s["bad"] else "") + "src v%d\n" % s["v"]
        for i in (1, 2, 3):
            out["h%d.h" % i] = "hdr v%d\n" % self.hv.get(i, 0)
        ls = []
        for i, r in enumerate(self.rules):
            t = "%s { set { _ %s } set { _ -DF%d -I S{.} } %s objects { OB%d } }" % ("cxx" if r["cxx"] else "cc", " ".join(s["n"] for s in r["srcs"]), self.flags, "nosuchcc" if self.nocc else "fakecc", i)
            c = "run { exec { pt mk L%d -o l%d.out -i ${OB%d} } consumes { ${OB%d} } produces { l%d.out } }" % (i, i, i, i, i)
            ls += [t, c]
        if self.order:
            ls = ls[0::2] + ls[1::2]
        out["Autark"] = "\n".join(ls) + "\n"
        return out

    def edit(self, op):
        o = op[0]
        pick = lambda l: [self.all[i % len(self.all)] for i in l]
        if o == "src":
            for s in pick(op[1]):
                s["v"] += 1
        elif o == "hdr":
            self.hv[op[1]] = self.hv.get(op[1], 0) + 1
        elif o == "bad":
            for s in pick(op[1]):
                s["bad"] = op[2]
        elif o == "fix":
            for s in self.all:
                s["bad"] = None
        elif o == "flags":
            self.flags += 1
        self.nocc = o == "nocc"


def sync(b, old, new):
    for f, t in new.items():
        if old.get(f) != t:
            b.write(f, t)


def run_case(part, case):
    j0 = case[2][0]
    p = Proj(case, j0)
    hist = [[["first"], case[2]]] + case[1]
    v = "asan" if hashlib.sha1(json.dumps(case).encode()).digest()[0] % 8 == 0 else "plain"
    par = more = part_ = False
    with Box(v) as b, Box(v) as c:
        wd = os.path.join(b.root, "wd")
        files = {}
        for n, (op, (j, sp)) in enumerate(hist):
            if n:
                b.settle()
                c.settle()
            p.edit(op)
            new = p.files()
            sync(b, files, new)
            sync(c, files, new)
            files = new
            # waits are admissible for the order of the first build and at least as many slots
            wait = n == 0
            os.mkdir(wd)
            args = [] if j is None else (SPELL[sp] % j).split(" ")
            r = b.autark(args, env={"WAITDIR": wd if wait else None})
            rmtree(wd)
            log = b.take_log()
            r1 = c.autark(["-J1"])
            log1 = c.take_log()
            show = "build %d %r args %r\n%s\n%s" % (n, op, args, files["Autark"], r.text())
            J = level(j)
            if any(x["ev"] == "cc-stuck" for x in log):
                w = {s["n"]: s["w"] for s in p.all if s["w"]}
                raise Violation("free compile slots are not used: a compilation waits for one which has not been started although %d compilers may run; waits %r\n%s" % (J, w, show))
            iv = intervals(log, show)
            m = overlap(iv)
            if m > J:
                raise Violation("%d compilers ran at a time, at most %d allowed\n%s" % (m, J, show))
            if overlap(intervals(log1, show)) > 1:
                raise Violation("more than one compiler ran with -J1\n%s" % show)
            comp = sorted(x[2] for x in iv)
            if len(set(comp)) != len(comp):
                raise Violation("sources compiled more than once: %r\n%s" % ([x for x in comp if comp.count(x) > 1], show))
            comp1 = sorted(x[2] for x in intervals(log1, show))
            bad = {s["n"] for s in p.all if s["bad"]}
            if bad or p.nocc:
                # a failing rule ends the build: rules after it are not reached in both
                pass
            if r.ok != r1.ok or comp != comp1:
                raise Violation("with -J %r: ok=%s compiled %r; with -J1: ok=%s compiled %r\n%s\n%s" % (j, r.ok, comp, r1.ok, comp1, show, r1.text()))
            for i, rl in enumerate(p.rules):
                ns = {s["n"] for s in rl["srcs"]}
                ends = [x[1] for x in iv if x[2] in ns]
                st_ = [x["t"] for x in log if x["ev"] == "mk" and x["args"][0] == "L%d" % i]
                if len(st_) > 1:
                    raise Violation("consumer executed %d times\n%s" % (len(st_), show))
                if st_ and ends and max(ends) > st_[0]:
                    raise Violation("a consumer of the objects started before the last compilation ended\n%s" % show)
                if st_ and ns & bad:
                    raise Violation("a consumer of failed objects was executed\n%s" % show)
            if r.ok and bad:
                raise Violation("a build with failing compilations succeeds\n%s" % show)
            pa, pb = products(b.p("autark-cache")), products(c.p("autark-cache"))
            if pa != pb:
                d = [k for k in sorted(set(pa) | set(pb)) if pa.get(k) != pb.get(k)]
                raise Violation("products differ from a serial build: %r\n%s" % (d, show))
            par |= m > 1
            more |= len(comp) > J > 1
            part_ |= n > 0 and 0 < len(comp) < len(p.all)
            label("J=%d%s" % (J, " waits" if wait and any(s["w"] for s in p.all) else ""))
            if wait and any(s["gate"] for s in p.all):
                label("gate J=%d" % J)
            if m > 1:
                label("parallel")
    return par and more and part_


def intervals(log, show):
    st_, out = {}, []
    for x in log:
        if not x["ev"].startswith("cc"):
            continue
        if x["ev"] == "cc":
            st_[x["pid"]] = x
        elif x["pid"] in st_:
            a = st_.pop(x["pid"])
            out.append((a["t"], x["t"], os.path.basename(a["src"])))
    if st_:
        raise Violation("the build ended before its compilers did: %r\n%s" % ([x["src"] for x in st_.values()], show))
    return out


def overlap(iv):
    ev = sorted([(a, 1) for a, _, _ in iv] + [(e, -1) for _, e, _ in iv], key=lambda t: (t[0], t[1]))
    m = c = 0
    for _, d in ev:
        c += d
        m = max(m, c)
    return m
