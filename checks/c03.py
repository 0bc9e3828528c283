"""C03: order of execution, exactly-once, independence of the textual order and of the script a rule lives in; duplicate
products, missing inputs and cycles are refused."""
import copy, os
from hypothesis import strategies as st
import proj
from harness import Box, Violation
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing: validity predicate over the execution log, permutation metamorphic relation, fault injection"
RULE = ("order: random dependency graph of run/cc/configure/foreach rules over 1-3 scripts, built clean in two textual orders; the log must show every "
        "step once and after the end of all steps it needs, products equal. move: rules moved between scripts. bad: one injected duplicate product, missing "
        "input, self-dependency or cycle must fail the build and nothing downstream of it may have run. Non-trivial: at least one rule consumes another "
        "rule's product (order, move); the injected fault has executed nothing downstream and the project has another rule (bad)")
PARTS = {"order": {"quick": 1200, "thorough": 30000}, "move": {"quick": 640, "thorough": 12000}, "bad": {"quick": 1200, "thorough": 24000}}
BUDGET = {"quick": 80, "thorough": 2400}


def graphs(**kw):
    return proj.specs(subst=False, **kw)


def strategy(part):
    if part == "order":
        return st.tuples(graphs(rules=10), st.integers(0, 100000), st.integers(0, 100000), st.integers(0, 7), st.lists(proj.edits(False), max_size=2)).map(list)
    if part == "move":
        return st.tuples(graphs(rules=8, cc=False, chk=False, guard=False, cfg=False, fe=False), st.lists(st.integers(0, 2), min_size=8, max_size=8),
                         st.integers(0, 100000)).map(list)
    return st.tuples(graphs(rules=8, always=False, guard=False), st.sampled_from(["dup", "dup2", "missing", "cycle", "cycle", "self"]), st.integers(0, 1000), st.integers(0, 1000),
                     st.integers(0, 100000), st.booleans()).map(list)


def check_log(s, log, full):
    """Order and multiplicity of the steps in a log."""
    start, end = {}, {}
    for e in log:
        if e["ev"] in ("mk", "cc") or (e["ev"] == "args" and e["args"] and e["args"][0].startswith("CHK")):
            k = proj.executed(s, [e])[0]
            if k in start:
                raise Violation("step %s executed twice in one build" % k)
            start[k] = e["t"]
        elif e["ev"] in ("mk-end", "cc-end"):
            k = proj.executed(s, [dict(e, ev=e["ev"][:2])])[0]
            end[k] = e["t"]
    st_ = proj.steps(s)
    byrule = {}
    for k in st_:
        byrule.setdefault(proj.step_rule(k), []).append(k)
    dep = False
    for k, a in st_.items():
        if k[0] in "tX":
            continue
        if full and k not in start:
            raise Violation("step %s did not execute in a clean build" % k)
        for x in a:
            if x[0] == "rule":
                for p in byrule.get(x[1], []):
                    if p[0] in "rec" and k[0] in "rec":
                        dep = True
                        if k in start and p in start and start[k] < end.get(p, 1 << 62):
                            raise Violation("step %s started before %s, which it depends on, had finished" % (k, p))
    return dep


def build(b, s):
    r = b.autark(proj.cli(s), env=proj.environ(s))
    return r, b.take_log()


def twice(b, spec, i, j):
    """Lines for a script which claim one product twice: in a loop, a branch, by a macro, under several names."""
    u = i % len(spec["udirs"])
    d = spec["udirs"][u]
    abs_ = os.path.normpath(b.p("autark-cache/" + d))
    names = ["dup.q", "C{ %s }" % proj.join(d, "dup.q"), "./dup.q", "y/../dup.q", abs_ + "/dup.q", "CC{ dup.q }", "%{ dup.w .q }", "^{ dup .q }", "${DQ}"]
    a, c = names[i // 5 % len(names)], names[j % len(names)]
    how = "exec { pt args DUPQ }"
    ra, rc = ("run { %s produces { %s } }" % (how, x) for x in (a, c))
    k = j // 11 % 7
    t = {0: "%s\n%s" % (ra, rc),
         1: "foreach { DI set { _ a b }\n%s\n%s }" % (ra, rc),
         2: "if { 1\n%s\n%s }" % (ra, rc),
         3: "macro { DM run { %s produces { &{1} } } }\ncall { DM %s }\ncall { DM %s }" % (how, a, c),
         4: "if { ${NOPE} set { _ x } } else { %s }\n%s" % (ra, rc),
         5: "run { %s produces { other.q %s } }\nforeach { DI set { _ q w } run { %s produces { dup.${DI} ^{ dup. ${DI} } } } }\n%s" % (how, a, how, rc),
         6: "configure { dup.q.in }\n%s" % rc}[k]
    if k == 6:
        b.write(proj.join(d, "dup.q.in"), "text\n")
    p = proj.join(d, "Autark")
    b.write(p, "set { DQ dup.q }\n%s\n" % t + b.read(p).decode() if j % 2 else b.read(p).decode() + "\nset { DQ dup.q }\n%s\n" % t)
    return t


def run_case(part, case):
    if part == "order":
        spec, o1, o2, sel, ops = case
        spec = dict(spec, order=o1)
        with Box("asan" if sel == 7 else "plain") as b:
            proj.write_state(b, None, spec)
            r, log = build(b, spec)
            if not r.ok:
                raise Violation("clean build of a valid project failed: %s" % r.text())
            try:
                dep = check_log(spec, log, True)
            except Violation as e:
                raise Violation("%s\n%s" % (e, r.text()))
            p1 = proj.products(b.p("autark-cache"))
            s2 = dict(spec, order=o2)
            proj.write_state(b, spec, s2)
            r2, p2, log2 = proj.clean_reference(b, s2)
            if not r2.ok:
                raise Violation("clean build in another textual order failed: %s" % r2.text())
            check_log(s2, log2, True)
            if p1 != p2:
                d = [k for k in sorted(set(p1) | set(p2)) if p1.get(k) != p2.get(k)]
                raise Violation("products depend on the textual order: %s\n%s\n%s" % (d, r.text(), r2.text()))
            s = s2
            for op in ops:
                b.settle()
                ns, touched = proj.apply(s, op)
                proj.write_state(b, s, ns, touched)
                s = ns
                r, log = build(b, s)
                if not r.ok:
                    raise Violation("build failed after %r: %s" % (op, r.text()))
                check_log(s, log, False)
            return dep
    if part == "move":
        spec, us, order = case
        spec = copy.deepcopy(spec)
        nu = len(spec["udirs"])
        spec["vars"], spec["opts"] = [], {"O0": "q"}
        for r in spec["rules"]:
            r["args"] = [["l", "a%d" % r["id"]]]
        s2 = copy.deepcopy(spec)
        s2["order"] = order
        for i, r in enumerate(s2["rules"]):
            r["u"] = us[i % len(us)] % nu
        with Box("plain") as b:
            proj.write_state(b, None, spec)
            r, log = build(b, spec)
            if not r.ok:
                raise Violation("clean build of a valid project failed: %s" % r.text())
            dep = check_log(spec, log, True)
            p1 = {os.path.basename(k): v for k, v in proj.products(b.p("autark-cache")).items()}
            proj.write_state(b, spec, s2)
            r2, p2, log2 = proj.clean_reference(b, s2)
            if not r2.ok:
                raise Violation("clean build with rules moved to other scripts failed: %s" % r2.text())
            check_log(s2, log2, True)
            p2 = {os.path.basename(k): v for k, v in p2.items()}
            if p1 != p2:
                raise Violation("products depend on the script the rules live in: %s" % [k for k in sorted(set(p1) | set(p2)) if p1.get(k) != p2.get(k)])
            return dep
    spec, kind, i, j, order, again = case
    spec = dict(copy.deepcopy(spec), order=order)
    runs = [r for r in spec["rules"] if r["k"] == "run"]
    if not runs:
        return False
    r = runs[i % len(runs)]
    bad = set()
    if kind == "dup":
        others = [x for x in spec["rules"] if x["k"] in ("run", "cfg", "cc", "fe") and x is not r]
        if not others:
            return False
        o = others[j % len(others)]
        os_ = proj.outs(spec, o)
        if not os_:
            return False
        r["xout"] = ["C{%s}" % proj.join(spec["udirs"][o["u"]], os_[j % len(os_)])]
        down = set()
    elif kind == "dup2":
        down = set()
    elif kind == "missing":
        r["xin"] = [["nope.txt", "S{sub9/nope}", "C{nope.o}", "../nope"][j % 4]]
        down = proj.closure(spec, lambda k, a: proj.step_rule(k) == r["id"] and k[0] == "r")
    else:
        if kind == "self":
            t = r
        else:
            # a rule that depends on r
            d = sorted({proj.step_rule(k) for k in proj.closure(spec, lambda k, a: k == "r%d" % r["id"])} - {r["id"]})
            d = [x for x in d if proj.rule(spec, x)["k"] in ("run", "cc", "fe")]
            if not d:
                t = r
            else:
                t = proj.rule(spec, d[j % len(d)])
        nm = proj.outs(spec, t)[0]
        r["xin"] = ["C{%s}" % proj.join(spec["udirs"][t["u"]], nm) if t["u"] != r["u"] or j % 2 else nm]
        # everything on the cycle, and all that depends on it
        down = proj.closure(spec, lambda k, a: k == "r%d" % r["id"])
    with Box("plain") as b:
        proj.write_state(b, None, spec)
        if kind == "dup2":
            kind = "dup2 (%s)" % twice(b, spec, i, j)
        for n in range(2 if again else 1):
            res, log = build(b, spec)
            if res.ok:
                raise Violation("%s was not refused: %s" % (kind, res.text()))
            if b"Build successful" in res.err + res.out:
                raise Violation("%s: success reported by a failing build: %s" % (kind, res.text()))
            ex = proj.executed(spec, log)
            wrong = [x for x in ex if x in down]
            if wrong:
                raise Violation("%s: executed %s which need the bad input\n%s" % (kind, wrong, res.text()))
            b.settle()
    label("bad:" + kind[:4])
    return len(spec["rules"]) > 1
