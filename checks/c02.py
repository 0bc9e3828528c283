"""C02: random project; a build with nothing changed executes nothing and rewrites nothing; after one edit only the steps
which transitively depend on the edited input (by the model in lib/proj.py) execute."""
import os
from hypothesis import strategies as st
import proj
from harness import Box, Violation
from runner import label

LEVEL = "exploration"
TECHNIQUE = "property-based testing against a dependency model of the generated project"
RULE = ("random project as for C01 built, built again unchanged (must execute no step and rewrite no product), then 1-5 single edits: each "
        "build after an edit may only execute steps in the transitive dependents of the edited file / script / option / variable, each "
        "following unchanged build executes nothing; non-trivial: an edit made some but not all steps execute")
ASSUMPTIONS = ["a change of a build script counts as an edit of every rule in it and in the scripts it includes",
               "always-rules and @{} evaluations execute in every build, consumers of an always-rule's products follow it"]
PARTS = {"history": {"quick": 1600, "thorough": 30000}}
BUDGET = {"quick": 75, "thorough": 2400}


def strategy(part):
    return st.tuples(proj.specs(), st.lists(proj.edits(), min_size=1, max_size=5), st.integers(0, 7)).map(list)


def stamps(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != ".autark"]
        for f in files:
            if f.startswith(".autark") or ".deps" in f:
                continue
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = os.stat(p).st_mtime_ns
    return out


def always(s):
    """Steps which may execute in any build."""
    a = {r["id"] for r in s["rules"] if r["on"] and r["k"] == "run" and r["always"]}
    return proj.closure(s, lambda k, at: k[0] == "r" and proj.step_rule(k) in a), a


def step_of_product(s):
    out = {}
    for r in s["rules"]:
        if r["on"]:
            for o in proj.outs(s, r):
                out[proj.join(s["udirs"][r["u"]], o)] = r["id"]
    return out


def run_case(part, case):
    spec, ops, sel = case
    nontriv = False
    with Box("asan" if sel == 7 else "plain") as b:
        proj.write_state(b, None, spec)
        s = spec
        r = b.autark(proj.cli(s), env=proj.environ(s))
        if not r.ok:
            raise Violation("clean build of a valid project failed: %s" % r.text())
        b.take_log()

        def quiet(s, what):
            b.settle()
            before = stamps(b.p("autark-cache"))
            r = b.autark(proj.cli(s), env=proj.environ(s))
            log = b.take_log()
            ex = proj.executed(s, log)
            if [e for e in log if e["ev"] == "csay"]:
                raise Violation("%s: unchanged build executed a cached program evaluation @@{}\n%s" % (what, r.text()))
            if not r.ok:
                raise Violation("%s: build failed: %s" % (what, r.text()))
            ok, al = always(s)
            extra = [x for x in ex if x not in ok]
            if extra:
                raise Violation("%s: unchanged build executed %s\n%s" % (what, extra, r.text()))
            after = stamps(b.p("autark-cache"))
            prod = step_of_product(s)
            rules = {proj.step_rule(k) for k in ok}
            for p in before:
                if before[p] != after.get(p) and prod.get(p) not in rules and not p.endswith(".d"):
                    raise Violation("%s: unchanged build rewrote %s\n%s" % (what, p, r.text()))
        quiet(s, "after the first build")
        for i, op in enumerate(ops):
            b.settle()
            ns, touched = proj.apply(s, op)
            changed = proj.write_state(b, s, ns, touched)
            hits = set()
            units = set()
            for p in changed:
                if os.path.basename(p) == "Autark":
                    units.add(ns["udirs"].index(os.path.dirname(p) or "."))
                else:
                    hits.add(("path", p))
            for u in units:
                hits.add(("unit", u))
            for k in set(s["opts"]) | set(ns["opts"]):
                if s["opts"].get(k) != ns["opts"].get(k):
                    hits.add(("name", k))
            for k in set(s["env"]) | set(ns["env"]):
                if (s["env"].get(k) or "") != (ns["env"].get(k) or ""):
                    hits.add(("name", k))
                elif s["env"].get(k) != ns["env"].get(k):
                    hits.add(("name", k))
            for x, y in ((s, ns), (ns, s)):
                # variables which a check script does not set any more, or sets now
                had = {(r["id"], k) for r in y["rules"] if r["k"] == "chk" for k in r["sets"]}
                hits.update(("name", "V%d" % k) for r in x["rules"] if r["k"] == "chk" for k in r["sets"] if (r["id"], k) not in had)
            new_steps = set(proj.steps(ns)) - set(proj.steps(s))
            ok_al, al = always(ns)
            allowed = proj.closure(ns, lambda k, at: bool(at & hits) or k in new_steps) | ok_al
            before = stamps(b.p("autark-cache"))
            r = b.autark(proj.cli(ns), env=proj.environ(ns))
            ex = proj.executed(ns, b.take_log())
            if not r.ok:
                raise Violation("step %d %r: build failed: %s" % (i, op, r.text()))
            extra = [x for x in ex if x not in allowed]
            if extra:
                raise Violation("step %d %r: executed %s which do not depend on the edit (changed: %s; allowed: %s)\n%s" % (
                    i, op, extra, sorted(changed), sorted(allowed), r.text()))
            after = stamps(b.p("autark-cache"))
            mayrules = {proj.step_rule(k) for k in allowed}
            for p, n in step_of_product(ns).items():
                if n not in mayrules and p in before and before[p] != after.get(p):
                    raise Violation("step %d %r: product %s was rewritten but does not depend on the edit (changed: %s)\n%s" % (
                        i, op, p, sorted(changed), r.text()))
            dup = {x for x in ex if ex.count(x) > 1}
            if dup:
                raise Violation("step %d %r: executed more than once in a build: %s\n%s" % (i, op, sorted(dup), r.text()))
            allst = set(proj.steps(ns))
            if 0 < len(ex) and len(allowed) < len(allst):
                nontriv = True
            label("op:" + op[0])
            s = ns
            quiet(s, "after step %d %r" % (i, op))
    return nontriv
