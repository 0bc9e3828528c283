"""C01: random project, random history of edits with a build after each; after every build all files a clean build of the
same state gives must be present with the same content."""
import os
from hypothesis import strategies as st
import proj
from harness import Box, Violation
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing, differential against a clean build"
RULE = ("random project of run/cc/configure/check/foreach/macro/if rules over 1-3 scripts, then 1-6 random edits (files, headers, "
        "include lists, scripts, options, environment, order, rule removal), a build after each; non-trivial: at least one edit "
        "made the incremental build execute some but not all of the steps a clean build executes")
PARTS = {"history": {"quick": 2600, "thorough": 24000}}
BUDGET = {"quick": 75, "thorough": 2400}


def strategy(part):
    return st.tuples(proj.specs(), st.lists(proj.edits(), min_size=2, max_size=7), st.integers(0, 7)).map(list)


def run_case(part, case):
    spec, ops, sel = case
    nontriv = False
    with Box("asan" if sel == 7 else "plain") as b:
        proj.write_state(b, None, spec)
        s = spec
        r = b.autark(proj.cli(s), env=proj.environ(s))
        first = b.take_log()
        if not r.ok:
            raise Violation("clean build of a valid project failed: %s" % r.text())
        for i, op in enumerate(ops):
            b.settle()
            ns, touched = proj.apply(s, op)
            proj.write_state(b, s, ns, touched)
            s = ns
            r = b.autark(proj.cli(s), env=proj.environ(s))
            log = b.take_log()
            cr, cp, clog = proj.clean_reference(b, s)
            if not cr.ok:
                raise Violation("clean build of a valid project failed: %s" % cr.text())
            if not r.ok:
                raise Violation("step %d %r: incremental build failed where a clean build succeeds: %s" % (i, op, r.text()))
            ip = proj.products(b.p("autark-cache"))
            for p in sorted(cp):
                if ip.get(p) != cp[p]:
                    raise Violation("step %d %r: product %s differs from a clean build\n--- incremental\n%s\n--- clean\n%s\nexecuted: %s\n%s" % (
                        i, op, p, _t(ip.get(p)), _t(cp[p]), proj.executed(s, log), r.text()))
            ne, nc = len(proj.executed(s, log)), len(proj.executed(s, clog))
            if 0 < ne < nc:
                nontriv = True
            label("op:" + op[0])
            label("inc-none" if ne == 0 else "inc-all" if ne >= nc else "inc-some")
    for k in {r["k"] for r in spec["rules"]}:
        label("rule:" + k)
    return nontriv


def _t(b):
    return "(missing)" if b is None else b.decode(errors="replace")[:1500]
