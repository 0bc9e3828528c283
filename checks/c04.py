"""C04: failing steps fail the build, nothing downstream runs, the failure is retried, and after the repair the result equals
a clean build."""
import copy, os
from hypothesis import strategies as st
import proj
from harness import Box, Violation
from runner import label

LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing with injected failing steps, differential against a clean build"
RULE = ("random project; history of edits, injected failures (input files which make commands / compilers / check scripts / program evaluations exit non-zero "
        "or die by a signal, a missing program, an error{} rule) and repairs, a build (and sometimes a repeated build) after each; non-trivial: at least "
        "one build failed after an injected failure and a later one succeeded")
PARTS = {"history": {"quick": 1500, "thorough": 26000}}
BUDGET = {"quick": 80, "thorough": 2400}
WHAT = ["file", "file", "hdr", "src", "src", "prog", "error", "exit", "sig"]


def strategy(part):
    i = st.integers(0, 1000)
    fail = st.tuples(st.just("fail"), st.sampled_from(WHAT), i, st.booleans())
    tog = st.one_of(st.none(), st.sampled_from(["", "0", "1", "x y"]))
    ev = st.one_of(st.tuples(st.just("both"), fail, st.tuples(st.sampled_from(["opt", "env"]), i, tog)), st.tuples(st.just("edit"), st.tuples(st.sampled_from(["opt", "env"]), i, tog)), st.tuples(st.just("edit"), proj.edits()), st.tuples(st.just("fail"), st.sampled_from(WHAT), i, st.booleans()),
                   st.tuples(st.just("fail"), st.sampled_from(WHAT), i, st.booleans()),
                   st.tuples(st.just("fix")), st.tuples(st.just("undo")), st.tuples(st.just("again"))).map(list)
    return st.tuples(proj.specs(), st.lists(ev, min_size=1, max_size=5), st.integers(0, 7)).map(list)


def inject(s, what, i, kill):
    s = copy.deepcopy(s)
    by = lambda *k: [r for r in s["rules"] if r["k"] in k]
    srcs = [x for r in by("cc") for x in r["srcs"] if "gen" not in x]
    runs = by("run", "fe")
    if what == "file":
        s["files"][i % len(s["files"])]["t"] = "#kill\n" if kill else "#fail\n"
    elif what == "hdr" and s["hdrs"]:
        s["hdrs"][i % len(s["hdrs"])]["t"] = "#kill\n" if kill else "#error\n"
    elif what == "src" and srcs:
        srcs[i % len(srcs)]["t"] = "#kill\n" if kill else "#error\n"
    elif runs:
        s["rules"][s["rules"].index(runs[i % len(runs)])]["bad"] = {"prog": "exec { nosuchprogram }", "exit": "exec { pt fail %d }" % (1 + i % 255),
                                                                    "sig": "exec { pt out k }", "error": None}.get(what)
        if what == "error":
            s["err"] = [i % len(s["udirs"]), bool(kill)]
    else:
        s["files"][i % len(s["files"])]["t"] = "#fail\n"
    return s


def fixed(s):
    s = copy.deepcopy(s)
    s.pop("err", None)
    for f in s["files"] + s["hdrs"]:
        f.pop("t", None)
    for r in s["rules"]:
        r.pop("bad", None)
        for x in r.get("srcs", []):
            x.pop("t", None)
    return s


def broken(s):
    return "err" in s or any("t" in f for f in s["files"] + s["hdrs"]) or any(r.get("bad") or any("t" in x for x in r.get("srcs", [])) for r in s["rules"])


def failed_steps(s, log):
    st_, en = set(), set()
    for e in log:
        if e["ev"] in ("mk", "cc"):
            st_ |= set(proj.executed(s, [e]))
        elif e["ev"] in ("mk-end", "cc-end"):
            en |= set(proj.executed(s, [dict(e, ev=e["ev"][:2])]))
    return st_ - en


def run_case(part, case):
    spec, evs, sel = case
    saw_fail = saw_ok_after = False
    with Box("asan" if sel == 7 else "plain") as b:
        s, old = spec, None
        steps = [["edit", ["none"]]] + evs + [["fix"]]
        prev_failed = None
        good = (s["opts"], s["env"])
        for n, ev in enumerate(steps):
            touched = set()
            if ev[0] == "edit":
                ns, touched = proj.apply(s, ev[1])
            elif ev[0] == "both":
                ns, touched = proj.apply(inject(s, *ev[1][1:]), ev[2])
            elif ev[0] == "fail":
                ns = inject(s, *ev[1:])
            elif ev[0] == "undo":
                # repaired by going back to the options and environment of the last good build
                ns = dict(fixed(s), opts=good[0], env=good[1])
            elif ev[0] == "fix":
                ns = fixed(s)
            else:
                ns = s
            b.settle()
            changed = proj.write_state(b, old, ns, touched)
            same = not changed and old is not None and s["opts"] == ns["opts"] and s["env"] == ns["env"]
            s = old = ns
            r = b.autark(proj.cli(s), env=proj.environ(s))
            log = b.take_log()
            cr, cp, clog = proj.clean_reference(b, s)
            if not cr.ok and not broken(s):
                raise Violation("step %d %r: clean build of a valid project failed: %s" % (n, ev, cr.text()))
            if r.ok != cr.ok:
                raise Violation("step %d %r: incremental build %s, clean build %s\n%s\n--- clean\n%s" % (
                    n, ev, "succeeded" if r.ok else "failed", "succeeds" if cr.ok else "fails", r.text(), cr.text()))
            for x, l in ((r, log), (cr, clog)):
                if x.ok:
                    bad = failed_steps(s, l)
                    if bad:
                        raise Violation("step %d %r: build succeeded although %s failed\n%s" % (n, ev, bad, x.text()))
                else:
                    if b"Build successful" in x.out + x.err:
                        raise Violation("step %d: failing build reports success: %s" % (n, x.text()))
                    bad = failed_steps(s, l)
                    rules = {proj.step_rule(k) for k in bad}
                    down = proj.closure(s, lambda k, a: k in bad)
                    wrong = [k for k in proj.executed(s, l) if k in down and proj.step_rule(k) not in rules]
                    if wrong:
                        raise Violation("step %d %r: %s executed although it depends on failed %s\n%s" % (n, ev, wrong, sorted(bad), x.text()))
            if r.ok:
                good = (s["opts"], s["env"])
                ip = proj.products(b.p("autark-cache"))
                for p in sorted(cp):
                    if ip.get(p) != cp[p]:
                        raise Violation("step %d %r: product %s differs from a clean build\n--- incremental\n%r\n--- clean\n%r\n%s" % (n, ev, p, ip.get(p), cp[p], r.text()))
                if saw_fail:
                    saw_ok_after = True
                prev_failed = None
            else:
                saw_fail = True
                bad = failed_steps(s, log)
                if same and prev_failed is not None:
                    miss = [k for k in prev_failed if k not in proj.executed(s, log)]
                    if miss:
                        raise Violation("step %d: %s failed in the previous build but were not executed again\n%s" % (n, miss, r.text()))
                prev_failed = bad
            label(("ok" if r.ok else "failed") + ":" + ev[0])
    return saw_fail and saw_ok_after
