"""C05: the build is killed (whole process group) at a chosen file-system-visible point of autark or of a tool it runs; the next
build must succeed and give the products of a clean build."""
import os, random, shutil, struct
from hypothesis import strategies as st
import build, proj
from harness import Box, Violation, HarnessError, rmtree
from runner import label

LEVEL = "fault_enumeration"
TECHNIQUE = "property-based testing with crash injection at enumerated points, differential against a clean build"
RULE = ("random project with a history; the next build (first or incremental) is replayed from the same saved state once per chosen crash point (points: before every "
        "state-changing libc call of autark, torn and complete writes, and inside the writes of compilers and commands), optionally killed again while recovering "
        "or edited in between, then built to the end and compared with a clean build; non-trivial: a kill took place after the build had started executing steps or had changed its records")
ASSUMPTIONS = ["a kill ends autark and the processes it started together; data already handed to the kernel survives"]
PARTS = {"crash": {"quick": 900, "thorough": 7000}}
BUDGET = {"quick": 80, "thorough": 2700}


def prepare():
    build.variant("crash")


def strategy(part):
    return st.tuples(proj.specs(rules=5), st.lists(proj.edits(), max_size=2), st.lists(proj.edits(), min_size=1, max_size=3),
                     st.lists(st.tuples(st.integers(0, 9999), st.booleans(), st.integers(0, 4), st.integers(0, 9999)), min_size=2, max_size=7),
                     st.booleans(), st.one_of(proj.edits(), proj.edits(), st.tuples(st.just("chk"), st.integers(0, 1000), st.just(3)))).map(list)


def arm(b, at, mode):
    p = os.path.join(b.root, "shm")
    with open(p, "wb") as f:
        f.write(struct.pack("qqqq", 0, at, mode, 0))
    b.extra_env["CRASH_SHM"] = p


def count(b):
    with open(os.path.join(b.root, "shm"), "rb") as f:
        return struct.unpack("qqqq", f.read())[0]


def run_case(part, case):
    spec, pre, ops, points, first, post = case
    nontriv = False
    with Box("crash") as b:
        proj.write_state(b, None, spec)
        s = spec

        def edit(s, op):
            ns, touched = proj.apply(s, op)
            proj.write_state(b, s, ns, touched)
            return ns

        def build_(s):
            return b.autark(proj.cli(s), env=proj.environ(s))
        s0 = s
        if not first:
            r = build_(s)
            if not r.ok:
                raise Violation("clean build of a valid project failed: %s" % r.text())
            for op in pre:
                b.settle()
                s = edit(s, op)
                r = build_(s)
                if not r.ok:
                    raise Violation("build failed: %s" % r.text())
            b.settle()
            s0 = s
            for op in ops:
                s = edit(s, op)
        b.take_log()
        save = os.path.join(b.root, "save")
        shutil.copytree(b.proj, save, symlinks=True)
        arm(b, 0, 0)
        b.settle()
        r = build_(s)
        if not r.ok:
            raise Violation("build failed: %s" % r.text())
        total = count(b)
        full = len(b.take_log())
        b.extra_env.pop("CRASH_SHM")
        cr, cp, _ = proj.clean_reference(b, s)
        if not cr.ok:
            raise Violation("clean build failed: %s" % cr.text())
        if total == 0:
            return False
        done = set()
        for pos, torn, again, pos2 in points:
            at = 1 + pos * total // 10000
            if (at, torn, again) in done:
                continue
            done.add((at, torn, again))
            rmtree(b.proj)
            shutil.copytree(save, b.proj, symlinks=True)
            b.settle()
            arm(b, at, int(torn))
            s2, want = s, cp
            r = build_(s)
            ev = b.take_log()
            trail = ["killed at %d of %d%s" % (at, total, " (torn)" if torn else "")]
            if r.ok or r.rc != -9:
                # fewer points this time (parallel compilers): not a kill
                label("not-reached")
                if not r.ok:
                    raise Violation("build failed: %s" % r.text())
            else:
                label("killed")
                nontriv = nontriv or len(ev) > 0 or at > total // 3
            b.settle()
            if again == 1:
                arm(b, 1 + pos2 * total // 10000, int(not torn))
                r = build_(s)
                b.settle()
                trail.append("killed again at %d (rc %s)" % (1 + pos2 * total // 10000, r.rc))
            b.extra_env.pop("CRASH_SHM")
            if again == 3:
                # options and environment as they were before the build that was killed
                s2 = dict(s, opts=s0["opts"], env=s0["env"])
                trail.append("options and environment reverted")
            if again == 2:
                s2 = edit(s, post)
                trail.append("edited %r" % (post,))
            r = build_(s2)
            log = b.take_log()
            if not r.ok:
                raise Violation("build after a kill failed (%s): %s" % (trail, r.text()))
            if again in (2, 3):
                x, want, _ = proj.clean_reference(b, s2)
                if not x.ok:
                    raise Violation("clean build failed: %s" % x.text())
            ip = proj.products(b.p("autark-cache"))
            for p in sorted(want):
                if ip.get(p) != want[p]:
                    raise Violation("%s; recovered by the next build; product %s differs from a clean build\n--- recovered\n%r\n--- clean\n%r\nexecuted: %s\n%s" % (
                        trail, p, ip.get(p), want[p], proj.executed(s2, log), r.text()))
            if again == 2:
                proj.write_state(b, s2, s)
    return nontriv
