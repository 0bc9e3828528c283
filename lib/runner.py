"""Drives one property: worker processes running Hypothesis, shrinking, replay, evidence."""
import importlib, json, multiprocessing as mp, os, signal, sys, time, traceback, hashlib, collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

import warnings
warnings.simplefilter('ignore')
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from harness import Violation, HarnessError

NWORK = int(os.environ.get("VERIF_WORKERS", "8"))
REPLAYS = os.path.join(VERIF, "replay")
EVID = os.path.join(VERIF, "evidence")


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.classes = collections.Counter()
        self.notes = collections.Counter()

    def label(self, name, n=1):
        self.classes[name] += n


def _main_is_runner():
    # checks do `from runner import label`: make that this very module
    sys.modules["runner"] = sys.modules[__name__]


_main_is_runner()
CURRENT = None  # Stats of the running case, usable by checks via runner.label()


def label(name, n=1):
    if CURRENT is not None:
        CURRENT.classes[name] += n


def load(pid):
    return importlib.import_module(pid.lower())


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Stop(BaseException):
    pass


def worker(pid, part, idx, seed, n, budget, q):
    """Runs n cases of one part of a property; sends (stats, failure)."""
    global CURRENT
    import signal as _s
    _s.signal(_s.SIGINT, _s.SIG_IGN)
    m = load(pid)
    st = Stats()
    CURRENT = st
    best = {"case": None, "msg": None, "size": None}
    t0 = time.time()
    first_fail = [None]
    err = [None]

    def body(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > budget:
            return
        if first_fail[0] is not None and now - first_fail[0] > SHRINK_S:
            raise Stop()
        try:
            nontriv = m.run_case(part, case)
        except (Violation, Exception) as e:
            if isinstance(e, (HarnessError, hypothesis.errors.HypothesisException, OSError)) or isinstance(e, hypothesis.errors.StopTest):
                raise
            if not isinstance(e, Violation):
                e = Violation("unexpected result: " + traceback.format_exc())
            size = len(json.dumps(case))
            if first_fail[0] is None:
                first_fail[0] = now
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, msg=str(e), size=size)
            raise e
        if first_fail[0] is None:
            st.evaluations += 1
            if nontriv:
                k = case_key(case)
                if k not in st.nontrivial:
                    st.nontrivial.add(k)
                    if len(st.samples) < 2:
                        st.samples.append(case)

    strat = m.strategy(part)
    t = given(strat)(body)
    t = hypothesis.seed(seed)(t)
    t = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                 report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                 phases=[Phase.generate, Phase.shrink])(t)
    try:
        t()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if best["case"] is None:
            err[0] = traceback.format_exc()
    q.put((idx, part, st.evaluations, list(st.nontrivial), st.samples, dict(st.classes), best, err[0], time.time() - t0))


SHRINK_S = 40


def replay(pid, part, case):
    m = load(pid)
    try:
        m.run_case(part, case)
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except Exception:
        return "unexpected result: " + traceback.format_exc()
    return None


def _replay_proc(pid, part, case, q):
    try:
        q.put(replay(pid, part, case))
    except BaseException:
        q.put("ERROR " + traceback.format_exc())


def replay_fresh(pid, part, case):
    q = mp.Queue()
    p = mp.Process(target=_replay_proc, args=(pid, part, case, q))
    p.start()
    try:
        r = q.get(timeout=300)
    except Exception:
        r = "ERROR replay timed out"
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main(pid, tier, seed):
    t0 = time.time()
    m = load(pid)
    if hasattr(m, "prepare"):
        m.prepare()
    for kf in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    parts = m.PARTS  # {part: {"quick": n, "thorough": n}}
    jobs = []
    budget = getattr(m, "BUDGET", {"quick": 100, "thorough": 1500})[tier]
    for part, spec in parts.items():
        total = spec[tier]
        per = max(1, total // NWORK)
        for i in range(NWORK):
            h = hashlib.sha256(("%s/%s/%s/%s" % (pid, part, seed, i)).encode()).digest()
            jobs.append((part, i, int.from_bytes(h[:6], "big"), per))
    # share the budget over the parts: workers run parts one after another
    q = mp.Queue()
    results = []
    fails = []
    errors = []
    pend = list(jobs)
    running = {}
    part_budget = {p: budget * (parts[p].get("share") or 1.0 / len(parts)) for p in parts}
    while pend or running:
        while pend and len(running) < NWORK:
            part, i, s, n = pend.pop(0)
            p = mp.Process(target=worker, args=(pid, part, i, s, n, part_budget[part], q))
            p.start()
            running[(part, i)] = (p, time.time())
        try:
            r = q.get(timeout=1)
            results.append(r)
            k = (r[1], r[0])
            pr, _ = running.pop(k)
            pr.join(10)
            if r[6]["case"] is not None:
                fails.append((r[1], r[6]["case"], r[6]["msg"]))
                pend = []
            if r[7]:
                errors.append(r[7])
        except Exception:
            for k, (p, ts) in list(running.items()):
                if not p.is_alive() and p.exitcode not in (0, None):
                    errors.append("worker %s died with %s" % (k, p.exitcode))
                    running.pop(k)
                elif not p.is_alive() and time.time() - ts > 5 and q.empty():
                    time.sleep(0.5)
                    if q.empty():
                        errors.append("worker %s ended silently" % (k,))
                        running.pop(k)
    ev, nt, samples, classes = 0, set(), [], collections.Counter()
    perpart = collections.Counter()
    for idx, part, e, ntl, smp, cl, best, er, wall in results:
        ev += e
        perpart[part] += e
        for x in ntl:
            nt.add(part + x)
        if len([1 for s in samples if s["part"] == part]) < 2:
            samples += [{"part": part, "case": s} for s in smp[:1]]
        classes.update(cl)
    extra = {}
    if hasattr(m, "extra_checks") and not fails:
        # additional deciding steps (fuzz campaigns); returns (failures, counters)
        xf, extra = m.extra_checks(tier, seed)
        fails += xf
        ev += extra.get("evaluations", 0)
    nviol = 0
    confirmed = None
    seen_flaky = 0
    fails.sort(key=lambda f: len(json.dumps(f[1])))
    for part, case, msg in fails:
        rs = [replay_fresh(pid, part, case) for _ in range(3)]
        good = [r for r in rs if r]
        need = getattr(m, "REPLAY_NEED", 3)
        if len(good) >= need:
            nviol += 1
            confirmed = (part, case, good[0])
            break
        seen_flaky += 1
        sys.stderr.write("not reproduced (%d/3): %s\n%s\n" % (len(good), json.dumps(case)[:2000], msg[:3000]))
    os.makedirs(EVID, exist_ok=True)
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": m.LEVEL,
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt) + extra.get("distinct_nontrivial", 0), "rule": m.RULE,
                     "samples": [trim(s) for s in samples[:6]], "per_part": dict(perpart),
                     "classes": dict(classes), "unreproduced_failures": seen_flaky, **{k: v for k, v in extra.items() if k not in ("evaluations", "distinct_nontrivial")}},
        "assumptions": getattr(m, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    if confirmed:
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(REPLAYS, "%s-%s.json" % (pid, case_key(confirmed[1])[:12]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "part": confirmed[0], "case": confirmed[1], "message": confirmed[2]}, f, indent=1)
        print(confirmed[2][:6000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        return 2
    print("%s: held on %d cases (%d distinct non-trivial) in %.1fs %s" % (pid, ev, evd["coverage"]["distinct_nontrivial"], time.time() - t0, dict(classes)))
    return 0


def trim(s):
    t = json.dumps(s)
    return s if len(t) < 4000 else t[:4000] + "..."


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        m = load(d["property"])
        if hasattr(m, "prepare"):
            m.prepare()
        r = replay(d["property"], d["part"], d["case"])
        if r:
            print(r)
            print("VIOLATION property=%s replay=%s" % (d["property"], a[1]))
            sys.exit(1)
        print("held")
        sys.exit(0)
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        rc = main(pid, tier, seed)
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
