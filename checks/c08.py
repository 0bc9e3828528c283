"""C08: the script parser. tree: rule trees rendered in random layouts read back as the same tree. soup: random token sequences and
bytes, accepted / rejected and parsed like a reference recogniser of the grammar. deep: large and deeply nested inputs. cli: a script
with a syntax error executes nothing. fuzz: coverage-guided bytes under ASan/UBSan."""
import atexit, glob, json, os, re, shutil, signal, struct, subprocess, tempfile, time
from hypothesis import strategies as st
import build
from harness import ASAN_ENV, Box, HarnessError, Violation, rmtree, scratch_root
from runner import label

LEVEL = "exploration"
TECHNIQUE = "grammar-based property testing (render/parse round trip, differential against a reference recogniser) and coverage-guided fuzzing (libFuzzer, ASan+UBSan)"
RULE = ("tree: random rule tree with arbitrary literals in a random layout (quoting, escapes, comments, line ends), non-trivial: nested rule and a literal which needs quoting or escaping; "
        "soup: random sequences of grammar tokens and bytes, non-trivial: accepted with a rule, or rejected; fuzz: libFuzzer executions are counted in evaluations only")
ASSUMPTIONS = ["a quoted literal which contains a line starting with '#' is subject to comment removal and is not generated", "rules may be nested at least 1000 deep"]
PARTS = {"tree": {"quick": 16000, "thorough": 300000, "share": 0.35}, "soup": {"quick": 24000, "thorough": 500000, "share": 0.35},
         "deep": {"quick": 160, "thorough": 800, "share": 0.1}, "inc": {"quick": 48, "thorough": 600, "share": 0.05}, "cli": {"quick": 1200, "thorough": 20000, "share": 0.2}}
BUDGET = {"quick": 90, "thorough": 2400}
FUZZ_S = {"quick": 15, "thorough": 1500}


def prepare():
    build.harness("psrv", "tests")
    build.variant("asan")


# ------------------------------------------------------------------ server

class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-ps-", dir=scratch_root())
        self.err = open(os.path.join(self.dir, "err"), "w+b")
        e = dict(os.environ)
        e.update(ASAN_ENV)
        e["ASAN_OPTIONS"] += ":stack_trace_format='#%n %f %S'"
        d = os.path.join(self.dir, "w")
        os.mkdir(d)
        self.p = subprocess.Popen([build.harness("psrv", "tests"), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=d)

    def close(self):
        self.p.kill()
        self.p.wait()
        rmtree(self.dir)

    def rd(self, n):
        b = b""
        while len(b) < n:
            x = self.p.stdout.read(n - len(b))
            if not x:
                raise HarnessError("parse server ended")
            b += x
        return b

    def parse(self, data):
        """None (rejected) or tree; tree: list of [key, children] / bytes"""
        self.err.seek(0)
        self.err.truncate()
        self.p.stdin.write(struct.pack("I", len(data)) + data)
        self.p.stdin.flush()
        st_, n = struct.unpack("II", self.rd(8))
        b = self.rd(n)
        self.err.seek(0)
        err = self.err.read()
        if b"AddressSanitizer" in err or b"runtime error" in err:
            raise Violation("memory error: %s\nscript (%d bytes): %r" % (err.decode(errors="replace")[:3000], len(data), data[:500]))
        if os.WIFSIGNALED(st_):
            raise Violation("parser ended by signal %d%s\nscript (%d bytes): %r" % (os.WTERMSIG(st_), " (hang)" if os.WTERMSIG(st_) == signal.SIGALRM else "", len(data), data[:500]))
        rc = os.WEXITSTATUS(st_)
        if rc == 3:
            if b != b"X" or not err.strip() and len(data) < 1000000:
                raise Violation("rejected without a message: %r %r" % (b, data[:500]))
            return None
        if rc == 254:
            return None
        if rc != 0 or b[:1] != b"A":
            raise Violation("parser ended with %d: %s\nscript %r" % (rc, err.decode(errors="replace")[:2000], data[:500]))
        root = []
        stack = [root]
        i = 1
        while i < len(b):
            k = b[i:i + 1]
            d, l = struct.unpack("II", b[i + 1:i + 9])
            v = b[i + 9:i + 9 + l]
            i += 9 + l
            del stack[d + 1:]
            if k == b"V":
                stack[d].append(v)
            else:
                c = [v, []]
                stack[d].append(c)
                stack.append(c[1])
        return root


_srv = None


def server():
    global _srv
    if _srv is None or _srv.p.poll() is not None:
        _srv = Server()
        from multiprocessing import util
        util.Finalize(None, _srv.close, exitpriority=10)
        atexit.register(_srv.close)
    return _srv


# ------------------------------------------------------------------ reference recogniser

SP = b" \t\n\r"


class Reject(Exception):
    pass


def uncomment(b):
    """lines (ended by \\n) whose first non-blank character is # are dropped"""
    out = []
    for l in b.split(b"\n"):
        out.append(b"" if l.lstrip(b" \t\r\v\f").startswith(b"#") else l)
    return b"\n".join(out)


def ref_parse(b):
    if 0 in b:
        return None
    b = uncomment(b)
    n = len(b)

    def ws(i):
        while i < n and b[i] in SP:
            i += 1
        return i

    def strp(i):
        """end and value of a bare token, or None"""
        s = i
        v = bytearray()
        while i < n:
            c = b[i:i + 1]
            if c == b"\\":
                if i + 1 < n and b[i + 1:i + 2] in (b"{", b"}", b"\\", b"n", b"r", b"t"):
                    v += {b"n": b"\n", b"r": b"\r", b"t": b"\t"}.get(b[i + 1:i + 2], b[i + 1:i + 2])
                    i += 2
                    continue
                break
            if c in (b"{", b"}") or c in (b" ", b"\t", b"\n", b"\r"):
                break
            v += c
            i += 1
        return (i, bytes(v)) if i > s else None

    def rule(i):
        t = strp(i)
        if not t:
            return None
        j = ws(t[0])
        if j >= n or b[j:j + 1] != b"{":
            return None
        j = ws(j + 1)
        ch = []
        r = valr(j)
        if r:
            ch.append(r[1])
            j = r[0]
            while True:
                k = ws(j)
                if k == j:
                    break
                r = valr(k)
                if not r:
                    break
                ch.append(r[1])
                j = r[0]
        j = ws(j)
        if j >= n or b[j:j + 1] != b"}":
            # nothing else can accept an opening brace
            raise Reject()
        return (j + 1, [t[1], ch])

    def valr(i):
        for q in (b"'", b'"'):
            if b[i:i + 1] == q:
                e = b.find(q, i + 1)
                if e >= 0:
                    return (e + 1, b[i + 1:e])
        return rule(i) or strp(i)

    try:
        out = []
        i = ws(0)
        while i < n:
            r = rule(i)
            if not r:
                return None
            out.append(r[1])
            i = ws(r[0])
        return out
    except Reject:
        return None


def quoted_multiline(b):
    """'#' after a line break inside a possible quotation: comment removal inside literals is not specified"""
    return (b"'" in b or b'"' in b) and re.search(rb"\n[ \t\r\n\v\f]*#", b) is not None


# ------------------------------------------------------------------ generators

KEYS = ["a", "b", "foo", "a-b", "x.y", "$", "^", "@", "..$", "!a", "set", "if", "else", "run", "k'q", 'k"q', "k\\", "{k", "k}", "n\nn", "t\tt", "r\rr", "é", "%", "&", "a=b", "'k", "#k"]
TXT = ["a", "b", "", "two words", "it's", 'say "x"', "{", "}", "{}", "\\", "\\n", "\n", "\t", "a\nb", "\r\n", "#", "# c", "a#", "$", "${x}", "é", "\x7f", "\x0b", "x" * 300, "'", '"', " ", "a\\", "\\{", "!", "&{1}"]


def txt():
    return st.one_of(st.sampled_from(TXT), st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=6), st.text("ab{}\\'\"# \n\t", max_size=6))


def trees():
    key = st.one_of(st.sampled_from(KEYS), st.sampled_from(KEYS), st.text("ab{}\\'\"#n.é", min_size=1, max_size=4))
    leaf = txt()
    return st.lists(st.tuples(key, st.recursive(leaf, lambda c: st.tuples(key, st.lists(c, max_size=4)).map(list), max_leaves=12).map(lambda x: x if isinstance(x, list) else [None, x])).map(
        lambda t: t[1] if t[1][0] is not None else [t[0], [t[1][1]]]), max_size=4)


def strategy(part):
    if part == "tree":
        return st.tuples(trees(), st.lists(st.integers(0, 255), min_size=20, max_size=60)).map(list)
    tok = st.sampled_from(["a", "b", " ", " ", "\n", "\t", "\r\n", "{", "}", "{", "}", "{", "}", "a {", "b{", " }", "'", '"', "'x'", '"y z"', "\\", "\\n", "\\{", "\\}", "\\\\", "\\x", "#", "\n#", "\n # c}\n", "set", "if", "$",
                           "..", "!", "@@", "\r", "é", "\x0b", "\xff", "\\t", "x" * 1100])
    soup = st.lists(st.one_of(tok, tok, tok, tok, tok, st.text(st.characters(min_codepoint=0, max_codepoint=255), max_size=2)), max_size=24).map("".join)
    bal = st.recursive(st.sampled_from(["a", "'q'", '"q q"', "\\{", "a\\nb", "#x", "it's", " "]), lambda c: st.lists(c, max_size=4).map(lambda x: "k {" + " ".join(x) + "}"), max_leaves=10)
    mixed = st.tuples(st.lists(bal, max_size=3).map("\n".join), soup, st.integers(0, 40)).map(lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:])
    if part == "soup":
        return st.one_of(soup, mixed, mixed, st.lists(bal, max_size=4).map("\n".join))
    if part == "deep":
        return st.tuples(st.sampled_from(["nest", "open", "sib", "lit", "quote", "comment", "big", "blank", "side", "close"]), st.sampled_from([1, 10, 600, 1000, 5000, 20000, 100000, 250000]), st.booleans()).map(list)
    if part == "inc":
        return st.tuples(st.sampled_from([1, 2, 10, 17, 33, 40, 65, 129]), st.sampled_from(["", "missing", "syntax", "empty"]), st.integers(1, 3)).map(list)
    if part == "cli":
        return st.tuples(st.one_of(mixed, soup), st.booleans()).map(list)


# ------------------------------------------------------------------ rendering

class Rnd:
    def __init__(self, l):
        self.l, self.i = l, 0

    def __call__(self, n):
        self.i += 1
        return self.l[(self.i * 7) % len(self.l)] * 31 % 257 * (self.i + 1) % n if self.i > len(self.l) else self.l[self.i - 1] % n


SEPS = [" ", "  ", "\t", "\n", "\r\n", "\r", "\n\n  ", "\n# it's a { comment \"\n", "\n   # }\n\t", " \n", "\n#\n#\n "]


def esc(t):
    return "".join({"\\": "\\\\", "{": "\\{", "}": "\\}", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c) for c in t)


def render(tree, rnd):
    out = []

    def sep(must):
        if not must and rnd(3) == 0:
            return
        out.append(SEPS[rnd(len(SEPS))])

    def linestart():
        return "".join(out).rsplit("\n", 1)[-1].strip(" \t\r\x0b\x0c") == ""

    def lit(t):
        opts = []
        if "'" not in t and "\n#" not in t:
            opts.append("'" + t + "'")
        if '"' not in t and "\n#" not in t:
            opts.append('"' + t + '"')
        if t and " " not in t and t[0] not in "'\"" and not t.startswith("#"):
            opts += [esc(t)] * 2
        out.append(opts[rnd(len(opts))])

    def key(k):
        if k.startswith("#") and linestart():
            raise SkipCase()
        out.append(esc(k))

    def rule(r):
        key(r[0])
        sep(False)
        out.append("{")
        sep(False)
        for i, c in enumerate(r[1]):
            if i:
                sep(True)
            if isinstance(c, list):
                rule(c)
            else:
                lit(c)
        sep(False)
        out.append("}")
    sep(False)
    for r in tree:
        rule(r)
        sep(False)
    return "".join(out)


class SkipCase(Exception):
    pass


def legal(tree, top=True):
    """the tree has a rendering"""
    for r in tree:
        if isinstance(r, list):
            if " " in r[0] or not r[0] or r[0][0] in "'\"":
                return False
            if not legal(r[1], False):
                return False
        else:
            if re.search(r"\n[ \t\r\n\v\f]*#", r):
                return False
            if "'" in r and '"' in r and (" " in r or r[0] in "'\"#"):
                return False
            if not r and False:
                return False
    return True


def enc(t):
    return [[r[0].encode("latin-1"), enc(r[1])] if isinstance(r, list) else r.encode("latin-1") for r in t]


def has(tree, f):
    return any(has(r[1], f) or f(r) if isinstance(r, list) else f(r) for r in tree)


def run_case(part, case):
    if part == "tree":
        tree, rl = case
        if not legal(tree):
            label("no rendering")
            return False
        try:
            text = render(tree, Rnd(rl))
        except SkipCase:
            return False
        got = server().parse(text.encode("latin-1"))
        if got != enc(tree):
            raise Violation("script %r\nparsed as %r\nexpected  %r" % (text, got, enc(tree)))
        return has(tree, lambda r: isinstance(r, list) and any(isinstance(c, list) for c in r[1])) and has(tree, lambda r: isinstance(r, str) and any(c in r for c in " {}\\'\"\n\t\r"))
    if part == "soup":
        b = case.encode("latin-1", "replace")
        if quoted_multiline(b):
            # only required not to crash
            server().parse(b)
            label("crash only")
            return False
        want = ref_parse(b)
        got = server().parse(b)
        if got != want:
            raise Violation("script %r\n%s\nexpected %s" % (case, "rejected" if got is None else "accepted as %r" % (got,), "to be rejected" if want is None else "to be accepted as %r" % (want,)))
        label("rejected" if got is None else "accepted")
        return bool(got) or got is None
    if part == "deep":
        kind, n, nl = case
        s = "\n" if nl else " "
        if kind == "nest":
            t = ("a{" + s) * n + "v" + (s + "}") * n
        elif kind == "open":
            t = ("a{" + s) * n
        elif kind == "close":
            t = "a{}" + "}" * n
        elif kind == "side":
            t = ("a{b{}" + s) * n
        elif kind == "sib":
            t = "r{" + (s + "a{b}") * n + "}"
        elif kind == "lit":
            t = "r{" + "ab\\{" * n + "}"
        elif kind == "quote":
            t = "r{'" + "ab{" * n + "'}"
        elif kind == "comment":
            t = ("# c {\n") * n + "r{x}"
        elif kind == "blank":
            t = "r{x}" + " \n" * n + "s{y}"
        else:
            t = "r{x}" + s * (8 * n) + "s{y}"
        got = server().parse(t.encode())
        label("accepted" if got is not None else "rejected")
        if got is None:
            if kind not in ("open", "close", "side") and (n <= 1000 or kind not in ("nest",)) and len(t) < 1000000:
                raise Violation("valid script %s %d was rejected" % (kind, n))
            return n > 100
        if kind in ("open", "close", "side"):
            raise Violation("unbalanced script %s %d was accepted" % (kind, n))
        want = None
        if kind == "nest":
            x = got
            for _ in range(n):
                if len(x) != 1 or x[0][0] != b"a":
                    raise Violation("nest %d: wrong tree" % n)
                x = x[0][1]
            if x != [b"v"]:
                raise Violation("nest %d: wrong leaf" % n)
        elif kind == "sib":
            want = [[b"r", [[b"a", [b"b"]]] * n]]
        elif kind == "lit":
            want = [[b"r", [b"ab{" * n]]]
        elif kind == "quote":
            want = [[b"r", [b"ab{" * n]]]
        elif kind == "comment":
            want = [[b"r", [b"x"]]]
        elif kind in ("big", "blank"):
            want = [[b"r", [b"x"]], [b"s", [b"y"]]]
        if want is not None and got != want:
            raise Violation("%s %d: wrong tree" % (kind, n))
        return n > 100
    if part == "inc":
        # a chain of nested includes, several times, with a broken last script or not
        n, end, reps = case
        with Box("asan") as b:
            b.write("Autark", "".join("include { d%d/Autark }\n" % 0 for _ in range(1)) + "run { always exec { pt args R } }\n")
            for i in range(n):
                rel = "".join("d%d/" % j if j < 2 else "x/" for j in range(i + 1))
                nxt = "d1/Autark" if i == 0 else "x/Autark"
                if i == n - 1:
                    t = {"": "run { always exec { pt args L } }\n", "missing": "include { nope/Autark }\n", "syntax": "a {\n", "empty": ""}[end]
                else:
                    t = "include { %s }\nrun { always exec { pt args %d } }\n" % (nxt, i)
                b.write(rel + "Autark", t)
            for _ in range(reps):
                r = b.autark()
                log = b.take_log()
                bad = end in ("missing", "syntax")
                if bad != (not r.ok) or bad and (log or not r.err.strip()):
                    raise Violation("chain of %d includes ending with %r: %d commands, %s" % (n, end, len(log), r.text()))
                if not bad and len(log) != n + (end != "empty"):
                    raise Violation("chain of %d includes: %d commands executed, %s" % (n, len(log), r.text()))
        return n > 1
    # cli
    text, inc = case
    b_ = text.encode("latin-1", "replace")
    probe = b"run { always exec { pt args X } }\n"
    if not inc:
        b_ = probe + b_
    if quoted_multiline(b_) or any(k in b_ for k in (b"set", b"if", b"$", b"@", b"!", b"&")):
        return False
    want = ref_parse(b_)
    with Box("asan") as b:
        if inc:
            b.write("Autark", probe.decode() + "include { sub/Autark }\n" + probe.decode())
            b.write("sub/Autark", b_)
        else:
            b.write("Autark", b_)
        r = b.autark()
        log = b.take_log()
    if want is None:
        if r.ok or b"Build successful" in r.err:
            raise Violation("script with a syntax error was built: %r\n%s" % (b_, r.text()))
        if log:
            raise Violation("commands of a script with a syntax error were executed: %r\n%s" % (b_, r.text()))
        if not r.err.strip():
            raise Violation("no message for a script with a syntax error: %r" % b_)
    elif not r.ok or len(log) != (2 if inc else 1):
        raise Violation("valid script failed (%d commands executed): %r\n%s" % (len(log), b_, r.text()))
    return want is None


# ------------------------------------------------------------------ fuzzing

DICT = ["{", "}", "'", "\"", "\\\\", "\\{", "#", "\n", "set", "if", "else", "run", "cc", "check", "include", "macro", "call", "foreach", "..$", "@@", "^", "%", "&{1}", "option", "meta", "library", "install", "echo", "in-sources", "S", "CC"]


def extra_checks(tier, seed):
    fz = build.harness("fuzzparse", "fuzz", ("-fsanitize=fuzzer",))
    root = tempfile.mkdtemp(prefix="vf-fuzz-", dir=scratch_root())
    try:
        corp = os.path.join(root, "c")
        os.mkdir(corp)
        seeds = ["a {\n b 'c d' \"e\" ${x y}\n}\n# c\n", "set { A ..${B} ^{a b} }\nif { !defined { X } run { exec { a } } } else { echo { b } }\n", "a{" * 30 + "}" * 30, "macro { M &{1} &{} } call { M a b }"]
        seeds += [open(f, errors="replace").read() for f in glob.glob(os.path.join(build.REPO, "tests/data/*/Autark")) + [os.path.join(build.REPO, "Autark")] if os.path.exists(f)]
        for i, s in enumerate(seeds):
            with open(os.path.join(corp, "s%d" % i), "w") as f:
                f.write(s)
        with open(os.path.join(root, "dict"), "w") as f:
            for w in DICT:
                f.write('"%s"\n' % "".join("\\x%02x" % c for c in w.encode()))
        e = dict(os.environ)
        e.update(ASAN_ENV)
        procs = []
        for i in range(8):
            wd = os.path.join(root, "w%d" % i)
            os.mkdir(wd)
            log = open(os.path.join(root, "log%d" % i), "wb")
            procs.append(subprocess.Popen([fz, corp, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % FUZZ_S[tier], "-max_len=4096", "-timeout=25", "-rss_limit_mb=3000", "-dict=" + os.path.join(root, "dict"),
                                           "-artifact_prefix=" + wd + "/", "-print_final_stats=1", "-reload=1", "-verbosity=0"], stdout=log, stderr=log, env=e, cwd=wd))
        fails = []
        n = 0
        for i, p in enumerate(procs):
            try:
                p.wait(FUZZ_S[tier] + 120)
            except subprocess.TimeoutExpired:
                p.kill()
            t = open(os.path.join(root, "log%d" % i), "rb").read().decode(errors="replace")
            m = re.search(r"number_of_executed_units:\s*(\d+)", t)
            n += int(m.group(1)) if m else 0
            for a in glob.glob(os.path.join(root, "w%d" % i, "*")):
                k = os.path.basename(a)
                if k.startswith(("crash-", "timeout-")):
                    data = open(a, "rb").read()
                    fails.append(("soup", data.decode("latin-1"), t[-3000:]))
        if n == 0 and not fails:
            raise HarnessError("fuzzer executed nothing: " + t[-2000:])
        corpus = len(os.listdir(corp))
        return fails, {"evaluations": n, "fuzz_executions": n, "fuzz_corpus": corpus}
    finally:
        rmtree(root)
