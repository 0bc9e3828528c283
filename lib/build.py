"""Builds the code under test (from /repo's working tree) and the harness programs, outside /repo."""
import glob, hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")

DEFS = ["-std=gnu99", "-D_XOPEN_SOURCE=700", "-D_POSIX_C_SOURCE=200809L", "-D_DEFAULT_SOURCE",
        "-DDEBIAN_MULTIARCH=1", '-DMETA_VERSION="0.9.0"', '-DMETA_REVISION="verif"']

VARIANTS = {
    # name: (compiler, flags, extra link flags)
    "plain": ("gcc", ["-O1", "-g", "-w"], []),
    "asan": ("gcc", ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=undefined"], []),
    "fuzz": ("clang", ["-O1", "-g", "-w", "-DTESTS", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=undefined"], []),
    "tests": ("gcc", ["-O1", "-g", "-w", "-DTESTS", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=undefined"], []),
}


WRAPS = "rename unlink rmdir mkdir symlink futimens fchmod execve ftruncate open write fopen fclose fflush fseek fork waitpid wait pipe __getdelim getline fgets fread read opendir readdir".split()
VARIANTS["crash"] = ("gcc", ["-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"], ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])

GUARDS = "unlink unlinkat rmdir remove rename renameat mkdir mkdirat symlink symlinkat link chmod fchmodat fchmod chown truncate ftruncate futimens utimensat mkfifo creat fopen freopen open openat mkstemp".split()
VARIANTS["guard"] = ("gcc", ["-O1", "-g", "-w", "-U_FORTIFY_SOURCE"], ["-Wl," + ",".join("--wrap=" + w for w in GUARDS)])
ROOTS = "stat lstat fstatat access faccessat fopen opendir open".split()
VARIANTS["root"] = ("gcc", ["-O1", "-g", "-w", "-U_FORTIFY_SOURCE"], ["-Wl," + ",".join("--wrap=" + w for w in ROOTS)])
VARIANTS["root64"] = VARIANTS["root"]   # without multiarch
WRAPSRC = {"crash": ["crash.h", "crashwrap.c"], "guard": ["guard.c"], "root": ["rootwrap.c"], "root64": ["rootwrap.c"]}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")))
    return p.stdout


def repo_files():
    fs = []
    for pat in ("*.c", "*.h", "*.leg", "*.in"):
        fs += glob.glob(os.path.join(REPO, pat))
    return sorted(fs)


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _gen(dirp):
    """Generated sources: parser from the grammar, config.h."""
    leg = shutil.which("leg")
    if leg:
        _run([leg, "-o", os.path.join(dirp, "scriptx.h"), os.path.join(REPO, "scriptx.leg")])
    else:
        raise BuildError("leg not found")
    with open(os.path.join(dirp, "config.h"), "w") as f:
        tmpl = open(os.path.join(REPO, "config.h.in")).read()
        f.write("".join(l for l in tmpl.splitlines(True) if not l.startswith("//autarkdef")))


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def variant(name):
    """Returns the directory holding `autark` and `libautark.a` of a build variant."""
    cc, flags, ld = VARIANTS[name]
    key = _hash(repo_files() + [os.path.join(VERIF, "src", f) for f in WRAPSRC.get(name, ())],
                name + cc + " ".join(flags + ld + DEFS))
    d = os.path.join(BUILD, "%s-%s" % (name, key))
    ok = os.path.join(d, "ok")
    if os.path.exists(ok):
        return d
    with _Lock(name):
        if os.path.exists(ok):
            return d
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            # keep the most recent few only
            pass
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _gen(d)
        srcs = sorted(glob.glob(os.path.join(REPO, "*.c")))
        objs = []

        def one(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            defs = [x for x in DEFS if name != "root64" or "MULTIARCH" not in x]
            _run([cc] + flags + defs + ["-I", d, "-I", REPO, "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        if name in WRAPSRC:
            o = os.path.join(d, "wrapped.o")
            _run([cc] + flags + ["-c", os.path.join(VERIF, "src", WRAPSRC[name][-1]), "-o", o])
            ld = [o] + ld
        main = [o for o in objs if os.path.basename(o) == "main.o"]
        lib = [o for o in objs if os.path.basename(o) != "main.o"]
        _run(["ar", "rcs", os.path.join(d, "libautark.a")] + lib)
        if name != "fuzz":
            _run([cc] + flags + main + [os.path.join(d, "libautark.a")] + ld + ["-o", os.path.join(d, "autark")])
        open(ok, "w").close()
    return d


def tool(name, flags=()):
    """Builds a small C stand-in program from /verif/src."""
    src = os.path.join(VERIF, "src", name + ".c")
    key = _hash([src] + sorted(glob.glob(os.path.join(VERIF, "src", "*.h"))), " ".join(flags))
    d = os.path.join(BUILD, "tools-" + key)
    out = os.path.join(d, name)
    if not os.path.exists(out):
        with _Lock("tool-" + name):
            if not os.path.exists(out):
                os.makedirs(d, exist_ok=True)
                _run(["gcc", "-O1", "-w", "-o", out + ".tmp", src] + list(flags))
                os.rename(out + ".tmp", out)
    return out


def harness(name, var, flags=(), lang="c"):
    """Builds an in-process harness linked against libautark.a of a variant."""
    d = variant(var)
    ext = {"c": ".c", "c++": ".cc"}[lang]
    src = os.path.join(VERIF, "src", name + ext)
    hs = sorted(glob.glob(os.path.join(VERIF, "src", "*.h")))
    key = _hash([src] + hs, " ".join(flags))
    out = os.path.join(d, "%s-%s" % (name, key))
    if not os.path.exists(out):
        with _Lock("h-" + name):
            if not os.path.exists(out):
                cc, vf, ld = VARIANTS[var]
                comp = {"gcc": {"c": "gcc", "c++": "g++"}, "clang": {"c": "clang", "c++": "clang++"}}[cc][lang]
                defs = [x for x in DEFS if not (lang == "c++" and x.startswith("-std"))]
                vf = [x for x in vf]
                _run([comp] + vf + defs + ["-I", d, "-I", REPO, "-I", os.path.join(VERIF, "src"), src,
                     os.path.join(d, "libautark.a")] + list(flags) + ["-o", out + ".tmp"])
                os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "asan"]:
        print(variant(v))


REVS = ("verifA", "verifB")


def dist():
    """The self-contained build.sh as amalgamator.sh makes it: directory with build.sh, the compiled autark and autark.c as build.sh unpacks it;
    `failed` holds the output if something of this does not work."""
    am = os.path.join(REPO, "amalgamator.sh")
    key = _hash(repo_files() + [am], "dist2")
    d = os.path.join(BUILD, "dist-" + key)
    ok = os.path.join(d, "ok")
    if os.path.exists(ok):
        return d
    with _Lock("dist"):
        if os.path.exists(ok):
            return d
        shutil.rmtree(d, ignore_errors=True)
        s = os.path.join(d, "src")
        os.makedirs(os.path.join(s, "autark-cache"))
        for p in repo_files() + [am]:
            shutil.copy(p, s)
        tmpl = open(os.path.join(REPO, "config.h.in")).read()
        var = {"META_VERSION": "0.9.0", "META_REVISION": REVS[0]}
        with open(os.path.join(s, "autark-cache/config.h"), "w") as f:
            for l in tmpl.splitlines(True):
                w = l.split()
                f.write('#define %s "%s"\n' % (w[1], var[w[1]]) if w[:1] == ["//autarkdef"] and w[1] in var else l)
        with open(os.path.join(s, "autark-cache/version.sh"), "w") as f:
            f.write("".join('%s="%s"\n' % kv for kv in var.items()))
        env = {k: v for k, v in os.environ.items() if k not in ("AUTARK_HOME", "CFLAGS", "LDFLAGS")}
        env.update(CC="gcc", LC_ALL="C.UTF-8")
        out = b""
        for cmd, cwd in ((["/bin/sh", "./amalgamator.sh"], s), (["/bin/sh", "./build.sh", "-v"], os.path.join(d, "b"))):
            if cwd != s:
                os.makedirs(cwd)
                shutil.copy(os.path.join(s, "dist/build.sh"), cwd)
                shutil.copy(os.path.join(s, "dist/build.sh"), d)
            p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out += p.stdout
            if p.returncode:
                break
        h = os.path.join(d, "b/autark-cache/.autark-dist")
        if p.returncode == 0 and os.access(os.path.join(h, "autark"), os.X_OK):
            for f in ("autark", "autark.c"):
                shutil.copy(os.path.join(h, f), d)
        else:
            with open(os.path.join(d, "failed"), "wb") as f:
                f.write(out[-8000:])
        shutil.rmtree(s)
        shutil.rmtree(os.path.join(d, "b"), ignore_errors=True)
        open(ok, "w").close()
    return d
