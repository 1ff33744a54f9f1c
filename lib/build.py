"""Builds the interpreter under test (and C harnesses) from /repo's current working tree.

Nothing is written under /repo: the sources are copied to a scratch directory under
/verif/build (git-ignored), keyed by the content of /repo/src and of the harness sources.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
OUT = os.path.join(VERIF, "build")

VARIANTS = {
    # name: (compiler, flags, shim, link flags)
    "std": ("gcc", ["-O2", "-g"], "shim_std", ["-lgc"]),
    "stress": ("gcc", ["-O2", "-g", "-DVP_STRESS"], "shim_stress", ["-lgc"]),
    "asan": ("clang", ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], "shim_asan", ["-fsanitize=address"]),
    "fuzz": ("clang", ["-O1", "-g", "-fsanitize=address,fuzzer-no-link", "-fno-omit-frame-pointer"], "shim_asan", ["-fsanitize=address,fuzzer"]),
}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), LIB]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("build", "__pycache__", "boehm-gc") or d.startswith(LIB))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".c", ".h", ".min")):
                    h.update(os.path.relpath(p, root).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


_base = None


def base():
    """Scratch copy of /repo/src with generated config headers; returns its directory."""
    global _base
    if _base:
        return _base
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, tree_hash())
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, ".ready")):
            for old in os.listdir(OUT):           # one tree at a time
                p = os.path.join(OUT, old)
                if os.path.isdir(p) and old != os.path.basename(d) and os.environ.get("VP_KEEP") != "1":
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"),
                            ignore=shutil.ignore_patterns("build", "boehm-gc", "*.a", "*.o", "minim"),
                            symlinks=True)
            for sub, text in (
                ("core", '#define MINIM_X86_64 1\n#define PRELUDE_PATH "%s/src/core/s/prelude.min"\n' % d),
                ("boot", '#define BOOT_DIR "%s/src/boot/s/"\n' % d),
                ("gc", "// #define USE_MINIM_GC 1\n"),
            ):
                os.makedirs(os.path.join(d, "src", sub, "build"), exist_ok=True)
                with open(os.path.join(d, "src", sub, "build", "config.h"), "w") as f:
                    f.write(text)
            open(os.path.join(d, ".ready"), "w").close()
    _base = d
    return d


def _compile(cc, flags, src, obj):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    run([cc, "-std=gnu11", "-w"] + flags + ["-c", "-o", obj, src])
    return obj


def objects(variant, boot=True, main=True):
    """Compiles the repository's C files in the given variant; returns object paths."""
    d = base()
    cc, flags, shim, _ = VARIANTS[variant]
    inc = ["-I" + os.path.join(LIB, shim)]
    srcs = sorted(glob.glob(d + "/src/core/c/**/*.c", recursive=True))
    if boot:
        srcs += sorted(glob.glob(d + "/src/boot/c/**/*.c", recursive=True))
    jobs, objs = [], []
    with open(os.path.join(OUT, ".lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            for s in srcs:
                o = os.path.join(d, variant, os.path.relpath(s, d)[:-2] + ".o")
                objs.append((s, o))
                if not os.path.exists(o):
                    jobs.append(ex.submit(_compile, cc, flags + inc, s, o))
            for j in jobs:
                j.result()
    if not main:
        objs = [(s, o) for s, o in objs if not s.endswith("/boot/c/minim.c")]
    return [o for _, o in objs]


def minim(variant="std"):
    """The interpreter, with the fork server linked in."""
    d = base()
    exe = os.path.join(d, variant, "minim")
    if os.path.exists(exe):
        return exe
    objs = objects(variant)
    cc, flags, shim, link = VARIANTS[variant]
    with open(os.path.join(OUT, ".lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            fo = _compile(cc, flags, os.path.join(LIB, "forksrv.c"), os.path.join(d, variant, "forksrv.o"))
            run([cc] + objs + [fo] + ["-Wl,--wrap=fopen"] + link + ["-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    return exe


def plain_minim():
    """The interpreter exactly as the repository links it: no wrapper, no server."""
    d = base()
    exe = os.path.join(d, "std", "minim-plain")
    if not os.path.exists(exe):
        objs = objects("std")
        run(["gcc"] + objs + ["-lgc", "-o", exe + ".tmp%d" % os.getpid()])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def harness(name, variant, sources, extra_flags=(), boot=False, libs=()):
    """A C/C++ harness from /verif linked with the repository's core objects."""
    d = base()
    cc, flags, shim, link = VARIANTS[variant]
    exe = os.path.join(d, variant, "h_" + name)
    if os.path.exists(exe):
        return exe
    objs = objects(variant, boot=boot, main=False)
    hobjs = []
    cxx = False
    for s in sources:
        o = os.path.join(d, variant, "h_" + name + "_" + os.path.basename(s) + ".o")
        c, std = (cc, ["-std=gnu11"])
        if s.endswith((".cc", ".cpp")):
            c, std, cxx = {"gcc": "g++", "clang": "clang++"}[cc], ["-std=gnu++17"], True
        run([c] + std + ["-w"] + flags + ["-I" + os.path.join(LIB, shim), "-I" + os.path.join(d, "src", "core"),
             "-I" + os.path.join(d, "src")] + list(extra_flags) + ["-c", "-o", o, s])
        hobjs.append(o)
    ld = cc if not cxx else {"gcc": "g++", "clang": "clang++"}[cc]
    run([ld] + hobjs + objs + link + list(libs) + ["-o", exe + ".tmp"])
    os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["std"]:
        print(minim(v))
