"""Client for the fork server: runs generated programs in forked copies of a warmed interpreter."""
import os, shutil, signal, subprocess, tempfile, threading

import build

SCRATCH_PARENT = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Result:
    __slots__ = ("status", "out", "err", "us", "rss", "allocs")

    def __init__(self, status, out, err, us, rss=0, allocs=0):
        self.status, self.out, self.err, self.us, self.rss, self.allocs = status, out, err, us, rss, allocs

    @property
    def code(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else None

    @property
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else None

    @property
    def timeout(self):
        return self.signal == signal.SIGALRM

    @property
    def crashed(self):
        if self.signal is not None:
            return not self.timeout
        return b"AddressSanitizer" in self.err or b"runtime error:" in self.err

    @property
    def text(self):
        return self.out.decode("latin-1")

    @property
    def errtext(self):
        return self.err.decode("latin-1")

    def describe(self):
        s = "timeout" if self.timeout else "signal %d" % self.signal if self.signal is not None else "exit %d" % self.code
        return "%s stdout=%r stderr=%r" % (s, self.text[:1500], self.errtext[:800])


class ServerDied(Exception):
    pass


class Server:
    """mode 'core': --no-libs interpreter (prelude only).
    mode 'lib': full interpreter with the base library already imported; a case is a module and
    should start with (import "lib/base.min").
    boot: directory holding an alternative boot.min (default: the shipped one)."""

    def __init__(self, mode="core", variant="std", env=None, exe=None, warm=None, prologue=None):
        self.mode, self.variant = mode, variant
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=SCRATCH_PARENT)
        self.exe = exe or build.minim(variant)
        self.env = dict(os.environ, GC_MARKERS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4000:hard_rss_limit_mb=3500",
                        LC_ALL="C", **(env or {}))
        self.warm_text = warm
        self.prologue = prologue
        self.proc = None
        self.n = 0
        self.runs = 0
        open(os.path.join(self.dir, "FORKPOINT"), "w").close()
        open(os.path.join(self.dir, "FORKPOINT.min"), "w").close()
        if mode == "lib":
            os.symlink(os.path.join(build.base(), "src", "library"), os.path.join(self.dir, "lib"))
            with open(os.path.join(self.dir, "warm.min"), "w") as f:
                f.write(warm if warm is not None else '(import "lib/base.min")\n(import "FORKPOINT.min")\n')

    def start(self):
        a, b = os.pipe()      # parent writes b -> child reads a
        c, d = os.pipe()      # child writes d -> parent reads c
        os.set_inheritable(a, True)
        os.set_inheritable(d, True)
        env = dict(self.env, VP_CTL="%d,%d" % (a, d))
        if self.mode == "core":
            argv = [self.exe, "-q", "--no-libs", os.path.join(self.dir, "FORKPOINT")]
        else:
            argv = [self.exe, "-q", os.path.join(self.dir, "warm.min")]
        self.errf = open(os.path.join(self.dir, "server.log"), "wb")
        self.proc = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                     pass_fds=(a, d), env=env, cwd=self.dir)
        os.close(a)
        os.close(d)
        self.w = os.fdopen(b, "wb", buffering=0)
        self.r = os.fdopen(c, "rb")
        line = self.r.readline()
        if line != b"ready\n":
            self.proc.wait()
            msg = open(os.path.join(self.dir, "server.log"), "rb").read().decode("latin-1")
            raise ServerDied("interpreter did not reach the fork point (status %s): %s" % (self.proc.returncode, msg[-2000:]))
        return self

    def path(self, name):
        return os.path.join(self.dir, name)

    def run(self, text, timeout=5.0, mem=0, stdin=None, files=None, gc=None):
        if self.proc is None:
            self.start()
        self.n = (self.n + 1) % 4
        case, out, err = self.path("case%d.min" % self.n), self.path("out%d" % self.n), self.path("err%d" % self.n)
        for name, data in (files or {}).items():
            p = self.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
        with open(case, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
        sin = "/dev/null"
        if stdin is not None:
            sin = self.path("stdin%d" % self.n)
            with open(sin, "wb") as f:
                f.write(stdin if isinstance(stdin, bytes) else stdin.encode("latin-1"))
        self.w.write(("%s\t%s\t%s\t%s\t%d\t%d%s\n" % (case, out, err, sin, int(timeout * 1000), mem, ":%d:%d:%d" % gc if gc else "")).encode())
        line = self.r.readline().split()
        if len(line) != 4:
            raise ServerDied("fork server went away")
        self.runs += 1
        with open(out, "rb") as f:
            o = f.read(8 << 20)
        with open(err, "rb") as f:
            e = f.read(1 << 20)
        return Result(int(line[0]), o, e, int(line[1]), int(line[2]), int(line[3]))

    def close(self):
        try:
            if self.proc is not None:
                self.w.close()
                self.proc.wait(timeout=5)
                self.r.close()
                self.errf.close()
        except Exception:
            try:
                self.proc.kill()
                self.proc.wait()
            except Exception:
                pass
        self.proc = None
        if self.dir.startswith(SCRATCH_PARENT + "/vp-"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
