"""Runs one property's check: parallel generated-input search, shrinking, replay, evidence.

  run.py <ID> quick|thorough          run the check
  run.py <ID> --replay FILE           re-run one saved case
"""
import glob, hashlib, json, multiprocessing as mp, os, queue, random, re, signal, sys, time, traceback

import build, draw, server

VERIF = build.VERIF


class Fail(Exception):
    """Raised by a check when the property is violated. kind groups equal failures for shrinking."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


Discard = draw.Discard


class Check:
    id = None
    rule = ""
    technique = ""
    assumptions = []
    quick_s = 40          # seconds of search per worker (quick)
    thorough_s = 600
    quick_n = 10 ** 9     # cases per worker
    thorough_n = 10 ** 9
    workers = 8
    shrink_s = 60

    def __init__(self, tier, seed, worker=0):
        self.tier, self.seed, self.worker = tier, seed, worker
        self.tags = {}

    @classmethod
    def prepare(cls, tier):
        """Runs once in the parent before workers start (builds)."""

    def setup(self):
        pass

    def teardown(self):
        pass

    def gen(self, d):
        raise NotImplementedError

    def run(self, case):
        """Executes one case; raises Fail; returns (nontrivial: bool, distinctness key)."""
        raise NotImplementedError

    def fixed(self):
        """Cases every run executes (dealt over the workers)."""
        return []

    def once(self):
        """Extra work of worker 0 that is not case-shaped; returns extra evidence."""
        return {}

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def sample(self, case):
        return case


class ProgCheck(Check):
    """Cases are programs with the stdout the oracle predicts: {"prog", "out", "nt", "key"}."""
    mode = "core"
    variant = "std"
    timeout = 10.0
    prologue = ""
    tail = ""
    mem = 3000
    warm = None
    env = None

    def setup(self):
        self.slow = getattr(self, "slow", 0)
        self.srvs = {}
        self.server(self.mode)

    def server(self, mode, again=False):
        if again and mode in self.srvs:
            self.srvs.pop(mode).close()
        if mode not in self.srvs:
            self.srvs[mode] = boot_server(self, mode=mode)
        return self.srvs[mode]

    def teardown(self):
        for s in getattr(self, "srvs", {}).values():
            s.close()

    def exec(self, prog, mode=None, **kw):
        kw.setdefault("timeout", self.timeout * (1 + getattr(self, "slow", 0)))
        kw.setdefault("mem", self.mem if self.variant in ("std", "stress") else 0)
        mode = mode or self.mode
        pro = self.prologue[mode] if isinstance(self.prologue, dict) else self.prologue
        if "vp-handler" in pro:
            prog = queued(prog)
        try:
            return self.server(mode).run(pro + prog, **kw)
        except server.ServerDied:
            return self.server(mode, again=True).run(pro + prog, **kw)

    def run(self, case):
        r = self.exec(case["prog"], mode=case.get("mode"), files=case.get("files"), stdin=case.get("stdin"))
        if r.timeout:
            raise Fail("timeout", "no answer in %.0fs\nprogram:\n%s" % (self.timeout, case["prog"]))
        if r.crashed:
            raise Fail("crash", "interpreter died: %s\nprogram:\n%s" % (r.describe(), case["prog"]))
        if r.text != case["out"] or r.code != case.get("code", 0):
            raise Fail("output", diff_msg(case, r))
        return case.get("nt", True), case.get("key", case["prog"])


def forms(text):
    """The top-level forms of a program, as text."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i].isspace():
            i += 1
            continue
        if text[i] == ";":
            while i < n and text[i] != "\n":
                i += 1
            continue
        j, depth = i, 0
        while i < n:
            c = text[i]
            if c == '"':
                i += 1
                while text[i] != '"':
                    i += 2 if text[i] == "\\" else 1
            elif c == "#" and text[i + 1:i + 2] == "\\":
                i += 2
            elif c == ";":
                while i < n and text[i] != "\n":
                    i += 1
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            i += 1
            if depth == 0 and (c in ")]}" or i >= n or (text[i].isspace() and text[j] not in "'`,#")):
                break
        out.append(text[j:i])
    return out


DEF = re.compile(r"\(define-values \(([^()]*)\)\s+(.*)\)$", re.S)


def queued(prog):
    """Queue every form as a thunk (see ml.CONTINUE_ON_ERROR); definitions become assignments."""
    out = []
    for f in forms(prog):
        m = DEF.match(f)
        if m:
            names = m.group(1).split()
            out += ["(define-values (%s) #f)" % n for n in names]
            if len(names) == 1:
                f = "(set! %s %s)" % (names[0], m.group(2))
            else:
                f = "(let-values ([(%s) %s]) (begin (void) %s))" % (" ".join("vp." + n for n in names), m.group(2), " ".join("(set! %s vp.%s)" % (n, n) for n in names))
        elif f.startswith(("(define-", "(define ", "(import ")):
            out.append(f)
            continue
        out.append("(vp-add (lambda () %s))" % f)
    return "\n".join(out) + "\n(begin (set! vp-q (reverse vp-q)) (vp-go))\n"


def diff_msg(case, r):
    a, b = case["out"].split("\n"), r.text.split("\n")
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return "line %d: expected %r, got %r (exit %s, stderr %r)\nprogram:\n%s" % (
        i + 1, "\n".join(a[i:i + 2])[:600], "\n".join(b[i:i + 2])[:600], r.code if r.signal is None else "signal %d" % r.signal,
        r.errtext[:400], case["prog"])


def boot_server(chk, **kw):
    """An interpreter that does not reach its first expression breaks every property."""
    last = None
    for t in range(3):
        s = server.Server(mode=kw.get("mode", chk.mode), variant=kw.get("variant", chk.variant), env=kw.get("env", chk.env),
                          warm=kw.get("warm", chk.warm))
        try:
            return s.start()
        except server.ServerDied as e:
            last = e
            s.close()
            time.sleep(0.5)
    f = Fail("boot", str(last))
    f.case = {"boot": True}
    raise f


def corpus(id):
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "corpus", id, "*.json"))):
        with open(p) as f:
            out.append((p, json.load(f)["case"]))
    return out


def findings(id):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == id and x["status"] == "open"]


def _key(k):
    return hashlib.blake2b(repr(k).encode(), digest_size=8).digest()


def judge(chk, case):
    """None if the property held, else Fail."""
    try:
        if isinstance(case, dict) and case.get("boot"):
            boot_server(chk).close()
            return None
        chk.run(case)
        return None
    except Discard:
        return None
    except Fail as f:
        return f


def worker_main(cls, tier, seed, i, n, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    chk = cls(tier, seed, i)
    st = {"evals": 0, "discards": 0, "nontrivial": 0, "keys": set(), "samples": [], "tags": {}, "extra": {}}
    try:
        chk.setup()
        fixed = corpus(cls.id)[i::n] + [("fixed", c) for c in list(chk.fixed())[i::n]]
        rng = random.Random("%s/%s/%d" % (cls.id, seed, i))
        limit = cls.quick_n if tier == "quick" else cls.thorough_n
        secs = float(os.environ.get("VP_SECS", 0)) or (cls.quick_s if tier == "quick" else cls.thorough_s)
        end = time.time() + secs
        k = 0
        if i == 0:
            st["extra"] = chk.once() or {}
        while not stop.is_set():
            d = None
            if k < len(fixed):
                case = fixed[k][1]
            else:
                if k - len(fixed) >= limit or time.time() > end:
                    break
                d = draw.Draw(rng)
                try:
                    case = chk.gen(d)
                except Discard:
                    st["discards"] += 1
                    k += 1
                    continue
            k += 1
            try:
                nontrivial, ky = chk.run(case)
            except Discard:
                st["discards"] += 1
                continue
            except Fail as f:
                st["evals"] += 1
                f = confirm(chk, case, f)
                if f is None:
                    chk.tag("unconfirmed")
                    continue
                stop.set()
                if d is not None:
                    case, f = do_shrink(chk, d.rec, case, f)
                q.put(("fail", i, {"kind": f.kind, "msg": f.msg, "case": case}))
                break
            st["evals"] += 1
            if nontrivial:
                st["nontrivial"] += 1
                st["keys"].add(_key(ky))
                if len(st["samples"]) < 3 and (rng.random() < 0.2 or len(st["samples"]) == 0):
                    st["samples"].append(chk.sample(case))
    except Fail as f:
        q.put(("fail", i, {"kind": f.kind, "msg": f.msg, "case": getattr(f, "case", None)}))
        stop.set()
    except Exception:
        q.put(("error", i, traceback.format_exc()))
        stop.set()
    finally:
        try:
            chk.teardown()
        except Exception:
            pass
    st["tags"] = chk.tags
    q.put(("done", i, st))


def confirm(chk, case, f):
    """A failure counts only if it repeats three times with the same kind (timeouts get longer)."""
    last = f
    for t in range(3):
        chk.slow = t + 1
        try:
            g = judge(chk, case)
        finally:
            chk.slow = 0
        if g is None or g.kind != f.kind:
            return None
        last = g
    return last


def do_shrink(chk, rec, case, f):
    best = [case, f]

    def attempt(prefix):
        d = draw.Draw(prefix=prefix)
        try:
            c = chk.gen(d)
        except Discard:
            return None
        g = judge(chk, c)
        if g is not None and g.kind == f.kind:
            best[0], best[1] = c, g
            return d.rec
        return None

    r = draw.shrink(rec, attempt, chk.shrink_s)
    d = draw.Draw(prefix=r)
    try:
        c = chk.gen(d)
        g = confirm(chk, c, f)
        if g is not None:
            return c, g
    except Discard:
        pass
    g = confirm(chk, best[0], f)
    return (best[0], g) if g is not None else (case, f)


def write_evidence(cls, tier, seed, wall, stats, violations, extra):
    keys, samples, tags = set(), [], {}
    ev = disc = 0
    for s in stats:
        ev += s["evals"]
        disc += s["discards"]
        keys |= s["keys"]
        samples += s["samples"]
        for k, v in s["tags"].items():
            tags[k] = tags.get(k, 0) + v
        extra.update(s["extra"])
    def short(x, cap=1500):
        t = x if isinstance(x, str) else json.dumps(x)
        return t if len(t) <= cap else t[:cap] + "..."
    cov = {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": cls.rule,
           "samples": [short(s) for s in samples[:8]], "discarded": disc, "counts": dict(sorted(tags.items()))}
    cov.update(extra)
    e = {"property": cls.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "wall_s": round(wall, 2), "violations": violations, "assumptions": list(cls.assumptions)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", cls.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.rename(p + ".tmp", p)


def run_check(cls, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        build.base()
        cls.prepare(tier)
    except build.BuildError as e:
        # the tree does not build: nothing to judge
        print("BUILD FAILED\n%s" % e)
        return 2
    # known findings: each is one specific input, re-run every time
    open_findings = []
    chk = None
    fs = findings(cls.id)
    if fs:
        chk = cls(tier, seed, 0)
        try:
            chk.setup()
            for f in fs:
                g = judge(chk, f["case"])
                if g is not None:
                    print("KNOWN-FINDING: property=%s %s" % (cls.id, f["what"]))
                    open_findings.append(f["id"])
            chk.teardown()
        except Fail:
            pass        # the workers meet the same failure and report it
    n = int(os.environ.get("VP_WORKERS", 0)) or cls.workers
    q, stop = mp.Queue(), mp.Event()
    ps = [mp.Process(target=worker_main, args=(cls, tier, seed, i, n, q, stop)) for i in range(n)]
    for p in ps:
        p.start()
    stats, fails, errors, alive = [], [], [], set(range(n))
    while alive:
        try:
            kind, i, x = q.get(timeout=5)
        except queue.Empty:
            for j in list(alive):
                if not ps[j].is_alive() and q.empty():
                    alive.discard(j)
                    errors.append("worker %d died (exit %s)" % (j, ps[j].exitcode))
                    stop.set()
            continue
        if kind == "done":
            stats.append(x)
            alive.discard(i)
        elif kind == "fail":
            fails.append(x)
        else:
            errors.append(x)
    for p in ps:
        p.join(timeout=20)
        if p.is_alive():
            p.kill()
    viol = []
    for x in fails[:1]:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha256(json.dumps(x["case"], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (cls.id, h))
        with open(path, "w") as f:
            json.dump({"property": cls.id, "kind": x["kind"], "message": x["msg"], "case": x["case"], "seed": seed}, f, indent=1)
        print("property %s violated [%s]\n%s" % (cls.id, x["kind"], x["msg"][:3000]))
        print("VIOLATION property=%s replay=%s" % (cls.id, path))
        viol.append(path)
    write_evidence(cls, tier, seed, time.time() - t0, stats, len(viol), {"known_findings_reproduced": open_findings})
    ev = sum(s["evals"] for s in stats)
    print("%s %s: %d cases, %d non-trivial, %.1fs, %d violation(s)" % (
        cls.id, tier, ev, sum(s["nontrivial"] for s in stats), time.time() - t0, len(viol)))
    for e in errors:
        print("ERROR in check machinery:\n" + e)
    if viol:
        return 1
    if errors:
        return 2
    return 0


def replay(cls, path):
    with open(path) as f:
        x = json.load(f)
    build.base()
    cls.prepare("quick")
    chk = cls("quick", 1, 0)
    try:
        if not (isinstance(x["case"], dict) and x["case"].get("boot")):
            chk.setup()
        chk.slow = 1
        g = judge(chk, x["case"])
        chk.teardown()
    except Fail as f:
        g = f
    if g is None:
        print("replay: property %s held on %s" % (cls.id, path))
        return 0
    print("[%s] %s" % (g.kind, g.msg[:4000]))
    print("VIOLATION property=%s replay=%s" % (cls.id, path))
    return 1
