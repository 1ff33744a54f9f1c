"""The project's own collector against a model of reachability."""
import os, subprocess
import build
from runner import Check, Fail

TRACE = {0: 1, 1: 0, 2: 1, 3: 2, 4: 0, 5: 2}      # kind -> every word, none, even words
DTOR = {2, 4, 5}


class Model:
    def __init__(self):
        self.words, self.size, self.kind, self.dtor = {}, {}, {}, {}
        self.roots, self.slots = set(), [None] * 64
        self.paused = False

    def alloc(self, id, kind, size):
        self.words[id] = [None] * (size // 8)
        self.size[id], self.kind[id], self.dtor[id] = size, kind, kind in DTOR

    def out(self, id):
        t = TRACE[self.kind[id]]
        return [w for w in self.words[id][::t] if w is not None] if t else []

    def reach(self):
        seen, todo = set(), [s for s in self.slots if s is not None] + list(self.roots)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += [y for y in self.out(x) if y not in seen]
        return seen

    def drop(self, ids):
        for i in ids:
            del self.words[i], self.size[i], self.kind[i], self.dtor[i]
            self.roots.discard(i)


def rng(xs):
    """'a-b c-d' -> set"""
    out = set()
    for x in xs:
        a, b = x.split("-")
        out |= set(range(int(a), int(b)))
    return out


class P23(Check):
    id = "P23"
    technique = "model-based testing: generated operation histories on the collector (harness with moving realloc, poisoned frees, injected allocation failure) against a reachability model"
    rule = ("a case is a history of 20 to 120 collector operations (allocation of every kind, stores, dropped references, realloc, free, roots, destructors, markers, pause, failing malloc, "
            "chains of thousands of blocks, megabytes of garbage, statistics); non-trivial when at least one collection freed some blocks and kept others")
    quick_s = 20
    workers = 8

    @classmethod
    def prepare(cls, tier):
        d = build.base()
        exe = os.path.join(d, "gcharness")
        if not os.path.exists(exe):
            g = os.path.join(d, "src", "gc")
            build.run(["gcc", "-w", "-O0", "-g", "-I" + g, os.path.join(build.LIB, "gcharness.c"), os.path.join(g, "minim-gc", "gc.c"), os.path.join(g, "minim-gc", "gc-impl.c"),
                       "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-o", exe + ".tmp%d" % os.getpid()])
            os.rename(exe + ".tmp%d" % os.getpid(), exe)
        cls.exe = exe

    def gen(self, d):
        m, ops, nid = Model(), [], 0
        big = d.bool(0.25)

        def pick():
            ids = [s for s in m.slots if s is not None]
            if not ids:
                return None
            x = d.choice(ids)
            for _ in range(d.int(0, 3)):
                o = m.out(x)
                if not o or len(m.words) > 2000 and d.bool():
                    break
                x = d.choice(o)
            return x

        def unref(x, keep):
            """Clear every reference to x but slot keep."""
            for i, s in enumerate(m.slots):
                if s == x and i != keep:
                    m.slots[i] = None
                    ops.append("z %d" % i)
            for y in m.reach():
                if x in m.words[y]:
                    for k, w in enumerate(m.words[y]):
                        if w == x:
                            m.words[y][k] = None
                            ops.append("n %d %d %d" % (y, k, d.int(0, 999)))

        def verify():
            r = sorted(m.reach())
            out, i = [], 0
            while i < len(r):
                j = i
                while j + 1 < len(r) and r[j + 1] == r[j] + 1:
                    j += 1
                out.append("%d %d" % (r[i], r[j] + 1))
                i = j + 1
            ops.append("k " + " ".join(out))

        for _ in d.repeat(50, 150):
            k = d.weighted([(12, "a"), (10, "w"), (5, "s"), (6, "z"), (3, "n"), (5, "c"), (2, "q"), (3, "r"), (2, "f"), (2, "R"), (1, "D"), (1, "p"), (1, "u"), (2, "m"), (2, "g")]
                           + ([(2, "L")] if big else [(1, "B")] if d.bool(0.1) else []))
            if k == "a":
                s, kind, size, cal = d.int(0, 11), d.weighted([(4, 0), (1, 1), (2, 2), (2, 3), (1, 4), (1, 5)]), d.weighted([(6, d.int(1, 12) * 8), (1, d.int(0, 100)), (1, d.int(100, 3000))]), d.choice([0, 0, 1, 2])
                if cal == 2:
                    size = (size + 3) // 4 * 4
                ops.append("a %d %d %d %d %d" % (s, nid, kind, size, cal))
                m.alloc(nid, kind, size)
                m.slots[s] = nid
                nid += 1
            elif k in "wn":
                x = pick()
                if x is None or not m.words[x]:
                    continue
                i = d.int(0, min(len(m.words[x]), 12) - 1)
                if k == "w":
                    y = pick()
                    m.words[x][i] = y
                    ops.append("w %d %d %d" % (x, i, y))
                else:
                    m.words[x][i] = None
                    ops.append("n %d %d %d" % (x, i, d.int(0, 999)))
            elif k == "s":
                x = pick()
                if x is not None:
                    s = d.int(0, 11)
                    m.slots[s] = x
                    ops.append("s %d %d" % (s, x))
            elif k == "z":
                s = d.int(0, 11)
                m.slots[s] = None
                ops.append("z %d" % s)
            elif k in "rf":
                ss = [i for i, s in enumerate(m.slots) if s is not None]
                if not ss:
                    continue
                s = d.choice(ss)
                x = m.slots[s]
                unref(x, s)
                if k == "r":
                    size = d.weighted([(5, d.int(1, 12) * 8), (1, d.int(1, 100)), (1, d.int(100, 3000))])
                    if m.dtor[x] and m.kind[x] not in DTOR:
                        continue
                    ops.append("r %d %d %d %d" % (s, x, m.kind[x], size))
                    w = m.words[x][:size // 8]
                    m.words[x], m.size[x] = w + [None] * (size // 8 - len(w)), size
                else:
                    m.slots[s] = None
                    ops.append("z %d" % s)
                    m.words[x] = []
                    m.roots.discard(x)
                    ops.append("f %d" % x)
            elif k in "RD":
                x = pick()
                if x is not None:
                    ops.append("%s %d" % (k, x))
                    if k == "R":
                        m.roots.add(x)
                    else:
                        m.dtor[x] = True
            elif k == "L":
                n = d.choice([10, 2000, 5000, 7000, 15000])
                if nid + n > 50000:
                    continue
                s = d.int(0, 11)
                ops.append("L %d %d %d" % (s, nid, n))
                for i in range(n):
                    m.alloc(nid + i, 0, 16)
                    if i:
                        m.words[nid + i][0] = nid + i - 1
                m.slots[s] = nid + n - 1
                nid += n
            elif k == "q":
                ops.append("q %d %d" % (d.int(0, 11), d.int(0, 4)))
            elif k == "B":
                n, size = d.choice([(20, 1 << 20), (150, 1 << 20), (3000, 4096)])
                ops.append("B 12 %d %d %d" % (nid, n, size))
                for i in range(n):
                    m.alloc(nid + i, 1, size)
                nid += n
                ops.append("g")
            else:
                ops.append(k)
                if k == "c" and d.bool(0.7):
                    verify()
        ops.append("c")
        verify()
        ops += ["g", "F"]
        return {"ops": ops}

    def run(self, case):
        ops = case["ops"]
        env = dict(os.environ, MALLOC_ARENA_MAX="1")
        try:
            p = subprocess.run([self.exe], input="\n".join(ops) + "\n", capture_output=True, text=True, timeout=60, env=env)
        except subprocess.TimeoutExpired:
            raise Fail("timeout", "the collector does not come back\n" + "\n".join(ops)[:3000])

        def fail(kind, msg):
            raise Fail(kind, "%s\n%s" % (msg, "\n".join(ops)[:3000]))

        ev, stats = {}, []
        lines = p.stdout.split("\n")
        for l in lines:
            if l.startswith("BAD"):
                fail("damage", l[4:])
        if p.returncode != 0 or "ok" not in lines:
            fail("crash", "harness exit %d: %s" % (p.returncode, p.stderr[:500]))
        for l in lines:
            t = l.split()
            if len(t) == 3 and all(x.isdigit() for x in t):
                stats.append(tuple(map(int, t)))
            elif len(t) > 1:
                i = t.index("destroyed") if "destroyed" in t else len(t)
                ev[int(t[0])] = (rng(t[2:i]) if t[1] == "freed" else set(), rng(t[i + 1:]))
        m, fault, flow, good = Model(), False, 0, False
        for n, op in enumerate(ops):
            t = op.split()
            a = [int(x) for x in t[1:]]
            freed, destroyed = ev.pop(n, (set(), set()))
            live = None
            if t[0] == "f":
                if freed != {a[0]}:
                    fail("free", "operation %d (%s) freed %s" % (n, op, sorted(freed)))
            elif t[0] == "F":
                if freed != set(m.words):
                    fail("finalize", "GC_finalize left %s" % sorted(set(m.words) - freed)[:10])
            elif t[0] in "cq" or fault and t[0] in "ar":
                live = m.reach()
                dead = set(m.words) - live
                if freed - dead:
                    fail("unsafe", "operation %d (%s) freed blocks still reachable: %s" % (n, op, sorted(freed - dead)[:10]))
                if dead - freed:
                    fail("leak", "operation %d (%s) kept unreachable blocks: %s" % (n, op, sorted(dead - freed)[:10]))
                good = good or bool(freed and live)
            if t[0] == "m":
                fault = True
            elif t[0] in "ar":
                fault = False
            if t[0] == "a":
                m.alloc(a[1], a[2], a[3])
                m.slots[a[0]] = a[1]
            elif t[0] == "r":
                w = m.words[a[1]][:a[3] // 8]
                m.words[a[1]], m.size[a[1]] = w + [None] * (a[3] // 8 - len(w)), a[3]
            elif t[0] == "w":
                m.words[a[0]][a[1]] = a[2]
            elif t[0] == "n":
                m.words[a[0]][a[1]] = None
            elif t[0] == "s":
                m.slots[a[0]] = a[1]
            elif t[0] == "z":
                m.slots[a[0]] = None
            elif t[0] == "R":
                m.roots.add(a[0])
            elif t[0] == "D":
                m.dtor[a[0]] = True
            elif t[0] in "pu":
                m.paused = t[0] == "p"
                flow = 0
            elif t[0] == "L":
                fault = False
                for i in range(a[2]):
                    m.alloc(a[1] + i, 0, 16)
                    if i:
                        m.words[a[1] + i][0] = a[1] + i - 1
                m.slots[a[0]] = a[1] + a[2] - 1
            elif t[0] == "B":
                fault = False
                for i in range(a[2]):
                    m.alloc(a[1] + i, 1, a[3])
                if not m.paused:
                    flow += a[2] * a[3]
            if freed and live is None and t[0] not in "fF":
                if m.paused and t[0] not in "LB":
                    fail("paused", "operation %d (%s) collected although collection is paused" % (n, op))
                dead = set(m.words) - m.reach()
                if freed - dead:
                    fail("unsafe", "operation %d (%s) freed blocks still reachable: %s" % (n, op, sorted(freed - dead)[:10]))
            want = {i for i in freed if m.dtor[i]}
            if destroyed != want:
                fail("destructor", "operation %d (%s) freed %s and ran the destructors of %s" % (n, op, sorted(freed)[:10], sorted(destroyed)[:10]))
            m.drop(freed)
            if t[0] == "g":
                live = m.reach()
                al, re = sum(m.size.values()), sum(m.size[i] for i in live)
                s = stats.pop(0)
                if s != (al, re, al - re):
                    fail("statistics", "operation %d: allocated, reachable, collectable are %s, reported %s" % (n, (al, re, al - re), s))
                if flow > 128 << 20 and al - re > 64 << 20:
                    fail("liveness", "operation %d: %d bytes of garbage after %d bytes of allocation" % (n, al - re, flow))
        self.tag("good", good)
        return good, tuple(ops)


CHECK = P23
