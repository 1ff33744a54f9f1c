"""Hashtables: histories over eq, equal and custom tables against a finite-map model."""
import ml, steps
from ml import Sym, NIL, Pair, Str, Vec
from runner import ProgCheck

PRE = """
(define-values (count-in) (lambda (eqv k v) (letrec-values ([(loop) (lambda (i n) (if (= i (vector-length v)) n (loop (+ i 1) (if (eqv (vector-ref v i) k) (+ n 1) n))))]) (loop 0 0))))
(define-values (census) (lambda (eqv ks v) (list (vector-length v) (map (lambda (k) (count-in eqv k v)) ks))))
(define-values (at) (lambda (eqv k kv vv) (letrec-values ([(loop) (lambda (i acc) (if (= i (vector-length kv)) (reverse acc) (loop (+ i 1) (if (eqv (vector-ref kv i) k) (cons (vector-ref vv i) acc) acc))))]) (loop 0 '()))))
(define-values (entries) (lambda (eqv ks ht) (let-values ([(kv vv) (hashtable-entries ht)]) (list (vector-length kv) (vector-length vv) (map (lambda (k) (at eqv k kv vv)) ks)))))
(define-values (fill) (lambda (ht a b m) (if (>= a b) (void) (begin (hashtable-set! ht a (* a m)) (fill ht (+ a 1) b m)))))
(define-values (drop) (lambda (ht a b) (if (>= a b) (void) (begin (hashtable-delete! ht a) (drop ht (+ a 1) b)))))
(define-values (sum) (lambda (v) (letrec-values ([(loop) (lambda (i n) (if (= i (vector-length v)) n (loop (+ i 1) (+ n (if (integer? (vector-ref v i)) (vector-ref v i) 1)))))]) (loop 0 0))))
(define-values (present) (lambda (ht a b) (letrec-values ([(loop) (lambda (a n s) (if (>= a b) (list n s) (if (hashtable-contains? ht a) (loop (+ a 1) (+ n 1) (+ s ((lambda (x) (if (integer? x) x 1)) (hashtable-ref ht a)))) (loop (+ a 1) n s))))]) (loop a 0 0))))
"""

KINDS = {
    "eq": ("(make-eq-hashtable)", "eq?"),
    "equal": ("(make-hashtable)", "equal?"),
    "mod": ("(make-custom-hashtable (lambda (x) (modulo x 5)) (lambda (a b) (= (modulo a 10) (modulo b 10))))", "(lambda (a b) (= (modulo a 10) (modulo b 10)))"),
    "one": ("(make-custom-hashtable (lambda (x) 7) equal?)", "equal?"),
    "neg": ("(make-custom-hashtable (lambda (x) (- 0 (if (integer? x) x 3))) equal?)", "equal?"),
}


class Table:
    def __init__(self, kind, var):
        self.kind, self.var, self.m, self.names = kind, var, {}, {}

    def key(self, k):
        """k: (source text, model value or identity token)"""
        v = k[1]
        if self.kind == "mod":
            return v % 10
        if self.kind == "eq" and not isinstance(v, (int, Sym, ml.Ch)) and v is not NIL:
            return ("id", k[0])
        return ml.show(v)


class P05(ProgCheck):
    id = "P05"
    technique = "stateful model-based testing: generated operation histories over several tables against a finite-map model, with growth, shrink, collisions, copies and reentrant updates"
    rule = ("a case is a history of about 30 operations on up to 4 tables (eq, equal, custom, all-collide, negative hashes); non-trivial when a table passes through growth or bulk "
            "deletion (crossing 16 entries) and an entry is overwritten, deleted or updated, and a copy or snapshot is compared after its source changed")
    prologue = ml.CONTINUE_ON_ERROR + PRE
    quick_s = 32

    def gen(self, d):
        L, out = [], []
        tabs = []
        idents = []
        pool = []
        grew = over = snapd = False
        snaps = []
        nv = [0]

        def do(e):
            L.append(e)

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append(ml.show(v))

        for i in range(d.int(0, 3)):
            x = steps.value(d, 2)
            if isinstance(x, (Pair, Vec, ml.Box)):
                L.append("(define-values (o%d) %s)" % (i, ml.fresh(x)))
                idents.append(("o%d" % i, x))
        nk = d.int(3, 9)
        for _ in range(nk):
            v = d.weighted([(3, lambda: steps.fixnum(d)), (2, lambda: steps.symbol(d)), (2, lambda: steps.string(d, 4)), (1, lambda: steps.char(d)), (2, lambda: steps.value(d, 2))])()
            pool.append((ml.fresh(v), v))
        pool += idents
        # neighbours: keys equal to another key's copy, or one bit away
        for s, v in list(pool):
            if ml.isint(v) and d.bool(0.4):
                w = ml.wrap(v + d.choice([1, 13, 29, 1 << 32, 256]))
                pool.append((ml.fresh(w), w))

        def new(kind):
            t = Table(kind, "t%d" % nv[0])
            nv[0] += 1
            tabs.append(t)
            return t

        t = new(d.weighted([(3, "equal"), (3, "eq"), (2, "mod"), (1, "one"), (1, "neg")]))
        do("(define-values (%s) %s)" % (t.var, KINDS[t.kind][0]))

        def key(t):
            if t.kind in ("mod",):
                n = d.int(-30, 30)
                return (str(n), n)
            if d.bool(0.25):
                n = d.int(-3, 40)
                return (str(n), n)
            c = pool
            if t.kind == "eq":
                c = [k for k in pool if isinstance(k[1], (int, Sym, ml.Ch)) or k[1] is NIL or k in idents]
            if not c:
                return ("7", 7)
            return d.choice(c)

        def keysrc(ks):
            return "(list%s)" % "".join(" " + k[0] for k in ks)

        def probe(t):
            ks, seen = [], set()
            for k in pool + [(str(n), n) for n in range(0, 12)]:
                if t.kind == "mod" and not ml.isint(k[1]):
                    continue
                if t.kind == "eq" and not (isinstance(k[1], (int, Sym, ml.Ch)) or k[1] is NIL or k in idents):
                    continue
                if t.key(k) not in seen:
                    seen.add(t.key(k))
                    ks.append(k)
            return ks

        def check_all(t):
            ks = probe(t)
            show("(hashtable-size %s)" % t.var, len(t.m))
            e = d.int(0, 2)
            eqv = KINDS[t.kind][1]
            if e == 0:
                show("(entries %s %s %s)" % (eqv, keysrc(ks), t.var),
                     ml.lst([len(t.m), len(t.m), ml.lst([ml.lst([t.m[t.key(k)]] if t.key(k) in t.m else []) for k in ks])]))
            elif e == 1:
                show("(census %s %s (hashtable-keys %s))" % (eqv, keysrc(ks), t.var),
                     ml.lst([len(t.m), ml.lst([int(t.key(k) in t.m) for k in ks])]))
            else:
                show("(list (vector-length (hashtable-vals %s)) (sum (hashtable-vals %s)))" % (t.var, t.var),
                     ml.lst([len(t.m), ml.wrap(sum(v if ml.isint(v) else 1 for v in t.m.values()))]))
            if t.kind != "mod":
                a, b = d.choice([(0, 50), (-5, 20), (90, 130)])
                vs = [t.m[t.key((str(i), i))] for i in range(a, b) if t.key((str(i), i)) in t.m]
                show("(present %s %d %d)" % (t.var, a, b), ml.lst([len(vs), ml.wrap(sum(v if ml.isint(v) else 1 for v in vs))]))

        def value():
            return d.weighted([(3, lambda: d.int(-99, 99)), (1, lambda: steps.value(d, 1))])()

        def setm(t, k, v):
            nonlocal over
            kk = t.key(k)
            over = over or kk in t.m
            t.m[kk] = v

        def bulk(t, n=None):
            """source of a bulk change to t, applied to the model"""
            nonlocal grew
            a = d.int(-5, 60)
            n = n or d.weighted([(3, lambda: d.int(1, 30)), (3, lambda: d.int(30, 200)), (1, lambda: d.int(200, 600))])()
            if t.kind in ("one", "mod"):
                n = min(n, 40)
            if d.bool(0.6):
                mul = d.int(-3, 3)
                for i in range(a, a + n):
                    t.m[t.key((str(i), i))] = i * mul
                if len(t.m) > 16:
                    grew = True
                return "(fill %s %d %d %d)" % (t.var, a, a + n, mul)
            for i in range(a, a + n):
                t.m.pop(t.key((str(i), i)), None)
            return "(drop %s %d %d)" % (t.var, a, a + n)

        for _ in d.repeat(30, 70):
            t = d.choice(tabs)
            k = d.weighted([(6, "set"), (4, "ref"), (3, "contains"), (4, "update"), (4, "delete"), (1, "clear"), (3, "bulk"), (3, "check"), (2, "copy"), (1, "new"), (2, "snap"), (1, "err"), (1, "reent")])
            if k == "set":
                ky, v = key(t), value()
                setm(t, ky, v)
                do("(hashtable-set! %s %s %s)" % (t.var, ky[0], ml.fresh(v)))
            elif k == "ref":
                ky = key(t)
                have = t.key(ky) in t.m
                how = d.int(0, 2)
                v = value()
                if how == 0:
                    show("(hashtable-ref %s %s)" % (t.var, ky[0]), t.m[t.key(ky)] if have else Sym("!missing"))
                elif how == 1:
                    show("(hashtable-ref %s %s %s)" % (t.var, ky[0], ml.fresh(v)), t.m[t.key(ky)] if have else v)
                else:
                    show("(hashtable-ref %s %s (lambda () %s))" % (t.var, ky[0], ml.fresh(v)), t.m[t.key(ky)] if have else v)
            elif k == "contains":
                ky = key(t)
                show("(hashtable-contains? %s %s)" % (t.var, ky[0]), t.key(ky) in t.m)
            elif k == "update":
                ky = key(t)
                kk = t.key(ky)
                if kk in t.m and d.bool():
                    v0 = t.m[kk]
                    do("(hashtable-update! %s %s (lambda (x) (list x 1)))" % (t.var, ky[0]) if not ml.isint(v0) else "(hashtable-update! %s %s (lambda (x) (+ x 1)))" % (t.var, ky[0]))
                    setm(t, ky, ml.wrap(v0 + 1) if ml.isint(v0) else ml.lst([v0, 1]))
                else:
                    v = value()
                    dflt = ml.fresh(v) if d.bool() else "(lambda () %s)" % ml.fresh(v)
                    cur = t.m.get(kk, v)
                    do("(hashtable-update! %s %s (lambda (x) (cons 'u x)) %s)" % (t.var, ky[0], dflt))
                    setm(t, ky, Pair(Sym("u"), cur))
                if len(ml.show(t.m[kk])) > 300:
                    t.m[kk] = 0
                    do("(hashtable-set! %s %s 0)" % (t.var, ky[0]))
            elif k == "reent" or (k == "update" and False):
                ky = key(t)
                kk = t.key(ky)
                cur = t.m.get(kk, 5)
                absent = kk not in t.m
                where = d.choice(tabs)
                src = bulk(where)
                inupd = d.bool(0.7)
                if inupd:
                    do("(hashtable-update! %s %s (lambda (x) (begin %s (cons 'r x))) 5)" % (t.var, ky[0], src))
                    t.m[kk] = Pair(Sym("r"), cur)
                else:
                    if not absent:
                        show("(hashtable-ref %s %s 5)" % (t.var, ky[0]), cur)
                        do(src)
                    else:
                        show("(hashtable-ref %s %s (lambda () (begin %s 5)))" % (t.var, ky[0], src), 5)
                if len(ml.show(t.m.get(kk, 0))) > 300:
                    t.m[kk] = 0
                    do("(hashtable-set! %s %s 0)" % (t.var, ky[0]))
                self.tag("reentrant")
                check_all(t)
            elif k == "delete":
                ky = key(t)
                over = over or t.key(ky) in t.m
                t.m.pop(t.key(ky), None)
                do("(hashtable-delete! %s %s)" % (t.var, ky[0]))
            elif k == "clear":
                if d.bool(0.4):
                    t.m.clear()
                    do("(hashtable-clear! %s)" % t.var)
            elif k == "bulk":
                do(bulk(t))
            elif k == "check":
                check_all(t)
            elif k == "copy" and len(tabs) < 4:
                c = new(t.kind)
                c.m = dict(t.m)
                do("(define-values (%s) (hashtable-copy %s))" % (c.var, t.var))
                snapd = True
                show("(equal? %s %s)" % (c.var, t.var), True)
            elif k == "new" and len(tabs) < 4:
                c = new(d.choice(sorted(KINDS)))
                do("(define-values (%s) %s)" % (c.var, KINDS[c.kind][0]))
            elif k == "snap":
                ks = probe(t)
                n = len(snaps)
                what = d.choice(["keys", "vals"])
                do("(define-values (s%d) (hashtable-%s %s))" % (n, what, t.var))
                if what == "keys":
                    snaps.append(("(census %s %s s%d)" % (KINDS[t.kind][1], keysrc(ks), n), ml.lst([len(t.m), ml.lst([int(t.key(k) in t.m) for k in ks])])))
                else:
                    snaps.append(("(sum s%d)" % n, ml.wrap(sum(v if ml.isint(v) else 1 for v in t.m.values()))))
            elif k == "err":
                x = d.choice([5, Sym("t"), Str(b"x"), NIL])
                op = d.choice(["(hashtable-size %s)", "(hashtable-contains? %s 1)", "(hashtable-ref %s 1)", "(hashtable-set! %s 1 2)", "(hashtable-delete! %s 1)", "(hashtable-copy %s)", "(hashtable-clear! %s)"])
                show(op % ml.fresh(x), Sym("!argument"))
        for e, v in snaps:
            show(e, v)
            snapd = True
        for t in tabs:
            check_all(t)
            show("(map (lambda (k) (hashtable-ref %s k 'none)) %s)" % (t.var, keysrc(probe(t))), ml.lst([t.m.get(t.key(k), Sym("none")) for k in probe(t)]))
        for t in tabs:
            self.tag(t.kind)
        if d.bool(0.1):
            t = d.choice(tabs)
            ky = key(t)
            if t.key(ky) not in t.m:
                show("(hashtable-update! %s %s (lambda (x) (display \"updater ran\")))" % (t.var, ky[0]), Sym("!missing"))
                show("(hashtable-size %s)" % t.var, len(t.m))
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": grew and over and snapd}


CHECK = P05
