"""Procedures: arity, names, renaming, and which argument counts they accept."""
import ml, steps
from ml import Sym, Pair, NIL
from runner import ProgCheck

PRE = """
(define-values (vp-accepts1) (lambda (a n)
  (letrec-values ([(loop) (lambda (a) (if (null? a) #f (if (pair? (cdr a)) (if (= (car a) n) #t (loop (cdr a))) (if (null? (cdr a)) (= (car a) n) (if (cdr a) 'malformed (>= n (car a)))))))])
    (if (fixnum? a) (= a n) (if (pair? a) (loop a) 'malformed)))))
(define-values (vp-accepts) (lambda (p) (map (lambda (n) (vp-accepts1 (procedure-arity p) n)) '(0 1 2 3 4 5 6 7 8 9))))
(define-values (vp-out) (lambda (x) (begin (write x) (newline))))
"""
MAXN = 10


class Code:
    """The clauses of a lambda or case-lambda: (number of formals, rest?) in order."""

    def __init__(self, clauses):
        self.clauses = clauses

    def select(self, n):
        for i, (k, rest) in enumerate(self.clauses):
            if n == k or (rest and n >= k):
                return i
        return None


class Proc:
    def __init__(self, code, cell, name):
        self.code, self.cell, self.name = code, cell, name

    def select(self, n):
        return self.code.select(n)


class Native:
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi

    def select(self, n):
        return 0 if n >= self.lo and (self.hi < 0 or n <= self.hi) else None


NATIVES = None


def natives():
    global NATIVES
    if NATIVES is None:
        NATIVES = sorted((n, p.arity[0], p.arity[1]) for n, p in ml.PRIMS.items() if n not in ("integer?", "number?", "negative?", "positive?", "non-negative?"))
        NATIVES += [("apply", 2, -1), ("values", 0, -1), ("void", 0, 0), ("identity", 1, 1), ("eval", 1, 2), ("raise", 1, 1), ("call-with-values", 2, 2), ("exit", 0, 1), ("procedure-arity", 1, 1),
                    ("procedure-rename", 2, 2), ("hashtable-ref", 2, 3), ("hashtable-set!", 3, 3), ("environment-ref", 2, 3), ("map", 2, -1), ("for-each", 2, -1), ("make-hashtable", 0, 0)]
        NATIVES = sorted(dict((n, (n, lo, hi)) for n, lo, hi in NATIVES).values())
    return NATIVES


class P28(ProgCheck):
    id = "P28"
    technique = "generated procedures (clause lists, naming contexts, aliases, renamed copies, closures over shared state) queried and called with every argument count, against a model of clauses and names"
    rule = ("a case makes about 8 procedures and performs about 25 queries and calls on them; non-trivial when a procedure has at least 3 clauses or a rest clause that another clause overlaps, "
            "and a renamed copy or a second closure of the same code is called")
    prologue = ml.CONTINUE_ON_ERROR + PRE
    quick_s = 26

    def clauses(self, d):
        n = d.weighted([(4, 1), (3, 2), (3, 3), (1, 4), (1, 6)])
        return [(d.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (1, 4), (1, 7)]), d.bool(0.25)) for _ in range(n)]

    def source(self, d, code, var):
        def clause(i, k, rest):
            ids = ["a%d" % j for j in range(k)]
            f = "(%s%s)" % (" ".join(ids), " . r" if rest else "") if ids or not rest else "r"
            return "%s (begin (set! %s (+ %s 1)) (list %d %s %s%s))" % (f, var, var, i, var, " ".join(ids), " r" if rest else "")
        cs = [clause(i, k, r) for i, (k, r) in enumerate(code.clauses)]
        if len(cs) == 1 and d.bool(0.8):
            return "(lambda %s)" % cs[0]
        return "(case-lambda %s)" % " ".join("[%s]" % c for c in cs)

    def gen(self, d):
        L, out = ["(define-values (state) 0)"], []
        procs = []          # (expression, object)
        n = [0]
        second = False
        overlap = False
        top = [0]

        def fresh(p="p"):
            n[0] += 1
            return "%s%d" % (p, n[0])

        def name(o, s):
            if isinstance(o, Proc) and o.name is None:
                o.name = s

        def make():
            nonlocal overlap
            c = Code(self.clauses(d))
            overlap |= len(c.clauses) >= 3 or (len(c.clauses) > 1 and any(r for _, r in c.clauses[:-1]))
            return c

        def new():
            nonlocal second
            k = d.weighted([(4, "define"), (2, "values"), (2, "let"), (2, "vector"), (2, "alias"), (4, "rename"), (3, "maker"), (2, "native"), (1, "eval"), (1, "letrec"), (1, "pass")])
            v = fresh()
            if k == "define":
                c = make()
                L.append("(define-values (%s) %s)" % (v, self.source(d, c, "state")))
                procs.append((v, Proc(c, top, v)))
            elif k == "values":
                w, c, c2 = fresh(), make(), make()
                L.append("(define-values (%s %s) (values %s %s))" % (v, w, self.source(d, c, "state"), self.source(d, c2, "state")))
                procs.extend([(v, Proc(c, top, v)), (w, Proc(c2, top, w))])
            elif k in ("let", "letrec"):
                c, cell = make(), [d.int(0, 9)]
                L.append("(define-values (%s) (let-values ([(st) %d]) (let-values ([(inner%d) %s]) inner%d)))" % (v, cell[0], n[0], self.source(d, c, "st"), n[0]))
                procs.append((v, Proc(c, cell, "inner%d" % n[0])))
            elif k == "vector":
                c = make()
                L.append("(define-values (%s) (vector %s))" % (v, self.source(d, c, "state")))
                o = Proc(c, top, None)
                e = "(vector-ref %s 0)" % v
                L.append("(vp-out (procedure-name %s))" % e)
                out.append("#f")
                procs.append((e, o))
                if d.bool():
                    w = fresh()
                    L.append("(define-values (%s) %s)" % (w, e))
                    name(o, w)
                    procs.append((w, o))
            elif k == "alias" and procs:
                e, o = d.choice(procs)
                if d.bool():
                    L.append("(define-values (%s) %s)" % (v, e))
                    name(o, v)
                else:
                    L.append("(define-values (%s) (let-values ([(x%d) %s]) x%d))" % (v, n[0], e, n[0]))
                    name(o, "x%d" % n[0])
                procs.append((v, o))
            elif k == "rename" and procs:
                e, o = d.choice(procs)
                nm = d.choice(["new-name", "f", v, "car"])
                L.append("(define-values (%s) (procedure-rename %s '%s))" % (v, e, nm))
                if isinstance(o, Native):
                    p = Native(nm, o.lo, o.hi)
                else:
                    p = Proc(o.code, o.cell, nm)
                    second = True
                procs.append((v, p))
            elif k == "maker":
                c, m = make(), fresh("mk")
                L.append("(define-values (%s) (lambda (st) %s))" % (m, self.source(d, c, "st")))
                for _ in range(d.int(1, 3)):
                    w, s = fresh(), d.int(0, 9)
                    L.append("(define-values (%s) (%s %d))" % (w, m, s))
                    procs.append((w, Proc(c, [s], w)))
                second = True
                procs.append((m, Proc(Code([(1, False)]), None, m)))
            elif k == "eval":
                c = make()
                L.append("(eval '(define-values (%s) %s))" % (v, self.source(d, c, "state")))
                procs.append((v, Proc(c, top, v)))
            elif k == "pass":
                # through a call that is not the procedure's binding
                c, cell = make(), [3]
                L.append("(define-values (%s) (car (list ((lambda (st) %s) 3))))" % (v, self.source(d, c, "st")))
                procs.append((v, Proc(c, cell, v)))
            else:
                a, lo, hi = d.choice(natives())
                procs.append((a, Native(a, lo, hi)))

        def call(e, o):
            if isinstance(o, Native) or o.cell is None:
                bad = [i for i in range(MAXN) if o.select(i) is None]
                if not bad:
                    return
                m = d.choice(bad)
            else:
                m = d.int(0, 8) if d.bool(0.5) else d.choice([k + d.choice([0, 0, 1, -1]) for k, _ in o.code.clauses])
                m = max(0, m)
            args = [d.int(0, 99) for _ in range(m)]
            i = o.select(m)
            k = d.weighted([(4, 0), (3, 1), (1, 2), (1, 3)])
            if k == 0:
                x = "(%s%s)" % (e, "".join(" %d" % a for a in args))
            elif k == 1:
                j = d.int(0, m)
                x = "(apply %s %s '(%s))" % (e, " ".join(map(str, args[:j])), " ".join(map(str, args[j:])))
            elif k == 2:
                x = "(call-with-values (lambda () (values %s)) %s)" % (" ".join(map(str, args)), e)
            else:
                x = "(let-values ([(%s) (values %s)]) (%s %s))" % (" ".join("q%d" % j for j in range(m)), " ".join(map(str, args)), e, " ".join("q%d" % j for j in range(m)))
            L.append("(vp-out %s)" % x)
            if i is None:
                out.append("!exn")
            else:
                o.cell[0] += 1
                kk, rest = o.code.clauses[i]
                out.append(ml.show(ml.lst([i, o.cell[0]] + args[:kk] + ([ml.lst(args[kk:])] if rest else []))))

        for _ in range(d.int(3, 6)):
            new()
        while not procs:
            new()
        for _ in d.repeat(22, 60):
            k = d.weighted([(2, "new"), (6, "call"), (4, "arity"), (3, "name"), (1, "eq"), (1, "shape"), (1, "bad"), (1, "check")])
            e, o = d.choice(procs)
            if k == "new":
                new()
            elif k == "call":
                call(e, o)
            elif k == "arity":
                L.append("(vp-out (vp-accepts %s))" % e)
                out.append(ml.show(ml.lst([o.select(i) is not None for i in range(MAXN)])))
                L.append("(vp-out (procedure-arity? (procedure-arity %s)))" % e)
                out.append("#t")
            elif k == "name":
                L.append("(vp-out (procedure-name %s))" % e)
                out.append(ml.show(Sym(o.name) if o.name else False))
            elif k == "eq":
                f, q = d.choice(procs)
                L.append("(vp-out (eq? %s %s))" % (e, f))
                out.append("#t" if o is q or (isinstance(o, Native) and isinstance(q, Native) and e == f) else "#f")
            elif k == "check":
                L.append("(vp-out (list (procedure? %s) (procedure? '%s)))" % (e, ml.show(steps.value(d, 1))))
                out.append("(#t #f)")
            elif k == "bad":
                v = d.choice(["5", "'x", "\"s\"", "(list car)"])
                L.append("(vp-out (%s))" % d.choice(["procedure-arity %s" % v, "procedure-name %s" % v, "procedure-rename %s 'x" % v, "procedure-rename %s \"x\"" % e, "procedure-rename %s 5" % e]))
                out.append("!argument")
            else:
                v = self.shape(d)
                L.append("(vp-out (procedure-arity? %s))" % ml.lit(v))
                out.append("#t" if is_arity(v) else "#f")
        return {"prog": "".join("(eval '%s)\n" % x for x in L), "out": "".join(x + "\n" for x in out), "nt": second and overlap}

    def shape(self, d):
        n = lambda: d.weighted([(8, d.int(0, 5)), (1, -1), (1, Sym("a"))])
        k = d.int(0, 4)
        if k == 0:
            return n()
        xs = sorted(d.int(0, 9) for _ in range(d.int(1, 4))) if d.bool(0.7) else [n() for _ in range(d.int(0, 4))]
        return ml.lst(xs, d.weighted([(4, NIL), (4, False), (1, True), (1, 5)]) if xs else NIL)


def is_arity(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return v >= 0
    if not isinstance(v, Pair):
        return False
    last = -1
    while isinstance(v, Pair):
        if not isinstance(v.car, int) or isinstance(v.car, bool) or v.car <= last:
            return False
        last, v = v.car, v.cdr
    return v is NIL or v is False


CHECK = P28
