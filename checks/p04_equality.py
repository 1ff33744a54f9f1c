"""eq?, equal? and the hash functions: laws and values over generated data."""
import ml, steps
from ml import Pair, Vec, Box, NIL, Sym, Str, Ch
from runner import ProgCheck

PRE = """
(define-values (mkht) (lambda (ht al) (begin (for-each (lambda (a) (hashtable-set! ht (car a) (cdr a))) al) ht)))
(define-values (ht-keep) (lambda (ht k) (begin (hashtable-set! ht k 1) (hashtable-delete! ht k) ht)))
(define-values (&plain) (make-record-type-descriptor 'plain #f #f #f #f #((immutable x) (mutable y))))
(define-values (&byval) (make-record-type-descriptor 'byval #f #f #f #f #((immutable x) (immutable y))))
(define-values (&kid) (begin
  (record-type-equal-procedure &byval (lambda (a b eq) (if (eq ((record-accessor &byval 0) a) ((record-accessor &byval 0) b)) #t #f)))
  (record-type-hash-procedure &byval (lambda (a h) (h ((record-accessor &byval 0) a))))
  (make-record-type-descriptor 'kid &byval #f #f #f #((immutable z)))))
(define-values (nest) (lambda (k n x) (if (= n 0) x (nest k (- n 1) (if (= k 0) (cons x '()) (if (= k 1) (cons 1 x) (if (= k 2) (vector x) (box x))))))))
"""


class HT:
    def __init__(self, kind, items):
        self.kind, self.items = kind, items      # items: list of [key, value]

    def src(self):
        t = "(mkht (make-%shashtable) (list%s))" % (self.kind, "".join(" (cons %s %s)" % (ml.fresh(k), ml.fresh(v)) for k, v in self.items))
        return t

    def show(self, d):
        return "#<hashtable>"


class Rec:
    def __init__(self, rt, f):
        self.rt, self.f = rt, f

    def src(self):
        return "((record-constructor &%s)%s)" % (self.rt, "".join(" " + ml.fresh(x) for x in self.f))

    def show(self, d):
        return "#<%s>" % self.rt


def simple(x):
    return isinstance(x, (int, Sym, Ch)) or x is NIL


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, Pair) and isinstance(b, Pair):
        return equal(a.car, b.car) and equal(a.cdr, b.cdr)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Box) and isinstance(b, Box):
        return equal(a.v, b.v)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.rt != "plain" and b.rt != "plain" and equal(a.f[0], b.f[0])
    if isinstance(a, HT) and isinstance(b, HT):
        if a.kind != b.kind or len(a.items) != len(b.items):
            return False
        kq = ml.eq if a.kind else equal
        return all(any(kq(k, k2) and equal(v, v2) for k2, v2 in b.items) for k, v in a.items)
    if type(a) != type(b):
        return False
    return ml.equal(a, b)


def data(x):
    """Made of pairs, vectors, boxes and atoms only."""
    if isinstance(x, Pair):
        return data(x.car) and data(x.cdr)
    if isinstance(x, Vec):
        return all(data(y) for y in x.v)
    if isinstance(x, Box):
        return data(x.v)
    return not isinstance(x, (HT, Rec))


def copy(x):
    if isinstance(x, Pair):
        return Pair(copy(x.car), copy(x.cdr))
    if isinstance(x, Vec):
        return Vec([copy(y) for y in x.v])
    if isinstance(x, Box):
        return Box(copy(x.v))
    if isinstance(x, Str):
        return Str(bytes(x.b))
    if isinstance(x, HT):
        return HT(x.kind, [[copy(k), copy(v)] for k, v in x.items])
    if isinstance(x, Rec):
        return Rec(x.rt, [copy(y) for y in x.f])
    return x


class P04(ProgCheck):
    id = "P04"
    technique = "generated pairs of structurally related objects (copies, one-point mutants, unrelated) compared under eq?, equal?, eq-hash and equal-hash against a structural model"
    rule = ("a case compares about 8 pairs of generated objects in both directions; non-trivial when at least one pair is equal? without being eq? and is nested, "
            "and at least one differs at a single inner position")
    prologue = ml.EXIT_ON_ERROR + PRE
    quick_s = 32

    def val(self, d, depth):
        if depth > 0 and d.bool(0.5):
            k = d.weighted([(4, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5)])
            sub = lambda: self.val(d, depth - 1)
            if k == 0:
                return ml.lst(d.list(sub, 1, 4), sub() if d.bool(0.2) else NIL)
            if k == 1:
                return Pair(sub(), sub())
            if k == 2:
                return Vec(d.list(sub, 0, 4))
            if k == 3:
                return Box(sub())
            if k == 4:
                kind = d.choice(["", "eq-"])
                items = []
                for _ in range(d.int(0, 5)):
                    key = steps.value(d, 0) if kind == "" else self.atom(d)
                    if kind == "" and d.bool(0.4):
                        key = self.val(d, depth - 1)
                    if not any(equal(key, k2) or ml.eq(key, k2) for k2, _ in items):
                        items.append([key, sub()])
                return HT(kind, items)
            rt = d.choice(["plain", "byval", "byval", "kid"])
            return Rec(rt, [sub() for _ in range(3 if rt == "kid" else 2)])
        return d.choice([steps.value(d, 0), steps.string(d, 5), self.atom(d)])

    def atom(self, d):
        return d.weighted([(2, lambda: steps.fixnum(d)), (2, lambda: steps.symbol(d)), (1, lambda: steps.char(d)), (1, lambda: NIL), (1, lambda: d.bool())])()

    def mutate(self, d, x):
        """A copy of x that differs at one position."""
        if isinstance(x, Pair):
            if d.bool():
                return Pair(self.mutate(d, x.car), copy(x.cdr))
            return Pair(copy(x.car), self.mutate(d, x.cdr))
        if isinstance(x, Vec):
            if x.v and d.bool(0.8):
                i = d.int(0, len(x.v) - 1)
                return Vec([self.mutate(d, y) if i == j else copy(y) for j, y in enumerate(x.v)])
            return Vec([copy(y) for y in x.v] + [self.atom(d)])
        if isinstance(x, Box):
            return Box(self.mutate(d, x.v))
        if isinstance(x, Str):
            b = bytearray(x.b)
            if b and d.bool(0.7):
                i = d.int(0, len(b) - 1)
                b[i] = b[i] ^ 1 or 2
            else:
                b.append(97)
            return Str(bytes(b))
        if isinstance(x, HT):
            y = copy(x)
            if y.items and d.bool(0.4):
                y.items[d.int(0, len(y.items) - 1)][1] = self.atom(d)
            elif y.items and d.bool(0.4):
                y.items.pop()
            else:
                y.kind = "eq-" if not y.kind else ""
                y.items = []
            return y
        if isinstance(x, Rec):
            i = d.int(0, len(x.f) - 1)
            return Rec(x.rt, [self.mutate(d, y) if i == j else copy(y) for j, y in enumerate(x.f)])
        if isinstance(x, bool):
            return not x
        if isinstance(x, int):
            return ml.wrap(x + d.choice([1, -1, 256, 1 << 32, 1 << 62]))
        if isinstance(x, Sym):
            return Sym(x + "x")
        if isinstance(x, Ch):
            return Ch(x.c ^ 1 or 2)
        return d.choice([Pair(1, NIL), Vec([]), Str(b""), False, 0, Sym("nil")])

    def gen(self, d):
        L, out = [], []
        eqneq = point = False
        n = 0

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append(ml.show(v))

        for _ in d.repeat(8, 20):
            x = self.val(d, d.int(0, 4))
            how = d.weighted([(5, "copy"), (4, "mutant"), (2, "other"), (1, "same"), (1, "shuffled")])
            y = {"copy": lambda: copy(x), "mutant": lambda: self.mutate(d, x), "other": lambda: self.val(d, 2), "same": lambda: x,
                 "shuffled": lambda: copy(x)}[how]()
            if how == "shuffled":
                if not isinstance(x, HT):
                    continue
                y.items.reverse()
                L.append("(define-values (k%d) (list 'extra))" % n)
            n += 1
            L.append("(define-values (x%d) %s)" % (n, ml.fresh(x)))
            L.append("(define-values (y%d) %s)" % (n, "x%d" % n if how == "same" else ml.fresh(y)))
            a, b = "x%d" % n, "y%d" % n
            e = equal(x, y)
            if how == "copy" and e and isinstance(x, (Pair, Vec, Box, HT)) and not simple(x):
                eqneq = True
            if how == "mutant" and not e and isinstance(x, (Pair, Vec, Box, HT, Rec)):
                point = True
            show("(list (equal? %s %s) (equal? %s %s) (eq? %s %s) (equal? %s %s))" % (a, b, b, a, a, b, a, a),
                 ml.lst([e, e, ml.eq(x, y), True]))
            if data(x) and data(y):
                show("(list ($equal? %s %s) ($equal? %s %s))" % (a, b, b, a), ml.lst([e, e]))
                if e and not isinstance(x, (Pair, Vec, Box)):
                    show("(= ($equal-hash %s) ($equal-hash %s))" % (a, b), True)
            if how == "shuffled":
                # a deleted key leaves no trace
                show("(equal? (ht-keep %s '(extra)) %s)" % (b, a) if not x.kind else "(equal? (ht-keep %s 'extra.key) %s)" % (b, a), e)
            if e:
                show("(= (equal-hash %s) (equal-hash %s))" % (a, b), True)
                show("(equal? (list %s 1) (list %s 1))" % (a, b), True)
            if ml.eq(x, y):
                show("(= (eq-hash %s) (eq-hash %s))" % (a, b), True)
            show("(= (equal-hash %s) (equal-hash %s))" % (a, a), True)
            show("(if (fixnum? (equal-hash %s)) (fixnum? (eq-hash %s)) #f)" % (b, b), True)
            if isinstance(x, (Pair, Vec, Box)) and how == "copy":
                # mutation through one name is seen by later comparisons
                m = {"Pair": "(set-car! %s 'mutated)", "Vec": "(vector-fill! %s 'mutated)", "Box": "(set-box! %s 'mutated)"}[type(x).__name__]

                def mut(o):
                    if isinstance(o, Pair):
                        o.car = Sym("mutated")
                    elif isinstance(o, Vec):
                        o.v = [Sym("mutated")] * len(o.v)
                    else:
                        o.v = Sym("mutated")
                L.append(m % a)
                mut(x)
                show("(equal? %s %s)" % (a, b), equal(x, y))
                L.append(m % b)
                mut(y)
                show("(equal? %s %s)" % (a, b), equal(x, y))
                if equal(x, y):
                    show("(= (equal-hash %s) (equal-hash %s))" % (a, b), True)
        if d.bool(0.1):
            k, m = d.int(0, 3), d.int(1000, 9000)
            leaf = self.atom(d)
            t = ml.fresh(leaf)
            z = ml.fresh(self.mutate(d, leaf))
            L.append("(define-values (da db dc) (values (nest %d %d %s) (nest %d %d %s) (nest %d %d %s)))" % (k, m, t, k, m, t, k, m, z))
            show("(list (equal? da db) (equal? da dc) (= (equal-hash da) (equal-hash db)))", ml.lst([True, False, True]))
            self.tag("deep")
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": eqneq and point}


CHECK = P04
