"""Symbols: identity is exactly name equality, whatever produced the symbol and however many exist."""
import ml, steps
from ml import Sym, Str
from runner import ProgCheck

PRE = """
(define-values (mk) (lambda (p n) (let-values ([(v) (make-vector n)]) (letrec-values ([(loop) (lambda (i) (if (= i n) v (begin (vector-set! v i (string->symbol (if p (string-append p (number->string i)) (number->string i)))) (loop (+ i 1)))))]) (loop 0)))))
(define-values (same) (lambda (v p n) (letrec-values ([(loop) (lambda (i k) (if (= i n) k (loop (+ i 1) (if (eq? (vector-ref v i) (string->symbol (if p (string-append p (number->string i)) (number->string i)))) (+ k 1) k))))]) (loop 0 0))))
(define-values (names-ok) (lambda (v p n) (letrec-values ([(loop) (lambda (i k) (if (= i n) k (loop (+ i 1) (if (equal? (symbol->string (vector-ref v i)) (if p (string-append p (number->string i)) (number->string i))) (+ k 1) k))))]) (loop 0 0))))
(define-values (distinct) (lambda (v n) (let-values ([(ht) (make-eq-hashtable)]) (begin (for-each (lambda (s) (hashtable-set! ht s #t)) (vector->list v)) (hashtable-size ht)))))
"""
PLAIN = set(map(ord, steps.SYMCHARS))


def readable(b):
    if not b or any(c not in PLAIN for c in b):
        return False
    if b[0] in b"0123456789+-#.":
        return False
    return True


class P06(ProgCheck):
    id = "P06"
    technique = "generated symbol names (hash-colliding, odd bytes, long) from every origin compared pairwise by identity; mass interning across table growth"
    rule = ("a case produces about 20 symbols from about 8 names by different routes and compares them pairwise; non-trivial when it has two different names whose "
            "hashes collide or an equal name from three routes, or interns more than 7000 symbols")
    prologue = ml.EXIT_ON_ERROR + PRE
    quick_s = 30
    timeout = 40.0

    def name(self, d):
        k = d.weighted([(4, 0), (2, 1), (1, 2), (1, 3), (1, 4)])
        if k == 0:
            return bytes(steps.symbol(d), "latin-1")
        if k == 1:
            return bytes(d.list(lambda: steps.char(d).c, 0, 8))
        if k == 2:
            return bytes(d.list(lambda: d.int(97, 122), 30, 200))
        if k == 3:
            return b"%d" % steps.fixnum(d)
        return d.choice([b"", b"a b", b"(", b"#t", b"1", b"'", b"A", b"a", b"Lambda", b"nil", b"()", b"t0", b"t1"])

    def collide(self, d, b):
        b = bytearray(b)
        for _ in range(d.int(1, 2)):
            if len(b) >= 2:
                i = d.int(0, len(b) - 2)
                if b[i] > 2 and b[i + 1] + 33 < 128 and b[i] - 1 > 32:
                    b[i] -= 1
                    b[i + 1] += 33
        return bytes(b)

    def gen(self, d):
        L, out = [], []

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append(v)

        names = []
        for _ in range(d.int(2, 6)):
            n = self.name(d)
            names.append(n)
            if d.bool(0.6):
                names.append(self.collide(d, n))
            if d.bool(0.2):
                names.append(n + b"x")
            if d.bool(0.2) and n:
                names.append(n[:-1])
            if d.bool(0.2):
                names.append(n.swapcase())
        mass = None
        if d.bool(0.12):
            mass = d.choice([('"p"', 100), ('"sym-"', 1000), ("#f", 1000), ("#f", 7000), ("#f", 7000), ("#f", 13000), ('"%s"' % ("x" * 40), 300)])
            L.append('(define-values (mv) (mk %s %d))' % mass)
        syms = []
        routes = {}
        for i in range(d.int(4, 24)):
            n = d.choice(names)
            ways = ["str", "str", "roundtrip", "mutated"]
            if readable(n):
                ways += ["quote", "quote", "read", "eval", "list"]
            w = d.choice(ways)
            s = ml.fresh(Str(n))
            t = n.decode("latin-1")
            if w == "mutated" and not n:
                w = "str"
            if w == "str":
                L.append("(define-values (s%d) (string->symbol %s))" % (i, s))
            elif w == "roundtrip":
                L.append("(define-values (s%d) (string->symbol (symbol->string (string->symbol %s))))" % (i, s))
            elif w == "mutated":
                L.append("(define-values (s%d) (let-values ([(s) %s]) (let-values ([(y) (string->symbol s)]) (begin (string-set! s 0 #\\Z) (string-set! (symbol->string y) 0 #\\Q) y))))" % (i, s))
            elif w == "quote":
                L.append("(define-values (s%d) '%s)" % (i, t))
            elif w == "read":
                L.append('(define-values (s%d) (read (open-input-string "%s ")))' % (i, t.replace("\\", "\\\\").replace('"', '\\"')))
            elif w == "eval":
                L.append("(define-values (s%d) (eval (list 'quote (string->symbol %s))))" % (i, s))
            else:
                L.append("(define-values (s%d) (car (cdr '(1 %s 2))))" % (i, t))
            syms.append((i, n))
            routes.setdefault(n, set()).add(w)
            if mass and d.bool(0.15):
                L.append('(mk "%s" %d)' % (d.choice(["q", "r", "w"]), d.choice([50, 500, 3000])))
        for i, n in syms:
            show("(symbol->string s%d)" % i, ml.show(Str(n)))
        show("(list%s)" % "".join(" (symbol? s%d)" % i for i, _ in syms), "(" + " ".join("#t" for _ in syms) + ")")
        for a, n in syms:
            show("(list%s)" % "".join(" (eq? s%d s%d)" % (a, b) for b, _ in syms), "(" + " ".join("#t" if n == m else "#f" for _, m in syms) + ")")
        show("(list%s)" % "".join(" (equal? s%d s%d)" % (a, b) for (a, _), (b, _) in zip(syms, syms[1:])),
             "(" + " ".join("#t" if n == m else "#f" for (_, n), (_, m) in zip(syms, syms[1:])) + ")")
        # a symbol as a hashtable key and as a variable name
        L.append("(define-values (ht) (make-eq-hashtable))")
        last = {}
        for i, n in syms:
            L.append("(hashtable-set! ht s%d %d)" % (i, i))
            last[n] = i
        show("(list%s)" % "".join(" (hashtable-ref ht s%d)" % i for i, _ in syms), "(" + " ".join(str(last[n]) for _, n in syms) + ")")
        show("(hashtable-size ht)", str(len(last)))
        if mass:
            p, n = mass
            show('(list (same mv %s %d) (names-ok mv %s %d) (distinct mv %d))' % (p, n, p, n, n), "(%d %d %d)" % (n, n, n))
            L.append("(define-values (probe-variable another) (values 'kept 'too))")
            show("(list probe-variable another (eval 'probe-variable) (eq? 'car (string->symbol \"car\")) ((eval 'car) '(1)))", "(kept too kept #t 1)")
            self.tag("mass-%d" % n)

        def h(b):
            x = 5381
            for c in b:
                x = (x * 33 + (c - 256 if c > 127 else c)) & 0xffffffff
            return x
        hs = {}
        for n in last:
            hs.setdefault(h(n), set()).add(n)
        col = any(len(v) > 1 for v in hs.values())
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out),
                "nt": col or any(len(w) >= 3 for w in routes.values()) or bool(mass and mass[1] >= 7000)}


CHECK = P06
