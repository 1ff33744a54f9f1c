"""FASL: whatever is written is read back equal, object by object, in a stream that may also hold text."""
import ml, spell, steps
from ml import Sym, Str, Ch, Pair, Vec, NIL
from runner import ProgCheck

PRE = """
(define-values (describe) (lambda (t) (if t (list (record-type-name t) (record-type-field-names t) (record-type-uid t) (record-type-sealed? t) (record-type-opaque? t)
  (map (lambda (i) (record-type-field-mutable? t i)) (iota (vector-length (record-type-field-names t)))) (describe (record-type-parent t))) #f)))
(define-values (fields) (lambda (t r) (if t (append (fields (record-type-parent t) r) (map (lambda (i) ((record-accessor t i) r)) (iota (vector-length (record-type-field-names t))))) '())))
(define-values (deep) (lambda (n x) (if (= n 0) x (deep (- n 1) (if (= 0 (remainder n 2)) (cons x '()) (vector x))))))
(define-values (flat) (lambda (n x) (if (pair? x) (flat (+ n 1) (car x)) (if (vector? x) (flat (+ n 1) (vector-ref x 0)) (list n x)))))
(define-values (mklist) (lambda (n t) (letrec-values ([(loop) (lambda (i acc) (if (= i 0) acc (loop (- i 1) (cons i acc))))]) (loop n t))))
(define-values (sumlist) (lambda (l n s) (if (pair? l) (sumlist (cdr l) (+ n 1) (+ s (* n (car l)))) (list n s l))))
(define-values (mkvec) (lambda (n) (let-values ([(v) (make-vector n 0)]) (letrec-values ([(loop) (lambda (i) (if (= i n) v (begin (vector-set! v i (- 0 i)) (loop (+ i 1)))))]) (loop 0)))))
(define-values (sumvec) (lambda (v) (letrec-values ([(n) (vector-length v)] [(loop) (lambda (i s) (if (= i n) (list n s) (loop (+ i 1) (+ s (* (+ i 1) (vector-ref v i))))))]) (loop 0 0))))
(define-values (rdn) (lambda (p n) (letrec-values ([(loop) (lambda (i acc) (if (= i n) (list->string (reverse acc)) (loop (+ i 1) (cons (read-char p) acc))))]) (loop 0 '()))))
"""


class P09(ProgCheck):
    id = "P09"
    technique = "generated data written with fasl-write and read back (round trip), with size and byte boundaries, records and interleaved text"
    rule = ("a case writes about 10 objects into one file and reads them back in order; non-trivial when the data nest, contain a negative or large fixnum, a byte above 127, "
            "and a record or a block longer than 127 elements")
    prologue = ml.CONTINUE_ON_ERROR + PRE
    quick_s = 22
    timeout = 20.0

    def val(self, d, depth=3):
        k = d.weighted([(3, 0), (2, 1), (1, 2), (1, 3)] + ([(4, 4), (1, 5), (2, 6)] if depth else []))
        if k == 0:
            return steps.fixnum(d)
        if k == 1:
            return d.choice([lambda: Sym(spell.symname(d)), lambda: Str(bytes(d.list(lambda: d.int(1, 255), 0, 12))), lambda: Ch(d.int(0, 255))])()
        if k == 2:
            return d.choice([True, False, NIL])
        if k == 3:
            return d.choice([ml.EOF, ml.VOID, Vec([])])
        if k == 4:
            return ml.lst(d.list(lambda: self.val(d, depth - 1), 0, 5))
        if k == 5:
            return ml.lst(d.list(lambda: self.val(d, depth - 1), 1, 3), self.val(d, depth - 1))
        return Vec(d.list(lambda: self.val(d, depth - 1), 0, 5))

    def gen(self, d):
        W, R, out = [], [], []
        flags = set()
        T = []                      # (var, name, fields, parent index, uid, sealed, opaque, description)
        for i in range(d.int(0, 3)):
            name = spell.symname(d) if d.bool(0.2) else d.choice(["pt", "node", "x"])
            if not all(33 <= ord(c) < 127 for c in name) or any(c in "'|\\,`@#;\"" for c in name):
                name = "rt"
            par = d.int(-1, len(T) - 1)
            if par >= 0 and T[par][5]:
                par = -1
            uid = Sym("u%d" % i) if d.bool(0.3) else False
            sealed, opaque = d.bool(0.2), d.bool(0.1)
            if par >= 0 and T[par][6]:
                opaque = True       # whether opacity is inherited is left open
            fs = [(d.bool(), "f%d" % j) for j in range(d.int(0, 4))]
            W.append("(define-values (&%d) (make-record-type-descriptor '%s %s %s %s %s #(%s)))" % (
                i, name, "#f" if par < 0 else "&%d" % par, "'" + uid if uid else "#f", ml.show(sealed), ml.show(opaque),
                " ".join("(%s %s)" % ("mutable" if m else "immutable", f) for m, f in fs)))
            desc = ml.lst([Sym(name), Vec([Sym(f) for _, f in fs]), uid, sealed, opaque, ml.lst([m for m, _ in fs]), T[par][7] if par >= 0 else False])
            T.append(("&%d" % i, name, fs, par, uid, sealed, opaque, desc))
        W.append('(define-values (o) (open-output-file "f.fasl"))')
        R.append('(define-values (i) (open-input-file "f.fasl"))')

        def nfields(t):
            return len(T[t][2]) + (nfields(T[t][3]) if T[t][3] >= 0 else 0)

        def opq(t):
            return T[t][6]

        def show(e, v):
            R.append("(begin (write %s) (newline))" % e)
            out.append(ml.show(v) if not isinstance(v, str) or isinstance(v, Sym) else v)

        for n in d.repeat(9, 25):
            k = d.weighted([(6, 0), (2, 1), (1, 2), (1, 3), (1, 4), (2, 5)])
            if k == 0:
                x = self.val(d)
                W.append("(fasl-write %s o)" % ml.fresh(x))
                t = ml.show(x)
                if any(ord(c) > 127 for c in t):
                    flags.add("byte")
                if isinstance(x, (Pair, Vec)):
                    flags.add("nest")
                if "-" in t:
                    flags.add("num")
                v = "x%d" % n if False else "x%d" % len(R)
                R.append("(define-values (%s) (fasl-read i))" % v)
                show(v, x)
                show("(equal? %s %s)" % (v, ml.fresh(x)), True)
                if isinstance(x, Sym):
                    show("(eq? %s '%s)" % (v, ml.show(x)) if d.bool() else "(eq? %s (string->symbol %s))" % (v, ml.show(Str(x.encode("latin-1")))), True)
            elif k == 1 and T:
                t = d.int(0, len(T) - 1)
                xs = [self.val(d, 1) for _ in range(nfields(t))]
                W.append("(fasl-write ((record-constructor %s)%s) o)" % (T[t][0], "".join(" " + ml.fresh(x) for x in xs)))
                v = "x%d" % len(R)
                R.append("(define-values (%s) (fasl-read i))" % v)
                flags.add("big")
                show(v, "#<%s>" % T[t][1])
                if not opq(t):
                    show("(describe (record-rtd %s))" % v, T[t][7])
                    show("(fields (record-rtd %s) %s)" % (v, v), ml.lst(xs))
            elif k == 2 and T:
                t = d.int(0, len(T) - 1)
                W.append("(fasl-write %s o)" % T[t][0])
                show("(describe (fasl-read i))", T[t][7])
            elif k == 3:
                m = d.choice([126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 40000])
                flags.add("big")
                q = d.int(0, 4)
                if q == 0:
                    tail = d.choice([NIL, 5, Sym("t")])
                    W.append("(fasl-write (mklist %d %s) o)" % (m, ml.fresh(tail)))
                    show("(sumlist (fasl-read i) 0 0)", ml.lst([m, sum(j * (j + 1) for j in range(m)), tail]))
                elif q == 1:
                    W.append("(fasl-write (mkvec %d) o)" % m)
                    show("(sumvec (fasl-read i))", ml.lst([m, -sum((j + 1) * j for j in range(m))]))
                elif q == 2:
                    m = min(m, 1000)
                    b = bytes(33 + (j * 7) % 90 for j in range(m))
                    W.append("(fasl-write %s o)" % ml.show(Str(b)))
                    show("(fasl-read i)", Str(b))
                elif q == 3:
                    m = min(m, 1000)
                    b = "".join(chr(97 + (j * 7) % 26) for j in range(m))
                    W.append("(fasl-write '%s o)" % b)
                    show("(eq? (fasl-read i) '%s)" % b, True)
                else:
                    m = min(m, 3000)
                    W.append("(fasl-write (deep %d 'end) o)" % m)
                    show("(flat 0 (fasl-read i))", ml.lst([m, Sym("end")]))
            elif k == 4:
                t = steps.string(d, 8).b.decode("latin-1")
                W.append("(put-string o %s)" % ml.show(Str(t.encode("latin-1"))))
                show("(rdn i %d)" % len(t), Str(t.encode("latin-1")))
            else:
                b = 1 << d.choice([6, 7, 8, 13, 14, 15, 20, 21, 27, 28, 31, 32, 34, 35, 42, 49, 55, 56, 62, 63])
                x = ml.wrap(d.choice([1, -1]) * b + d.int(-1, 1))
                W.append("(fasl-write %d o)" % x)
                flags.add("num")
                show("(fasl-read i)", x)
        W.append("(close-output-port o)")
        show("(read-char i)", ml.EOF)
        if d.bool(0.2):
            show(d.choice(["(fasl-write 1 o)", "(begin (close-input-port i) (fasl-read i))"]), Sym("!exn"))
        if d.bool(0.2):
            show(d.choice(["(fasl-read o)", "(fasl-write 1 i)", "(fasl-read 'x)", "(fasl-write 1 2)"]), Sym("!argument"))
        return dict(prog="\n".join(W + R) + "\n", out="".join(o + "\n" for o in out), nt={"nest", "num", "byte", "big"} <= flags)


CHECK = P09
