"""Control stack: deep recursion, tail calls, large argument lists and value counts, deep nesting."""
import ml
from runner import ProgCheck, Fail, Discard


def pad(d, k, base="p"):
    return ["%s%d" % (base, i) for i in range(k)]


class P02(ProgCheck):
    id = "P02"
    technique = "generated call-structure programs (depth, frame size, argument and value counts) against a closed-form model, with a memory bound for tail loops"
    rule = ("a case draws a call structure (recursion depth, frame width, argument/value count, nesting depth) and computes the answer in Python; "
            "non-trivial when the structure crosses a 64 KiB stack segment (depth*frame >= 8190 words), or has >= 100 arguments/values, or nests >= 30 forms, or is a tail loop of >= 100000 iterations")
    prologue = ml.EXIT_ON_ERROR
    timeout = 20.0
    quick_s = 45

    def gen(self, d):
        k = d.weighted([(4, self.deep), (2, self.tail), (3, self.many), (3, self.mvals), (2, self.nest), (2, self.mixed), (1, self.err_deep)])
        c = k(d)
        return c

    def case(self, kind, forms, out, nt, **kw):
        return dict(kind=kind, prog="\n".join(forms) + "\n", out=out, nt=nt, **kw)

    # non-tail recursion with frames of chosen width
    def deep(self, d):
        w = d.weighted([(3, lambda: d.int(0, 3)), (2, lambda: d.int(4, 40)), (1, lambda: d.int(41, 300))])()
        depth = d.weighted([(2, lambda: d.int(1, 200)), (4, lambda: d.int(200, 5000)), (1, lambda: d.int(5000, 40000))])()
        depth = min(depth, max(20, 400000 // (w + 1)))
        ps = pad(d, w)
        # f(n, acc params) = where pending arguments occupy the frame at the recursive call
        pos = d.int(0, w)          # arguments evaluated before the recursive call
        before, after = ps[:pos], ps[pos:]
        rot = ps[1:] + ps[:1]
        call = "(f (- n 1)%s)" % "".join(" " + p for p in rot)
        style = d.int(0, 3)
        if style == 0:
            body = "(+ %s %s %s)" % (" ".join(before + ["0"]), call, " ".join(after))
        elif style == 1:
            body = "(let-values ([(r) %s]) (+ r %s))" % (call, " ".join(ps + ["0"]))
        elif style == 2:
            body = "(apply + (list %s %s %s))" % (" ".join(before + ["0"]), call, " ".join(after))
        else:
            body = "(call-with-values (lambda () (values %s 0)) (lambda (r z) (+ r z %s)))" % (call, " ".join(ps + ["0"]))
        vals = [d.int(0, 9) for _ in range(w)]
        f = "(define-values (f) (lambda (n%s) (if (= n 0) 1000 %s)))" % ("".join(" " + p for p in ps), body)
        total = 1000 + depth * sum(vals)
        reps = d.int(1, 3)
        forms = [f] + ["(write (f %d%s))" % (depth, "".join(" %d" % v for v in vals))] * reps
        return self.case("deep", forms, str(total) * reps, depth * (w + 3) >= 8190)

    def tail(self, d):
        n = d.weighted([(3, lambda: d.int(1, 3000)), (2, lambda: d.int(100000, 180000))])()
        k = d.int(0, 7)
        inc = d.int(1, 9)
        if k == 0:
            f = "(define-values (f) (lambda (n a) (if (= n 0) a (f (- n 1) (+ a %d)))))" % inc
        elif k == 1:
            f = ("(define-values (g) (lambda (n a) (begin (void) (if (= n 0) a (f (- n 1) (+ a %d))))))\n"
                 "(define-values (f) (lambda (n a) (if (= n 0) a (let-values ([(b c) (values a n)]) (g (- c 1) (+ b %d))))))" % (inc, inc))
        elif k == 2:
            f = "(define-values (f) (lambda (n a) (if (= n 0) a (apply f (- n 1) (list (+ a %d))))))" % inc
        elif k == 3:
            f = "(define-values (f) (lambda (n a) (if (= n 0) a (call-with-values (lambda () (values (- n 1) (+ a %d))) f))))" % inc
        elif k == 4:
            f = "(define-values (f) (case-lambda [(n) (f n 0)] [(n a) (if (= n 0) a (if (not (= n 0)) (f (- n 1) (+ a %d)) #f))] [(n a . r) (f n a)]))" % inc
        elif k == 5:
            f = "(define-values (f) (lambda (n . r) (if (= n 0) (car r) (letrec-values ([(h) (lambda (x) (f (- x 1) (+ (car r) %d)))]) (h n)))))" % inc
        elif k == 6:
            f = "(define-values (f) (lambda (n a) (letrec-values ([(l) (lambda (i x) (if (= i 0) x ((lambda (j y) (l j y)) (- i 1) (+ x %d))))]) (l n a))))" % inc
        else:
            f = "(define-values (f) (lambda (n a) (if (= n 0) a ((if (= 0 (remainder n 2)) f (lambda (x y) (begin (values 1 2) (f x y)))) (- n 1) (+ a %d)))))" % inc
        return self.case("tail%d" % k, [f, "(write (f %d 0))" % n], str(n * inc), n >= 100000, bound=n >= 100000)

    def many(self, d):
        n = d.weighted([(2, lambda: d.int(0, 20)), (3, lambda: d.int(20, 400)), (3, lambda: d.int(400, 9000)), (2, lambda: d.int(9000, 60000))])()
        vals = "(iota %d)" % n
        k = d.int(0, 5)
        j = d.int(0, min(n, 5))
        fixed = " ".join("a%d" % i for i in range(j))
        tot = n * (n - 1) // 2
        if k == 0:
            e, out = "(length (apply list %s))" % vals, str(n)
        elif k == 1:
            e, out = "(apply + %s)" % vals, str(tot)
        elif k == 2:
            e, out = "(apply (lambda (%s . r) (+ (length r) %s)) %s)" % (fixed, fixed or "0", vals), str(n - j + sum(range(j)))
            if j == 0:
                e = "(apply (lambda r (length r)) %s)" % vals
        elif k == 3:
            e, out = "(list 'a (apply vector %s) 'b)" % vals, ml.show(ml.lst([ml.Sym("a"), ml.Vec(range(n)), ml.Sym("b")]))
        elif k == 4:
            n = min(n, 2500)
            e = "(call-with-values (lambda () (values %s)) (lambda r (length r)))" % " ".join("1" for _ in range(n))
            out = str(n)
            if n == 1:
                out = "1"
        else:
            n = min(n, 1500)
            e = "((lambda (x%s) (+ x%s)) %d%s)" % ("".join(" y%d" % i for i in range(n)), "".join(" y%d" % i for i in range(n)), 7,
                                                     "".join(" %d" % (i % 10) for i in range(n)))
            out = str(7 + sum(i % 10 for i in range(n)))
        depth = d.choice([0, 0, 1, 50, 2700, 2729, 2730, 4000]) if n < 20000 else 0
        if depth:
            forms = ["(define-values (g) (lambda (n) (if (= n 0) %s (car (list (g (- n 1)))))))" % e, "(write (g %d))" % depth]
        else:
            forms = ["(write %s)" % e]
        return self.case("many%d" % k, forms, out, n >= 100)

    def mvals(self, d):
        """Multiple values crossing frames: at depth, through if/begin/let, as last action."""
        n = d.weighted([(2, lambda: d.int(0, 8)), (2, lambda: d.int(9, 200)), (1, lambda: d.int(200, 3000))])()
        vals = [d.int(0, 99) if n < 50 else i % 7 for i in range(n)]
        depth = d.choice([0, 1, 3, 100, 1000, 2000])
        tail = d.bool()
        inner = "(apply values '(%s))" % " ".join(map(str, vals)) if d.bool() else "(values %s)" % " ".join(map(str, vals))
        wrap = "(g (- n 1))" if tail else "(call-with-values (lambda () (g (- n 1))) (lambda r (apply values r)))"
        if not tail:
            depth = min(depth, max(3, 60000 // (n + 1)))
        f = "(define-values (g) (lambda (n) (if (= n 0) %s (begin (list 1 2) %s))))" % (inner, wrap)
        return self.case("mvals", [f, "(write (list 1 (call-with-values (lambda () (g %d)) list) 2))" % depth],
                         ml.show(ml.lst([1, ml.lst(vals), 2])), n >= 9 or depth >= 100)

    def nest(self, d):
        """Deeply nested forms: compile time and space stay proportional to the program."""
        n = d.weighted([(2, lambda: d.int(5, 30)), (4, lambda: d.int(30, 120))])()
        x = "0"
        v = 0
        ks = [d.int(0, 7) for _ in range(d.int(1, 3))]
        for i in range(n):
            k = ks[i % len(ks)]
            if k == 0:
                x = "(let-values ([(v%d) %s]) (+ v%d 1))" % (i, x, i)
            elif k == 1:
                x = "(if (= 0 (let-values ([(v%d) %s]) (if (= v%d 0) 0 1))) 1 2)" % (i, x, i)
                v = 1 if v == 0 else 2
                continue
            elif k == 2:
                x = "((lambda (v%d) (+ 1 v%d)) (begin 0 %s))" % (i, i, x)
            elif k == 3:
                x = "(call-with-values (lambda () (if #t (values 1 %s) (values 2 3))) (lambda (a%d b%d) (+ a%d b%d)))" % (x, i, i, i, i)
            elif k == 4:
                x = "(letrec-values ([(f%d) (lambda (y) (+ y 1))]) (f%d %s))" % (i, i, x)
            elif k == 5:
                x = "(let-values ([(a%d) 1] [(b%d) %s]) (if (if a%d #t #f) (+ a%d b%d) (let-values ([(z) b%d]) z)))" % ((i, i, x) + (i,) * 4)
            elif k == 6:
                x = "(+ 1 %s)" % x
            else:
                x = "((case-lambda [(q) (+ q 1)] [(q r) r]) %s)" % x
            v += 1
        return self.case("nest", ["(write %s)" % x], str(v), n >= 30)

    def mixed(self, d):
        """map/for-each/apply inside deep recursion; the heap and stack interleave."""
        depth = d.int(1, 3000)
        w = d.int(1, 30)
        f = ("(define-values (f) (lambda (n) (if (= n 0) '() (let-values ([(r) (f (- n 1))] [(s) (apply + (map (lambda (x) (+ x n)) (iota %d)))]) (cons s r)))))" % w)
        s = sum((w * (w - 1) // 2) + w * n for n in range(1, depth + 1))
        return self.case("mixed", [f, "(write (apply + (f %d)))" % depth], str(s), depth * 5 >= 8190 or depth >= 1500)

    def err_deep(self, d):
        """An error raised at depth is delivered once, and a returning handler resumes the right frame."""
        depth = d.int(1, 6000)
        e = d.choice(["(car n)", "(vector-ref (vector) 0)", "(undefined-name)", "((lambda (x) x))", "(raise 5)", "(n n)"])
        f = "(define-values (f) (lambda (n) (if (= n 0) (+ 0 %s) (+ 1 (f (- n 1))))))" % e
        return self.case("err", ["(current-error-handler (lambda (e) 100))", f, "(write (list (f %d) (f 3)))" % depth],
                         "(%d 103)" % (depth + 100), depth >= 2000)

    def run(self, case):
        self.tag(case["kind"])
        r = self.exec(case["prog"])
        if r.timeout:
            raise Fail("timeout", "no answer in %.0fs\nprogram:\n%s" % (self.timeout, case["prog"][:3000]))
        if r.text != case["out"] or r.code != 0:
            raise Fail("output", "expected %r, got %s\nprogram:\n%s" % (case["out"][:300], r.describe(), case["prog"][:3000]))
        if case.get("bound"):
            if not hasattr(self, "base"):
                self.base = self.exec("(write 1)").rss
            if r.rss > self.base + 24 * 1024:
                raise Fail("space", "a tail loop used %d KiB over the idle interpreter\nprogram:\n%s" % (r.rss - self.base, case["prog"][:3000]))
        return case["nt"], case["prog"]


CHECK = P02
