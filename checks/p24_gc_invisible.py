"""Garbage collections never change what a program does: the same generated programs with
bursts of collections at generated points."""
import glob, importlib.util, os, sys
import build, server
from runner import ProgCheck, Fail, Discard, boot_server

HERE = os.path.dirname(os.path.abspath(__file__))


def source(id):
    if "vpsrc_" + id in sys.modules:
        return sys.modules["vpsrc_" + id].CHECK
    spec = importlib.util.spec_from_file_location("vpsrc_" + id, glob.glob(os.path.join(HERE, id.lower() + "_*.py"))[0])
    m = importlib.util.module_from_spec(spec)
    sys.modules["vpsrc_" + id] = m
    spec.loader.exec_module(m)
    return m.CHECK


CORE = [(4, "P01"), (2, "P04"), (3, "P05"), (2, "P06"), (1, "P08"), (2, "P09"), (2, "P10"), (2, "P11"), (3, "P13"), (3, "P17"), (2, "P18"), (2, "P28"), (2, "P29")]
LIB = [(2, "P14"), (3, "P15")]


MAKE = [("(cons n (list n (number->string n)))", "x"), ("(vector n (box (list n)) (list))", "(cons (unbox (vector-ref x 1)) x)"),
        ("(make-vector (modulo n 40) (string #\\a #\\b))", "(vector->list x)"),
        ("(string->symbol (string-append \"sym\" (number->string n)))", "(list x (eq? x (string->symbol (string-append \"sym\" (number->string n)))))"),
        ("(syms n 5)", "(same x (syms n 5))"), ("(lambda (y) (list n y))", "(x 1)"),
        ("(let-values ([(z) n]) (lambda (y) (set! z (+ z y)) z))", "(list (x 1) (x 1))"),
        ("(case-lambda [() n] [(a) (list a n)] [r (cons n r)])", "(list (x) (x 1) (x 1 2))"),
        ("(let-values ([(t) (make-eq-hashtable)]) (hashtable-set! t 'k (list n)) (hashtable-set! t n 'v) t)", "(list (hashtable-ref x 'k) (hashtable-ref x n))"),
        ("(let-values ([(t) (make-hashtable)]) (fill t (modulo n 30)) t)", "(list (hashtable-size x) (hashtable-ref (hashtable-copy x) 0 #f))"),
        ("(open-input-string (number->string n))", "(list (read-char x) (eof-object? (peek-char x)))"),
        ("(let-values ([(p) (open-output-string)]) (write (list n n) p) p)", "(begin (write 'end x) (get-output-string x))"),
        ("(call-with-values (lambda () (apply values (upto (modulo n 50)))) (lambda r (map (lambda (z) (cons z z)) r)))", "x"),
        ("(call-with-values (lambda () (apply values (map list (upto (modulo n 50))))) list)", "x"),
        ("(apply (lambda (a b . r) (lambda () (list a b r))) 1 (list 2) (map list (upto (modulo n 60))))", "(x)"),
        ("(read (open-input-string \"(a #(1 b) . \\\"s\\\")\"))", "x"), ("(eval (list 'lambda '(q) (list 'list n 'q)))", "(x n)"),
        ("(map (lambda (z) (box z)) (upto 20))", "(map unbox x)"), ("(syntax-e (quote-syntax (a n)))", "(map syntax->datum x)")]

OWN = """
(define-values (upto) (lambda (n) (letrec-values ([(f) (lambda (i a) (if (= i 0) a (f (- i 1) (cons i a))))]) (f n '()))))
(define-values (fill) (lambda (t n) (if (= n -1) (void) (begin (hashtable-set! t n (list n)) (fill t (- n 1))))))
(define-values (syms) (lambda (n k) (map (lambda (i) (string->symbol (string-append (string-append "m" (number->string i)) (string-append "-" (number->string n))))) (upto k))))
(define-values (same) (lambda (a b) (if (null? a) (null? b) (if (eq? (car a) (car b)) (same (cdr a) (cdr b)) (list (car a) (car b))))))
(define-values (churn) (lambda (n) (if (= n 0) 0 (begin (vector n (cons n n)) (make-string 20 #\\c) (churn (- n 1))))))
"""


def many(d):
    """Enough symbols to make the symbol table grow, written twice."""
    n, k = d.int(5000, 9000), d.int(0, 99)
    xs = " ".join("m%d.%d" % (k, i) for i in range(n))
    return OWN + "(define-values (x) '(%s))\n(churn %d)\n(write (same x '(%s)))\n%s" % (xs, d.int(0, 1000), xs, "\n" * 20)


def own(d):
    """Survivors of every kind made at every level of a recursion, garbage in between, all inspected on the way back."""
    lines = [OWN]
    for k in range(d.int(1, 3)):
        fns = [d.choice(MAKE) for _ in range(d.int(1, 4))]
        ports = any("port" in m or "open-" in m for m, _ in fns)
        depth = d.choice([3, 20, 60, 200, 200, 600, 600, 1500])
        width = d.choice([1, 1, 2, 30, 250])
        pick = "(%s)" % " ".join(["list"] + ["(lambda (n) %s)" % m for m, _ in fns])
        use = "(%s)" % " ".join(["list"] + ["(lambda (x n) %s)" % u for _, u in fns])
        lines.append("(define-values (mk%d) %s)\n(define-values (use%d) %s)" % (k, pick, k, use))
        lines.append("(define-values (nth%d) (lambda (l i) (if (= i 0) (car l) (nth%d (cdr l) (- i 1)))))" % (k, k))
        shape = d.int(0, 4)
        pend = d.int(1, 40)
        if shape >= 3:
            lines.append("(define-values (last%d) (lambda r (if (= (unbox (car r)) (caadr r)) (if (= (length r) %d) (car (reverse r)) 'bad) 'bad)))" % (k, pend + 3))
        sub = "(last%%d (box n) (list n) %s (deep%d (- n 1)))" % (" ".join(d.choice(["(list n)", "(box n)", "n", "(vector n)", "(number->string n)"]) for _ in range(pend)), k)
        call = {3: sub, 4: sub, 0: "(deep%d (- n 1))", 1: "(car (list (deep%d (- n 1)) (churn 2)))", 2: "(call-with-values (lambda () (values (deep%d (- n 1)) n (list n))) (lambda (a b c) (if (= (car c) b) a 'bad)))"}[shape] % k
        if width > 1:
            call = "(apply (lambda (r . rest) (if (= (length rest) %d) r 'bad)) %s (map (lambda (z) (if (= z 1) z (list z))) (upto %d)))" % (width, call, width)
        lines.append("(define-values (deep%d) (lambda (n) (if (= n 0) (begin (churn %d) '()) (let-values ([(x) ((nth%d mk%d (modulo n %d)) n)]) (let-values ([(r) %s]) (cons ((nth%d use%d (modulo n %d)) x n) r))))))" % (
            k, d.choice([0, 10, 300]), k, k, len(fns), call, k, k, len(fns)))
        if ports:
            depth = min(depth, 20)
        if depth > 600 and width > 2:
            depth = 600
        lines.append("(define-values (v%d) (deep%d %d))\n(churn %d)\n(write v%d)\n(newline)" % (k, k, depth, d.choice([0, 50, 500]), k))
    return "\n".join(lines) + "\n" + "\n" * 12


class P24(ProgCheck):
    id = "P24"
    technique = "differential: generated programs run with a collection every n-th allocation from a generated point on (freed memory overwritten) and with none"
    rule = ("a case is a program from the generators of the other checks, run twice: with ordinary collection and with a burst of up to 80 collections, "
            "one every 1 to 1000 allocations from a generated point on, freed memory being overwritten; non-trivial when the program has at least 20 lines of forms")
    quick_s = 40
    timeout = 20.0

    def setup(self):
        w = self.worker
        self.lib = w in (6, 7)
        self.slow = 0
        self.srvs = {}
        self.get("stress", "lib" if self.lib else "core")

    def get(self, var, mode, again=False):
        k = (var, mode)
        if again and k in self.srvs:
            self.srvs.pop(k).close()
        if k not in self.srvs:
            self.srvs[k] = boot_server(self, mode=mode, variant=var)
        return self.srvs[k]

    def gen(self, d):
        gc = [d.int(0, 990), d.choice([1, 2, 7, 30, 100]), 25 if self.lib else 80]
        if self.lib:
            gc[1] *= 10
        if not self.lib and d.bool(0.35):
            gc[1] *= d.choice([1, 10, 30])
            return {"prog": many(d) if d.bool(0.12) else own(d), "mode": "core", "gc": gc, "src": "own"}
        id = d.weighted(LIB if self.lib else CORE)
        cls = source(id)
        src = cls("quick", self.seed, 0)
        case = src.gen(d)
        mode = case.get("mode") or src.mode
        if mode == "lib" and not self.lib:
            raise Discard()
        pro = src.prologue[mode] if isinstance(src.prologue, dict) else src.prologue
        if "vp-handler" in pro:
            from runner import queued
            case["prog"] = queued(case["prog"])
        return {"prog": pro + case["prog"], "files": case.get("files"), "stdin": case.get("stdin"), "mode": mode, "gc": gc, "src": id}

    def exec1(self, var, case, **kw):
        for again in (False, True):
            s = self.get(var, case["mode"], again)
            try:
                r = s.run(case["prog"], files=case.get("files"), stdin=case.get("stdin"), mem=3000, **kw)
            except server.ServerDied:
                continue
            return r, (r.text.replace(s.dir, "DIR"), r.code, r.signal, r.errtext.replace(s.dir, "DIR"))
        raise Fail("crash", "the interpreter does not start")

    def run(self, case):
        a, x = self.exec1("stress", case, timeout=5.0)
        if a.timeout:
            raise Discard()
        b, y = self.exec1("stress", case, timeout=self.timeout * (1 + 2 * self.slow), gc=(int(case["gc"][0] * a.allocs / 1000) + 1, case["gc"][1], case["gc"][2]))
        if b.timeout:
            self.tag("too slow with collections")
            raise Discard()
        self.tag(case["src"])
        if x != y:
            raise Fail("output", "collecting (after %d/1000 of the allocations, at every %d, %d times) changes the outcome\nwithout: %s\nwith: %s\nprogram:\n%s" % (
                *case["gc"], a.describe(), b.describe(), case["prog"]))
        return case["prog"].count("\n") >= 20, (case["prog"], tuple(case["gc"]))


CHECK = P24
