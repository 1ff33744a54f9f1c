"""Memory safety: no program, however wrong, crashes the interpreter or corrupts it."""
import re
import ml, server, steps
from ml import Sym
from runner import ProgCheck, Fail, boot_server

LIST = '(for-each (lambda (s) (begin (display s) (display " ") (let-values ([(v) (environment-ref (current-environment) s)]) (if (procedure? v) (write (procedure-arity v)) (display "-"))) (newline))) (environment-symbols (current-environment)))'
# would end the process, replace its handlers or take away the port the sentinel is written to
SKIP = {"exit", "load", "current-error-handler", "current-environment", "environment-set!", "default-record-equal-procedure", "default-record-hash-procedure",
        "current-output-port", "current-error-port", "current-input-port", "current-directory", "vp-kind", "raise", "default-error-handler", "command-line", "fasl-read", "fasl-write",
        "set-cdr!", "set-car!", "show", "eval"}
FORMS = ["lambda", "case-lambda", "if", "begin", "let-values", "letrec-values", "quote", "set!", "define-values", "values", "call-with-values", "apply", "quote-syntax"]
OOM = re.compile("failed to allocate|exceeds maximum|rss limit exhausted|out.of.memory", re.I)


class P12(ProgCheck):
    id = "P12"
    technique = "generated calls of every exported procedure with arbitrary arguments and counts, and generated ill-formed programs, executed under AddressSanitizer and UBSan with exact-size objects"
    rule = ("a case is a sequence of about 30 calls (or 12 evaluated forms) chained through their results; non-trivial when at least a quarter of the calls returned normally and a quarter raised, "
            "or an ill-formed program was rejected")
    prologue = ml.CONTINUE_ON_ERROR
    variant = "asan"
    quick_s = 35
    timeout = 8.0

    def setup(self):
        super().setup()
        r = self.exec(LIST)
        if r.code != 0 or r.crashed:
            f = Fail("boot", "cannot list the environment: " + r.describe())
            f.case = {"boot": True}
            raise f
        self.names = []
        for l in r.text.splitlines():
            n, _, a = l.partition(" ")
            if n.startswith("$") or n in SKIP or a == "-" or n.startswith("vp-") or n.startswith("raise-"):
                continue
            nums = [int(x) for x in re.findall(r"\d+", a)]
            if "#f" in a:
                nums = nums[:-1] + [nums[-1], nums[-1] + 1, nums[-1] + 2] if nums else [0, 1, 2, 3]
            self.names.append((n, nums or [0, 1, 2]))
        self.names.sort()

    def atom(self, d):
        return ml.fresh(d.weighted([(5, lambda: d.int(-2, 9)), (1, lambda: d.choice([255, 256, 257, 300, -1, 100])), (1, lambda: steps.fixnum(d) if d.bool(0.15) else d.int(0, 40)), (2, lambda: steps.symbol(d)),
                                    (2, lambda: steps.string(d, 6)), (2, lambda: steps.char(d)), (1, lambda: d.bool()), (1, lambda: ml.NIL)])())

    def proc(self, d):
        return d.choice(["(lambda (x) x)", "(lambda () 1)", "(lambda (a b) (eq? a b))", "(lambda xs xs)", "(lambda (a . r) r)", "(case-lambda [() 0] [(x) x] [(x y) y])", "car", "cons", "list", "values", "void", "+",
                         "(lambda (x y z) (list x y z))", "equal?", "equal-hash", "(lambda (x) (values x x))", "(lambda (x) (car 5))", "not"])

    def typed(self, d, name, i):
        """An argument of the kind the name suggests, now and then."""
        big = lambda: d.choice(["\"\"", "\"a\"", "\"hello\"", "(make-string 20 #\\x)"])
        if name in ("map", "for-each", "andmap", "ormap", "apply") or (name == "call-with-values"):
            return self.proc(d) if i == 0 or name == "call-with-values" else "(list %s)" % " ".join(self.atom(d) for _ in range(d.int(0, 3)))
        if name.startswith("hashtable") or name.startswith("hashtable-update"):
            if i == 0:
                return d.choice(["(make-hashtable)", "(make-eq-hashtable)", "(make-custom-hashtable %s %s)" % (self.proc(d), self.proc(d))])
            return self.proc(d) if d.bool(0.3) else None
        if name.startswith("make-custom"):
            return self.proc(d)
        if name.startswith("string") or name in ("open-input-string", "open-input-file", "open-output-file", "format", "printf"):
            return big() if i == 0 else None
        if name.startswith("vector"):
            return "(vector %s)" % " ".join(self.atom(d) for _ in range(d.int(0, 4))) if i == 0 else None
        if name in ("make-vector", "make-string", "make-list", "iota"):
            return str(d.int(-2, 200)) if i == 0 else None
        if name in ("length", "reverse", "append", "list->string", "list->vector", "enumerate") or re.match("c[ad]+r$", name):
            return d.choice(["(list %s)" % " ".join(self.atom(d) for _ in range(d.int(0, 4))), "(list #\\a #\\b)", "'((1 . 2) (3 4) . 5)", "'(((1) 2) ((3)) 4)", "(cons 1 2)"])
        if name.startswith("record") or "record" in name:
            return d.choice(["rt", "rk", "rv", "kv", self.proc(d), "0", "1", "'a"])
        if name == "make-record-type-descriptor":
            return ["'nm", d.choice(["#f", "rt", "rk"]), d.choice(["#f", "'u"]), d.choice(["#f", "#t"]), d.choice(["#f", "#t"]), d.choice(["#()", "#((mutable a))", "#((immutable a) (mutable b))", "#(a)"])][min(i, 5)]
        if "syntax" in name:
            return d.choice(["(datum->syntax '(a (b . c) #(1 2)))", "(datum->syntax 'x)", "#'(a b)", "(datum->syntax '(1 . 2))"])
        if "env" in name:
            return d.choice(["(make-base-environment)", "(make-empty-environment)", "'car", "#t", "'(car cdr)"])
        if "port" in name or name in ("read", "read-char", "peek-char", "char-ready?", "write", "display", "put-char", "put-string", "put-datum", "newline", "fprintf", "get-output-string", "write-char"):
            return d.choice(["(open-input-string \"(a b) #\\\\c \")", "(open-output-string)", "op", "ip", "#\\a", "\"str\"", "1"])
        if name.startswith("procedure"):
            return self.proc(d) if i == 0 else None
        if name.endswith("exn") or "exn-" in name:
            return d.choice(["(make-exn 'w \"m\")", "(make-range-exn 'w \"m\" 1 2 3 4 5)", "'who"])
        if name in ("error", "errorf"):
            return ["'who", "\"msg ~a\""][i] if i < 2 else None
        if name.startswith("char") or name == "integer->char":
            return d.choice(["#\\a", "65", "#\\nul"])
        if "pattern" in name:
            return d.choice(["(make-pattern-variable 1 0)", "0", "1"])
        return d.choice([str(d.int(-3, 9)), None])

    def gen(self, d):
        if d.bool(0.35):
            return self.gen_forms(d)
        L = ["(define-values (rt) (make-record-type-descriptor 'rt #f #f #f #f #((mutable a) (immutable b))))",
             "(define-values (rk) (make-record-type-descriptor 'rk rt #f #f #f #((mutable c))))",
             "(define-values (rv) ((record-constructor rt) 1 2))", "(define-values (kv) ((record-constructor rk) 1 2 3))",
             '(define-values (ip) (open-input-string "some (text) #(1 2) \\"s\\""))', "(define-values (op) (open-output-string))",
             "(define-values (good) 0)"]
        vars = []
        for j in d.repeat(26, 60):
            name, ar = d.choice(self.names)
            n = d.choice(ar) if d.bool(0.93) else d.int(0, 6)
            hint = d.bool(0.85)
            args = []
            for i in range(n):
                a = self.typed(d, name, i) if hint and d.bool(0.93) else None
                if a is None:
                    mut = name.endswith("!") and i > 0
                    a = d.choice(vars) if vars and not mut and d.bool(0.4) else self.atom(d) if d.bool(0.9) else self.proc(d)
                args.append(a)
            v = "v%d" % j
            L.append("(define-values (%s) (let-values ([(x) (call-with-values (lambda () (%s)) (case-lambda [(x) x] [xs xs]))]) (begin (set! good (+ good 1)) x)))" % (v, " ".join([name] + args)))
            vars.append(v)
        # printing, comparing and hashing whatever came out must be safe as well
        for v in vars[-3:]:
            L.append("(begin (write %s op) (equal? %s %s) (equal-hash %s) ($equal? %s %s) ($equal? (vector 1 (box %s) (list 2 %s)) (vector 1 (box %s) (list 2 %s))) (void))" % ((v, v, d.choice(vars), v, v, d.choice(vars)) + (v,) * 4))
        return {"prog": "\n".join(L) + '\n(begin (newline) (write (list \'sentinel good vp-errs)) (newline))\n'}

    # -------------------------------------------------------------- malformed programs

    def form(self, d, depth):
        if depth == 0 or d.bool(0.25):
            return d.choice(["x", "y", "f", "1", "\"s\"", "#t", "()", "'a", "car", "(values)", "(values 1 2)", "5", "#\\a", "cons", "unbound-name", "#(1)", "#&2", "list"])
        g = lambda: self.form(d, depth - 1)
        ids = lambda: d.choice(["()", "(x)", "(x y)", "x", "(x . y)", "(x x)", "(1)", "5", "(x (y))", "\"s\"", "(f x y)", "#(x)", "(x . 5)"] if d.bool(0.4) else ["(x)", "(x y)", "()", "x", "(x . y)", "(f)"])
        clause = lambda: d.choice(["[%s %s]" % (ids(), g()), "[%s %s %s]" % (ids(), g(), g()), "[%s]" % ids(), "x", "()", "[(x) . 5]"] if d.bool(0.3) else ["[%s %s]" % (ids(), g())] * 2 + ["[(x) %s]" % g(), "[(y f) (values %s %s)]" % (g(), g())])
        k = d.int(0, 12)
        body = " ".join(g() for _ in range(d.weighted([(5, 1), (2, 2), (1, 0), (1, 3)])))
        if k == 0:
            r = "(lambda %s %s)" % (ids(), body)
        elif k == 1:
            r = "(case-lambda %s)" % " ".join("[%s %s]" % (ids(), " ".join(g() for _ in range(d.weighted([(5, 1), (1, 0), (1, 2)])))) for _ in range(d.int(0, 3)))
        elif k == 2:
            r = "(if %s)" % " ".join(g() for _ in range(d.weighted([(8, 3), (1, 2), (1, 4), (1, 1)])))
        elif k == 3:
            r = "(begin %s)" % body
        elif k in (4, 5):
            r = "(%s (%s) %s)" % (d.choice(["let-values", "letrec-values"]), " ".join(clause() for _ in range(d.int(0, 3))), body)
        elif k == 6:
            r = "(set! %s %s)" % (d.choice(["x", "y", "5", "(a)", "unbound-name", "car"][:3] if d.bool(0.8) else ["x", "unbound-name", "(a)"]), body)
        elif k == 7:
            r = "(define-values %s %s)" % (ids(), body)
        elif k == 8:
            r = "(call-with-values %s %s)" % (g(), g())
        elif k == 9:
            r = "(apply %s)" % " ".join(g() for _ in range(d.int(0, 3)))
        elif k == 10:
            r = "((lambda %s %s) %s)" % (ids(), body or "1", " ".join(g() for _ in range(d.int(0, 3))))
        elif k == 11:
            r = "(quote%s)" % d.choice([" a", "", " a b", " . a", " (1 . 2)"])
        else:
            r = "(%s)" % " ".join(g() for _ in range(d.int(0, 4)))
        if " . " not in r and d.bool(0.05):
            r = r[:-1] + d.choice([" . 5)", " . x)", " . ())"])
        return r

    def gen_forms(self, d):
        L = ["(define-values (x y f) (values 1 '(2 3) (lambda (a . r) r)))", "(define-values (good) 0)"]
        for j in d.repeat(12, 25):
            L.append("(begin (call-with-values (lambda () (eval '%s (copy-environment (current-environment)))) (case-lambda [(x) x] [xs xs])) (set! good (+ good 1)))" % self.form(d, d.int(1, 5)))
        return {"prog": "\n".join(L) + '\n(begin (newline) (write (list \'sentinel good vp-errs)) (newline))\n'}

    def run(self, case):
        r = self.exec(case["prog"])
        if r.timeout:
            self.tag("timeout")
            return False, None
        if r.crashed or r.code not in (0, 1, 3):
            if OOM.search(r.errtext):
                self.tag("out-of-memory")
                return False, None
            if "stack-overflow" in r.errtext:
                self.tag("stack-overflow")
                return False, None
            raise Fail("crash", "%s\nprogram:\n%s" % (r.describe(), case["prog"]))
        m = re.search(r"\(sentinel (\d+) (\d+)\)\n$", r.text)
        if not m:
            raise Fail("sentinel", "the program did not reach its end: %s\nprogram:\n%s" % (r.describe(), case["prog"]))
        g, b = int(m.group(1)), int(m.group(2))
        self.tag("returned", g)
        self.tag("raised", b)
        return 4 * g >= g + b and 4 * b >= g + b or (b > 0 and "eval" in case["prog"]), case["prog"]


CHECK = P12
