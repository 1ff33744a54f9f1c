"""Errors: every failure reaches the current handler once, as the condition that describes it."""
import re
import ml, steps
from ml import Sym, Str, Ch
from runner import ProgCheck, Fail

PRE = """
(define-values (vp-desc) (lambda (e)
  (if (argument-exn? e) (list 'argument (exn-who e) (exn-message e) (argument-exn-expect e) (argument-exn-actual e))
  (if (arity-exn? e) (list 'arity (exn-who e) (exn-message e) (arity-exn-expect e) (arity-exn-actual e))
  (if (range-exn? e) (list 'range (exn-who e) (exn-message e) (range-exn-value e) (range-exn-description e) (range-exn-lower e) (range-exn-upper e) (range-exn-index e))
  (if (missing-exn? e) (list 'missing (exn-who e) (exn-message e) (missing-exn-description e) (missing-exn-value e) (missing-exn-key e))
  (if (syntax-exn? e) (list 'syntax (exn-who e) (exn-message e) (syntax-exn-form e) (syntax-exn-subform e))
  (if (exn? e) (if (vp-native? (exn-message e)) (list 'native (exn-who e) (exn-message e)) (list 'exn (exn-who e) (exn-message e)))
  (list 'raise e)))))))))
(define-values (substring) (lambda (s i j) (let-values ([(r) (make-string (- j i) #\\a)]) (letrec-values ([(loop) (lambda (k) (if (= k j) r (begin (string-set! r (- k i) (string-ref s k)) (loop (+ k 1)))))]) (loop i)))))
(define-values (vp-line) (lambda (s) (letrec-values ([(loop) (lambda (i) (if (= i (string-length s)) s (if (eq? (string-ref s i) #\\newline) (substring s 0 i) (loop (+ i 1)))))]) (loop 0))))
(define-values (vp-native?) (lambda (s) (let-values ([(l) (vp-line s)])
  (letrec-values ([(loop) (lambda (ns) (if (null? ns) #f (let-values ([(n) (car ns)]) (if (if (>= (string-length l) (string-length n)) (equal? (substring l 0 (string-length n)) n) #f) n (loop (cdr ns))))))])
    (loop '("arity mismatch" "expected procedure" "result arity mismatch" "cannot use before initialization" "cannot set variable before its definition"))))))
(define-values (vp-deep) (lambda (n t) (if (= n 0) (t) (+ 1 (vp-deep (- n 1) t)))))
(define-values (vp-tail) (lambda (n t) (if (= n 0) (t) (vp-tail (- n 1) t))))
(define-values (vp-named) (lambda (a b) a))
(define-values (vp-one) (lambda () 1))
(define-values (vp-three) (lambda () (values 1 2 3)))
(define-values (vp-last) #f)
(define-values (vp-out) (lambda (x) (begin (write x) (newline))))
"""
QUEUE = """
(define-values (vp-q) '())
(define-values (vp-add) (lambda (t) (set! vp-q (cons t vp-q))))
(define-values (vp-go) (lambda () (if (null? vp-q) (void) (let-values ([(t) (car vp-q)]) (begin (set! vp-q (cdr vp-q)) (t) (vp-go))))))
(define-values (vp-resume) '())
(define-values (vp-nest) 0)
(define-values (vp-handle) (lambda (tag e)
  (begin
    (set! vp-last e)
    (display tag) (vp-out (vp-desc e))
    (if (> vp-nest 0)
        (begin (set! vp-nest (- vp-nest 1)) (raise (list 'again vp-nest)))
        (if (pair? vp-resume)
            (let-values ([(t) (car vp-resume)]) (begin (set! vp-resume (cdr vp-resume)) (t)))
            (begin (vp-go) (exit 0)))))))
(define-values (vp-h1) (lambda (e) (vp-handle "1:" e)))
(define-values (vp-h2) (lambda (e) (vp-handle "2:" e)))
(current-error-handler vp-h1)
"""
TOP = """
(current-error-handler (lambda (e) (begin (vp-out (vp-desc e)) (exit 7))))
"""


AM = "arity mismatch"
# expression, who (None: not compared), what the message must mention: numbers (first and last) or the printed value
NATIVE = [
    (AM, "((lambda (x y) x) 1)", None, [2, 1]), (AM, "((lambda () 1) 1)", None, [0, 1]), (AM, "((lambda (x y . z) x) 1)", None, [2, 1]),
    (AM, "((case-lambda [(x) 1] [(x y z) 1]) 1 2)", None, [1, 2]), (AM, "((case-lambda [(x) 1] [(x y z . r) 1]) 1 2)", None, [1, 2]), (AM, "((case-lambda [(x) 1] [(x y) 1]))", None, [1, 0]),
    (AM, "((case-lambda [(x y z) 1] [(x) 1]) 1 2 3 4)", None, [None, 4]),
    (AM, "(car)", "car", [1, 0]), (AM, "(cons 1)", "cons", [2, 1]), (AM, "(cons 1 2 3)", "cons", [2, 3]), (AM, "(vector-ref (vector 1))", "vector-ref", [2, 1]),
    (AM, "(apply car '(1 2))", "car", [1, 2]), (AM, "(apply cons 1 2 3 '(4 5))", "cons", [2, 5]), (AM, "(vp-named 1)", "vp-named", [2, 1]), (AM, "(vp-named 1 2 3)", "vp-named", [2, 3]),
    (AM, "(map (lambda (x y) x) '(1 2))", None, [2, 1]), (AM, "(let-values ([(f) (lambda (a b c) a)]) (f 1 2))", None, [3, 2]),
    (AM, "(let-values ([(a b) 1]) a)", None, [2, 1]), (AM, "(let-values ([(a) (values 1 2)]) a)", None, [1, 2]), (AM, "(list (values 1 2))", None, [1, 2]), (AM, "(+ 1 (vp-three))", None, [1, 3]),
    (AM, "(let-values ([(a b) (vp-three)]) a)", None, [2, 3]), (AM, "(let-values ([(a b) (values 1 2 3)]) a)", None, [2, 3]), (AM, "(call-with-values vp-three (lambda (a b) a))", None, [2, 3]),
    (AM, "(call-with-values vp-three (lambda (a b c d . e) a))", None, [4, 3]), (AM, "(let-values ([() (vp-three)]) 1)", None, [0, 3]), (AM, "(let-values ([(a) (values)]) a)", None, [1, 0]),
    (AM, "(let-values ([(a) (vp-three)]) (list a))", None, [1, 3]), (AM, "(letrec-values ([(a b) (vp-three)]) (list a))", None, [2, 3]), (AM, "(call-with-values vp-three vp-named)", "vp-named", [2, 3]),
    (AM, "(let-values ([(a b) (car '(1))]) a)", None, [2, 1]), (AM, "(let-values ([(a b c) (vp-one)]) a)", None, [3, 1]), (AM, "(call-with-values vp-one (lambda (a b) a))", None, [2, 1]),
    (AM, "(call-with-values vp-one (lambda () 1))", None, [0, 1]), (AM, "(eval '(define-values (q r) (vp-one)))", None, [2, 1]), (AM, "(eval '(define-values (q r) (vp-three)))", None, [2, 3]),
    (AM, "(eval '(define-values (q) (vp-three)))", None, [1, 3]), (AM, "(let-values ([(a b) (vp-one)] [(c) 2]) a)", None, [2, 1]), (AM, "(let-values ([(c) 2] [(a b) (vp-three)]) a)", None, [2, 3]),
    ("expected procedure", "(5 1)", None, "5"), ("expected procedure", "(\"f\")", None, '"f"'), ("expected procedure", "((vector-ref (vector 'a) 0) 1)", None, "a"), ("expected procedure", "('(1 2) 1 2 3)", None, "(1 2)"),
    ("cannot use before initialization", "vp-nowhere", None, "vp-nowhere"), ("cannot use before initialization", "(vp-nowhere 1)", None, "vp-nowhere"), ("cannot use before initialization", "(letrec-values ([(a) b] [(b) 1]) a)", None, "b"),
    ("cannot set variable before its definition", "(eval '(set! vp-nowhere 1))", None, "vp-nowhere")]


def native_ok(line, prefix, who, what):
    if not line.startswith("(native "):
        return False
    w, msg = line[8:].split(" ", 1)
    msg = msg.strip('")').replace("\\n", "\n").replace('\\"', '"')
    if who is not None and w.strip('"') != who:
        return False
    if not (msg.startswith(prefix) or msg.startswith("result " + prefix)):
        return False
    if isinstance(what, str):
        return what.strip('")') in msg
    ns = [int(x) for x in re.findall(r"\d+", msg)]
    return bool(ns) and ns[-1] == what[1] and (what[0] is None or ns[0] == what[0])


class Ev:
    """expr, the printed description, and the text the default handler writes."""

    def __init__(self, expr, kind, who, msg, fields=(), text=None, globalonly=True):
        self.expr, self.kind = expr, kind
        if kind == "raise":
            self.desc = "(raise %s)" % ml.show(who)
            self.text = "uncaught exception: %s\n" % ml.show(who, True)
        elif kind == "native":
            self.desc = "(native %s)" % ml.show(Str(msg))
            self.text = None
        else:
            self.desc = ml.show(ml.lst([Sym(kind), who, Str(msg)] + list(fields)))
            self.text = (ml.show(who, True) if who is not False else "error") + ": " + msg.decode("latin-1") + "\n" + (text or "")


def arity_text(a):
    if isinstance(a, int):
        return "%d" % a
    xs, rest = a
    return ", ".join(map(str, xs[:-1] if rest else xs)) + (", " if rest and len(xs) > 1 else "") + ("at least %d" % xs[-1] if rest else "")


class P29(ProgCheck):
    id = "P29"
    technique = "generated failures (raised values, every raise-* procedure, primitive and native errors) at generated positions and depths, with handlers that resume, replace, nest or default, against a model of conditions and handlers"
    rule = ("a case raises about 12 errors in different positions (operand, tail, callbacks, deep recursion, eval, loaded files, top-level forms) and compares condition type, fields and the text of the default handler; "
            "non-trivial when an error occurs below another activation and its condition has fields beyond the message, or a handler resumes, nests or is replaced")
    assumptions = ["handlers resume only explicit raises (returning from a handler into a primitive's check is left open)"]
    prologue = ""
    quick_s = 28
    timeout = 8.0

    def value(self, depth=2):
        d = self.d
        k = d.weighted([(4, 0), (3, 1), (2, 2), (1, 3), (1, 4), (2 if depth else 0, 5), (1 if depth else 0, 6)])
        if k == 0:
            return d.int(-5, 1000)
        if k == 1:
            return Sym(d.choice(["a", "b", "foo", "long-name"]))
        if k == 2:
            return Str(d.choice([b"", b"text", b"a b", b'q"q', b"100%", b"l\nm", b"back\\s"]))
        if k == 3:
            return d.bool()
        if k == 4:
            return Ch(d.choice([97, 32, 10, 126]))
        if k == 5:
            return ml.lst([self.value(depth - 1) for _ in range(d.int(0, 3))])
        return ml.Vec([self.value(depth - 1) for _ in range(d.int(0, 3))])

    def who(self, strings=False):
        d = self.d
        k = d.int(0, 4)
        if k == 0:
            return False
        if k == 1 and strings:
            return Str(d.choice([b"who", b"a b"]))
        return Sym(d.choice(["f", "my-proc", "list-ref"]))

    def event(self):
        d = self.d
        q = ml.lit
        k = d.weighted([(4, "raise"), (4, "error"), (2, "errorf"), (3, "raise-arg"), (2, "raise-arity"), (3, "raise-range"), (2, "raise-missing"), (2, "raise-syntax"), (6, "prim"), (4, "native")])
        if k == "raise":
            v = self.value()
            return Ev("(raise %s)" % q(v), "raise", v, None)
        if k == "error":
            w = self.who(True)
            m = d.choice([b"bad thing", b"", b"100% ~a wrong", b"two\nlines"])
            xs = [self.value() for _ in range(d.weighted([(3, 0), (3, 1), (2, 2), (1, 5)]))]
            t = m
            if len(xs) == 1:
                t = m + b"\n  argument: " + ml.show(xs[0]).encode("latin-1")
            elif xs:
                t = m + b"\n  arguments...:" + b"".join(b"\n   " + ml.show(x).encode("latin-1") for x in xs)
            return Ev("(error %s %s%s)" % (q(w), q(Str(m)), "".join(" " + q(x) for x in xs)), "exn", w, t)
        if k == "errorf":
            w = self.who()
            x, y = self.value(), self.value()
            return Ev("(errorf %s \"first ~a then ~s.\" %s %s)" % (q(w), q(x), q(y)), "exn", w, ("first %s then %s." % (ml.show(x, True), ml.show(y))).encode("latin-1"))
        if k == "raise-arg":
            w, v = self.who(), self.value()
            e = d.choice([b"string?", b"(listof any)", b""])
            return Ev("(raise-argument-error %s %s %s)" % (q(w), q(Str(e)), q(v)), "argument", w, b"contract violation", [Str(e), v],
                      "  expected: %s\n  given: %s\n" % (e.decode(), ml.show(v, True)))
        if k == "raise-arity":
            w = self.who()
            a = d.choice([(0, "0", 0), (2, "2", 2), (ml.Pair(1, False), "'(1 . #f)", ([1], True)), (ml.lst([0, 2, 3]), "'(0 2 3)", ([0, 2, 3], False)), (ml.lst([1, 4], False), "'(1 4 . #f)", ([1, 4], True))])
            n = d.int(0, 9)
            return Ev("(raise-arity-error %s %s %d)" % (q(w), a[1], n), "arity", w, b"arity mismatch", [a[0], n], "  expected: %s\n  given: %d\n" % (arity_text(a[2]), n))
        if k == "raise-range":
            w, v = self.who(), self.value()
            ds = d.choice([b"", b"start", b"vector"])
            lo, hi, i = d.int(-2, 3), d.int(3, 9), d.choice([-1, 12, 2 ** 40])
            m = (ds + b" " if ds else b"") + b"index out of bounds"
            return Ev("(raise-range-error %s %s %s %d %d %d)" % (q(w), q(v), q(Str(ds)), lo, hi, i), "range", w, m, [v, Str(ds), lo, hi, i],
                      "  range: [%d, %d)\n  %sindex: %d\n  in: %s\n" % (lo, hi, ds.decode() + " " if ds else "", i, ml.show(v, True)))
        if k == "raise-missing":
            w, v, key = self.who(), self.value(), self.value()
            ds = d.choice([b"key", b"field"])
            return Ev("(raise-missing-error %s %s %s %s)" % (q(w), q(Str(ds)), q(v), q(key)), "missing", w, ds + b" not found", [Str(ds), v, key],
                      "  %s: %s\n  in: %s\n" % (ds.decode(), ml.show(key, True), ml.show(v, True)))
        if k == "raise-syntax":
            w = self.who()
            n = d.int(0, 2)
            xs = [ml.lst([Sym("if"), self.value(1)]), self.value(1)][:n]
            fs = (xs + [False, False])[:2]
            t = "".join("  %s: %s\n" % (l, ml.show(x, True)) for l, x in zip(("in", "at"), fs) if x is not False)
            return Ev("(raise-syntax-error %s \"bad form\"%s)" % (q(w), "".join(" (datum->syntax %s)" % q(x) for x in xs)), "syntax", w, b"bad form", fs, t)
        if k == "native":
            m, e, who, nums = d.choice(NATIVE)
            ev = Ev(e, "native", None, m.encode())
            ev.match = ["native", m, who, nums]
            return ev
        v = self.value()
        lst = ml.lst([self.value(1) for _ in range(d.int(1, 3))])
        n = len(ml.pylist(lst))
        s = Str(b"abcdef"[:d.int(0, 6)])
        i = d.choice([-1, n, n + 1, 2 ** 33])
        j = d.choice([-1, len(s.b), len(s.b) + 3])
        c = d.int(0, 13)

        def arg(expr, who, expect, actual):
            return Ev(expr, "argument", Sym(who), b"contract violation", [Str(expect), actual], "  expected: %s\n  given: %s\n" % (expect.decode(), ml.show(actual, True)))
        if c == 0:
            x = d.choice([v]) if not isinstance(v, ml.Pair) else 7
            f = d.choice(["car", "cdr"])
            return arg("(%s %s)" % (f, q(x)), f, b"pair?", x)
        if c == 1:
            x = v if not isinstance(v, ml.Box) else 7
            return arg("(unbox %s)" % q(x), "unbox", b"box?", x)
        if c == 2:
            x = v if not isinstance(v, Str) else 7
            f = d.choice(["string-length", "string->symbol"])
            return arg("(%s %s)" % (f, q(x)), f, b"string?", x)
        if c == 3:
            x = v if not isinstance(v, ml.Vec) else 7
            return arg("(vector-length %s)" % q(x), "vector-length", b"vector?", x)
        if c == 4:
            x = v if not isinstance(v, Sym) else 7
            return arg("(symbol->string %s)" % q(x), "symbol->string", b"symbol?", x)
        if c == 5:
            x = v if not isinstance(v, Ch) else 7
            return arg("(char->integer %s)" % q(x), "char->integer", b"char?", x)
        if c >= 12:
            x = v if not isinstance(v, ml.Pair) and v is not None else 7
            f = d.choice(["(apply 5 '(1))", "(apply \"f\" 1 '())", "(apply car 5)", "(apply list 1 2 'x)"])
            return Ev(f, "exn", Str(b"apply"), {"(apply 5 '(1))": b'type violation\n  arguments...:\n   "procedure?"\n   5', "(apply \"f\" 1 '())": b'type violation\n  arguments...:\n   "procedure?"\n   "f"',
                                                "(apply car 5)": b'type violation\n  arguments...:\n   "list?"\n   5', "(apply list 1 2 'x)": b'type violation\n  arguments...:\n   "list?"\n   x'}[f])
        # the remaining primitives: type of the condition and its main fields only
        key = self.value(1)
        if c in (6, 7, 8):
            e = Ev("(hashtable-ref (make-hashtable) %s)" % q(key), "missing", Sym("hashtable-ref"), b"", [Str(b"key"), 0, key])
            e.match = ["missing", None, None, ml.show(key)]
            return e
        if c in (9, 10):
            vec = ml.Vec(ml.pylist(lst))
            if i < 0:
                i = n
            e = Ev("(vector-ref %s %d)" % (ml.fresh(vec), i), "range", Sym("vector-ref"), b"", [])
            e.match = ("range", 0, n, i)
            return e
        if j < 0:
            j = len(s.b)
        e = Ev("(string-ref %s %d)" % (q(s), j), "range", Sym("string-ref"), b"", [])
        e.match = ("range", 0, len(s.b), j)
        return e

    def place(self, e):
        d = self.d
        k = d.weighted([(2, 0), (2, 1), (2, 2), (1, 3), (1, 4), (1, 5), (3, 6), (1, 7), (1, 8), (2, 9), (1, 10), (2, 11), (1, 12), (2, 13), (1, 14), (1, 15), (1, 16)])
        self.below |= k >= 2
        if k == 0:
            return e
        if k == 1:
            return "(begin %s 1)" % e
        if k == 2:
            return "(list 1 %s (vp-out 'not-reached))" % e
        if k == 3:
            return "((lambda (x) %s) 0)" % e
        if k == 4:
            return "(let-values ([(a) %s]) (vp-out 'not-reached))" % e
        if k == 5:
            return "(%s (lambda (x) (if (= x 3) %s 0)) '(1 2 3 4 5))" % (d.choice(["map", "for-each"]), e)
        if k == 6:
            return "(vp-out (vp-deep %d (lambda () %s)))" % (d.choice([1, 7, 40, 300, 2500]), e)
        if k == 7:
            return "(apply (lambda x %s) '(1 2))" % e
        if k == 8:
            return "(call-with-values (lambda () %s) (lambda x (vp-out 'not-reached)))" % e
        if k == 9:
            return "(eval '%s)" % e
        if k == 10:
            return "(let-values ([(h) (make-eq-hashtable)]) (begin (hashtable-set! h 'k 1) (hashtable-update! h 'k (lambda (v) %s))))" % e
        if k == 11:
            return "(vp-tail %d (lambda () %s))" % (d.choice([0, 3, 1000]), e)
        if k == 12:
            return "((case-lambda [(x) %s] [(x y) 0]) 1)" % e
        if k == 13:
            name = "f%d.min" % len(self.files)
            self.files[name] = "(define-values (vp-in-file) 1)\n%s\n(vp-out 'not-reached)\n" % d.choice([e, "(begin %s 1)" % e, "(define-values (vp-q2) %s)" % e, "(list %s)" % e])
            return '(load "%s")' % name
        if k == 14:
            return "(let-values ([(h) (make-custom-hashtable (lambda (k) %s) equal?)]) (begin (hashtable-set! h 1 2) (vp-out 'not-reached)))" % e
        if k == 15:
            return "(if %s (vp-out 'not-reached) (vp-out 'not-reached))" % e
        return "(letrec-values ([(a) (lambda () %s)] [(b) (lambda () (begin (a) (vp-out 'not-reached)))]) (b))" % e

    def gen(self, d):
        self.d = d
        self.files = {}
        self.below = False
        k = d.weighted([(6, "queue"), (2, "default"), (3, "top")])
        if k == "queue":
            return self.gen_queue(d)
        ev = self.event()
        while k == "default" and (ev.text is None or hasattr(ev, "match")):
            ev = self.event()
        if d.bool(0.4):
            e = ev.expr
        else:
            e = self.place(ev.expr)
        noise = "(vp-out 'before)\n" if d.bool() else ""
        form = d.choice(["%s", "%s", "(begin %s)", "(define-values (q) %s)", "(begin (vp-out 'first) %s)", "((lambda () %s))", "(set! vp-last %s)"])
        out = ("before\n" if noise else "") + ("first\n" if "first" in form else "")
        prog = noise + form % e + "\n(vp-out 'not-reached)\n"
        case = {"files": self.files, "nt": True}
        if k == "default":
            case.update(prog=PRE + prog, out=out, code=1, err=ev.text, key=prog)
        else:
            case.update(prog=PRE + TOP + prog, out=out + ev.desc + "\n", code=7, match=[getattr(ev, "match", None)], key=prog)
        return case

    def gen_queue(self, d):
        L, out, match = [], [], []
        h = 1
        special = False
        fields = False
        for _ in d.repeat(11, 40):
            k = d.weighted([(8, "ev"), (3, "resume"), (1, "nest"), (1, "swap"), (1, "get"), (1, "bad"), (1, "same")])
            if k == "ev":
                ev = self.event()
                fields |= ev.kind not in ("raise", "native", "exn")
                L.append("(vp-add (lambda () %s))" % self.place(ev.expr))
                out.append("%d:%s" % (h, ev.desc))
                match.append(getattr(ev, "match", None))
            elif k == "same":
                # the very object raised arrives
                L.append("(vp-add (lambda () (let-values ([(o) (list 1 (vector))]) (begin (set! vp-q (cons (lambda () (vp-out (eq? vp-last o))) vp-q)) %s))))" % self.place("(raise o)").replace("(eval '(raise o))", "(raise o)") .replace("(load ", "(raise o) (load "))
                out += ["%d:(raise (1 #()))" % h, "#t"]
                match += [None, None]
            elif k == "resume":
                special = True
                m = d.int(0, 5)
                v, r = self.value(), d.int(0, 99)
                rs = "(lambda () %d)" % r
                q = ml.lit(v)
                ln = "%d:(raise %s)" % (h, ml.show(v))
                if m == 0:
                    L.append("(vp-add (lambda () (begin (set! vp-resume (list %s)) (vp-out (list 1 (raise %s) 3)))))" % (rs, q))
                    out += [ln, "(1 %d 3)" % r]
                elif m == 1:
                    n = d.choice([0, 1, 30, 700, 5000])
                    L.append("(vp-add (lambda () (begin (set! vp-resume (list %s)) (vp-out (vp-deep %d (lambda () (raise %s)))))))" % (rs, n, q))
                    out += [ln, str(r + n)]
                elif m == 2:
                    n = d.int(1, 4)
                    L.append("(vp-add (lambda () (begin (set! vp-resume (list %s)) (vp-out (map (lambda (x) (raise x)) '(%s))))))" % (" ".join("(lambda () %d)" % (r + i) for i in range(n)), " ".join(map(str, range(n)))))
                    out += ["%d:(raise %d)" % (h, i) for i in range(n)] + ["(%s)" % " ".join(str(r + i) for i in range(n))]
                elif m == 3:
                    L.append("(vp-add (lambda () (begin (set! vp-resume (list (lambda () (values 1 %d 'c)))) (vp-out (call-with-values (lambda () (raise %s)) list)))))" % (r, q))
                    out += [ln, "(1 %d c)" % r]
                elif m == 4:
                    L.append("(vp-add (lambda () (begin (set! vp-resume (list (lambda () #f))) (vp-out (if (raise %s) 'yes 'no)))))" % q)
                    out += [ln, "no"]
                else:
                    # the resumed computation sees its own variables and may fail again
                    L.append("(vp-add (lambda () (let-values ([(a) %d] [(b) 2]) (begin (set! vp-resume (list (lambda () 10) (lambda () 20))) (vp-out (list a (let-values ([(c) (raise %s)]) (+ a b c (raise c))) b))))))" % (r, q))
                    out += [ln, "%d:(raise 10)" % h, "(%d %d 2)" % (r, r + 2 + 10 + 20)]
                match += [None] * (len(out) - len(match))
            elif k == "nest":
                special = True
                n = d.int(1, 3)
                ev = self.event()
                L.append("(vp-add (lambda () (begin (set! vp-nest %d) %s)))" % (n, self.place(ev.expr)))
                out += ["%d:%s" % (h, ev.desc)] + ["%d:(raise (again %d))" % (h, i) for i in reversed(range(n))]
                match += [getattr(ev, "match", None)] + [None] * n
            elif k == "swap":
                special = True
                h = 3 - h
                L.append("(vp-add (lambda () (current-error-handler vp-h%d)))" % h)
            elif k == "get":
                L.append("(vp-add (lambda () (vp-out (list (eq? (current-error-handler) vp-h1) (eq? (current-error-handler) vp-h2)))))")
                out.append("(#t #f)" if h == 1 else "(#f #t)")
                match.append(None)
            else:
                x = d.choice([5, Str(b"x"), Sym("s")])
                L.append("(vp-add (lambda () (current-error-handler %s)))" % ml.lit(x))
                out.append("%d:(argument current-error-handler \"contract violation\" \"procedure?\" %s)" % (h, ml.show(x)))
                match.append(None)
        prog = "\n".join(L) + "\n(begin (set! vp-q (reverse vp-q)) (vp-go))\n"
        return {"prog": PRE + QUEUE + prog, "out": "".join(o + "\n" for o in out), "match": match if any(match) else None, "files": self.files,
                "nt": (self.below and fields) or special, "key": prog}

    def run(self, case):
        m = case.get("match")
        if m and any(m):
            r = self.exec(case["prog"], files=case.get("files"))
            if r.timeout or r.crashed:
                return super().run(case)
            got = r.text.split("\n")
            exp = case["out"].split("\n")
            if case.get("code") == 7:
                m = [None] * (len(exp) - 2) + m
            # a line that is only partly specified counts as expected when it has the specified parts
            for i, x in enumerate(m):
                if x and i < len(got) and i < len(exp):
                    g = got[i][2:] if not case.get("code") else got[i]
                    ok = True
                    if x[0] == "range":
                        ok = g.startswith("(range ") and g.endswith(" %d %d %d)" % tuple(x[1:]))
                    elif x[0] == "native":
                        ok = native_ok(g, *x[1:])
                    elif x[0] == "missing":
                        ok = g.startswith("(missing ") and g.endswith(" %s)" % x[3])
                    elif x[0] == "any":
                        ok = g.startswith(("(range ", "(argument ", "(exn "))
                    if ok:
                        exp[i] = got[i]
            if len(got) == len(exp) and got == exp and r.code == case.get("code", 0):
                return case["nt"], case["key"]
            return super().run(dict(case, out="\n".join(exp)))
        if case.get("err") is not None:
            r = self.exec(case["prog"], files=case.get("files"))
            if not (r.timeout or r.crashed) and r.errtext != case["err"]:
                raise Fail("stderr", "default handler wrote %r, expected %r\nprogram:\n%s" % (r.errtext[:500], case["err"][:500], case["key"]))
        return super().run(case)


CHECK = P29
