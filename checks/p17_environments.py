"""Environments, eval, define and set!, load: variables live in exactly one environment."""
import ml
from runner import ProgCheck

NAMES = ["x", "y", "z", "f", "g", "w0", "a-rather-long-variable-name", "List", "x1"]
OVER = ["car", "cdr", "list", "append", "not"]
NUMS = {"car": "1", "cdr": "(2)", "list": "((1 2))", "append": "(1 2)", "not": "#f"}   # applied to '(1 2)

UNBOUND = object()


class Cell:
    def __init__(self, v=UNBOUND):
        self.v = v


class Env:
    def __init__(self, base, cells=None):
        self.base = base                     # has the base procedures
        self.cells = cells if cells is not None else {}
        self.extra = 0                       # bulk variables
        self.bulk = {}

    def get(self, n):
        c = self.cells.get(n)
        if c is not None and c.v is not UNBOUND:
            return c.v
        if c is None and self.base and n in OVER:
            return ("prim", n)
        return UNBOUND

    def cell(self, n):
        if n not in self.cells:
            self.cells[n] = Cell(("prim", n) if self.base and n in OVER else UNBOUND)
        return self.cells[n]

    def copy(self, names=None):
        e = Env(self.base and names is None)
        for n, c in self.cells.items():
            if names is None or n in names:
                if c.v is not UNBOUND:
                    e.cells[n] = Cell(c.v)
        if names is None:
            e.bulk = dict(self.bulk)
        else:
            for n in names:
                if n not in e.cells and self.get(n) is not UNBOUND:
                    e.cells[n] = Cell(self.get(n))
        return e


PRE = """
(define-values (vp-main) (current-environment))
(define-values (vp-handler0) vp-handler)
(define-values (vp-count) (lambda (s l) (letrec-values ([(loop) (lambda (l n) (if (null? l) n (loop (cdr l) (if (eq? s (car l)) (+ n 1) n))))]) (loop l 0))))
(define-values (vp-syms) (lambda (e names) (let-values ([(l) (environment-symbols e)]) (map (lambda (s) (vp-count s l)) names))))
(define-values (vp-bulk) (lambda (e p n k) (letrec-values ([(loop) (lambda (i) (if (= i n) (void) (begin (environment-set! e (string->symbol (string-append p (number->string i))) (* k i)) (loop (+ i 1)))))]) (loop 0))))
(define-values (vp-bulk-sum) (lambda (e p n) (letrec-values ([(loop) (lambda (i s) (if (= i n) s (loop (+ i 1) (+ s (environment-ref e (string->symbol (string-append p (number->string i))) (lambda () 1000000007))))))]) (loop 0 0))))
(set! vp-handler (lambda (x) (begin (current-environment vp-main) (vp-handler0 x))))
(current-error-handler vp-handler)
"""


class P17(ProgCheck):
    id = "P17"
    technique = "model-based histories over several top-level environments: definitions, assignments, evaluation, closures, copies and loaded files against a model of variable cells"
    rule = ("a case is a history of about 30 operations on up to 6 environments; non-trivial when a closure created in one environment is called after that environment changed "
            "and some environment was copied and then diverged from its source")
    prologue = ml.CONTINUE_ON_ERROR + PRE
    assumptions = ["assignment inside a closure to a variable that is not defined yet is left open", "the mutable? flag of environments is not enforced by the implementation (documented TODO)",
                   "a failure procedure that is itself the variable's value is excluded"]
    quick_s = 28
    timeout = 20.0

    def gen(self, d):
        self.d = d
        L, out = [], []
        envs = []          # (program variable, Env)
        clos = []          # (program variable, kind, Env, name)
        st = {"diverged": False, "late": False, "val": 100}
        files = {}
        copies = []

        def say(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append(v)

        def err(e, kind):
            L.append(e)
            out.append("!" + kind)

        def val():
            st["val"] += 1
            return st["val"]

        def touch(env):
            env.dirty = True
            for a, b in copies:
                if env is a or env is b:
                    st["diverged"] = True

        def name(over=0.15):
            return d.choice(OVER) if d.bool(over) else d.choice(NAMES)

        def new():
            if len(envs) >= 6:
                return
            v = "e%d" % len(envs)
            k = d.weighted([(2, "base"), (2, "empty"), (2 if envs else 0, "copy"), (2 if envs else 0, "some"), (1, "main")])
            if k == "base":
                L.append("(define-values (%s) (make-base-environment))" % v)
                e = Env(True)
            elif k == "empty":
                L.append("(define-values (%s) (make-empty-environment))" % v)
                e = Env(False)
            elif k == "main":
                L.append("(define-values (%s) (copy-environment vp-main))" % v)
                e = Env(True)
            elif k == "copy":
                s, se = d.choice(envs)
                L.append("(define-values (%s) (copy-environment %s%s))" % (v, s, d.choice(["", " #t"])))
                e = se.copy()
                copies.append((se, e))
            else:
                s, se = d.choice(envs)
                ns = d.list(lambda: name(0.3), 0, 6)
                L.append("(define-values (%s) (copy-environment %s #t '(%s)))" % (v, s, " ".join(ns)))
                e = se.copy(set(ns))
                copies.append((se, e))
            envs.append((v, e))

        def bound(e):
            return [n for n in NAMES + OVER if e.get(n) is not UNBOUND]

        def show(x):
            if isinstance(x, tuple):
                return "#<procedure>" if x[0] in ("prim", "clo") else "#<environment>"
            return str(x)

        def evalin(v, e):
            return "(eval %s %s)" % (e, v)

        def op():
            v, e = d.choice(envs)
            n = name()
            k = d.weighted([(5, "set"), (5, "ref"), (4, "define"), (4, "setbang"), (5, "eval"), (4, "clo"), (5, "call"), (3, "syms"), (3, "new"), (1, "bulk"), (2, "over"),
                            (2, "give"), (2, "current"), (1, "load"), (1, "bad"), (1, "mv"), (1, "nest")])
            if k == "set":
                x = val()
                L.append("(environment-set! %s '%s %d)" % (v, n, x))
                e.cell(n).v = x
                touch(e)
            elif k == "ref":
                x = e.get(n)
                m = d.int(0, 3)
                if m == 0:
                    if x is UNBOUND:
                        err("(environment-ref %s '%s)" % (v, n), "missing")
                    else:
                        say("(environment-ref %s '%s)" % (v, n), show(x))
                elif m == 1:
                    say("(environment-ref %s '%s 'none)" % (v, n), "none" if x is UNBOUND else show(x))
                elif m == 2:
                    say("(environment-ref %s '%s (lambda () (list 'none %d)))" % (v, n, st["val"]), "(none %d)" % st["val"] if x is UNBOUND else show(x))
                else:
                    say("(list (environment-ref %s '%s #f) (environment-ref %s '%s #t))" % (v, n, v, n), "(#f #t)" if x is UNBOUND else "(%s %s)" % (show(x), show(x)))
            elif k == "define":
                m = d.int(1, 3)
                ns = []
                for _ in range(m):
                    q = name()
                    if q not in ns:
                        ns.append(q)
                xs = [val() for _ in ns]
                if len(xs) == 1:
                    body = str(xs[0])
                elif e.base:
                    body = "(values %s)" % " ".join(map(str, xs))
                else:
                    ns, xs = ns[:1], xs[:1]
                    body = str(xs[0])
                L.append(evalin(v, "'(define-values (%s) %s)" % (" ".join(ns), body)))
                for q, x in zip(ns, xs):
                    e.cell(q).v = x
                touch(e)
            elif k == "setbang":
                x = val()
                f = evalin(v, "'(set! %s %d)" % (n, x))
                if e.get(n) is UNBOUND:
                    err(f, "exn")
                else:
                    L.append(f)
                    e.cell(n).v = x
                    touch(e)
            elif k == "eval":
                x = e.get(n)
                m = d.int(0, 4)
                if m == 0:
                    f, r = "'%s" % n, x if x is UNBOUND else show(x)
                elif m == 1:
                    f, r = "'(if %s %s 2)" % (n, n), x if x is UNBOUND else show(x)
                elif m == 2:
                    f, r = "'(let-values ([(%s) 5]) %s)" % (n, n), "5"
                elif m == 3:
                    f, r = "'((lambda (%s) (begin (set! %s 6) %s)) 5)" % (n, n, n), "6"
                else:
                    q = name()
                    y = e.get(q)
                    f = "(list (quote let-values) (list (list '(q) '%s)) '((lambda () (begin q %s))))" % (n, q)
                    r = UNBOUND if x is UNBOUND or y is UNBOUND else show(y)
                    if q not in e.cells:
                        e.cell(q) if e.base and q in OVER else None
                if r is UNBOUND:
                    err(evalin(v, f), "exn")
                else:
                    say(evalin(v, f), r)
            elif k == "clo":
                c = "c%d" % len(clos)
                kind = d.choice(["get", "get", "set", "inc", "nested"])
                L.append("(define-values (%s) %s)" % (c, evalin(v, {
                    "get": "'(lambda () %s)" % n, "set": "'(lambda (v) (set! %s v))" % n,
                    "inc": "'(lambda (v) (begin (set! %s v) %s))" % (n, n),
                    "nested": "'(lambda () ((lambda (q) ((lambda () (begin q %s)))) 1))" % n}[kind])))
                clos.append((c, kind, e, n))
                e.cell(n)
                e.dirty = False
            elif k == "call":
                if not clos:
                    return
                c, kind, ce, cn = d.choice(clos)
                x = ce.cell(cn).v
                if getattr(ce, "dirty", False):
                    st["late"] = True
                if kind in ("get", "nested"):
                    if x is UNBOUND:
                        err("(%s)" % c, "exn")
                    else:
                        say("(%s)" % c, show(x))
                else:
                    if x is UNBOUND:
                        return
                    y = val()
                    ce.cell(cn).v = y
                    touch(ce)
                    if kind == "set":
                        L.append("(%s %d)" % (c, y))
                    else:
                        say("(%s %d)" % (c, y), str(y))
            elif k == "syms":
                ns = NAMES if not e.base else NAMES + OVER
                say("(vp-syms %s '(%s))" % (v, " ".join(ns)), "(%s)" % " ".join("0" if e.get(q) is UNBOUND else "1" for q in ns))
                if not e.base:
                    say("(length (environment-symbols %s))" % v, str(sum(1 for c in e.cells.values() if c.v is not UNBOUND) + len(e.bulk)))
            elif k == "new":
                new()
            elif k == "bulk":
                m = d.choice([10, 60, 250, 900, 2000])
                p = d.choice(["b", "vp-v", "k"])
                f = d.int(2, 5)
                L.append('(vp-bulk %s "%s" %d %d)' % (v, p, m, f))
                for i in range(m):
                    e.bulk["%s%d" % (p, i)] = f * i
                touch(e)
                say('(vp-bulk-sum %s "%s" %d)' % (v, p, m), str(sum(f * i for i in range(m))))
                w, we = d.choice(envs)
                say('(vp-bulk-sum %s "%s" %d)' % (w, p, m), str(sum(we.bulk.get("%s%d" % (p, i), 1000000007) for i in range(m))))
            elif k == "over":
                q = d.choice(OVER)
                x = e.get(q)
                f = evalin(v, "'(%s '(1 2))" % q)
                if x is UNBOUND or not isinstance(x, tuple):
                    err(f, "exn")
                elif x[0] == "prim":
                    say(f, NUMS[x[1]])
                elif d.bool():
                    w = d.choice(OVER)
                    y = e.get(w)
                    L.append("(environment-set! %s '%s %s)" % (v, w, q))
                    e.cell(w).v = ("prim", q)
                    touch(e)
                # library procedures keep their own definitions
                if d.bool(0.3):
                    say("(list (append '(1) '(2)) (car '(1)) (map not '(#t #f)))", "((1 2) 1 (#f #t))")
            elif k == "give":
                w = d.choice(OVER)
                L.append("(environment-set! %s '%s %s)" % (v, n, w))
                e.cell(n).v = ("prim", w)
                touch(e)
                say(evalin(v, "'(%s '(1 2))" % n), NUMS[w])
            elif k == "current":
                # one-argument eval and definitions follow the current environment
                x = val()
                L.append("(begin (current-environment %s) (eval '(define-values (%s) %d)) (current-environment vp-main))" % (v, n, x))
                e.cell(n).v = x
                touch(e)
                if d.bool():
                    say("(begin (current-environment %s) (let-values ([(r) (list (eq? (current-environment) %s) (eval '%s))]) (begin (current-environment vp-main) r)))" % (v, v, n), "(#t %d)" % x)
                if d.bool():
                    say("(eq? (current-environment) vp-main)", "#t")
            elif k == "load":
                if not e.base:
                    return
                i = st['val']
                sub = d.choice(["", "", "sub/", "sub/deep/"])
                x, y = val(), val()
                q = d.choice(NAMES)
                body = "(define-values (%s) %d)\n" % (n, x)
                inner = None
                if d.bool(0.4) and e.get("list") == ("prim", "list") and n != "list":
                    inner = "%sin%d.min" % (d.choice(["", "sub/", ""]), i)
                    body += '(load "%s")\n' % inner
                    files[sub + inner] = "(set! %s (list %s %d))\n%s" % (n, n, y, d.choice(["", "(define-values (%s) 'inner)\n" % n]))
                kind = d.int(0, 3)
                if inner:
                    r = "inner" if "inner)" in files[sub + inner] else "(%d %d)" % (x, y)
                else:
                    r = str(x)
                if kind == 0:
                    body += "'the-end\n"
                elif kind == 1:
                    body += "; nothing\n"
                elif kind == 2:
                    body += "(define-values (%s) %d)\n" % (q, y)
                else:
                    body += "%s " % n
                files["%sl%d.min" % (sub, i)] = body
                f = evalin(v, "'(load \"%sl%d.min\")" % (sub, i))
                if kind == 0:
                    say(f, "the-end")
                elif kind == 3:
                    say(f, r)
                else:
                    L.append(f)
                # values in the model are printed forms
                e.cell(n).v = r
                if kind == 2:
                    e.cell(q).v = y
                touch(e)
                say("(equal? (current-directory) vp-cwd)", "#t")
                self.tag("load")
            elif k == "bad":
                f = d.choice(["(environment-ref 5 'x)", "(environment-ref %s \"x\" 1)", "(environment-set! 'x %s 1)", "(environment-set! %s \"x\" 1)", "(environment-symbols '())", "(copy-environment %s 1)",
                              "(copy-environment %s #t '(1))", "(copy-environment '() #t)", "(current-environment 1)", "(load 'x)"])
                err(f % v if "%s" in f else f, "argument")
            elif k == "mv":
                if e.base:
                    say("(call-with-values (lambda () %s) list)" % evalin(v, "'(values 1 'b)"), "(1 b)")
                    say("(call-with-values (lambda () %s) list)" % evalin(v, "'(values)"), "()")
            else:
                w, we = d.choice(envs)
                if not e.base:
                    return
                x = val()
                L.append("(environment-set! %s 'vp-other %s)" % (v, w))
                e.bulk.setdefault("vp-other", 0)
                L.append(evalin(v, "'(eval '(define-values (%s) %d) vp-other)" % (n, x)))
                we.cell(n).v = x
                touch(we)
                q = name(0)
                y = e.get(q)
                m = we.get(q)
                if y is not UNBOUND and m is not UNBOUND and we.base and not isinstance(we.get("list"), int) and not isinstance(e.get("list"), int) \
                        and e.get("list") == ("prim", "list") and we.get("list") == ("prim", "list"):
                    say(evalin(v, "'(list (eval '%s vp-other) %s (eval '(list %s) vp-other) %s)" % (q, q, q, q)), "(%s %s (%s) %s)" % (show(m), show(y), show(m), show(y)))

        files["vp-init.min"] = "(void)\n"     # the interpreter was started elsewhere
        L.append('(begin (load "vp-init.min") (void))')
        L.append("(define-values (vp-cwd) (current-directory))")
        new()
        for _ in d.repeat(30, 90):
            op()
        # final sweep
        for v, e in envs:
            for n in NAMES[:4]:
                x = e.get(n)
                say("(environment-ref %s '%s 'none)" % (v, n), "none" if x is UNBOUND else show(x))
        say("(eq? (current-environment) vp-main)", "#t")
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": st["diverged"] and st["late"], "files": files or None}


CHECK = P17
