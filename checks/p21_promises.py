"""Promises: histories of delay, force and lazy against a memoisation model."""
import ml
from ml import Sym, Err
from runner import ProgCheck


class Prom:
    def __init__(self, name, body):
        self.name, self.body, self.forced, self.cache = name, body, False, None

    def show(self, d):
        return "#<promise:%s>" % ml.show(self.cache) if self.forced else "#<promise>"


class P21(ProgCheck):
    id = "P21"
    mode = "lib"
    prologue = '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR + """
(define-values (vp-log) '())
(define-values (note) (lambda (x) (set! vp-log (cons x vp-log))))
(define-values (log) (lambda () (let-values ([(l) (reverse vp-log)]) (begin (set! vp-log '()) l))))
(define-values (vp-n) 0)
"""
    technique = "stateful model-based testing: histories of delay, make-promise, force and lazy over promises that depend on each other, fail, or yield promises, against a memoisation model with an effect log"
    rule = ("a case is a history of about 20 operations on up to 7 promises; non-trivial when a promise is forced twice with an effect in its body, a promise is reached through another one, and a "
            "body either fails once or yields a promise")
    quick_s = 26

    def gen(self, d):
        L, out = [], []
        proms = []
        world = {"n": 0, "log": []}
        st = {"twice": False, "nested": False, "hard": False}
        counts = {}

        def show(e, f):
            L.append("(begin (write %s) (newline))" % e)
            try:
                v = f()
                out.append(ml.show(v))
            except Err as x:
                out.append("!" + x.kind)

        def force(p):
            counts[p.name] = counts.get(p.name, 0) + 1
            if counts[p.name] > 1:
                st["twice"] = True
            if p.forced:
                return p.cache
            v = p.body()
            p.forced, p.cache = True, v
            return v

        def lazy(p):
            v = force(p)
            while isinstance(v, Prom):
                v = force(v)
            return v

        def note(x):
            world["log"].append(x)

        def takelog():
            l, world["log"] = world["log"], []
            return ml.lst(l)

        def body(i):
            """(source forms, python body) of promise i"""
            tag = Sym("p%d" % i)
            k = d.weighted([(3, "const"), (3, "dep"), (3, "count"), (3, "prom"), (2, "fail"), (1, "lazydep"), (1, "closure")])
            pre = "(note '%s)" % tag if d.bool(0.85) else None
            src = None
            if k == "dep" and proms:
                q = d.choice(proms)
                st["nested"] = True
                src, f = "(list '%s (force %s))" % (tag, q.name), lambda: ml.lst([tag, force(q)])
            elif k == "lazydep" and proms:
                q = d.choice(proms)
                st["nested"] = True
                src, f = "(list '%s (lazy %s))" % (tag, q.name), lambda: ml.lst([tag, lazy(q)])
            elif k == "count":
                def f():
                    world["n"] += 1
                    return world["n"]
                src = "(begin (set! vp-n (+ vp-n 1)) vp-n)"
            elif k == "prom" and proms:
                q = d.choice(proms)
                st["nested"] = st["hard"] = True
                src, f = q.name, lambda: q
            elif k == "fail":
                lim = d.int(1, 3)
                st["hard"] = True

                def f():
                    world["n"] += 1
                    if world["n"] < lim:
                        raise Err("exn")
                    return world["n"]
                src = "(begin (set! vp-n (+ vp-n 1)) (if (< vp-n %d) (error 'p \"no\") vp-n))" % lim
            elif k == "closure":
                c = d.int(0, 9)
                src, f = "(let ([x %d]) (+ x vp-n))" % c, lambda: c + world["n"]
            if src is None:
                v = d.choice([d.int(0, 9), False, Sym("v"), ml.lst([1, 2]), ml.VOID])
                src, f = ml.lit(v), lambda: v
            if pre is None:
                return src, f

            def g():
                note(tag)
                return f()
            return "%s %s" % (pre, src), g

        def new():
            i = len(proms)
            src, f = body(i)
            n = "p%d" % i
            if d.bool(0.75):
                L.append("(define-values (%s) (delay %s))" % (n, src))
            else:
                L.append("(define-values (%s) (make-promise (lambda () %s)))" % (n, src))
            proms.append(Prom(n, f))

        new()
        for _ in d.repeat(20, 45):
            p = d.choice(proms)
            k = d.weighted([(5, "new"), (8, "force"), (4, "lazy"), (3, "forced?"), (3, "log"), (1, "show"), (1, "n"), (1, "err"), (1, "is")])
            if k == "new" and len(proms) < 7:
                new()
            elif k == "force":
                show("(let ([v (force %s)]) (if (promise? v) 'promise v))" % p.name, lambda: (lambda v: Sym("promise") if isinstance(v, Prom) else v)(force(p)))
            elif k == "lazy":
                show("(lazy %s)" % p.name, lambda: lazy(p))
            elif k == "forced?":
                show("(promise-forced? %s)" % p.name, lambda: p.forced)
            elif k == "log":
                show("(log)", takelog)
            elif k == "n":
                show("(begin (set! vp-n (+ vp-n 1)) vp-n)", lambda: world.__setitem__("n", world["n"] + 1) or world["n"])
            elif k == "show":
                show(p.name, lambda: p)
            elif k == "is":
                show("(list (promise? %s) (promise? 5) (eq? %s %s))" % (p.name, p.name, p.name), lambda: ml.lst([True, False, True]))
            elif k == "err":
                def bad():
                    raise Err("argument")
                show("(%s %s)" % (d.choice(["force", "lazy"]), d.choice(["5", "(lambda () 1)", "'()"])), bad)
        for p in proms:
            show("(promise-forced? %s)" % p.name, lambda: p.forced)
        show("(log)", takelog)
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": all(st.values())}


CHECK = P21
