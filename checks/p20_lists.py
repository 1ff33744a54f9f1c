"""The list library and sort against definitions over Python sequences."""
import ml, steps
from ml import Sym, NIL, Pair, Str, Vec, VOID, Err
from runner import ProgCheck

# source of a predicate / binary function with its meaning
PREDS = [("(lambda (x) (integer? x))", ml.isint), ("(lambda (x) (pair? x))", lambda x: isinstance(x, Pair)), ("symbol?", lambda x: isinstance(x, Sym)),
         ("(lambda (x) (if (integer? x) (< x 3) #t))", lambda x: x < 3 if ml.isint(x) else True), ("(lambda (x) #f)", lambda x: False),
         ("(lambda (x) x)", lambda x: x is not False)]
NTH = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"]
LESS = [("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("(lambda (a b) (< (modulo a 7) (modulo b 7)))", lambda a, b: a % 7 < b % 7),
        ("(lambda (a b) (> (modulo a 3) (modulo b 3)))", lambda a, b: a % 3 > b % 3), ("(lambda (a b) #f)", lambda a, b: False)]


def stable_sort(xs, less):
    """Insertion sort: the stable order of a strict weak ordering."""
    import functools
    return sorted(xs, key=functools.cmp_to_key(lambda a, b: -1 if less(a, b) else 1 if less(b, a) else 0))


class P20(ProgCheck):
    id = "P20"
    mode = "lib"
    technique = "model-based property testing: list-library calls and sorts over generated lists and comparison procedures against Python definitions, with the inputs printed again afterwards"
    rule = ("a case is a program of about 14 list-library calls over up to 5 shared lists; non-trivial when a sort of 4 or more elements with at least two equivalent but distinct elements and a "
            "call with a generated procedure both appear, and an operand is printed again after the calls")
    prologue = '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR + """
(define-values (vp-log) '())
(define-values (noting) (lambda (f) (lambda (x) (begin (set! vp-log (cons x vp-log)) (f x)))))
(define-values (log) (lambda () (let-values ([(l) (reverse vp-log)]) (begin (set! vp-log '()) l))))
(define-values (lcg) (lambda (n s m) (if (= n 0) '() (cons (modulo (/ s 8) m) (lcg (- n 1) (modulo (+ (* s 1103) 12345) 65536) m)))))
(define-values (tag) (lambda (l i) (if (null? l) '() (cons (cons (car l) i) (tag (cdr l) (+ i 1))))))
"""
    quick_s = 26

    def gen(self, d):
        L, out = [], []
        lists = []
        st = {"sort": False, "proc": False}

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append("!" + v.kind if isinstance(v, Err) else ml.show(v))

        pool = [steps.value(d, 1) for _ in range(d.int(2, 6))]

        def elem():
            return d.weighted([(3, lambda: d.choice(pool)), (3, lambda: d.int(-3, 9)), (1, lambda: steps.symbol(d)), (1, lambda: d.choice([True, False]))])()

        for i in range(d.int(1, 4)):
            xs = [elem() for _ in range(d.weighted([(4, d.int(0, 6)), (3, d.int(6, 14)), (1, 0)]))]
            if d.bool(0.15):
                xs = [Pair(d.choice([1, Sym("a"), Str("k"), Pair(1, NIL)]), x) for x in xs]
            L.append("(define-values (l%d) %s)" % (i, "(list%s)" % "".join(" " + ml.fresh(x) for x in xs)))
            lists.append(("l%d" % i, xs))
        ints = []
        for i in range(d.int(1, 3)):
            n = d.weighted([(3, d.int(0, 5)), (4, d.int(4, 20)), (1, d.int(20, 70)), (1, d.choice([127, 128, 129, 200]))])
            if n > 20:
                s, m = d.int(0, 65535), d.choice([2, 7, 50, 8192])
                xs, t = [], s
                for _ in range(n):
                    xs.append(t // 8 % m)
                    t = (t * 1103 + 12345) % 65536
                L.append("(define-values (n%d) (lcg %d %d %d))" % (i, n, s, m))
            else:
                hi = d.choice([3, 12, 100])
                xs = [d.int(-hi, hi) for _ in range(n)]
                how = d.int(0, 3)
                if how == 1:
                    xs.sort()
                elif how == 2:
                    xs.sort(reverse=True)
                L.append("(define-values (n%d) (list%s))" % (i, "".join(" %d" % x for x in xs)))
            ints.append(("n%d" % i, xs))
        notlist = [("5", None), ("'a", None), ("(vector 1 2)", None)]
        for _ in d.repeat(14, 40):
            nm, xs = d.choice(lists + ints)
            bad = d.bool(0.04)
            k = d.weighted([(3, "nth"), (2, "ref"), (2, "set"), (1, "cons*"), (3, "member"), (3, "remove"), (3, "remove*"), (3, "filter"), (3, "fold"), (3, "assoc"), (3, "index"), (8, "sort"), (2, "chain")])
            if k == "nth":
                i = d.int(0, 9)
                show("(%s %s)" % (NTH[i], nm), xs[i] if i < len(xs) else Err("argument" if i == 0 else "exn"))
                if bad:
                    show("(%s %s)" % (NTH[i], d.choice(["5", "'a", "(cons 1 2)"])), Err("argument"))
            elif k == "ref":
                i = d.int(0, max(1, len(xs)))
                show("(list-ref %s %d)" % (nm, i), xs[i] if i < len(xs) else Err("exn"))
                if bad:
                    show("(list-ref %s %s)" % (nm, d.choice(["-1", "'x"])), Err("argument"))
            elif k == "set":
                i, v = d.int(0, max(1, len(xs))), elem()
                show("(list-set %s %d %s)" % (nm, i, ml.fresh(v)), ml.lst(xs[:i] + [v] + xs[i + 1:]) if i < len(xs) else Err("exn"))
                if bad:
                    show("(list-set %s %s 1)" % (nm, d.choice(["-1", "'x"])), Err("argument"))
            elif k == "cons*":
                vs = [elem() for _ in range(d.int(0, 4))]
                show("(cons*%s %s)" % ("".join(" " + ml.fresh(v) for v in vs), nm), ml.lst(vs, ml.lst(xs)))
                if bad:
                    show("(cons* 1 2)", Pair(1, 2))
            elif k == "member":
                v = d.choice(xs) if xs and d.bool(0.6) else elem()
                h = [x for x in xs if ml.equal(x, v)]
                show("(member %s %s)" % (ml.fresh(v), nm), h[0] if h else False)
                if h and d.bool():
                    i = [ml.equal(x, v) for x in xs].index(True)
                    show("(eq? (member %s %s) (list-ref %s %d))" % (ml.fresh(v), nm, nm, i), True)
                if bad:
                    show("(member 'vp %s)" % d.choice(["5", "(cons 1 2)"]), Err("argument"))
            elif k == "remove":
                v = d.choice(xs) if xs and d.bool(0.6) else elem()
                show("(remove %s %s)" % (ml.fresh(v), nm), ml.lst([x for x in xs if not ml.equal(x, v)]))
                if bad:
                    show("(remove 'vp %s)" % d.choice(["5", "(cons 1 2)"]), Err("argument"))
            elif k == "remove*":
                vs = [d.choice(xs) if xs and d.bool(0.6) else elem() for _ in range(d.int(0, 4))]
                show("(remove* (list%s) %s)" % ("".join(" " + ml.fresh(v) for v in vs), nm), ml.lst([x for x in xs if not any(ml.equal(x, v) for v in vs)]))
            elif k == "filter":
                src, f = d.choice(PREDS)
                st["proc"] = True
                show("(filter (noting %s) %s)" % (src, nm), ml.lst([x for x in xs if f(x)]))
                show("(log)", ml.lst(xs))
                if bad:
                    show("(filter symbol? %s)" % d.choice(["5", "'a"]), Err("argument"))
            elif k == "fold":
                st["proc"] = True
                w, h = d.choice(["foldl", "foldr"]), d.int(0, 2)
                seq = list(xs) if w == "foldl" else list(reversed(xs))
                if h == 0:
                    show("(%s (lambda (a x) (cons x a)) '() %s)" % (w, nm), ml.lst(list(reversed(seq))))
                elif h == 1:
                    a = 0
                    for x in seq:
                        a = ml.wrap(2 * a + (x if ml.isint(x) else 1))
                    show("(%s (lambda (a x) (+ (* 2 a) (if (integer? x) x 1))) 0 %s)" % (w, nm), a)
                else:
                    show("(begin (%s (lambda (a x) (begin (set! vp-log (cons x vp-log)) a)) 'z %s) (log))" % (w, nm), ml.lst(seq))
                if bad:
                    show("(%s cons 1 %s)" % (w, d.choice(["5", "'a"])), Err("argument"))
            elif k == "assoc":
                ks = [x.car for x in xs if isinstance(x, Pair)]
                v = d.choice(ks) if ks and d.bool(0.7) else elem()
                r = False
                for x in xs:
                    if not isinstance(x, Pair):
                        r = Err("argument")
                        break
                    if ml.equal(x.car, v):
                        r = x
                        break
                show("(assoc %s %s)" % (ml.fresh(v), nm), r)
            elif k == "index":
                v = d.choice(xs) if xs and d.bool(0.7) else elem()
                h = [i for i, x in enumerate(xs) if ml.equal(x, v)]
                show("(index-of %s %s)" % (ml.fresh(v), nm), h[0] if h else False)
            elif k == "chain":
                i, v = d.int(0, max(1, len(xs))), elem()
                src, f = d.choice(PREDS)
                st["proc"] = True
                r = [x for x in xs if f(x)]
                show("(foldr (lambda (a x) (cons x a)) '() (cons* %s (filter %s %s)))" % (ml.fresh(v), src, nm), ml.lst([v] + r))
            else:
                nm, xs = d.choice(ints)
                src, less = d.choice(LESS)
                form = d.int(0, 3)
                if form == 0:
                    show("(sort %s %s)" % (nm, src), ml.lst(stable_sort(xs, less)))
                elif form == 1:
                    ts = [Pair(x, i) for i, x in enumerate(xs)]
                    show("(sort (tag %s 0) (lambda (a b) (%s (car a) (car b))))" % (nm, src), ml.lst(stable_sort(ts, lambda a, b: less(a.car, b.car))))
                    st["sort"] = st["sort"] or len(xs) >= 4 and any(not less(a, b) and not less(b, a) for i, a in enumerate(xs) for b in xs[:i])
                elif form == 2:
                    ts = [Pair(x, i) for i, x in enumerate(xs)]
                    L.append("(define-values (v%d) (list->vector (tag %s 0)))" % (len(L), nm))
                    v = "v%d" % (len(L) - 1)
                    show("(sort %s (lambda (a b) (%s (car a) (car b))))" % (v, src), Vec(stable_sort(ts, lambda a, b: less(a.car, b.car))))
                    show(v, Vec(ts))
                else:
                    L.append("(define-values (v%d) (sort %s %s))" % (len(L), nm, src))
                    v = "v%d" % (len(L) - 1)
                    ss = stable_sort(xs, less)
                    if ss:
                        L.append("(set-car! %s 'changed)" % v)
                    show(v, ml.lst([Sym("changed")] + ss[1:] if ss else []))
                show(nm, ml.lst(xs))
        for nm, xs in lists + ints:
            show(nm, ml.lst(xs))
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": st["sort"] and st["proc"]}


CHECK = P20
