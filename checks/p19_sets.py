"""Sets and enumerations against Python sets."""
import ml, steps
from ml import Sym, Pair, Vec, Err
from runner import ProgCheck

PRE = """
(define-values (vp-acc) '())
(define-values (member-of) (lambda (s ks) (map (lambda (k) (set-member? s k)) ks)))
"""


class P19(ProgCheck):
    id = "P19"
    mode = "lib"
    prologue = '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR + PRE
    technique = "stateful model-based testing: histories over sets and enumeration sets against finite-set models, with copies, aliases, iteration that mutates and sets of sets"
    rule = ("a case is a history of about 22 operations on up to 7 sets and 4 enumeration sets; non-trivial when a set algebra operation gives a proper, non-empty subset of its operands' union, and "
            "a set changes after another was derived from it")
    quick_s = 26

    def gen(self, d):
        L, out = [], []
        st = {"alg": False, "mut": False}

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append("!" + v.kind if isinstance(v, Err) else ml.show(v))

        pool, seen = [], set()
        for _ in range(d.int(4, 9)):
            v = d.weighted([(4, lambda: d.int(-2, 9)), (2, lambda: steps.symbol(d)), (1, lambda: steps.string(d, 3)), (2, lambda: steps.value(d, 2))])()
            if ml.show(v) not in seen:
                seen.add(ml.show(v))
                pool.append(v)
        key = ml.show
        byk = {key(v): v for v in pool}
        sets = []          # (name, python set of keys); aliases share the set
        derived = set()

        def elems(src=None):
            return [d.choice(src or pool) for _ in range(d.int(0, 6))]

        def newset(expr, ks):
            n = "s%d" % len(sets)
            L.append("(define-values (%s) %s)" % (n, expr))
            sets.append((n, ks))
            return n

        vs = elems()
        newset("(make-set%s)" % "".join(" " + ml.fresh(v) for v in vs), {key(v) for v in vs})
        keysrc = "(list%s)" % "".join(" " + ml.fresh(v) for v in pool)

        def full(n, ks):
            h = d.int(0, 2)
            show("(set-count %s)" % n, len(ks))
            if h == 0:
                show("(member-of %s %s)" % (n, keysrc), ml.lst([key(v) in ks for v in pool]))
            elif h == 1:
                show("(map (lambda (k) (length (filter (lambda (x) (equal? x k)) (set->list %s)))) %s)" % (n, keysrc), ml.lst([int(key(v) in ks) for v in pool]))
            else:
                show("(set-empty? %s)" % n, not ks)
                show("(begin (set! vp-acc '()) (set-for-each (lambda (x) (set! vp-acc (cons x vp-acc))) %s) (list (length vp-acc) (set=? %s (apply make-set vp-acc))))" % (n, n), ml.lst([len(ks), True]))

        for _ in d.repeat(22, 50):
            n, ks = d.choice(sets)
            k = d.weighted([(3, "new"), (6, "add"), (5, "remove"), (1, "clear"), (3, "copy"), (6, "alg"), (5, "rel"), (4, "full"), (2, "iter"), (2, "equal"), (1, "alias"), (1, "err"), (1, "map"), (1, "table")])
            if k == "new" and len(sets) < 7:
                vs = elems()
                newset("(make-set%s)" % "".join(" " + ml.fresh(v) for v in vs), {key(v) for v in vs})
            elif k == "add":
                v = d.choice(pool)
                L.append("(set-add! %s %s)" % (n, ml.fresh(v)))
                st["mut"] = st["mut"] or (id(ks) in derived and key(v) not in ks)
                ks.add(key(v))
            elif k == "remove":
                v = d.choice(pool)
                L.append("(set-remove! %s %s)" % (n, ml.fresh(v)))
                st["mut"] = st["mut"] or (id(ks) in derived and key(v) in ks)
                ks.discard(key(v))
            elif k == "clear" and d.bool(0.5):
                L.append("(set-clear! %s)" % n)
                ks.clear()
            elif k == "copy" and len(sets) < 7:
                newset("(set-copy %s)" % n, set(ks))
                derived.add(id(ks))
                derived.add(id(sets[-1][1]))
            elif k == "alias" and len(sets) < 7:
                newset(n, ks)
            elif k == "alg":
                op = d.choice(["union", "intersect", "subtract", "symmetric-difference"])
                ops = [(n, ks)] + [d.choice(sets) for _ in range(d.weighted([(6, 1), (2, 2), (1, 0), (1, 3)]))]
                r = set(ks)
                for _, o in ops[1:]:
                    r = {"union": r | o, "intersect": r & o, "subtract": r - o, "symmetric-difference": r ^ o}[op]
                if op in ("union", "intersect") and d.bool(0.05):
                    ops, r = [], set()
                e = "(set-%s%s)" % (op, "".join(" " + x for x, _ in ops))
                al = set().union(*[o for _, o in ops]) if ops else set()
                st["alg"] = st["alg"] or bool(r) and r < al
                if len(sets) < 7:
                    for _, o in ops:
                        derived.add(id(o))
                    m = newset(e, r)
                    derived.add(id(r))
                    full(m, r)
                else:
                    show("(set=? %s (make-set%s))" % (e, "".join(" " + ml.fresh(byk[x]) for x in sorted(r))), True)
                for x, o in ops:
                    show("(set-count %s)" % x, len(o))
            elif k == "rel":
                m, js = d.choice(sets)
                op = d.choice(["subset?", "proper-subset?", "set=?"])
                show("(%s %s %s)" % (op, n, m), {"subset?": ks <= js, "proper-subset?": ks < js, "set=?": ks == js}[op])
            elif k == "equal":
                m, js = d.choice(sets)
                show("(equal? %s %s)" % (n, m), ks == js)
                if ks == js:
                    show("(= (equal-hash %s) (equal-hash %s))" % (n, m), True)
            elif k == "full":
                full(n, ks)
            elif k == "map":
                show("(let-values ([(l) (set-map (lambda (x) (cons x 1)) %s)]) (list (length l) (map (lambda (k) (if (assoc k l) #t #f)) %s)))" % (n, keysrc), ml.lst([len(ks), ml.lst([key(v) in ks for v in pool])]))
            elif k == "iter":
                # iteration goes over the elements the set had when it began
                v = d.choice(pool)
                a = d.int(0, 2)
                c = [n, "(set-remove! %s x)" % n, "(set-add! %s %s)" % (n, ml.fresh(v)), "(set-clear! %s)" % n][1 + a]
                L.append("(set! vp-acc '())")
                L.append("(set-for-each (lambda (x) (begin %s (set! vp-acc (cons x vp-acc)))) %s)" % (c, n))
                show("(map (lambda (k) (length (filter (lambda (x) (equal? x k)) vp-acc))) %s)" % keysrc, ml.lst([int(key(v) in ks) for v in pool]))
                if ks:
                    if a == 1:
                        ks.add(key(v))
                    else:
                        ks.clear()
                full(n, ks)
            elif k == "err":
                x = d.choice(["5", "'s", "(list 1)", "(make-hashtable)"])
                e = d.choice(["(set-count %s)", "(set-member? %s 1)", "(set-add! %s 1)", "(set-remove! %s 1)", "(set->list %s)", "(set-copy %s)", "(set-union s0 %s)", "(set-intersect %s s0)", "(set-subtract s0 %s)",
                              "(subset? s0 %s)", "(subset? %s s0)", "(set=? s0 %s)", "(proper-subset? %s s0)", "(set-for-each void %s)", "(set-map void %s)", "(set-clear! %s)", "(set-empty? %s)", "(set-symmetric-difference s0 %s)"])
                show(e % x, Err("argument"))
                show("(set? %s)" % x, False)
            elif k == "table":
                # sets are keys by content
                m, js = d.choice(sets)
                show("(let-values ([(h) (make-hashtable)]) (begin (hashtable-set! h (set-copy %s) 'one) (hashtable-ref h %s 'none)))" % (n, m), Sym("one" if ks == js else "none"))
                show("(let-values ([(ss) (make-set (set-copy %s) (set-copy %s))]) (list (set-count ss) (set-member? ss %s)))" % (n, m, n), ml.lst([1 if ks == js else 2, True]))
        for n, ks in sets:
            show("(list (set-count %s) (member-of %s %s))" % (n, n, keysrc), ml.lst([len(ks), ml.lst([key(v) in ks for v in pool])]))
        if d.bool(0.6):
            self.enums(d, L, show)
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": st["alg"] and st["mut"]}

    def enums(self, d, L, show):
        """Enumeration sets: universes, order, and operations of one type only."""
        names = ["red", "green", "blue", "x1", "x2", "last", "if", "a"]
        types = []
        es = []            # (name, type index, ordered list)

        def new(expr, t, vals):
            n = "e%d" % len(es)
            L.append("(define-values (%s) %s)" % (n, expr))
            es.append((n, t, [x for x in types[t] if x in vals]))

        def syms(xs):
            return ml.lst([Sym(x) for x in xs])

        for t in range(d.int(1, 3)):
            u = d.shuffle(names)[:d.int(0 if t else 1, 6)] if t == 0 or d.bool(0.6) else d.shuffle(types[0])
            types.append(u)
            if d.bool(0.3) and u and "if" not in u:
                L.append("(define-enumeration color%d (%s) mk%d)" % (t, " ".join(u), t))
                sub = [x for x in u if d.bool()]
                new("(mk%d%s)" % (t, "".join(" " + x for x in d.shuffle(sub))), t, sub)
                x = d.choice(u)
                show("(color%d %s)" % (t, x), Sym(x))
            else:
                new("(make-enumeration '(%s))" % " ".join(u), t, u)
        for _ in d.repeat(10, 25):
            n, t, vs = d.choice(es)
            u = types[t]
            k = d.weighted([(4, "make"), (3, "list"), (2, "index"), (3, "member"), (3, "rel"), (5, "op"), (3, "complement"), (2, "proj"), (1, "universe"), (1, "err")])
            if k == "make" and len(es) < 9:
                want = [d.choice(names) for _ in range(d.int(0, 5))]
                new("((enum-set-constructor %s) '(%s))" % (n, " ".join(want)), t, want)
                show("(enum-set->list %s)" % es[-1][0], syms(es[-1][2]))
            elif k == "list":
                show("(enum-set->list %s)" % n, syms(vs))
            elif k == "universe":
                show("(enum-set->list (enum-set-universe %s))" % n, syms(u))
            elif k == "index":
                x = d.choice(names)
                show("((enum-set-indexer %s) '%s)" % (n, x), u.index(x) if x in u else False)
            elif k == "member":
                x = d.choice(names)
                show("(enum-set-member? '%s %s)" % (x, n), x in vs)
            elif k == "rel":
                m, t2, ws = d.choice(es)
                sub = set(u) <= set(types[t2]) and set(vs) <= set(ws)
                if d.bool():
                    show("(enum-set-subset? %s %s)" % (n, m), sub)
                else:
                    show("(enum-set=? %s %s)" % (n, m), sub and set(types[t2]) <= set(u) and set(ws) <= set(vs))
            elif k == "op":
                m, t2, ws = d.choice(es)
                op, r = d.choice([("union", set(vs) | set(ws)), ("intersect", set(vs) & set(ws)), ("difference", set(vs) - set(ws))])
                show("(enum-set->list (enum-set-%s %s %s))" % (op, n, m), syms([x for x in u if x in r]) if t == t2 else Err("exn"))
            elif k == "complement":
                show("(enum-set->list (enum-set-complement %s))" % n, syms([x for x in u if x not in vs]))
            elif k == "proj":
                m, t2, ws = d.choice(es)
                show("(enum-set->list (enum-set-projection %s %s))" % (n, m), syms([x for x in types[t2] if x in vs]))
                show("(enum-set-subset? (enum-set-projection %s %s) %s)" % (n, m, m), set(x for x in types[t2] if x in vs) <= set(ws))
            elif k == "err":
                show(d.choice(["(enum-set->list 5)", "(enum-set-complement s0)", "(enum-set-union e0 5)", "(enum-set-member? 'a 5)", "((enum-set-constructor e0) '(1))", "((enum-set-indexer e0) 1)",
                               "(make-enumeration '(a 1))", "(enum-set-subset? 5 e0)", "(enum-set=? e0 5)", "(enum-set-projection e0 5)"]), Err("argument"))
        self.tag("enums")


CHECK = P19
