"""syntax-case / syntax-rules / syntax templates against a reference matcher."""
import sys
import ml
from ml import Sym, Ch, Str, Pair, NIL, Vec, Err
from runner import ProgCheck, Discard, Fail

# patterns: ("_",) ("var", n) ("lit", name) ("const", datum) ("null",) ("pair", p, q) ("ell", p, [after], tail) ("vec", p...) ("vecell", [before], p, [after])
# templates: ("var", n) ("const", datum) ("seq", [(t, ellipsis?)], tail|None) ("vec", [(t, ell)])

VARS = ["a", "b", "c", "x", "y", "z", "p", "q", "r", "s", "u", "w"]
LITS = ["foo", "bar", "=>"]
SYMS = ["k", "foo", "bar", "baz", "if", "quote", "=>", "m"]


class NoMatch(Exception):
    pass


def match(p, x, env):
    k = p[0]
    if k == "_":
        return
    if k == "var":
        env[p[1]] = x
    elif k == "lit":
        if not (isinstance(x, Sym) and x == p[1]):
            raise NoMatch()
    elif k == "const":
        if not ml.equal(p[1], x):
            raise NoMatch()
    elif k == "null":
        if x is not NIL:
            raise NoMatch()
    elif k == "pair":
        if not isinstance(x, Pair):
            raise NoMatch()
        match(p[1], x.car, env)
        match(p[2], x.cdr, env)
    elif k == "ell":
        items, t = [], x
        while isinstance(t, Pair):
            items.append(t.car)
            t = t.cdr
        n = len(p[2])
        if len(items) < n:
            raise NoMatch()
        match(p[3], t, env)
        m = len(items) - n
        many(p[1], items[:m], env)
        for q, y in zip(p[2], items[m:]):
            match(q, y, env)
    elif k == "vec":
        if not isinstance(x, Vec) or len(x.v) != len(p[1]):
            raise NoMatch()
        for q, y in zip(p[1], x.v):
            match(q, y, env)
    elif k == "vecell":
        if not isinstance(x, Vec) or len(x.v) < len(p[1]) + len(p[3]):
            raise NoMatch()
        a, b = len(p[1]), len(x.v) - len(p[3])
        for q, y in zip(p[1], x.v[:a]):
            match(q, y, env)
        many(p[2], x.v[a:b], env)
        for q, y in zip(p[3], x.v[b:]):
            match(q, y, env)
    else:
        raise AssertionError(p)


class Many(list):
    pass


def many(p, xs, env):
    rows = []
    for y in xs:
        e = {}
        match(p, y, e)
        rows.append(e)
    for v, _ in pvars(p):
        env[v] = Many(r[v] for r in rows)


def pvars(p, depth=0):
    k = p[0]
    if k == "var":
        return [(p[1], depth)]
    if k == "pair":
        return pvars(p[1], depth) + pvars(p[2], depth)
    if k == "ell":
        return pvars(p[1], depth + 1) + [v for q in p[2] for v in pvars(q, depth)] + pvars(p[3], depth)
    if k == "vec":
        return [v for q in p[1] for v in pvars(q, depth)]
    if k == "vecell":
        return [v for q in p[1] for v in pvars(q, depth)] + pvars(p[2], depth + 1) + [v for q in p[3] for v in pvars(q, depth)]
    return []


def fill(t, env, depths, k=0):
    if t[0] == "var":
        return env[t[1]]
    if t[0] == "const":
        return t[1]
    out = []
    for e, ell in t[1]:
        if not ell:
            out.append(fill(e, env, depths, k))
            continue
        vs = [v for v in tvars(e) if depths[v] > k]
        ns = {len(env[v]) for v in vs}
        if len(ns) != 1:
            raise Err("exn")
        for i in range(ns.pop()):
            e2 = dict(env)
            for v in vs:
                e2[v] = env[v][i]
            out.append(fill(e, e2, depths, k + 1))
    if t[0] == "vec":
        return Vec(out)
    return ml.lst(out, NIL if t[2] is None else fill(t[2], env, depths, k))


def tvars(t):
    if t[0] == "var":
        return [t[1]]
    if t[0] == "const":
        return []
    return [v for e, _ in t[1] for v in tvars(e)] + (tvars(t[2]) if t[0] == "seq" and t[2] is not None else [])


def ptext(p):
    k = p[0]
    if k == "_":
        return "_"
    if k in ("var", "lit"):
        return p[1]
    if k == "const":
        return ml.datum(p[1])
    if k == "null":
        return "()"
    if k == "pair":
        return "(" + ptail(p) + ")"
    if k == "ell":
        return "(" + ptail(p) + ")"
    if k == "vec":
        return "#(" + " ".join(map(ptext, p[1])) + ")"
    return "#(" + " ".join(list(map(ptext, p[1])) + [ptext(p[2]), "..."] + list(map(ptext, p[3]))) + ")"


def ptail(p):
    out = []
    while True:
        if p[0] == "pair":
            out.append(ptext(p[1]))
            p = p[2]
        elif p[0] == "ell":
            out += [ptext(p[1]), "..."] + list(map(ptext, p[2]))
            p = p[3]
        elif p[0] == "null":
            break
        else:
            out += [".", ptext(p)]
            break
    return " ".join(out)


def ttext(t):
    if t[0] == "var":
        return t[1]
    if t[0] == "const":
        return ml.datum(t[1])
    s = " ".join(ttext(e) + (" ..." if ell else "") for e, ell in t[1])
    if t[0] == "vec":
        return "#(" + s + ")"
    if t[2] is not None:
        s += " . " + ttext(t[2])
    return "(" + s + ")"


class Gen:
    def __init__(self, d):
        self.d = d
        self.used = []

    def atom(self):
        d = self.d
        return d.weighted([(4, lambda: d.int(0, 9)), (4, lambda: Sym(d.choice(SYMS))), (1, lambda: Str(b"s")), (1, lambda: Ch(97)), (1, lambda: d.bool()), (1, lambda: NIL),
                           (1, lambda: -d.int(1, 2 ** 40))])()

    def datum(self, depth):
        d = self.d
        k = d.weighted([(4, 0), (3, 1), (1, 2), (1, 3)]) if depth > 0 else 0
        if k == 0:
            return self.atom()
        if k == 1:
            return ml.lst(d.list(lambda: self.datum(depth - 1), 0, 4))
        if k == 2:
            return ml.lst(d.list(lambda: self.datum(depth - 1), 1, 3), self.atom())
        return Vec(d.list(lambda: self.datum(depth - 1), 0, 3))

    def var(self):
        free = [v for v in VARS if v not in self.used]
        if not free:
            return ("_",)
        v = self.d.choice(free)
        self.used.append(v)
        return ("var", v)

    def pat(self, depth, lits):
        d = self.d
        k = d.weighted([(6, 0), (1, 1), (1, 2), (1, 3)] + ([(5, 4), (1, 5)] if depth > 0 else []))
        if k == 0:
            return self.var()
        if k == 1:
            return ("_",)
        if k == 2:
            if lits and d.bool(0.6):
                return ("lit", d.choice(lits))
            return ("const", d.choice([d.int(0, 3), Str(b"s"), True, False, Ch(97)]))
        if k == 3:
            return ("null",)
        if k == 4:
            return self.plist(depth, lits)
        before = [self.pat(depth - 1, lits) for _ in range(d.int(0, 2))]
        if d.bool(0.5):
            return ("vec", before)
        return ("vecell", before, self.pat(depth - 1, lits), [self.pat(depth - 1, lits) for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)]))])

    def plist(self, depth, lits, n=None):
        d = self.d
        n = d.weighted([(2, 1), (3, 2), (2, 3), (1, 0)]) if n is None else n
        heads = [self.pat(depth - 1, lits) for _ in range(n)]
        k = d.weighted([(4, 0), (4, 1), (1, 2)])
        if k == 0:
            t = ("null",)
        elif k == 1:
            t = ("ell", self.pat(depth - 1, lits), [self.pat(depth - 1, lits) for _ in range(d.weighted([(4, 0), (2, 1), (1, 2)]))],
                 ("null",) if d.bool(0.8) else d.choice([self.var(), ("const", 7)]))
        else:
            t = d.choice([self.var(), self.var(), ("const", 7)]) if n else ("null",)
        for h in reversed(heads):
            t = ("pair", h, t)
        return t

    def inst(self, p, depth):
        """A datum that p matches."""
        d = self.d
        k = p[0]
        if k in ("_", "var"):
            return self.datum(depth)
        if k == "lit":
            return Sym(p[1])
        if k == "const":
            return p[1]
        if k == "null":
            return NIL
        if k == "pair":
            return Pair(self.inst(p[1], depth - 1), self.inst(p[2], depth))
        if k == "ell":
            xs = [self.inst(p[1], depth - 1) for _ in range(d.weighted([(2, 2), (2, 1), (2, 0), (1, 3)]))] + [self.inst(q, depth - 1) for q in p[2]]
            return ml.lst(xs, self.inst(p[3], 0))
        if k == "vec":
            return Vec([self.inst(q, depth - 1) for q in p[1]])
        return Vec([self.inst(q, depth - 1) for q in p[1]] + [self.inst(p[2], depth - 1) for _ in range(d.int(0, 3))] + [self.inst(q, depth - 1) for q in p[3]])

    def mutate(self, x, depth=3):
        d = self.d
        if isinstance(x, Pair) and d.bool(0.75):
            k = d.int(0, 4)
            if k == 0:
                return Pair(self.mutate(x.car), x.cdr)
            if k == 1:
                return Pair(x.car, self.mutate(x.cdr))
            if k == 2:
                return x.cdr
            if k == 3:
                return Pair(self.atom(), x)
            return Pair(x.car, self.mutate(x.cdr))
        if isinstance(x, Vec) and d.bool(0.7):
            v = list(x.v)
            k = d.int(0, 2)
            if k == 0 and v:
                v.pop(d.int(0, len(v) - 1))
            elif k == 1 or not v:
                v.insert(d.int(0, len(v)), self.atom())
            else:
                i = d.int(0, len(v) - 1)
                v[i] = self.mutate(v[i])
            return Vec(v)
        return self.datum(1)

    # -- templates
    def tmpl(self, depths, k, size):
        d = self.d
        here = [v for v, m in depths.items() if m <= k]
        c = d.weighted([(4, 0), (2, 1)] + ([(5, 2), (1, 3)] if size > 0 else []))
        if c == 0 and here:
            return ("var", d.choice(here))
        if c <= 1:
            return ("const", self.tconst(depths))
        es = self.elems(depths, k, size)
        if c == 3:
            return ("vec", es)
        if not es:
            return ("const", NIL)
        return ("seq", es, self.leaf(depths, k) if d.bool(0.15) else None)

    def leaf(self, depths, k):
        here = [v for v, m in depths.items() if m <= k]
        if here and self.d.bool(0.8):
            return ("var", self.d.choice(here))
        return ("const", self.tconst(depths))

    def tconst(self, depths):
        for _ in range(50):
            x = self.atom()
            if not (isinstance(x, Sym) and x in depths):
                return x
        return 0

    def elems(self, depths, k, size):
        d = self.d
        out = []
        for _ in range(d.int(1, 4)):
            deep = [v for v, m in depths.items() if m > k]
            if deep and d.bool(0.55):
                out.append((self.driven(depths, k + 1, d.choice(deep), size - 1), True))
            else:
                out.append((self.tmpl(depths, k, size - 1), False))
        return out

    def driven(self, depths, k, v, size):
        """A template at depth k that mentions v (of depth >= k) with enough ellipses."""
        d = self.d
        if depths[v] == k and (size <= 0 or d.bool(0.5)):
            return ("var", v)
        es = [((("var", v), False) if depths[v] == k else (self.driven(depths, k + 1, v, size - 1), True))]
        for _ in range(d.int(0, 2)):
            es.insert(d.int(0, len(es)), (self.tmpl(depths, k, size - 1), False))
        if d.bool(0.1):
            return ("vec", es)
        return ("seq", es, None)

    # -- clauses
    def clause(self, depth, lits, shape=None):
        self.used = []
        p = shape(self) if shape else self.pat(depth, lits)
        depths = dict(pvars(p))
        f = None
        d = self.d
        flat = [v for v, m in depths.items() if m == 0]
        if d.bool(0.25):
            f = d.choice([("#t", lambda env: True), ("#f", lambda env: False)])
            if flat and d.bool(0.8):
                v = d.choice(flat)
                f = d.choice([("(identifier? #'%s)" % v, lambda env, v=v: isinstance(env[v], Sym)),
                              ("(equal? (syntax->datum #'%s) 1)" % v, lambda env, v=v: env[v] == 1 and env[v] is not True),
                              ("(pair? (syntax->datum #'(%s)))" % v, lambda env: True),
                              ("(fixnum? (syntax->datum #'%s))" % v, lambda env, v=v: ml.isint(env[v]))])
        return p, depths, f, self.tmpl(depths, 0, 3)


def matches(cl, x):
    """The result of the first clause that accepts x; None when none does."""
    for p, depths, f, t in cl:
        env = {}
        try:
            match(p, x, env)
        except NoMatch:
            continue
        if f and not f[1](env):
            continue
        return fill(t, env, depths)
    return None


def stxbuild(d, x, depth=2):
    """An expression that builds a syntax object (or a list of them) for x."""
    if depth > 0 and isinstance(x, Pair) and d.bool(0.6):
        if ml.is_list(x) and d.bool(0.5):
            return "(list %s)" % " ".join(stxbuild(d, y, depth - 1) for y in ml.pylist(x))
        return "(cons %s %s)" % (stxbuild(d, x.car, depth - 1), stxbuild(d, x.cdr, depth - 1))
    return d.choice(["#'%s", "(datum->syntax '%s)", "(quote-syntax %s)"]) % ml.datum(x)


class P14(ProgCheck):
    id = "P14"
    mode = "lib"
    technique = "generated patterns, templates and inputs for syntax-case, syntax-rules and with-syntax against a reference matcher and template filler"
    rule = ("a case is a module with one to three transformers of one to four clauses (nested ellipses, tails, vectors, literals, fenders), used as procedures on syntax and as macros at top level, in expressions, "
            "inside other macros and in local scopes, on inputs instantiated from their own patterns and mutated; non-trivial when some input with an ellipsis or a nested pattern matches and some other does not match the first clause")
    assumptions = ["pattern variables do not share names with temporaries of the generated matcher, with each other, or with variables bound inside the clause (the expander is unhygienic by design)"]
    prologue = '(import "lib/base.min")\n' + ml.EXIT_ON_ERROR

    def gen(self, d):
        if d.bool(0.12):
            return self.structural(d)
        g = Gen(d)
        lits = [l for l in LITS if d.bool(0.4)]
        defs, uses, out = [], [], []
        nt = 0
        err = False
        for i in range(d.int(1, 3)):
            kind = d.choice(["proc", "macro", "rules", "proc"])
            shape = None
            if kind != "proc":
                shape = lambda g: ("pair", ("_",), g.plist(3, lits))
            cls = [g.clause(3, lits, shape) for _ in range(d.int(1, 4))]
            if kind == "rules":
                cls = [(p, dp, None, t) for p, dp, _, t in cls]
            name = "t%d" % i
            defs.append(self.define(d, name, kind, lits, cls))
            ins = []
            for _ in range(d.int(1, 5)):
                x = g.inst(d.choice(cls)[0], 2)
                for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)])):
                    x = g.mutate(x) if kind == "proc" or not isinstance(x, Pair) else Pair(x.car, g.mutate(x.cdr))
                ins.append(x)
            for x in ins:
                if kind != "proc":
                    x = Pair(Sym(name), x.cdr if isinstance(x, Pair) else NIL)
                try:
                    r = matches(cls, x)
                except Err as e:
                    if kind != "proc":
                        continue
                    r = e
                if r is None:
                    if kind != "proc" or err:
                        continue        # a macro use no clause accepts rejects the module
                    nt |= 2
                    uses.append("(try %s %s)" % (name, stxbuild(d, x)))
                    out.append("!syntax")
                elif isinstance(r, Err):
                    uses.append("(try %s %s)" % (name, stxbuild(d, x)))
                    out.append("!" + r.kind)
                else:
                    m1 = None
                    try:
                        m1 = matches(cls[:1], x)
                    except Err:
                        pass
                    nt |= 1 if m1 is not None and tvars(cls[0][3]) else 2
                    if kind == "proc":
                        uses.append("(try %s %s)" % (name, stxbuild(d, x)))
                    else:
                        uses.append(self.macro_use(d, name, x))
                    out.append(ml.show(r))
        pro = "(define-syntax (qq stx) (datum->syntax (list 'quote (cadr (syntax->list stx)))))\n"
        order = defs + uses
        return {"prog": "\n".join(order) + "\n", "out": out, "nt": nt == 3, "key": "\n".join(order)}

    def define(self, d, name, kind, lits, cls):
        def clause(c):
            p, dp, f, t = c
            tt = "#'" + ttext(t)
            if kind == "proc":
                body = "(syntax->datum %s)" % tt
            else:
                body = "#'(quote %s)" % ttext(t)
            if kind == "proc" and d.bool(0.2):
                body = "(with-syntax ([vp-w %s] [(vp-x ...) #'(1 2)]) (syntax-case #'(vp-x ... vp-w) () [(vp-1 vp-2 vp-3) (syntax->datum #'vp-3)]))" % tt
            return "[%s %s%s]" % (ptext(p), (f[0] + " ") if f else "", body)
        if kind == "rules":
            return "(define-syntax %s (syntax-rules (%s) %s))" % (name, " ".join(lits), " ".join("[%s (quote %s)]" % (ptext(("pair", ("var", name), c[0][2])), ttext(c[3])) for c in cls))
        sc = "(syntax-case stx (%s) %s)" % (" ".join(lits), " ".join(map(clause, cls)))
        if kind == "macro":
            return "(define-syntax (%s stx) %s)" % (name, sc)
        return "(define (%s stx) %s)" % (name, sc)

    def macro_use(self, d, name, x):
        u = ml.datum(x)
        k = d.int(0, 6)
        if k == 0:
            return "(out %s)" % u
        if k == 1:
            return "(out (let ([v %s]) v))" % u
        if k == 2:
            return "(let () (define v %s) (out v))" % u
        if k == 3:
            return "(out ((lambda () (if #t %s 1))))" % u
        if k == 4:
            return "(let-syntaxes ([(vp-local) (lambda (stx) (datum->syntax '%s))]) (out (vp-local)))" % u
        if k == 5:
            return "(let () (define-syntax (vp-local stx) #'%s) (out (vp-local)))" % u
        return "(out (vp-id %s))" % u

    # -- macros that expand to code, definitions and other macros
    def structural(self, d):
        g = Gen(d)
        n = d.int(0, 4)
        xs = [d.int(0, 9) for _ in range(n)]
        k = d.int(0, 7)
        ns = ["v%d" % i for i in range(n)]
        nums = " ".join(map(str, xs))
        if k == 0:
            prog = ("(define-syntax my-or (syntax-rules () [(_) #f] [(_ e) e] [(_ e r ...) (let ([o e]) (if o o (my-or r ...)))]))\n(out (my-or %s))" % " ".join(["#f"] * n + nums.split()[:1]))
            out = [ml.show(xs[0]) if xs else "#f"]
        elif k == 1:
            prog = ("(define-syntax my-let* (syntax-rules () [(_ () b ...) (let () b ...)] [(_ ([n v] rest ...) b ...) (let ([n v]) (my-let* (rest ...) b ...))]))\n"
                    "(out (my-let* (%s) (list %s)))" % (" ".join("[w %s]" % ("(cons %d w)" % x if i else "(list %d)" % x) for i, x in enumerate(xs)), "w" if xs else "1"))
            out = [ml.show(ml.lst([ml.lst(xs[::-1])] if xs else [1]))]
        elif k == 2:
            prog = ("(define-syntax (defs stx) (syntax-case stx () [(_ [n v] ...) #'(begin (define n v) ...)]))\n(defs %s)\n(out (list %s))"
                    % (" ".join("[%s %d]" % p for p in zip(ns, xs)), " ".join(ns)))
            out = [ml.show(ml.lst(xs))]
        elif k == 3:
            prog = ("(define-syntax (defs stx) (syntax-case stx () [(_ [n v] ...) #'(begin (define n v) ...)]))\n(define (h) (defs %s [last 1]) (list %s last))\n(out (h))"
                    % (" ".join("[%s %d]" % p for p in zip(ns, xs)), " ".join(ns)))
            out = [ml.show(ml.lst(xs + [1]))]
        elif k == 4:
            # a macro-defining macro
            prog = ("(define-syntax (defconst stx) (syntax-case stx () [(_ [n v] ...) #'(begin (define-syntax (n stx2) (quote-syntax v)) ...)]))\n(defconst %s)\n(out (list %s))"
                    % (" ".join("[%s %d]" % p for p in zip(ns, xs)), " ".join("(%s)" % v for v in ns)))
            out = [ml.show(ml.lst(xs))]
        elif k == 5:
            # a macro used by procedures before its definition
            prog = ("(define (h) (twice %s))\n(define-syntax twice (syntax-rules () [(_ a ...) (list a ... a ...)]))\n(out (h))" % nums)
            out = [ml.show(ml.lst(xs + xs))]
        elif k == 6:
            # identifier transformer and set!-free state
            prog = ("(define cnt %d)\n(define-syntax (cur stx) (quote-syntax cnt))\n(define-syntax bump (syntax-rules () [(_ a ...) (begin (set! cnt (+ cnt a ...)) cnt)]))\n(out (list (bump %s) cur (bump 1) cur))" % (n, nums))
            s = n + sum(xs)
            out = [ml.show(ml.lst([s, s, s + 1, s + 1]))]
        else:
            # nested matching with an outer and an inner pattern variable side by side
            prog = ("(define (h stx) (syntax-case stx () [(a b ...) (list (syntax-case #'(5 6) () [(c x) (syntax->datum #'(a c b ... x))]) (syntax->datum #'(a c b ... x)))]))\n"
                    "(out (h #'(0 %s)))" % nums)
            out = [ml.show(ml.lst([ml.lst([0, 5] + xs + [6]), ml.lst([0, Sym("c")] + xs + [Sym("x")])]))]
        return {"prog": prog + "\n", "out": out, "nt": True}

    PRE = """(define (out x) (write x) (newline))
(define-syntax vp-id (syntax-rules () [(_ vp-e) vp-e]))
(define vp-k #f)
(define (try f . args)
  (set! vp-todo (append vp-todo (list (lambda () (out (apply f args)))))))
(define vp-todo '())
(define (vp-run)
  (unless (null? vp-todo)
    (let ([t (car vp-todo)]) (set! vp-todo (cdr vp-todo)) (t) (vp-run))))
(current-error-handler (lambda (x) (begin (display "!") (write (vp-kind x)) (newline) (vp-run) (exit 0))))
"""

    def run(self, case):
        # uses through try are queued, so that an error does not end the run
        now = [l for l in case["prog"].split("\n") if l]
        tries = [i for i, l in enumerate(now) if l.startswith("(try ")]
        prog = self.PRE + "\n".join(now) + "\n(vp-run)\n"
        n_uses = len(case["out"])
        uses = now[len(now) - n_uses:] if n_uses else []
        direct = [o for l, o in zip(uses, case["out"]) if not l.startswith("(try ")]
        later = [o for l, o in zip(uses, case["out"]) if l.startswith("(try ")]
        exp = "".join(o + "\n" for o in direct + later)
        return super().run(dict(case, prog=prog, out=exp))


CHECK = P14
sys.setrecursionlimit(6000)
