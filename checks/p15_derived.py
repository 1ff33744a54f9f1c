"""Derived forms of the base library against an independent desugaring into the core language."""
import sys
import ml, refeval
from ml import Sym, Ch, VOID
from refeval import INT, BOOL, LIST, ANY, fn, formals_text
from runner import ProgCheck, Discard, Fail


# -- desugaring: sugar nodes to core nodes -------------------------------------------------------

class Desugar:
    def __init__(self):
        self.n = 0

    def fresh(self, base):
        self.n += 1
        return "vp.%s%d" % (base, self.n)

    def seq(self, es):
        """Body of let/lambda: one core expression."""
        return ("let", [], [self(e) for e in es])

    def __call__(self, e):
        k = e[0]
        if k in ("lit", "quote", "var"):
            return e
        if k == "if":
            return ("if", self(e[1]), self(e[2]), self(e[3]))
        if k in ("begin", "values"):
            return (k, [self(x) for x in e[1]])
        if k == "lambda":
            return ("lambda", e[1], [self(x) for x in e[2]])
        if k == "caselambda":
            return ("caselambda", [(f, [self(x) for x in b]) for f, b in e[1]])
        if k in ("let", "letrec", "slet", "sletrec"):
            return (k.lstrip("s") if k != "sletrec" else "letrec", [(ns, self(x)) for ns, x in e[1]], [self(x) for x in e[2]])
        if k == "app":
            return ("app", self(e[1]), [self(x) for x in e[2]])
        if k == "set":
            return ("set", e[1], self(e[2]))
        if k == "cwv":
            return ("cwv", self(e[1]), self(e[2]))
        if k == "apply":
            return ("apply", self(e[1]), [self(x) for x in e[2]], self(e[3]))
        # sugar
        if k == "let*":
            if not e[1]:
                return self.seq(e[2])
            (n, x) = e[1][0]
            rest = self(("let*", e[1][1:], e[2])) if len(e[1]) > 1 else None
            return ("let", [([n], self(x))], [rest] if rest is not None else [self(y) for y in e[2]])
        if k == "nlet":
            loop = ("letrec", [([e[1]], ("lambda", ([n for n, _ in e[2]], None), [self(x) for x in e[3]]))], [("var", e[1])])
            return ("app", loop, [self(x) for _, x in e[2]])
        if k == "cond":
            r = self.seq(e[2]) if e[2] is not None else ("lit", VOID)
            for t, b in reversed(e[1]):
                r = ("if", self(t), self.seq(b), r)
            return r
        if k == "case":
            v = self.fresh("case")
            r = self.seq(e[3]) if e[3] is not None else ("lit", VOID)
            for ds, b in reversed(e[2]):
                t = ("lit", False)
                for d in reversed(ds):
                    t = ("if", ("app", ("var", "equal?"), [("var", v), ("quote", d)]), ("lit", True), t)
                r = ("if", t, self.seq(b), r)
            return ("let", [([v], self(e[1]))], [r])
        if k == "and":
            if not e[1]:
                return ("lit", True)
            r = self(e[1][-1])
            for x in reversed(e[1][:-1]):
                r = ("if", self(x), r, ("lit", False))
            return r
        if k == "or":
            if not e[1]:
                return ("lit", False)
            r = self(e[1][-1])
            for x in reversed(e[1][:-1]):
                v = self.fresh("or")
                r = ("let", [([v], self(x))], [("if", ("var", v), ("var", v), r)])
            return r
        if k == "when":
            return ("if", self(e[1]), self.seq(e[2]), ("lit", VOID))
        if k == "unless":
            return ("if", self(e[1]), ("lit", VOID), self.seq(e[2]))
        if k == "do":
            loop = self.fresh("do")
            step = ("app", ("var", loop), [self(s) for _, _, s in e[1]])
            body = ("if", self(e[2]), ("begin", [self(x) for x in e[3]]) if e[3] else ("lit", VOID),
                    ("begin", [self(x) for x in e[4]] + [step]))
            return ("app", ("letrec", [([loop], ("lambda", ([n for n, _, _ in e[1]], None), [body]))], [("var", loop)]), [self(x) for _, x, _ in e[1]])
        if k == "body":
            bs = []
            for it in e[1]:
                if it[0] == "def":
                    bs.append((it[1], self(it[2])))
                else:
                    bs.append(([], ("begin", [self(it), ("values", [])])))
            return ("letrec", bs, [self(x) for x in e[2]])
        raise AssertionError(k)


# -- spelling -------------------------------------------------------------------------------------

def T(e):
    k = e[0]
    if k == "lit":
        return "(void)" if e[1] is VOID else ml.lit(e[1])
    if k == "quote":
        return "'%s" % ml.datum(e[1])
    if k == "var":
        return e[1]
    if k == "if":
        return "(if %s %s %s)" % (T(e[1]), T(e[2]), T(e[3]))
    if k in ("begin", "values", "and", "or"):
        return "(%s%s)" % (k, "".join(" " + T(x) for x in e[1]))
    if k == "lambda":
        return "(lambda %s %s)" % (formals_text(e[1]), B(e[2]))
    if k == "caselambda":
        return "(case-lambda %s)" % " ".join("[%s %s]" % (formals_text(f), B(b)) for f, b in e[1])
    if k in ("let", "letrec"):
        return "(%s-values (%s) %s)" % (k, " ".join("[(%s) %s]" % (" ".join(ns), T(x)) for ns, x in e[1]), B(e[2]))
    if k in ("slet", "sletrec"):
        return "(%s (%s) %s)" % (k[1:], " ".join("[%s %s]" % (ns[0], T(x)) for ns, x in e[1]), B(e[2]))
    if k == "let*":
        return "(let* (%s) %s)" % (" ".join("[%s %s]" % (n, T(x)) for n, x in e[1]), B(e[2]))
    if k == "nlet":
        return "(let %s (%s) %s)" % (e[1], " ".join("[%s %s]" % (n, T(x)) for n, x in e[2]), B(e[3]))
    if k == "app":
        return "(%s)" % " ".join(map(T, [e[1]] + e[2]))
    if k == "set":
        return "(set! %s %s)" % (e[1], T(e[2]))
    if k == "cwv":
        return "(call-with-values %s %s)" % (T(e[1]), T(e[2]))
    if k == "apply":
        return "(apply %s)" % " ".join(map(T, [e[1]] + e[2] + [e[3]]))
    if k == "cond":
        cl = ["[%s %s]" % (T(t), B(b)) for t, b in e[1]]
        if e[2] is not None:
            cl.append("[else %s]" % B(e[2]))
        return "(cond %s)" % " ".join(cl)
    if k == "case":
        cl = ["[(%s) %s]" % (" ".join(map(ml.datum, ds)), B(b)) for ds, b in e[2]]
        if e[3] is not None:
            cl.append("[else %s]" % B(e[3]))
        return "(case %s)" % " ".join([T(e[1])] + cl)
    if k in ("when", "unless"):
        return "(%s %s %s)" % (k, T(e[1]), B(e[2]))
    if k == "do":
        return "(do (%s) (%s) %s)" % (" ".join("[%s %s %s]" % (n, T(i), T(s)) for n, i, s in e[1]),
                                      " ".join(map(T, [e[2]] + e[3])), " ".join(map(T, e[4])))
    if k == "body":
        return "(let-values () %s)" % B([e])
    raise AssertionError(k)


def D(it):
    """A definition."""
    ns, x, style = it[1], it[2], it[3]
    if style == "values" or len(ns) != 1:
        return "(define-values (%s) %s)" % (" ".join(ns), T(x))
    if style in ("proc", "curry") and x[0] == "lambda":
        head = formals_head(ns[0], x[1])
        b = x[2]
        if style == "curry":
            while len(b) == 1 and b[0][0] == "lambda":
                head = formals_head(head, b[0][1])
                b = b[0][2]
        return "(define %s %s)" % (head, B(b))
    return "(define %s %s)" % (ns[0], T(x))


def formals_head(head, f):
    names, rest = f
    return "(%s%s)" % (" ".join([head] + names), " . " + rest if rest else "")


def B(es):
    """Body context: a body node alone is spliced."""
    if len(es) == 1 and es[0][0] == "body":
        return " ".join([D(i) if i[0] == "def" else T(i) for i in es[0][1]] + [T(x) for x in es[0][2]])
    return " ".join(map(T, es))


DATA = [lambda d: d.int(0, 9), lambda d: Sym(d.choice("abc")), lambda d: Ch(d.int(97, 100)), lambda d: d.bool(), lambda d: ml.Str(b"s"),
        lambda d: ml.lst([d.int(0, 2)])]


class DGen(refeval.Gen):
    NAMES = ["x", "y", "z", "a", "b", "f", "g", "acc", "n", "q"]

    def expr(self, t, env, depth):
        d = self.d
        if depth > 0 and self.budget > 0 and not isinstance(t, tuple) and d.bool(0.45):
            self.budget -= 1
            return d.weighted([(3, self.s_cond), (2, self.s_case), (2, self.s_andor), (3, self.s_letstar), (3, self.s_nlet), (2, self.s_do), (2, self.s_slet),
                               (2, self.s_body)])(t, env, depth)
        return super().expr(t, env, depth)

    def s_body(self, t, env, depth):
        self.tags.add("internal-define")
        return self.body_of_defs(t, env, depth)

    def body_of_defs(self, t, env, depth):
        d = self.d
        self.tags.add("internal-define")
        items = []
        kinds = [d.weighted([(3, 1), (1, 0), (1, 2)]) for _ in range(d.int(1, 4))]     # 0: expression; k: defines k names
        tys = [[self.fnty() if d.bool(0.5) else self.ty() for _ in range(k)] for k in kinds]
        n = sum(kinds)
        ns = self.names(n)
        if d.bool(0.5):
            ns = ["d%d_%d" % (self.n, i) for i in range(n)]
            self.n += 1
        flat = [u for ts in tys for u in ts]
        hidden = [(x, "hidden") for x in ns]
        i = 0
        for k, ts in zip(kinds, tys):
            known = env + hidden + list(zip(ns[:i], flat[:i]))
            if k == 0:
                items.append(self.effect(known, depth - 1))
            elif k == 1:
                if isinstance(ts[0], tuple):
                    x = self.lam(ts[0], known, depth - 1)
                    st = d.choice(["plain", "proc", "proc", "curry", "values"])
                else:
                    x, st = self.expr(ts[0], known, depth - 1), d.choice(["plain", "plain", "values"])
                items.append(("def", ns[i:i + 1], x, st))
            else:
                items.append(("def", ns[i:i + k], self.binding(known, depth - 1, ts), "values"))
            i += k
        return ("body", items, [self.expr(t, env + list(zip(ns, flat)), depth - 1)])

    def bodyof(self, t, env, depth):
        if depth > 1 and self.budget > 0 and self.d.bool(0.2):
            return [self.body_of_defs(t, env, depth - 1)]
        return super().bodyof(t, env, depth)

    def effect(self, env, depth):
        d = self.d
        if depth > 0 and d.bool(0.4) and self.budget > 0:
            self.budget -= 1
            k = d.choice(["when", "unless", "cond", "do"])
            self.tags.add(k)
            test = self.expr(d.weighted([(4, BOOL), (1, INT), (1, LIST)]), env, depth - 1)
            if k == "cond":
                return ("cond", [(test, self.bodyof(INT, env, depth - 1))], None)
            if k == "do":
                return self.s_do(INT, env, depth - 1)
            return (k, test, self.bodyof(INT, env, depth - 1))
        return super().effect(env, depth)

    def test(self, env, depth):
        return self.expr(self.d.weighted([(5, BOOL), (1, INT), (1, LIST)]), env, depth)

    def s_cond(self, t, env, depth):
        self.tags.add("cond")
        d = self.d
        cl = [(self.test(env, depth - 1), self.bodyof(t, env, depth - 1)) for _ in range(d.int(1, 3))]
        return ("cond", cl, self.bodyof(t, env, depth - 1))

    def s_case(self, t, env, depth):
        self.tags.add("case")
        d = self.d
        cl = [([d.choice(DATA[:1] * 4 + DATA)(d) for _ in range(d.int(0, 4))], self.bodyof(t, env, depth - 1)) for _ in range(d.int(0, 4))]
        key = self.expr(d.weighted([(4, INT), (1, LIST), (1, BOOL)]), env, depth - 1)
        if d.bool(0.3):
            key = ("quote", d.choice(DATA)(d))
        return ("case", key, cl, self.bodyof(t, env, depth - 1))

    def s_andor(self, t, env, depth):
        self.tags.add("and/or")
        d = self.d
        k = d.choice(["and", "or"])
        n = d.weighted([(3, 2), (2, 3), (1, 1), (1, 4)])
        es = [self.expr(t if k == "or" or i == n - 1 else d.choice([INT, t, BOOL]), env, depth - 1) for i in range(n)]
        if t == BOOL:
            return (k, es if d.bool(0.9) else [])
        if k == "and":
            # a false conjunct would give #f where a t is wanted
            return ("or", [("and", es), self.expr(t, env, depth - 2)])
        return (k, es)

    def s_letstar(self, t, env, depth):
        self.tags.add("let*")
        d = self.d
        bs, env2 = [], list(env)
        for _ in range(d.weighted([(3, 2), (2, 1), (2, 3), (1, 0)])):
            u = self.fnty() if d.bool(0.3) else self.ty()
            n = self.name()
            bs.append((n, self.expr(u, env2, depth - 1)))
            env2.append((n, u))
        return ("let*", bs, self.bodyof(t, env2, depth - 1))

    def s_slet(self, t, env, depth):
        d = self.d
        if d.bool():
            self.tags.add("letrec-sugar")
            e = self.g_letrec(t, env, depth)
        else:
            e = self.g_let(t, env, depth)
        if all(len(ns) == 1 for ns, _ in e[1]):
            return ("s" + e[0],) + e[1:]
        return e

    def s_nlet(self, t, env, depth):
        if t not in (INT, LIST):
            return self.s_cond(t, env, depth)
        d = self.d
        self.tags.add("named-let")
        i = "i%d" % (self.n + 1)
        self.n += 1
        f = self.name()
        acc = self.names(1)[0]
        while acc == f:
            self.n += 1
            acc = "v%d" % self.n
        env2 = [x for x in env if x[0] != f] + [(f, "hidden"), (i, "hidden"), (acc, t)]
        env2 += [(i, INT)]
        rec = lambda x: ("app", ("var", f), [("app", ("var", "-"), [("var", i), ("lit", 1)]), x])
        step = self.noset(self.expr(t, env2, depth - 2), (i, f))
        stop = ("app", ("var", "<="), [("var", i), ("lit", 0)])
        # initial values are outside the scope of the loop's name
        init = self.expr(t, env, depth - 2)
        body = d.choice([("if", stop, ("var", acc), rec(step)),
                         ("cond", [(stop, [("var", acc)])], [rec(step)]),
                         ("cond", [(stop, [("var", acc)])], [self.noset(self.effect(env2, depth - 2), (i, f)), rec(step)])])
        return ("nlet", f, [(i, ("lit", d.int(0, 5))), (acc, init)], [body])

    def noset(self, e, names):
        """Loop control must not be assigned (termination)."""
        def w(x):
            if isinstance(x, tuple) and x and x[0] == "set" and x[1] in names:
                return w(x[2])
            if isinstance(x, tuple):
                return tuple(w(y) for y in x)
            if isinstance(x, list):
                return [w(y) for y in x]
            return x
        return w(e)

    def s_do(self, t, env, depth):
        if t not in (INT, LIST):
            return self.s_cond(t, env, depth)
        d = self.d
        self.tags.add("do")
        self.n += 1
        i, acc = "i%d" % self.n, self.names(1)[0]
        if d.bool(0.5):
            acc = "acc%d" % self.n
        env2 = env + [(acc, t), (i, INT)]
        lim = d.int(0, 5)
        step = self.noset(self.expr(t, env2, depth - 2), (i,))
        cmds = [self.noset(self.effect(env2, depth - 2), (i,)) for _ in range(d.weighted([(2, 1), (2, 0), (1, 2)]))]
        res = [self.noset(self.effect(env2, depth - 2), (i,))] if d.bool(0.2) else []
        vs = [(i, ("lit", 0), ("app", ("var", "+"), [("var", i), ("lit", 1)])), (acc, self.expr(t, env, depth - 2), step)]
        if d.bool():
            vs.reverse()
        return ("do", vs, ("app", ("var", ">="), [("var", i), ("lit", lim)]), res + [("var", acc)], cmds)

    def forms(self):
        d = self.d
        env, out = [], []
        for k in range(d.int(1, 4)):
            if d.bool(0.45):
                self.n += 1
                tys = [self.fnty() if d.bool(0.6) else self.ty() for _ in range(d.weighted([(5, 1), (1, 2)]))]
                ns = ["t%d_%d" % (self.n, j) for j in range(len(tys))]
                x = self.binding(env, d.int(2, 5), tys)
                out.append(("define", ns, x, d.choice(["plain", "proc", "curry", "values"])))
                env = env + list(zip(ns, tys))
            else:
                out.append(self.expr(self.d.choice([INT, LIST, ANY]), env, d.int(2, 6)))
        out.append(self.expr(INT, env, 3))
        return out


# -- malformed uses -------------------------------------------------------------------------------

BAD = """(let) | (let 5 E) | (let ([x]) x) | (let ([x E E]) x) | (let ([5 E]) E) | (let ([x E])) | (let ([x E] [x E]) x) | (let lp) | (let lp ([k E]))
(let* ([x]) x) | (let* ([x E])) | (let* ([5 E]) E) | (letrec ([x E E]) x) | (letrec ([x E] [x E]) x) | (letrec ([x E]))
(cond []) | (cond [else E] [#t E]) | (cond [E]) | (cond 5) | (cond [#f E] [E]) | (when) | (when E) | (unless E) | (unless)
(case) | (case E [2 E]) | (case E [(1)]) | (case E [else E] [(1) E]) | (case E (1 2) E)
(do) | (do ([i 0]) (#t)) | (do ([i 0 1]) ()) | (if E E) | (if E E E E) | (lambda) | (lambda (x)) | (case-lambda [(x)]) | (case-lambda [])
(let-values ([(x x) (values 1 2)]) x) | (let-values ([(x) 1]) ) | (let-values (x) 1) | (set! zz) | (set! 5 E) | (set! zz E E) | (quote) | (quote 1 2)
else | (and . 1) | (or 1 . 2) | (zz . 2) | (begin . 1) | vp-unknown | (+ 1 vp-unknown) | (let ([k vp-unknown]) k) | (lambda (k) (vp-unknown k))
(let () (define x E)) | (let () (define x) 1) | (let () (define x E E) 1) | (let () (define 5 E) 1) | (let ([x E]) (define (5 y) y) 1)"""
BADS = [x.strip() for l in BAD.split("\n") for x in l.split(" | ")]
BADTOP = ["(define)", "(define x)", "(define x E E)", "(define 5 E)", "(define (f x))", "(define zz E)", "(define-values (u u) (values 1 2))", "(define-syntax)",
          "(define-syntax foo)"]


class P15(ProgCheck):
    id = "P15"
    mode = "lib"
    technique = "differential testing of generated library-language programs against an independent desugaring into the reference interpreter; generated malformed uses must be rejected"
    rule = ("a case is a generated module using define (plain, procedure, curried), internal definitions, let, let*, letrec, named let, do, cond, case, and, or, when, unless mixed with core forms, "
            "or a module with one malformed use at a random place; non-trivial when at least two kinds of derived form occur (or it is a malformed use)")
    assumptions = ["user variables do not have the names of macros or of the temporaries the macros introduce (the expander is unhygienic by design)"]
    prologue = '(import "lib/base.min")\n' + ml.EXIT_ON_ERROR

    def gen(self, d):
        if d.bool(0.15):
            return self.bad(d)
        g = DGen(d, size=d.weighted([(3, 40), (3, 80), (1, 150)]), wrong=d.choice([0, 0.0, 0.01, 0.03]))
        fs = g.forms()
        ds = Desugar()
        it = refeval.Interp()
        core = [("define", f[1], ds(f[2])) if f[0] == "define" else ds(f) for f in fs]
        try:
            out, code = it.toplevel(core)
        except (refeval.OutOfFuel, refeval.Unspecified, RecursionError):
            raise Discard()
        if len(out) > 20000:
            raise Discard()
        prog = "\n".join(D(("def",) + f[1:]) if f[0] == "define" else "(begin (write %s) (newline))" % T(f) for f in fs) + "\n"
        used = g.tags & {"cond", "case", "and/or", "let*", "named-let", "do", "when", "unless", "internal-define", "letrec-sugar"}
        return {"prog": prog, "out": out, "code": code, "nt": len(used) >= 2, "tags": sorted(used) + (["error-outcome"] if code else [])}

    def bad(self, d):
        g = DGen(d, size=20, wrong=0)
        e = lambda: T(g.expr(INT, [], d.int(0, 2)))
        if d.bool(0.15):
            bad = d.choice(BADTOP)
            top = True
        else:
            bad, top = d.choice(BADS), False
        while " E" in bad or "[E" in bad:
            bad = bad.replace(" E", " " + e(), 1) if " E" in bad else bad.replace("[E", "[" + e(), 1)
        if not top:
            # somewhere inside
            for _ in range(d.int(0, 3)):
                bad = d.choice(["(let ([y %s]) y)", "(list 1 %s 2)", "(lambda (y) %s)", "(if %s 1 2)", "(cond [#f %s] [else 1])", "(begin 1 %s)", "(and #f %s)", "(let () (define y 1) %s)", "(case 1 [(1) 2] [(2) %s])",
                                "(do ([y 0 (+ y 1)]) ((> y 3) 1) %s)", "(set! zz %s)"]) % bad
            bad = d.choice(["(begin (write %s) (newline))", "(define w1 %s)", "(define (w2) %s)"]) % bad
        fs = ['(begin (display "before") (newline))', "(define zz 1)", bad]
        if d.bool(0.4):
            fs.append("(define (w9 x) x)")
        return {"prog": "\n".join(fs) + "\n", "bad": True, "out": "", "nt": True}

    def run(self, case):
        for t in case.get("tags", []):
            self.tag(t)
        if not case.get("bad"):
            return super().run(case)
        self.tag("malformed")
        r = self.exec(case["prog"])
        if r.timeout or r.crashed:
            raise Fail("crash", "malformed program: %s\nprogram:\n%s" % (r.describe(), case["prog"]))
        if r.code == 0:
            raise Fail("accepted", "a malformed form was accepted, stdout %r\nprogram:\n%s" % (r.text[:300], case["prog"]))
        if "before" in r.text.split("\n"):
            raise Fail("evaluated", "a module with a malformed form was evaluated, stdout %r\nprogram:\n%s" % (r.text[:300], case["prog"]))
        return True, case["prog"]


CHECK = P15
sys.setrecursionlimit(6000)
