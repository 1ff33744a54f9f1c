"""Core forms are checked as a whole before any of them is evaluated."""
import ml
from ml import Sym, Pair, NIL, Str, Ch
from runner import ProgCheck

L = ml.lst
S = Sym


def pairs(x):
    """(items, tail)"""
    xs = []
    while isinstance(x, Pair):
        xs.append(x.car)
        x = x.cdr
    return xs, x


def sym(x):
    return isinstance(x, Sym)


def formals(x):
    xs, t = pairs(x)
    return all(map(sym, xs)) and (t is NIL or sym(t))


def ids(x):
    xs, t = pairs(x)
    return all(map(sym, xs)) and t is NIL


def wf(x, top=False):
    """Is x a well-formed core expression (or definition, at top level)?"""
    if not isinstance(x, Pair):
        return x is not NIL
    xs, t = pairs(x)
    if t is not NIL:
        return False
    h = xs[0]
    n = len(xs)
    if sym(h):
        if h in ("quote", "quote-syntax"):
            return n == 2
        if h == "if":
            return n == 4 and all(map(wf, xs[1:]))
        if h == "set!":
            return n == 3 and sym(xs[1]) and wf(xs[2])
        if h == "begin":
            return all(map(wf, xs[1:]))
        if h == "lambda":
            return n >= 2 and formals(xs[1]) and all(map(wf, xs[2:]))
        if h == "case-lambda":
            return n >= 2 and all(isinstance(c, Pair) and pairs(c)[1] is NIL and formals(c.car) and all(map(wf, pairs(c)[0][1:])) for c in xs[1:])
        if h in ("let-values", "letrec-values"):
            if n < 3:
                return False
            bs, t = pairs(xs[1])
            return t is NIL and all(isinstance(b, Pair) and pairs(b)[1] is NIL and len(pairs(b)[0]) == 2 and ids(b.car) and wf(b.cdr.car) for b in bs) and all(map(wf, xs[2:]))
        if h == "define-values":
            return n == 3 and ids(xs[1]) and wf(xs[2])
    return all(map(wf, xs))


class P31(ProgCheck):
    id = "P31"
    technique = "generated core forms corrupted at generated positions, each under an effect that must happen exactly when a grammar accepts the form"
    rule = ("a case evaluates about 14 forms through eval, load and the top level, about half of them corrupted at one inner position; "
            "non-trivial when it has at least 2 rejected forms whose fault lies below their outermost pair, and at least 2 accepted ones")
    prologue = ml.CONTINUE_ON_ERROR
    quick_s = 25

    def expr(self, d, depth):
        if depth == 0 or d.bool(0.15):
            return d.choice([S("x"), S("y"), S("car"), 1, -7, True, False, Ch(97), Str(b"s"), ml.Vec([1, S("a")]), ml.Box(1), L([S("quote"), S("a")]), L([S("quote"), NIL])])
        g = lambda: self.expr(d, depth - 1)
        body = lambda lo=1: [g() for _ in range(max(lo, d.weighted([(5, 1), (2, 2), (1, 3), (1, 0)])))]
        names = lambda: d.choice([[], [S("x")], [S("x"), S("y")], [S("a"), S("b"), S("c")]])
        fm = lambda: d.choice([L(names()), S("r"), L([S("x")], S("r")), L([S("x"), S("y")], S("r"))])
        k = d.int(0, 9)
        if k == 0:
            return L([S("if"), g(), g(), g()])
        if k == 1:
            return L([S("begin")] + body(0))
        if k in (2, 3):
            return L([S("lambda"), fm()] + body(0))
        if k == 4:
            return L([S("case-lambda")] + [L([fm()] + body(0)) for _ in range(d.int(1, 3))])
        if k in (5, 6):
            return L([S(d.choice(["let-values", "letrec-values"])), L([L([L(names()), g()]) for _ in range(d.int(0, 3))])] + body())
        if k == 7:
            return L([S("set!"), S("x"), g()])
        if k == 8:
            return L([S(d.choice(["quote", "quote-syntax"])), self.expr(d, 1)])
        return L([g() for _ in range(d.int(1, 4))])

    def corrupt(self, d, x, depth=0):
        """A copy of x changed at one pair; returns (copy, depth of the change)."""
        if not isinstance(x, Pair):
            return d.choice([NIL, 5, S("x"), L([S("if")])]), depth
        xs, t = pairs(x)
        sub = [i for i, y in enumerate(xs) if isinstance(y, Pair)]
        if sub and d.bool(0.7):
            i = d.choice(sub)
            y, dep = self.corrupt(d, xs[i], depth + 1)
            return L(xs[:i] + [y] + xs[i + 1:], t), dep
        k = d.int(0, 6)
        i = d.int(0, len(xs) - 1)
        j = d.int(1, len(xs) - 1) if len(xs) > 1 else 0
        if k == 0 and len(xs) > 1:
            return L(xs[:j] + xs[j + 1:], t), depth
        if k == 1:
            return L(xs[:j + 1] + [d.choice([1, S("z"), NIL, L([S("q")])])] + xs[j + 1:], t), depth
        if k == 2:
            return L(xs, d.choice([5, S("z"), Str(b"t")])), depth
        if k == 3 and len(xs) > 1:
            return L(xs[:-1], xs[-1]), depth
        if k == 4:
            return L(xs[:i] + [d.choice([NIL, 5, Str(b"n"), S("w"), L([S("x")])])] + xs[i + 1:], t), depth
        if k == 5:
            return NIL, depth
        return L(xs[:1], NIL), depth

    def form(self, d, top=False):
        for _ in range(20):
            x = self.expr(d, d.int(2, 4))
            if top and d.bool(0.4):
                x = L([S("define-values"), L([S("q%d" % i) for i in range(d.choice([0, 1, 1, 2]))]), x])
            dep = 0
            if d.bool():
                x, dep = self.corrupt(d, x)
            if not self.odd(x):
                return x, wf(x), dep
        return 1, True, 0

    def odd(self, x):
        """define-values below top level and duplicate formals are outside the property."""
        if not isinstance(x, Pair):
            return False
        xs, t = pairs(x)
        names = [y for y in xs if sym(y)] + ([t] if sym(t) else [])
        if any(n in ("x", "y", "r", "a", "b", "c") and names.count(n) > 1 for n in names):
            # may or may not be formals: only a problem when they are
            if all(map(sym, xs)):
                return True
        return any(self.odd(y) for y in xs)

    def gen(self, d):
        lines, out, files = ["(define-values (x y) (values 1 2))"], [], {}
        bad = good = 0
        for i in d.repeat(14, 40):
            how = d.weighted([(5, "eval"), (2, "load"), (2, "define")])
            x, ok, dep = self.form(d, how == "define")
            t = ml.show(x)
            if how == "eval":
                w = d.choice(["(begin (display \"ran \") (lambda () %s) (newline))", "((lambda (k) (newline)) (begin (display \"ran \") (lambda (x) %s)))", "(if (begin (display \"ran \") (newline) #t) 1 %s)",
                              "(let-values ([(a) (display \"ran \")] [(b) (lambda () %s)]) (newline))", "(letrec-values ([(a) (begin (display \"ran \") 1)]) (newline) (lambda () %s))",
                              "((case-lambda [(a) (newline)] [(a b) %s]) (display \"ran \"))"])
                lines.append("(eval '%s)" % (w % t))
                out.append("ran " if ok else "!exn")
            elif how == "load":
                f = "f%d.min" % i
                n = d.int(0, 2)
                files[f] = "".join("(begin (display %d) (newline))\n" % j for j in range(n)) + "(begin (display \"ran \") (newline) (lambda () %s))\n(begin (display \"after\") (newline))\n" % t
                lines.append('(load "%s")' % f)
                out += [str(j) for j in range(n)] + (["ran ", "after"] if ok else ["!exn"])
            else:
                # an accepted definition may still fail when it is evaluated; its effects tell
                if isinstance(x, Pair) and x.car == "define-values":
                    xs, tl = pairs(x)
                    if len(xs) == 3 and tl is NIL:
                        y = L([xs[0], xs[1], L([S("begin"), L([S("display"), Str(b"ran ")]), L([S("newline")]), L([S("vp-go-on")]), xs[2]])])
                        lines.append("(eval '%s)" % ml.show(y))
                        out += ["ran ", "!exn"] if ok else ["!exn"]
                    else:
                        lines.append("(eval '%s)" % t)
                        out.append("!exn")
                else:
                    continue
            if ok:
                good += 1
            elif dep >= 1:
                bad += 1
        return {"prog": "\n".join(lines) + "\n", "out": "".join(o + "\n" for o in out), "files": files, "nt": bad >= 2 and good >= 2}


CHECK = P31
