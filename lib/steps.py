"""Step programs: each step evaluates a primitive application over variables and constants, prints
the result, and may bind it.  A failing step prints !kind and the program goes on with the next one
(the interpreter must stay usable and a failed operation must not have changed anything)."""
import ml
from ml import Err, Sym


class Var:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Fn:
    """A procedure argument: source text and the Python function it denotes."""
    __slots__ = ("src", "proc")

    def __init__(self, src, f, arity=(0, -1)):
        self.src = src

        def fn(args):
            if len(args) < arity[0] or (arity[1] >= 0 and len(args) > arity[1]):
                raise Err("exn")
            return f(*args)
        self.proc = ml.Proc(fn)


def call(name, *args):
    return (name,) + args


def apply_prim(name, args):
    return ml.PRIMS[name].fn(list(args))


# the unchecked procedures below the checked ones, by number of arguments; used only where the call is valid
RAW = {(n, 1): "$" + n for n in ml.CXR + ["length", "reverse", "vector-length", "list->vector", "vector->list", "string-length", "symbol->string", "string->symbol",
                                          "list->string", "string->list", "number->string", "string->number", "unbox", "char->integer", "integer->char"]}
RAW.update({(n, 2): "$" + n for n in ["set-car!", "set-cdr!", "make-list", "make-vector", "vector-ref", "vector-fill!", "make-string", "string-ref", "set-box!"]})
RAW.update({(n, 3): "$" + n for n in ["vector-set!", "string-set!"]})
RAW.update({(n, 2): "$fx2" + n for n in ["+", "-", "*", "/", "=", "<", ">", "<=", ">="]})
RAW.update({("remainder", 2): "$fxremainder", ("modulo", 2): "$fxmodulo", ("-", 1): "$fxneg", ("append", 2): "$append2"})


class Prog:
    def __init__(self, d=None):
        self.d, self.raw = d, False
        self.lines, self.out, self.vars = [], [], {}
        self.n = 0
        self.errors = 0
        self.used = set()

    def text(self, e):
        if isinstance(e, tuple):
            op = e[0]
            if self.raw and self.d.bool(0.5):
                op = RAW.get((op, len(e) - 1), op)
            return "(%s)" % " ".join([op] + [self.text(a) for a in e[1:]])
        if isinstance(e, Var):
            return e.name
        if isinstance(e, Fn):
            return e.src
        return ml.fresh(e)

    def ev(self, e):
        if isinstance(e, tuple):
            self.used.add(e[0])
            return apply_prim(e[0], [self.ev(a) for a in e[1:]])
        if isinstance(e, Var):
            return self.vars[e.name]
        if isinstance(e, Fn):
            return e.proc
        return clone(e)

    def outcome(self, e):
        """(value, None) or (None, "!kind") when evaluating e raises."""
        try:
            return self.ev(e), None
        except Err as x:
            self.errors += 1
            return None, "!" + x.kind

    def show(self, e):
        """Print the value of e."""
        v, err = self.outcome(e)
        self.raw = self.d is not None and not err and isinstance(e, tuple) and self.d.bool(0.3)
        self.lines.append("(begin (write %s) (newline))" % self.text(e))
        self.raw = False
        self.out.append(err or ml.show(v))

    def bind(self, e, show=True):
        self.n += 1
        v = "v%d" % self.n
        x, err = self.outcome(e)
        if err:
            self.lines.append(self.text(e))
            self.out.append(err)
            self.lines.append("(define-values (%s) '%s)" % (v, err))
            self.vars[v] = Sym(err)
        else:
            self.raw = self.d is not None and self.d.bool(0.3)
            self.lines.append("(define-values (%s) %s)" % (v, self.text(e)))
            self.raw = False
            self.vars[v] = x
        if show:
            self.show(Var(v))
        return Var(v)

    def case(self, nt, **kw):
        return dict(prog="\n".join(self.lines) + "\n", out="".join(o + "\n" for o in self.out), nt=nt, **kw)


def clone(x):
    """A fresh copy of a constant (the program builds a fresh object at each evaluation)."""
    if isinstance(x, ml.Pair):
        return ml.Pair(clone(x.car), clone(x.cdr))
    if isinstance(x, ml.Vec):
        return ml.Vec([clone(y) for y in x.v])
    if isinstance(x, ml.Box):
        return ml.Box(clone(x.v))
    if isinstance(x, ml.Str):
        return ml.Str(bytes(x.b))
    return x


def fixnum(d, small=0.4):
    k = d.weighted([(4, 0), (2, 1), (3, 2), (2, 3), (2, 4)])
    if k == 0:
        return d.int(-9, 9)
    if k == 1:
        return d.int(-1000, 1000)
    if k == 2:
        b = 1 << d.int(0, 63)
        return ml.wrap(d.choice([1, -1]) * b + d.int(-2, 2))
    if k == 3:
        return d.choice([2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1, 2 ** 31, 2 ** 32, -2 ** 31, 10 ** 18, -1, 0, 1])
    return ml.wrap(d.int(-2 ** 63, 2 ** 63 - 1))


SYMCHARS = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789!$%&*/:<=>?^_~+-"


def symbol(d):
    k = d.int(0, 3)
    if k == 0:
        return Sym(d.choice(["a", "b", "c", "x", "foo", "bar", "lambda", "if", "quote"]))
    s = d.choice("abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/:<=>?^_~") + "".join(d.list(lambda: d.choice(SYMCHARS), 0, 12))
    return Sym(s)


def char(d, lo=1):
    return ml.Ch(d.weighted([(4, lambda: d.int(97, 122)), (2, lambda: d.int(32, 126)), (2, lambda: d.choice([7, 8, 9, 10, 11, 12, 13, 27, 32, 127, 34, 92, 40, 41, 59, 35])),
                             (1, lambda: d.int(max(lo, 1), 31)), (1, lambda: d.int(128, 255))])())


def string(d, hi=12):
    return ml.Str(bytes(d.list(lambda: char(d).c, 0, hi)))


def value(d, depth=3, atoms=None):
    k = d.weighted([(3, 0), (1, 1), (2, 2), (2, 3), (2, 4), (2, 5)] + ([(3, 6), (1, 7), (1, 8), (1, 9)] if depth > 0 else []))
    if k == 0:
        return fixnum(d)
    if k == 1:
        return d.bool()
    if k == 2:
        return symbol(d)
    if k == 3:
        return char(d)
    if k == 4:
        return string(d)
    if k == 5:
        return ml.NIL
    if k == 6:
        return ml.lst(d.list(lambda: value(d, depth - 1), 0, 5))
    if k == 7:
        return ml.Pair(value(d, depth - 1), value(d, depth - 1))
    if k == 8:
        return ml.Vec(d.list(lambda: value(d, depth - 1), 0, 4))
    return ml.Box(value(d, depth - 1))
