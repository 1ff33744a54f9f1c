"""Minim values in Python, their printed forms, and the primitives' reference definitions.

Written from the language's documented behaviour (Scheme-like semantics, 64-bit wrapping
fixnums, 8-bit characters), independently of the implementation under test.
"""


class Err(Exception):
    """A Minim-level error: kind is argument/arity/range/missing/syntax/exn/raise."""

    def __init__(self, kind="exn", payload=None):
        super().__init__(kind)
        self.kind, self.payload = kind, payload


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return "Sym(%s)" % str.__repr__(self)


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Ch) and o.c == self.c

    def __hash__(self):
        return hash(("ch", self.c))


class Str:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytearray(b if not isinstance(b, str) else b.encode("latin-1"))


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr


class _Single:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


NIL = _Single("()")
VOID = _Single("#<void>")
EOF = _Single("#<eof>")


class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Proc:
    """fn(args: list) -> value or Values; arity as procedure-arity reports it."""
    __slots__ = ("fn", "name", "arity")

    def __init__(self, fn, name=None, arity=None):
        self.fn, self.name, self.arity = fn, name, arity


class Values:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


def wrap(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def lst(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = Pair(x, r)
    return r


def is_list(x):
    while isinstance(x, Pair):
        x = x.cdr
    return x is NIL


def pylist(x):
    out = []
    while isinstance(x, Pair):
        out.append(x.car)
        x = x.cdr
    return out


CHARNAMES = {7: "alarm", 8: "backspace", 127: "delete", 27: "esc", 10: "newline", 0: "nul", 12: "page", 13: "return",
             32: "space", 9: "tab", 11: "vtab"}
STRESC = {7: "\\a", 8: "\\b", 10: "\\n", 12: "\\f", 13: "\\r", 9: "\\t", 11: "\\v", 34: '\\"', 92: "\\\\"}


def show(x, d=False):
    """The text of (write x), or (display x) when d."""
    out = []
    _show(x, d, out)
    return "".join(out)


def _show(x, d, out):
    if x is True:
        out.append("#t")
    elif x is False:
        out.append("#f")
    elif isinstance(x, int):
        out.append(str(x))
    elif isinstance(x, Sym):
        out.append(str(x))
    elif isinstance(x, Ch):
        if d:
            out.append(chr(x.c))
        else:
            out.append("#\\" + CHARNAMES.get(x.c, chr(x.c)))
    elif isinstance(x, Str):
        if d:
            out.append(x.b.decode("latin-1"))
        else:
            out.append('"' + "".join(STRESC.get(c, chr(c)) for c in x.b) + '"')
    elif isinstance(x, Pair):
        out.append("(")
        first = True
        while isinstance(x, Pair):
            if not first:
                out.append(" ")
            first = False
            _show(x.car, d, out)
            x = x.cdr
        if x is not NIL:
            out.append(" . ")
            _show(x, d, out)
        out.append(")")
    elif isinstance(x, Vec):
        out.append("#(")
        for i, y in enumerate(x.v):
            if i:
                out.append(" ")
            _show(y, d, out)
        out.append(")")
    elif isinstance(x, Box):
        out.append("#&")
        _show(x.v, d, out)
    elif isinstance(x, Proc):
        out.append("#<procedure>")
    elif isinstance(x, _Single):
        out.append(x.text)
    elif hasattr(x, "show"):
        out.append(x.show(d))
    else:
        raise TypeError(repr(x))


def datum(x):
    """External representation the reader turns back into x (within a quote)."""
    return show(x)


def lit(x):
    """An expression that evaluates to a fresh or constant x."""
    if isinstance(x, (Sym, Pair)) or x is NIL:
        return "'" + datum(x)
    if isinstance(x, (Vec, Box)):
        return "'" + datum(x)
    if x is VOID:
        return "(void)"
    if x is EOF:
        return "(read-char (open-input-string \"\"))"
    return datum(x)


def fresh(x):
    """An expression building x out of fresh mutable objects."""
    if isinstance(x, Pair):
        return "(cons %s %s)" % (fresh(x.car), fresh(x.cdr))
    if isinstance(x, Vec):
        return "(vector%s)" % "".join(" " + fresh(y) for y in x.v)
    if isinstance(x, Box):
        return "(box %s)" % fresh(x.v)
    if isinstance(x, Str):
        return "(string-append %s \"\")" % show(x) if x.b else '(string)'
    if hasattr(x, "src"):
        return x.src()
    return lit(x)


def eq(a, b):
    """Certain identity: None when the language leaves it open (equal fixnums, characters, strings...)."""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return str(a) == str(b)
    if isint(a) and isint(b):
        return a == b
    if isinstance(a, Ch) and isinstance(b, Ch):
        return a.c == b.c
    return False


def equal(a, b):
    while True:
        if eq(a, b):
            return True
        if isinstance(a, Str) and isinstance(b, Str):
            return bytes(a.b) == bytes(b.b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Box) and isinstance(b, Box):
            a, b = a.v, b.v
            continue
        if isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.car, b.car):
                return False
            a, b = a.cdr, b.cdr
            continue
        return False


# ---------------------------------------------------------------- primitives

PRIMS = {}


def prim(name, lo, hi=None, kinds=None):
    """hi None: exactly lo arguments; -1: at least lo."""
    def deco(f):
        h = lo if hi is None else hi

        def call(args, f=f):
            if len(args) < lo or (h >= 0 and len(args) > h):
                raise Err("exn")
            return f(*args)
        PRIMS[name] = Proc(call, name)
        PRIMS[name].arity = (lo, h)
        return f
    return deco


def need(ok, kind="argument"):
    if not ok:
        raise Err(kind)


def nonneg(n):
    return isint(n) and n >= 0


def _cxr(name):
    ops = name[1:-1]

    def f(x):
        for o in reversed(ops):
            need(isinstance(x, Pair))
            x = x.car if o == "a" else x.cdr
        return x
    prim(name, 1)(f)


for _n in range(1, 5):
    for _m in range(1 << _n):
        _cxr("c" + "".join("ad"[(_m >> k) & 1] for k in range(_n)) + "r")

CXR = [k for k in PRIMS]


@prim("cons", 2)
def _cons(a, b):
    return Pair(a, b)


@prim("set-car!", 2)
def _setcar(p, v):
    need(isinstance(p, Pair))
    p.car = v
    return VOID


@prim("set-cdr!", 2)
def _setcdr(p, v):
    need(isinstance(p, Pair))
    p.cdr = v
    return VOID


for _name, _f in {
    "null?": lambda x: x is NIL,
    "void?": lambda x: x is VOID,
    "eof-object?": lambda x: x is EOF,
    "boolean?": lambda x: isinstance(x, bool),
    "not": lambda x: x is False,
    "char?": lambda x: isinstance(x, Ch),
    "symbol?": lambda x: isinstance(x, Sym),
    "pair?": lambda x: isinstance(x, Pair),
    "list?": is_list,
    "vector?": lambda x: isinstance(x, Vec),
    "fixnum?": isint, "integer?": isint, "number?": isint,
    "string?": lambda x: isinstance(x, Str),
    "box?": lambda x: isinstance(x, Box),
    "procedure?": lambda x: isinstance(x, Proc),
    "negative-integer?": lambda x: isint(x) and x < 0,
    "negative?": lambda x: isint(x) and x < 0,
    "non-negative-integer?": nonneg, "non-negative?": nonneg,
    "positive-integer?": lambda x: isint(x) and x > 0,
    "positive?": lambda x: isint(x) and x > 0,
}.items():
    prim(_name, 1)(_f)

PREDICATES = ["null?", "void?", "eof-object?", "boolean?", "char?", "symbol?", "pair?", "list?", "vector?", "fixnum?", "integer?",
              "number?", "string?", "box?", "procedure?"]


def _cmp(name, op):
    def f(*xs):
        need(isint(xs[0]))
        ok = True
        if len(xs) == 2:
            need(isint(xs[1]))
            return op(xs[0], xs[1])
        for a, b in zip(xs, xs[1:]):
            need(isint(b))
            if not op(a, b):
                return False        # later arguments are not examined
        return ok
    prim(name, 1, -1)(f)


import operator as _op
for _name, _f in (("=", _op.eq), ("<", _op.lt), (">", _op.gt), ("<=", _op.le), (">=", _op.ge)):
    _cmp(_name, _f)


@prim("zero?", 1)
def _zerop(x):
    need(isint(x))
    return x == 0


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return wrap(q if (a < 0) == (b < 0) else -q)


@prim("+", 0, -1)
def _add(*xs):
    r = 0
    for x in xs:
        need(isint(x))
        r = wrap(r + x)
    return r


@prim("*", 0, -1)
def _mul(*xs):
    r = 1
    for x in xs:
        need(isint(x))
        r = wrap(r * x)
    return r


@prim("-", 1, -1)
def _sub(x, *ys):
    need(isint(x))
    if not ys:
        return wrap(-x)
    for y in ys:
        need(isint(y))
        x = wrap(x - y)
    return x


@prim("/", 1, -1)
def _div(x, *ys):
    need(isint(x))
    if not ys:
        need(x != 0, "exn")
        return _tdiv(1, x)
    for y in ys:
        need(isint(y))
        need(y != 0, "exn")
        x = _tdiv(x, y)
    return x


@prim("remainder", 2)
def _rem(x, y):
    need(isint(x) and isint(y))
    need(y != 0, "exn")
    return wrap(x - y * _tdiv_exact(x, y))


def _tdiv_exact(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


@prim("modulo", 2)
def _mod(x, y):
    need(isint(x) and isint(y))
    need(y != 0, "exn")
    return x % y


@prim("add1", 1)
def _add1(x):
    need(isint(x))
    return wrap(x + 1)


@prim("sub1", 1)
def _sub1(x):
    need(isint(x))
    return wrap(x - 1)


@prim("number->string", 1)
def _n2s(n):
    need(isint(n))
    return Str(str(n))


@prim("string->number", 1)
def _s2n(s):
    need(isinstance(s, Str))
    return wrap(int(s.b.decode("latin-1")))


@prim("char->integer", 1)
def _c2i(c):
    need(isinstance(c, Ch))
    return c.c


@prim("integer->char", 1)
def _i2c(n):
    need(isint(n))
    return Ch(n & 255)


@prim("string", 0, -1)
def _string(*cs):
    for c in cs:
        need(isinstance(c, Ch))
    return Str(bytes(c.c for c in cs))


@prim("list->string", 1)
def _l2s(xs):
    need(is_list(xs))
    for c in pylist(xs):
        need(isinstance(c, Ch))
    return Str(bytes(c.c for c in pylist(xs)))


@prim("string->list", 1)
def _s2l(s):
    need(isinstance(s, Str))
    return lst(Ch(c) for c in s.b)


@prim("make-string", 1, 2)
def _mkstr(n, c=Ch(97)):
    need(nonneg(n))
    need(isinstance(c, Ch))
    return Str(bytes([c.c]) * n)


@prim("string-length", 1)
def _slen(s):
    need(isinstance(s, Str))
    return len(s.b)


@prim("string-ref", 2)
def _sref(s, i):
    need(isinstance(s, Str))
    need(nonneg(i))
    need(i < len(s.b), "range")
    return Ch(s.b[i])


@prim("string-set!", 3)
def _sset(s, i, c):
    need(isinstance(s, Str))
    need(nonneg(i))
    need(i < len(s.b), "range")
    need(isinstance(c, Ch))
    s.b[i] = c.c
    return VOID


@prim("string-append", 0, -1)
def _sapp(*ss):
    for s in ss:
        need(isinstance(s, Str))
    if len(ss) == 1:
        return ss[0]
    return Str(b"".join(bytes(s.b) for s in ss))


@prim("symbol->string", 1)
def _sy2s(s):
    need(isinstance(s, Sym))
    return Str(str(s))


@prim("string->symbol", 1)
def _s2sy(s):
    need(isinstance(s, Str))
    return Sym(s.b.decode("latin-1"))


@prim("list", 0, -1)
def _list(*xs):
    return lst(xs)


@prim("make-list", 2)
def _mklist(n, x):
    need(nonneg(n))
    return lst([x] * n)


@prim("length", 1)
def _length(xs):
    need(is_list(xs))
    return len(pylist(xs))


@prim("reverse", 1)
def _rev(xs):
    need(is_list(xs))
    return lst(pylist(xs)[::-1])


@prim("append", 0, -1)
def _append(*xss):
    for xs in xss:
        need(is_list(xs))
    r = []
    for xs in xss:
        r += pylist(xs)
    return lst(r)


@prim("iota", 1)
def _iota(n):
    need(nonneg(n))
    return lst(range(n))


@prim("enumerate", 1)
def _enum(xs):
    need(is_list(xs))
    return lst(Pair(x, i) for i, x in enumerate(pylist(xs)))


@prim("vector", 0, -1)
def _vector(*xs):
    return Vec(xs)


@prim("make-vector", 1, 2)
def _mkvec(n, x=0):
    need(nonneg(n))
    return Vec([x] * n)


@prim("vector-length", 1)
def _vlen(v):
    need(isinstance(v, Vec))
    return len(v.v)


@prim("vector-ref", 2)
def _vref(v, i):
    need(isinstance(v, Vec))
    need(nonneg(i))
    need(i < len(v.v), "range")
    return v.v[i]


@prim("vector-set!", 3)
def _vset(v, i, x):
    need(isinstance(v, Vec))
    need(nonneg(i))
    need(i < len(v.v), "range")
    v.v[i] = x
    return VOID


@prim("vector-fill!", 2)
def _vfill(v, x):
    need(isinstance(v, Vec))
    v.v[:] = [x] * len(v.v)
    return VOID


@prim("list->vector", 1)
def _l2v(xs):
    need(is_list(xs))
    return Vec(pylist(xs))


@prim("vector->list", 1)
def _v2l(v):
    need(isinstance(v, Vec))
    return lst(v.v)


@prim("box", 1)
def _box(x):
    return Box(x)


@prim("unbox", 1)
def _unbox(b):
    need(isinstance(b, Box))
    return b.v


@prim("set-box!", 2)
def _setbox(b, x):
    need(isinstance(b, Box))
    b.v = x
    return VOID


@prim("eq?", 2)
def _eqp(a, b):
    return eq(a, b)


@prim("equal?", 2)
def _equalp(a, b):
    return equal(a, b)


@prim("void", 0)
def _void():
    return VOID


# prologue: any error prints its kind and ends the program with code 3
KINDS = """
(define-values (vp-kind)
  (lambda (e)
    (if (argument-exn? e) 'argument (if (arity-exn? e) 'arity (if (range-exn? e) 'range
      (if (missing-exn? e) 'missing (if (syntax-exn? e) 'syntax (if (exn? e) 'exn 'raise))))))))
"""
EXIT_ON_ERROR = KINDS + """
(current-error-handler (lambda (e) (begin (display "!") (display (vp-kind e)) (newline) (exit 3))))
"""
# The rest of the program runs from inside the handler, which never returns to the raise: every form
# is a queued thunk (see runner.queued), so a failing form prints !kind and the next one follows.
CONTINUE_ON_ERROR = KINDS + """
(define-values (vp-q) '())
(define-values (vp-errs) 0)
(define-values (vp-add) (lambda (t) (set! vp-q (cons t vp-q))))
(define-values (vp-go) (lambda () (if (null? vp-q) (void) (let-values ([(t) (car vp-q)]) (begin (set! vp-q (cdr vp-q)) (t) (vp-go))))))
(define-values (vp-handler) (lambda (e) (begin (set! vp-errs (+ 1 vp-errs)) (display "!") (display (vp-kind e)) (newline) (vp-go) (exit 0))))
(current-error-handler vp-handler)
"""
