"""Reference interpreter for the core language, and a generator of closed programs.

AST nodes are tuples: (lit v) (quote v) (var n) (if c t e) (begin [e]) (lambda formals [e])
(caselambda [(formals,[e])]) (let [([n],e)] [e]) (letrec [([n],e)] [e]) (app f [a]) (set n e)
(values [e]) (cwv p c) (apply f [a] last); formals = ([names], rest-name or None).
"""
import ml
from ml import Err, Proc, Values, Sym, Ch, Str, Pair, NIL, VOID, Vec, Box


class OutOfFuel(Exception):
    pass


class Unspecified(Exception):
    """The program reached something the language leaves open."""


UNBOUND = object()


class Interp:
    def __init__(self, fuel=20000):
        self.out, self.fuel = [], fuel
        self.top = {}
        self.maxdepth = self.depth = 0
        p = dict(ml.PRIMS)

        def w(f):
            def g(args):
                if len(args) != 1:
                    raise Err("exn")
                self.out.append(f(args[0]))
                return VOID
            return g
        p["write"] = Proc(w(ml.show))
        p["display"] = Proc(w(lambda x: ml.show(x, True)))
        p["newline"] = Proc(lambda a: (self.out.append("\n"), VOID)[1])
        p["values"] = Proc(lambda a: a[0] if len(a) == 1 else Values(a))
        p["apply"] = Proc(self.p_apply)
        p["map"] = Proc(lambda a: self.p_map(a, True))
        p["for-each"] = Proc(lambda a: self.p_map(a, False))
        p["andmap"] = Proc(lambda a: self.p_andor(a, True))
        p["ormap"] = Proc(lambda a: self.p_andor(a, False))
        p["call-with-values"] = Proc(self.p_cwv)
        self.prims = p

    # -- higher-order primitives
    def p_apply(self, a):
        if len(a) < 2:
            raise Err("exn")
        if not isinstance(a[0], Proc):
            raise Err("exn")
        if not ml.is_list(a[-1]):
            raise Err("exn")
        return self.call(a[0], list(a[1:-1]) + ml.pylist(a[-1]))

    def p_cwv(self, a):
        if len(a) != 2:
            raise Err("exn")
        v = self.call(a[0], [])
        return self.call(a[1], v.v if isinstance(v, Values) else [v])

    def lists(self, a):
        if len(a) < 2:
            raise Err("exn")
        if not isinstance(a[0], Proc):
            raise Err("argument")
        n = None
        for xs in a[1:]:
            if not ml.is_list(xs):
                raise Err("argument")
            k = len(ml.pylist(xs))
            if n is not None and k != n:
                raise Err("exn")
            n = k
        return zip(*[ml.pylist(xs) for xs in a[1:]])

    def p_map(self, a, keep):
        out = []
        for t in self.lists(a):
            v = self.call(a[0], list(t))
            if keep:
                out.append(self.single(v))
        return ml.lst(out) if keep else VOID

    def p_andor(self, a, isand):
        for t in self.lists(a):
            v = self.call(a[0], list(t))
            if isinstance(v, Values):
                raise Unspecified()
            if (v is False) == isand:
                return not isand
        return isand

    # -- evaluation
    def single(self, v):
        if isinstance(v, Values):
            raise Err("exn")
        return v

    def call(self, f, args):
        if not isinstance(f, Proc):
            raise Err("exn")
        self.depth += 1
        self.maxdepth = max(self.maxdepth, self.depth)
        if self.depth > 180:
            raise OutOfFuel()
        try:
            return f.fn(args)
        finally:
            self.depth -= 1

    def lookup(self, name, env):
        while env is not None:
            if name in env[0]:
                return env[0][name]
            env = env[1]
        if name in self.top:
            return self.top[name]
        if name in self.prims:
            return [self.prims[name]]
        raise Err("exn")

    def body(self, es, env):
        v = VOID
        for e in es:
            v = self.ev(e, env)
        return v

    def closure(self, clauses, env):
        def fn(args):
            for (names, rest), body in clauses:
                if len(args) == len(names) or (rest is not None and len(args) >= len(names)):
                    fr = {n: [v] for n, v in zip(names, args)}
                    if rest is not None:
                        fr[rest] = [ml.lst(args[len(names):])]
                    return self.body(body, (fr, env))
            raise Err("exn")
        return Proc(fn)

    def bind(self, names, v):
        vs = v.v if isinstance(v, Values) else [v]
        if len(vs) != len(names):
            raise Err("exn")
        return vs

    def ev(self, e, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel()
        k = e[0]
        if k == "lit" or k == "quote":
            return e[1]
        if k == "var":
            c = self.lookup(e[1], env)
            if c[0] is UNBOUND:
                raise Err("exn")
            return c[0]
        if k == "if":
            c = self.ev(e[1], env)
            if isinstance(c, Values):
                raise Unspecified()
            return self.ev(e[2] if c is not False else e[3], env)
        if k == "begin":
            return self.body(e[1], env)
        if k == "lambda":
            return self.closure([(e[1], e[2])], env)
        if k == "caselambda":
            return self.closure(e[1], env)
        if k == "let":
            fr = {}
            for names, x in e[1]:
                for n, v in zip(names, self.bind(names, self.ev(x, env))):
                    fr[n] = [v]
            return self.body(e[2], (fr, env))
        if k == "letrec":
            fr = {}
            env2 = (fr, env)
            for names, x in e[1]:
                for n in names:
                    fr[n] = [UNBOUND]
            for names, x in e[1]:
                for n, v in zip(names, self.bind(names, self.ev(x, env2))):
                    fr[n][0] = v
            return self.body(e[2], env2)
        if k == "app":
            f = self.single(self.ev(e[1], env))
            args = [self.single(self.ev(a, env)) for a in e[2]]
            return self.call(f, args)
        if k == "set":
            v = self.ev(e[2], env)
            if isinstance(v, Values):
                raise Unspecified()
            c = self.lookup(e[1], env)
            c[0] = v
            return VOID
        if k == "values":
            vs = [self.single(self.ev(a, env)) for a in e[1]]
            return vs[0] if len(vs) == 1 else Values(vs)
        if k == "cwv":
            # the producer's values first, then the consumer
            p = self.single(self.ev(e[1], env))
            v = self.call(p, [])
            c = self.single(self.ev(e[2], env))
            return self.call(c, v.v if isinstance(v, Values) else [v])
        if k == "apply":
            f = self.single(self.ev(e[1], env))
            args = [self.single(self.ev(a, env)) for a in e[2]]
            last = self.single(self.ev(e[3], env))
            return self.p_apply([f] + args + [last])
        raise AssertionError(k)

    def toplevel(self, forms):
        """forms: ("define", [names], e) or expressions evaluated inside (write e)(newline).
        Returns (stdout, exit code)."""
        try:
            for f in forms:
                if f[0] == "define":
                    vs = self.bind(f[1], self.ev(f[2], None))
                    for n, v in zip(f[1], vs):
                        if n in self.top:
                            self.top[n][0] = v
                        else:
                            self.top[n] = [v]
                else:
                    v = self.single(self.ev(f, None))
                    self.out.append(ml.show(v) + "\n")
            return "".join(self.out), 0
        except Err as x:
            self.out.append("!%s\n" % x.kind)
            return "".join(self.out), 3


def formals_text(f):
    names, rest = f
    if rest is None:
        return "(" + " ".join(names) + ")"
    if not names:
        return rest
    return "(" + " ".join(names) + " . " + rest + ")"


def text(e):
    k = e[0]
    if k == "lit":
        return ml.lit(e[1])
    if k == "quote":
        return "(quote %s)" % ml.datum(e[1])
    if k == "var":
        return e[1]
    if k == "if":
        return "(if %s %s %s)" % (text(e[1]), text(e[2]), text(e[3]))
    if k == "begin":
        return "(begin%s)" % "".join(" " + text(x) for x in e[1])
    if k == "lambda":
        return "(lambda %s %s)" % (formals_text(e[1]), " ".join(map(text, e[2])))
    if k == "caselambda":
        return "(case-lambda %s)" % " ".join("[%s %s]" % (formals_text(f), " ".join(map(text, b))) for f, b in e[1])
    if k in ("let", "letrec"):
        return "(%s-values (%s) %s)" % (k, " ".join("[(%s) %s]" % (" ".join(ns), text(x)) for ns, x in e[1]),
                                        " ".join(map(text, e[2])))
    if k == "app":
        return "(%s)" % " ".join(map(text, [e[1]] + e[2]))
    if k == "set":
        return "(set! %s %s)" % (e[1], text(e[2]))
    if k == "values":
        return "(values%s)" % "".join(" " + text(x) for x in e[1])
    if k == "cwv":
        return "(call-with-values %s %s)" % (text(e[1]), text(e[2]))
    if k == "apply":
        return "(apply %s)" % " ".join(map(text, [e[1]] + e[2] + [e[3]]))
    raise AssertionError(k)


def program(forms):
    out = []
    for f in forms:
        if f[0] == "define":
            out.append("(define-values (%s) %s)" % (" ".join(f[1]), text(f[2])))
        else:
            out.append("(begin (write %s) (newline))" % text(f))
    return "\n".join(out) + "\n"


INT, BOOL, LIST, ANY = "int", "bool", "list", "any"


def fn(n, rest=False, ret=INT):
    return ("fn", n, rest, ret)


class Gen:
    """Mostly well-typed programs: closures, recursion, mutation, multiple values, in every position."""

    def __init__(self, d, size=40, wrong=0.01):
        self.d, self.budget, self.wrong = d, size, wrong
        self.n = 0
        self.tags = set()

    NAMES = ["x", "y", "z", "a", "b", "f", "g", "acc", "n", "tmp"]

    def name(self):
        # short names collide, so scopes shadow each other; some stay unique
        if self.d.bool(0.6):
            return self.d.choice(self.NAMES)
        self.n += 1
        return "v%d" % self.n

    def names(self, k):
        out = []
        while len(out) < k:
            n = self.name()
            if n in out:
                self.n += 1
                n = "v%d" % self.n
            out.append(n)
        return out

    def pick(self, env, pred):
        seen, c = set(), []
        for n, t in reversed(env):
            if n not in seen:
                seen.add(n)
                if pred(t):
                    c.append((n, t))
        return self.d.choice(c) if c else None

    def ty(self):
        return self.d.weighted([(6, INT), (2, LIST), (1, BOOL)])

    def fnty(self):
        return fn(self.d.int(0, 3), self.d.bool(0.25), self.d.weighted([(5, INT), (2, LIST), (1, BOOL)]))

    def leaf(self, t, env):
        d = self.d
        p = self.pick(env, lambda u: u == t)
        if p and d.bool(0.75):
            return ("var", p[0])
        if t == INT:
            return ("lit", d.weighted([(8, lambda: d.int(0, 9)), (2, lambda: d.int(-50, 50)), (1, lambda: d.choice([2 ** 31, -2 ** 63, 2 ** 63 - 1]))])())
        if t == BOOL:
            return ("lit", d.bool())
        if t == LIST:
            return ("quote", ml.lst(d.list(lambda: d.int(0, 9), 0, 4)))
        if t == ANY:
            return ("lit", d.choice([0, True, False, Sym("s"), Ch(97)]))
        return self.lam(t, env, 0)

    def expr(self, t, env, depth):
        d = self.d
        self.budget -= 1
        if depth <= 0 or self.budget <= 0:
            return self.leaf(t, env)
        if d.bool(self.wrong):
            self.tags.add("illtyped")
            t = d.choice([INT, BOOL, LIST, fn(1)])
        if t == ANY:
            t = d.choice([INT, LIST, BOOL, fn(1)])
        opts = [(3, self.g_leaf), (3, self.g_prim), (2, self.g_if), (3, self.g_let), (2, self.g_letrec), (2, self.g_begin),
                (2, self.g_lambda_app), (4, self.g_call), (2, self.g_cwv), (1, self.g_apply), (1, self.g_values1), (1, self.g_loop),
                (1, self.g_caseapp), (1, self.g_ho)]
        if isinstance(t, tuple):
            opts += [(8, self.g_lam)]
        return d.weighted(opts)(t, env, depth)

    def g_leaf(self, t, env, depth):
        return self.leaf(t, env)

    def g_lam(self, t, env, depth):
        return self.lam(t, env, depth)

    def lam(self, t, env, depth):
        d = self.d
        _, n, rest, ret = t
        self.tags.add("closure")
        if depth > 0 and d.bool(0.2):
            self.tags.add("caselambda")
            cl = []
            for k in range(d.int(0, 2)):
                m = d.int(0, 4)
                if m == n:
                    continue
                cl.append(self.clause(m, d.bool(0.2) and m > n, self.ty(), env, depth - 1))
            at = d.int(0, len(cl))
            # no earlier clause may accept n arguments
            cl.insert(at, self.clause(n, rest, ret, env, depth - 1))
            return ("caselambda", cl)
        f, b = self.clause(n, rest, ret, env, depth - 1)
        return ("lambda", f, b)

    def clause(self, n, rest, ret, env, depth):
        ns = self.names(n + (1 if rest else 0))
        ps = ns[:n]
        r = ns[n] if rest else None
        env2 = env + [(p, INT) for p in ps] + ([(r, LIST)] if rest else [])
        return (ps, r), self.bodyof(ret, env2, depth)

    def bodyof(self, t, env, depth):
        d = self.d
        out = []
        while d.bool(0.25) and len(out) < 3 and self.budget > 0:
            out.append(self.effect(env, depth))
        out.append(self.expr(t, env, depth))
        return out

    def effect(self, env, depth):
        d = self.d
        p = self.pick(env, lambda u: u in (INT, LIST, BOOL) or isinstance(u, tuple))
        if p and d.bool(0.6):
            self.tags.add("set!")
            return ("set", p[0], self.expr(p[1], env, depth - 1))
        if d.bool(0.1):
            return ("values", [self.expr(INT, env, depth - 1) for _ in range(d.choice([0, 2, 3]))])
        return ("app", ("var", "display"), [self.expr(d.choice([INT, LIST]), env, depth - 1)])

    def g_prim(self, t, env, depth):
        d, E = self.d, lambda u: self.expr(u, env, depth - 1)
        A = lambda f, *a: ("app", ("var", f), list(a))
        if t == INT:
            return d.weighted([(4, lambda: A(d.choice(["+", "-", "*"]), E(INT), E(INT))), (1, lambda: A("length", E(LIST))),
                               (1, lambda: A("+", *[E(INT) for _ in range(d.int(0, 7))])),
                               (1, lambda: A("car", A("cons", E(INT), E(LIST)))),
                               (1, lambda: A("unbox", A("box", E(INT)))),
                               (1, lambda: A("vector-ref", A("vector", E(INT), E(INT)), ("lit", d.int(0, 1))))])()
        if t == BOOL:
            return d.weighted([(3, lambda: A(d.choice(["<", "=", ">", "<=", ">="]), E(INT), E(INT))), (1, lambda: A("null?", E(LIST))),
                               (1, lambda: A("not", E(BOOL))), (1, lambda: A("equal?", E(LIST), E(LIST)))])()
        if t == LIST:
            return d.weighted([(3, lambda: A("cons", E(INT), E(LIST))), (2, lambda: A("list", *[E(INT) for _ in range(d.int(0, 8))])),
                               (1, lambda: A("reverse", E(LIST))), (1, lambda: A("append", E(LIST), E(LIST))),
                               (1, lambda: A("vector->list", A("vector", E(INT), E(INT))))])()
        return self.lam(t, env, depth)

    def g_if(self, t, env, depth):
        c = self.expr(self.d.weighted([(6, BOOL), (1, INT), (1, LIST)]), env, depth - 1)
        return ("if", c, self.expr(t, env, depth - 1), self.expr(t, env, depth - 1))

    def binding(self, env, depth, tys):
        """A clause ([names], producer) for 1 or several values."""
        d = self.d
        if len(tys) == 1:
            return self.expr(tys[0], env, depth)
        self.tags.add("multi")
        k = d.int(0, 3)
        if k == 0 or depth <= 1:
            return ("values", [self.expr(t, env, depth - 1) for t in tys])
        if k == 1:
            return ("if", self.expr(BOOL, env, depth - 1), self.binding(env, depth - 2, tys), self.binding(env, depth - 2, tys))
        if k == 2:
            return ("begin", [self.effect(env, depth - 1), self.binding(env, depth - 2, tys)])
        ns = self.names(d.int(0, 2))
        return ("app", ("lambda", (ns, None), [self.binding(env + [(n, INT) for n in ns], depth - 2, tys)]),
                [self.expr(INT, env, depth - 1) for _ in ns])

    def shape(self):
        d = self.d
        out = []
        for _ in range(d.int(1, 3)):
            k = d.weighted([(6, 1), (2, 2), (1, 3), (1, 0)])
            out.append([self.fnty() if d.bool(0.35) else self.ty() for _ in range(k)])
        return out

    def g_let(self, t, env, depth):
        bs, env2 = [], list(env)
        sh = self.shape()
        ns = self.names(sum(map(len, sh)))
        i = 0
        for tys in sh:
            bs.append((ns[i:i + len(tys)], self.binding(env, depth - 1, tys)))
            env2 += list(zip(ns[i:i + len(tys)], tys))
            i += len(tys)
        return ("let", bs, self.bodyof(t, env2, depth - 1))

    def g_letrec(self, t, env, depth):
        """Right-hand sides see all names but mention later ones only under a lambda."""
        self.tags.add("letrec")
        d = self.d
        sh = self.shape()
        ns = self.names(sum(map(len, sh)))
        flat = [u for tys in sh for u in tys]
        hidden = [(n, "hidden") for n in ns]
        bs, i = [], 0
        for tys in sh:
            known = env + hidden + [(n, u) for n, u in zip(ns[:i], flat[:i])]
            if len(tys) == 1 and isinstance(tys[0], tuple) and d.bool(0.8):
                # later procedures are visible inside the lambda (mutual references)
                later = [(n, u) for n, u in zip(ns, flat) if not isinstance(u, tuple)][i:] if d.bool(0.15) else []
                bs.append((ns[i:i + 1], self.lam(tys[0], known + later, depth - 1)))
            else:
                bs.append((ns[i:i + len(tys)], self.binding(known, depth - 1, tys)))
            i += len(tys)
        return ("letrec", bs, self.bodyof(t, env + list(zip(ns, flat)), depth - 1))

    def g_begin(self, t, env, depth):
        return ("begin", self.bodyof(t, env, depth - 1) if self.d.bool(0.2) else [self.effect(env, depth - 1)] + self.bodyof(t, env, depth - 1))

    def argc(self, n, rest):
        k = n + (self.d.int(0, 3) if rest else 0)
        if self.d.bool(self.wrong * 2):
            self.tags.add("arity")
            k += self.d.choice([1, -1])
        return max(0, k)

    def g_lambda_app(self, t, env, depth):
        n, rest = self.d.int(0, 4), self.d.bool(0.3)
        f, b = self.clause(n, rest, t, env, depth - 1)
        return ("app", ("lambda", f, b), [self.expr(INT, env, depth - 1) for _ in range(self.argc(n, rest))])

    def g_caseapp(self, t, env, depth):
        d = self.d
        self.tags.add("caselambda")
        cl = []
        for _ in range(d.int(1, 3)):
            cl.append(self.clause(d.int(0, 3), d.bool(0.3), t, env, depth - 1))
        (ps, r), _ = d.choice(cl)
        return ("app", ("caselambda", cl), [self.expr(INT, env, depth - 1) for _ in range(self.argc(len(ps), r is not None))])

    def g_call(self, t, env, depth):
        p = self.pick(env, lambda u: isinstance(u, tuple) and u[3] == t)
        if not p:
            return self.g_lambda_app(t, env, depth)
        self.tags.add("call")
        _, n, rest, _ = p[1]
        return ("app", ("var", p[0]), [self.expr(INT, env, depth - 1) for _ in range(self.argc(n, rest))])

    def g_cwv(self, t, env, depth):
        d = self.d
        self.tags.add("cwv")
        tys = [INT] * d.weighted([(2, 2), (1, 1), (1, 0), (1, 3)])
        prod = ("lambda", ([], None), [self.binding(env, depth - 1, tys) if len(tys) != 1 else self.expr(INT, env, depth - 1)])
        n, rest = len(tys), d.bool(0.3)
        if rest:
            n = d.int(0, n)
        f, b = self.clause(n, rest, t, env, depth - 1)
        return ("cwv", prod, ("lambda", f, b))

    def g_apply(self, t, env, depth):
        d = self.d
        self.tags.add("apply")
        p = self.pick(env, lambda u: isinstance(u, tuple) and u[3] == t)
        if p and d.bool(0.7):
            f, n, rest = ("var", p[0]), p[1][1], p[1][2]
        else:
            n, rest = d.int(0, 4), d.bool(0.5)
            f = self.lam(fn(n, rest, t), env, depth - 1)
        k = self.argc(n, rest)
        j = d.int(0, k)
        return ("apply", f, [self.expr(INT, env, depth - 1) for _ in range(j)],
                ("app", ("var", "list"), [self.expr(INT, env, depth - 1) for _ in range(k - j)]))

    def g_values1(self, t, env, depth):
        return ("values", [self.expr(t, env, depth - 1)])

    def g_ho(self, t, env, depth):
        d = self.d
        self.tags.add("higher-order")
        if t == LIST:
            k = d.int(1, 2)
            f = self.expr(fn(k), env, depth - 1)
            l = self.expr(LIST, env, depth - 1)
            if k == 1:
                return ("app", ("var", "map"), [f, l])
            v = self.names(1)[0]
            return ("let", [([v], l)], [("app", ("var", "map"), [f, ("var", v), ("var", v)])])
        if t == BOOL:
            return ("app", ("var", d.choice(["andmap", "ormap"])), [self.expr(fn(1, False, BOOL), env, depth - 1), self.expr(LIST, env, depth - 1)])
        if t == INT:
            # several closures over one shared variable, called later
            v, fs = self.names(2)
            env2 = env + [(v, INT)]
            mk = [self.lam(fn(0), env2, depth - 1) for _ in range(d.int(1, 3))]
            self.tags.add("shared-cell")
            return ("let", [([v], self.expr(INT, env, depth - 1))],
                    [("let", [([fs], ("app", ("var", "list"), mk))],
                      [("app", ("var", "for-each"), [("lambda", (["vp-h"], None), [("set", v, ("app", ("var", "+"), [("var", v), ("app", ("var", "vp-h"), [])]))]), ("var", fs)]),
                       ("var", v)])])
        return self.lam(t, env, depth)

    def g_loop(self, t, env, depth):
        """A terminating recursive procedure, tail-recursive or not."""
        d = self.d
        if t not in (INT, LIST):
            return self.leaf(t, env)
        self.tags.add("loop")
        self.n += 1
        f, i, acc = "loop%d" % self.n, "i%d" % self.n, "acc%d" % self.n
        env2 = env + [(i, INT), (acc, t)]
        step = self.expr(t, env2, depth - 2)
        rec = lambda x: ("app", ("var", f), [("app", ("var", "-"), [("var", i), ("lit", 1)]), x])
        if d.bool(0.5):
            body = ("if", ("app", ("var", "<="), [("var", i), ("lit", 0)]), ("var", acc), rec(step))
        elif t == INT:
            body = ("if", ("app", ("var", "<="), [("var", i), ("lit", 0)]), ("var", acc), ("app", ("var", "+"), [rec(step), self.expr(INT, env2, depth - 2)]))
        else:
            body = ("if", ("app", ("var", "<="), [("var", i), ("lit", 0)]), ("var", acc), ("app", ("var", "cons"), [self.expr(INT, env2, depth - 2), rec(step)]))
        return ("letrec", [([f], ("lambda", ([i, acc], None), [body]))],
                [("app", ("var", f), [("lit", d.int(0, 6)), self.expr(t, env, depth - 2)])])

    def forms(self):
        d = self.d
        env, out = [], []
        n = d.int(1, 5)
        for k in range(n):
            if d.bool(0.45):
                self.n += 1
                tys = [self.fnty() if d.bool(0.6) else self.ty() for _ in range(d.weighted([(5, 1), (1, 2)]))]
                ns = ["t%d_%d" % (self.n, j) for j in range(len(tys))]
                if d.bool(0.15) and env and len(tys) == 1:
                    ns, tys = [env[-1][0]], [env[-1][1]]     # redefinition
                out.append(("define", ns, self.binding(env, d.int(2, 6), tys)))
                env = [(a, b) for a, b in env if a not in ns] + list(zip(ns, tys))
            else:
                out.append(self.expr(self.d.choice([INT, LIST, ANY]), env, d.int(2, 7)))
        out.append(self.expr(INT, env, 3))
        return out
