"""Lists, pairs, vectors and boxes: construction, access, mutation and sharing against a model."""
import ml, steps
from ml import Pair, Vec, Box, NIL, Sym, Err
from steps import call, Var, Fn
from runner import ProgCheck


def P(name):
    return lambda *a: ml.PRIMS[name].fn(list(a))


def hof(name, keep):
    def f(fn, *ls):
        out = []
        for t in zip(*[ml.pylist(l) for l in ls]):
            out.append(fn.fn(list(t)))
        return ml.lst(out) if keep else ml.VOID
    return f


def andor(stop):
    def f(fn, *ls):
        for t in zip(*[ml.pylist(l) for l in ls]):
            if (fn.fn(list(t)) is not False) == stop:
                return stop
        return not stop
    return f


ml.prim("map", 2, -1)(hof("map", True))
ml.prim("for-each", 2, -1)(hof("for-each", False))
ml.prim("andmap", 2, -1)(andor(False))
ml.prim("ormap", 2, -1)(andor(True))
ml.prim("apply", 2, -1)(lambda f, *a: f.fn(list(a[:-1]) + ml.pylist(a[-1])))


def reaches(x, targets, seen):
    if id(x) in seen:
        return False
    seen.add(id(x))
    if any(x is t for t in targets):
        return True
    if isinstance(x, Pair):
        while isinstance(x, Pair):
            if any(x is t for t in targets) or reaches(x.car, targets, seen):
                return True
            x = x.cdr
        return reaches(x, targets, seen)
    if isinstance(x, Vec):
        return any(reaches(y, targets, seen) for y in x.v)
    if isinstance(x, Box):
        return reaches(x.v, targets, seen)
    return False


def size(x, n=0):
    st, k = [x], 0
    while st and k < 5000:
        y = st.pop()
        k += 1
        if isinstance(y, Pair):
            st += [y.car, y.cdr]
        elif isinstance(y, Vec):
            st += y.v
        elif isinstance(y, Box):
            st.append(y.v)
    return k


F1 = [lambda d: Fn("(lambda (x) (cons x x))", lambda x: Pair(x, x), (1, 1)),
      lambda d: Fn("list", lambda *a: ml.lst(a)),
      lambda d: Fn("vector", lambda *a: Vec(a)),
      lambda d: Fn("box", lambda x: Box(x), (1, 1)),
      lambda d: Fn("(lambda (x . r) (if (pair? x) (car x) x))", lambda x, *r: x.car if isinstance(x, Pair) else x, (1, -1)),
      lambda d: (lambda k: Fn("(lambda (x) (if (integer? x) (+ x %d) x))" % k, lambda x: ml.wrap(x + k) if ml.isint(x) else x, (1, 1)))(d.int(-5, 5))]
PREDS = {"pair?": "pair?", "integer?": "integer?", "null?": "null?", "list?": "list?", "vector?": "vector?", "symbol?": "symbol?", "not": "not"}


class P11(ProgCheck):
    id = "P11"
    technique = "stateful generated histories over shared mutable pairs, vectors and boxes, compared step by step with a Python object model"
    rule = ("a case is a history of about 25 operations over a pool of aliased pairs, lists, vectors and boxes, every reachable object printed after mutations; "
            "non-trivial when it performs at least 2 mutations visible through another name or at least 10 distinct primitives")
    prologue = ml.CONTINUE_ON_ERROR
    quick_s = 40

    def gen(self, d):
        p = steps.Prog(d)
        pool = []
        mutate = d.bool(0.7)     # either mutation, or append over shared spines (whose sharing is left open)
        big = d.bool(0.05)
        muts = visible = 0

        def val(depth=2):
            if pool and d.bool(0.5):
                return d.choice(pool)
            return steps.value(d, depth)

        def of(pred, alt):
            c = [v for v in pool if pred(p.vars[v.name])]
            if c and d.bool(0.9):
                return d.choice(c)
            return alt()

        pair = lambda: of(lambda x: isinstance(x, Pair), lambda: val(2))
        lis = lambda: of(ml.is_list, lambda: ml.lst(d.list(lambda: steps.value(d, 1), 0, 8)))
        vec = lambda: of(lambda x: isinstance(x, Vec), lambda: Vec(d.list(lambda: steps.value(d, 1), 0, 8)))
        flist = lambda: ml.lst(d.list(lambda: steps.value(d, 1), 0, 8))

        def idx(v):
            n = len(v.v) if isinstance(v, Vec) else 3
            return d.weighted([(8, lambda: d.int(0, max(0, n - 1))), (1, lambda: n), (1, lambda: steps.fixnum(d))])()

        def bind(e):
            v = p.bind(e)
            if size(p.vars[v.name]) < 400:
                pool.append(v)
                if len(pool) > 8:
                    pool.pop(d.int(0, len(pool) - 2))
            return v

        if big:
            n = d.int(200, 1500)
            pool.append(p.bind(d.choice([call("iota", n), call("make-vector", n, steps.value(d, 0)), call("make-list", n, steps.value(d, 0))]), show=False))
        for _ in d.repeat(25, 60):
            k = d.weighted([(4, "con"), (4, "acc"), (3, "list"), (3, "vec"), (6, "mut"), (2, "hof"), (1, "pred"), (1, "bad")])
            if k == "con":
                bind(d.weighted([(3, lambda: call("cons", val(), val())), (2, lambda: call("list", *d.list(lambda: val(1), 0, 7))),
                                 (1, lambda: call("vector", *d.list(lambda: val(1), 0, 7))), (1, lambda: call("box", val())),
                                 (1, lambda: call("make-vector", d.int(0, 9), val())), (1, lambda: call("make-vector", d.int(0, 5))),
                                 (1, lambda: call("make-list", d.int(0, 9), val())), (1, lambda: call("cons", val(), lis())),
                                 (1, lambda: call("iota", d.int(0, 12)))])())
            elif k == "acc":
                if d.bool(0.4):
                    v = pair()
                    # a path that exists, then maybe one step too far
                    x = p.ev(v) if not isinstance(v, Var) else p.vars[v.name]
                    path = ""
                    while isinstance(x, Pair) and len(path) < 4 and (not path or d.bool(0.75)):
                        o = d.choice("ad")
                        path += o
                        x = x.car if o == "a" else x.cdr
                    if len(path) < 4 and d.bool(0.08):
                        path += d.choice("ad")
                    bind(call("c%sr" % (path[::-1] or "a"), v))
                elif d.bool(0.6):
                    v = vec()
                    bind(call("vector-ref", v, idx(p.vars[v.name] if isinstance(v, Var) else v)))
                else:
                    bind(call("unbox", of(lambda x: isinstance(x, Box), lambda: Box(1))))
            elif k == "list":
                bind(d.weighted([(1, lambda: call("reverse", lis())), (1, lambda: call("length", lis())), (1, lambda: call("enumerate", lis())),
                                 (2, lambda: call("append", *[flist() if mutate else lis() for _ in range(d.weighted([(1, 0), (1, 1), (3, 2), (2, 3), (1, 5)]))])),
                                 (1, lambda: call("list->vector", lis()))])()) 
            elif k == "vec":
                bind(d.weighted([(1, lambda: call("vector-length", vec())), (2, lambda: call("vector->list", vec())), (1, lambda: call("list->vector", lis()))])())
            elif k == "mut" and mutate:
                kind = d.choice(["car", "cdr", "vec", "vec", "fill", "box"])
                if kind in ("car", "cdr"):
                    t = pair()
                elif kind == "box":
                    t = of(lambda x: isinstance(x, Box), lambda: Box(0))
                else:
                    t = vec()
                if not isinstance(t, Var):
                    continue
                x = p.vars[t.name]
                v = val()
                vx = p.vars[v.name] if isinstance(v, Var) else v
                if reaches(vx, [x], set()) or vx is x:
                    continue
                e = {"car": lambda: call("set-car!", t, v), "cdr": lambda: call("set-cdr!", t, v), "fill": lambda: call("vector-fill!", t, v),
                     "box": lambda: call("set-box!", t, v), "vec": lambda: call("vector-set!", t, idx(x), v)}[kind]()
                if kind != "vec" and isinstance(x, {"car": Pair, "cdr": Pair, "fill": Vec, "box": Box}[kind]) is False and d.bool(0.9):
                    continue
                before = [ml.show(p.vars[q.name]) for q in pool]
                p.show(e)
                muts += 1
                pool[:] = [q for q in pool if size(p.vars[q.name]) < 400]
                after = sum(1 for q, b in zip(pool, before) if ml.show(p.vars[q.name]) != b and q is not t)
                visible += after > 0
                p.show(call("list", *pool))
            elif k == "hof":
                m = d.weighted([(3, 1), (1, 2), (1, 3)])
                if m == 1:
                    ls = [lis()]
                else:
                    n = d.int(0, 6)
                    ls = [ml.lst([steps.value(d, 1) for _ in range(n)]) for _ in range(m)]
                kk = d.int(0, 4)
                if kk <= 1:
                    f = d.choice(F1)(d)
                    if m > 1:
                        f = d.choice(F1[1:3] + F1[4:5])(d)
                    bind(call("map", f, *ls))
                elif kk == 2:
                    f = d.choice(sorted(PREDS)) if m == 1 else None
                    if f:
                        fn = Fn(f, lambda x, f=f: ml.PRIMS[f].fn([x]), (1, 1))
                    else:
                        fn = Fn("(lambda (x . r) (pair? x))", lambda x, *r: isinstance(x, Pair), (1, -1))
                    p.show(call(d.choice(["andmap", "ormap"]), fn, *ls))
                elif kk == 3:
                    # order and number of applications, through an accumulating box
                    b = p.bind(call("box", NIL))
                    bx = p.vars[b.name]

                    def acc(*xs, bx=bx):
                        bx.v = Pair(ml.lst(xs), bx.v)
                        return len(ml.pylist(bx.v))
                    fn = Fn("(lambda xs (begin (set-box! %s (cons xs (unbox %s))) (length (unbox %s))))" % ((b.name,) * 3), acc)
                    bind(call(d.choice(["map", "for-each"]), fn, *ls))
                    bind(call("unbox", b))
                else:
                    p.show(call("apply", Fn("list", lambda *a: ml.lst(a)), *([val(1) for _ in range(d.int(0, 3))] + [lis()])))
            elif k == "pred":
                p.show(call(d.choice(["null?", "pair?", "list?", "vector?", "box?"]), val()))
            elif k == "bad" and d.bool(0.5):
                f = d.choice(["car", "cdr", "caddr", "length", "reverse", "vector-length", "vector->list", "unbox", "iota", "list->vector", "enumerate"])
                v = steps.value(d, 1)
                p.show(call(f, -d.int(1, 99) if f == "iota" and ml.isint(v) else v))
        if pool:
            p.show(call("list", *pool))
        return p.case(visible >= 2 or len(p.used) >= 10, tags=sorted(p.used) + ["visible-mutation"] * visible)

    def run(self, case):
        for t in case.get("tags", []):
            self.tag(t)
        return super().run(case)


CHECK = P11
