"""Strings and characters: histories over aliased mutable strings against a byte-array model."""
import ml, steps
from ml import Str, Ch, Sym, Pair, Vec, NIL
from steps import call, Var
from runner import ProgCheck


class P10(ProgCheck):
    id = "P10"
    technique = "stateful generated histories over aliased mutable strings and conversions against a byte-array model"
    rule = ("a case is a history of about 30 string and character operations; non-trivial when a mutation is visible through an alias (or proved invisible through a copy), "
            "a byte above 127 or a control character occurs, and at least 8 distinct operations")
    prologue = ml.CONTINUE_ON_ERROR
    quick_s = 30

    def gen(self, d):
        p = steps.Prog(d)
        pool = []            # variables holding strings
        noaug = set()        # strings that may share storage with another (1-argument string-append)
        alias = muts = 0
        hi = False

        def isstr(v):
            return isinstance(p.vars[v.name], Str)

        def s(maxlen=12):
            nonlocal hi
            if pool and d.bool(0.75):
                return d.choice(pool)
            x = steps.string(d, maxlen)
            if any(c > 127 or c < 32 for c in x.b):
                hi = True
            return x

        def length(v):
            return len(p.vars[v.name].b) if isinstance(v, Var) else len(v.b)

        def idx(v):
            n = length(v)
            return d.weighted([(9, lambda: d.int(0, max(0, n - 1))), (1, lambda: n), (1, lambda: n + d.int(0, 300)), (1, lambda: steps.fixnum(d))])()

        def bind(e):
            v = p.bind(e)
            x = p.vars[v.name]
            if isinstance(x, Str) and len(x.b) < 2000:
                pool.append(v)
                if len(pool) > 8:
                    pool.pop(d.int(0, len(pool) - 2))

        bind(call("string-append", steps.string(d, 10), steps.string(d, 10)))
        for _ in d.repeat(30, 60):
            k = d.weighted([(4, "con"), (4, "ref"), (6, "set"), (3, "conv"), (2, "pred"), (1, "bad"), (1, "struct"), (1, "big")])
            if k == "con":
                kk = d.int(0, 4)
                if kk == 0:
                    bind(call("string", *d.list(lambda: steps.char(d), 0, 9)))
                elif kk == 1:
                    n = d.int(0, 12)
                    bind(call("make-string", n, steps.char(d)) if d.bool(0.8) else call("string-length", call("make-string", n)))
                elif kk <= 3:
                    n = d.weighted([(1, 0), (5, 2), (2, 3), (1, 5)])
                    bind(call("string-append", *[s() for _ in range(n)]))
                else:
                    bind(call("list->string", ml.lst(d.list(lambda: steps.char(d), 0, 9))))
            elif k == "ref":
                v = s()
                p.show(call("string-ref", v, idx(v))) if d.bool(0.8) else p.show(call("string-length", v))
            elif k == "set":
                if not pool:
                    continue
                v = d.choice(pool)
                i = idx(v)
                before = [ml.show(p.vars[q.name]) for q in pool]
                p.show(call("string-set!", v, i, steps.char(d)))
                x = p.vars[v.name]
                changed = sum(1 for q, b in zip(pool, before) if ml.show(p.vars[q.name]) != b)
                muts += changed > 0
                alias += changed > 0
                p.show(call("list", *pool))
            elif k == "conv":
                kk = d.int(0, 6)
                if kk == 0:
                    p.show(call("string->list", s()))
                elif kk == 1:
                    bind(call("list->string", call("string->list", s())))
                elif kk == 2:
                    bind(call("symbol->string", call("string->symbol", s())))
                elif kk == 3:
                    bind(call("number->string", steps.fixnum(d)))
                elif kk == 4:
                    p.show(call("char->integer", steps.char(d)))
                elif kk == 5:
                    c = steps.char(d).c
                    p.show(call("integer->char", c))
                    p.show(call("char->integer", call("integer->char", c)))
                else:
                    p.show(call("string->list", call("list->string", call("reverse", call("string->list", s())))))
            elif k == "pred":
                a, b = s(), s()
                p.show(call("equal?", a, b))
                p.show(call(d.choice(["string?", "char?", "symbol?"]), d.choice([a, steps.char(d), steps.symbol(d), 5, NIL])))
            elif k == "bad":
                f = d.choice(["string-length", "string->list", "symbol->string", "string->symbol", "number->string", "char->integer", "integer->char"])
                x = steps.value(d, 1)
                if f == "integer->char" and ml.isint(x):
                    continue
                p.show(call(f, x))
            elif k == "struct":
                # one string reachable from two places
                v = d.choice(pool) if pool else None
                if v is None:
                    continue
                w = p.bind(call("list", v, call("vector", v, 1), v), show=False)
                if length(v):
                    p.show(call("string-set!", call("car", w), d.int(0, length(v) - 1), steps.char(d)))
                    alias += 1
                p.show(w)
                p.show(v)
            else:
                n = d.int(200, 1500)
                if d.bool(0.3):
                    c = steps.char(d)
                    w = p.bind(call("make-string", n, c), show=False)
                    p.show(call("string-set!", w, n - 1, steps.char(d)))
                    p.show(call("string-ref", w, n - 1))
                    p.show(call("string-ref", w, n // 2))
                    p.show(call("string-length", call("string-append", w, w)))
        if pool:
            p.show(call("list", *pool))
        return p.case(alias > 0 and hi and len(p.used) >= 8, tags=sorted(p.used) + ["error-step"] * p.errors)

    def run(self, case):
        for t in case.get("tags", []):
            self.tag(t)
        return super().run(case)


CHECK = P10
