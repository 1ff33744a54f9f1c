"""Generic interfaces: dispatch on the record type against a table of implementations."""
import ml
from ml import Sym, Err
from runner import ProgCheck


def arity(formals):
    n, rest = formals
    return (n, -1) if rest else (n, n)


class P22(ProgCheck):
    id = "P22"
    mode = "lib"
    prologue = '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR
    technique = "stateful model-based testing: histories that define interfaces and record types, attach, reattach and reject implementations, and dispatch, against a table keyed by type and interface"
    rule = ("a case has 1..3 interfaces and 2..4 record types; non-trivial when two types implement the same interface, a type implements two, and both a dispatch and a rejected attachment happen")
    quick_s = 24

    def gen(self, d):
        L, out = [], []

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append("!" + v.kind if isinstance(v, Err) else ml.show(v))

        gens = []
        names = ["area", "name-of", "op", "comb", "zap"]
        for g in range(d.int(1, 3)):
            ms = d.shuffle(names)[:d.int(1, 4)]
            ms = [(m, (d.int(0, 3), d.bool(0.3))) for m in ms]
            L.append("(define-generics g%d%s)" % (g, "".join(" [%s%s]" % (m, "".join(" a%d" % i for i in range(n)) + (" . r" if rest else "")) for m, (n, rest) in ms)))
            gens.append((g, ms))
        types = []
        impl = {}                     # (type, gen) -> [index of the current implementation set]
        serial = [0]
        st = {"rej": False, "disp": False}

        def proc(formals, tag):
            n, rest = formals
            fs = " ".join("a%d" % i for i in range(n))
            f = "(%s . r)" % fs if rest and n else "r" if rest else "(%s)" % fs
            return "(lambda %s (list '%s%s%s))" % (f, tag, "".join(" a%d" % i for i in range(n)), " r" if rest else "")

        def implement(g):
            serial[0] += 1
            return ["%s.%d" % (m, serial[0]) for m, _ in gens[g][1]]

        def procs(g, tags):
            return [proc(f, t) for (m, f), t in zip(gens[g][1], tags)]

        for t in range(d.int(2, 4)):
            parent = d.int(0, t - 1) if t and d.bool(0.3) else None
            cl = []
            if parent is not None:
                cl.append("(parent r%d)" % parent)
            if d.bool(0.5):
                cl.append("(fields x%d)" % t)
            for g, ms in gens:
                if d.bool(0.5):
                    tags = implement(g)
                    impl[(t, g)] = tags
                    cl.append("(methods gen:g%d %s)" % (g, " ".join(procs(g, tags))))
            L.append("(define-record-type r%d%s)" % (t, "".join(" " + c for c in d.shuffle(cl))))
            types.append(t)
        for _ in d.repeat(20, 45):
            t, (g, ms) = d.choice(types), d.choice(gens)
            k = d.weighted([(8, "call"), (3, "inst"), (3, "add"), (3, "bad"), (2, "err"), (1, "acc")])
            if k == "call":
                i = d.int(0, len(ms) - 1)
                m, (n, rest) = ms[i]
                c = n + (d.int(0, 2) if rest else 0)
                args = [d.int(0, 9) for _ in range(c)]
                e = "(((generics-accessor gen:g%d '%s) r%d)%s)" % (g, m, t, "".join(" %d" % a for a in args))
                if (t, g) in impl:
                    show(e, ml.lst([Sym(impl[(t, g)][i])] + args[:n] + ([ml.lst(args[n:])] if rest else [])))
                    st["disp"] = True
                else:
                    show(e, Err("exn"))
            elif k == "inst":
                show("(if (gen:g%d? r%d) #t #f)" % (g, t), (t, g) in impl)
                if d.bool(0.3):
                    show("(gen:g%d? %s)" % (g, d.choice(["5", "'a", "(vector)"])), False)
            elif k == "add":
                tags = implement(g)
                L.append("(record-type-add-generic! r%d gen:g%d (list %s))" % (t, g, " ".join(procs(g, tags))))
                impl[(t, g)] = tags
            elif k == "bad":
                # a rejected attachment leaves the table alone
                tags = implement(g)
                ps = procs(g, tags)
                h = d.int(0, 3)
                i = d.int(0, len(ms) - 1)
                if h == 0:
                    ps = ps[:-1] if d.bool() else ps + ["(lambda () 1)"]
                    kind = "exn"
                elif h == 1:
                    n, rest = ms[i][1]
                    wrong = (n + 1, rest) if d.bool() else (n, not rest)
                    ps[i] = proc(wrong, "wrong")
                    kind = "exn"
                elif h == 2:
                    ps[i] = d.choice(["5", "'no"])
                    kind = "argument"
                else:
                    kind = "argument"
                if h == 3:
                    show(d.choice(["(record-type-add-generic! 5 gen:g%d (list %s))" % (g, " ".join(ps)), "(record-type-add-generic! r%d 5 (list %s))" % (t, " ".join(ps)),
                                   "(record-type-add-generic! r%d gen:g%d 'p)" % (t, g)]), Err(kind))
                else:
                    show("(record-type-add-generic! r%d gen:g%d (list %s))" % (t, g, " ".join(ps)), Err(kind))
                st["rej"] = True
                show("(if (gen:g%d? r%d) #t #f)" % (g, t), (t, g) in impl)
            elif k == "err":
                e, kind = d.choice([("(generics-accessor 5 'a)", "argument"), ("(generics-accessor gen:g%d 'vp-none)" % g, "exn"), ("((generics-accessor gen:g%d '%s) 5)" % (g, ms[0][0]), "argument")])
                show(e, Err(kind))
            else:
                L.append("(define-values (acc%d) (generics-accessor gen:g%d '%s))" % (len(L), g, ms[0][0]))
                n, rest = ms[0][1]
                v = "acc%d" % (len(L) - 1)
                for t in types:
                    show("((%s r%d)%s)" % (v, t, " 1" * n), ml.lst([Sym(impl[(t, g)][0])] + [1] * n + ([ml.lst([])] if rest else [])) if (t, g) in impl else Err("exn"))
                    st["disp"] = st["disp"] or (t, g) in impl
        two = any(sum((t, g) in impl for t in types) >= 2 for g, _ in gens) and any(sum((t, g) in impl for g, _ in gens) >= 2 for t in types)
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": two and st["disp"] and st["rej"]}


CHECK = P22
