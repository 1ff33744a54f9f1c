"""Records: generated type hierarchies and histories over instances, through the procedural layer and define-record-type."""
import ml, steps
from ml import Sym, Str, Pair, Vec, NIL
from runner import ProgCheck

FIELDS = ["x", "y", "z", "left", "right", "w", "x-y", "val"]


class Type:
    pass


class Inst:
    def __init__(self, t, vals):
        self.t, self.v = t, vals

    def show(self, d):
        t = self.t
        w = None
        while t is not None:
            pass
        return "#<%s>" % self.t.name


class P13(ProgCheck):
    id = "P13"
    technique = "generated record-type hierarchies and stateful histories over their instances against an object model, in the procedural and the define-record-type layer"
    rule = ("a case declares 2..6 types in a hierarchy and performs about 25 constructions, accesses, mutations, predicate tests and comparisons; non-trivial when an inherited field is read or "
            "mutated through a parent accessor, two types share a field name, and a wrong-type or out-of-range use is rejected")
    prologue = {"core": ml.CONTINUE_ON_ERROR, "lib": '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR}
    quick_s = 32
    mode = "core"
    timeout = 20.0

    def gen(self, d):
        lib = d.bool(0.4)
        return self.build(d, lib)

    def build(self, d, lib):
        L, out = [], []
        T, I = [], []
        flags = set()

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append(v if isinstance(v, str) and not isinstance(v, Sym) else ml.show(v))

        nt = d.int(2, 6)
        names = ["pt", "node", "shape", "acct", "leaf", "item"]
        for i in range(nt):
            t = Type()
            t.name = names[i] if lib or d.bool(0.8) else d.choice(names[:i] or names)
            cand = [u for u in T if not u.sealed]
            t.parent = d.choice(cand) if cand and d.bool(0.6) else None
            t.sealed = d.bool(0.15)
            t.opaque = (t.parent is not None and t.parent.opaque) or d.bool(0.1)
            t.uid = Sym("uid%d" % i) if d.bool(0.2) else False
            pool = list(FIELDS)
            d.shuffle(pool)
            t.own = [(d.bool(0.6), f) for f in pool[:d.int(0, 4)]]
            t.base = len(t.parent.own) + t.parent.base if t.parent else 0
            t.n = t.base + len(t.own)
            t.writer = t.equal = None
            t.proto = None
            t.acc, t.mut, t.eqv = [], [], None
            T.append(t)
            for m, f in t.own:
                if any(f == g for u in T[:-1] for _, g in u.own):
                    flags.add("shared-name")
            if lib:
                t.rtd, t.mk, t.p = t.name, "make-" + t.name, t.name + "?"
                head = t.name
                if d.bool(0.3):
                    t.mk, t.p = "build-" + t.name, "is-%s?" % t.name
                    head = "(%s %s %s)" % (t.name, t.mk, t.p)
                cl = []
                if t.parent:
                    cl.append("(parent %s)" % t.parent.rtd)
                if t.uid:
                    cl.append("(uid '%s)" % t.uid)
                if t.sealed or d.bool(0.2):
                    cl.append("(sealed %s)" % ml.show(t.sealed))
                if t.opaque or d.bool(0.2):
                    cl.append("(opaque %s)" % ml.show(t.opaque))
                fs = []
                for m, f in t.own:
                    a, u = "%s-%s" % (t.name, f), "%s-%s-set!" % (t.name, f)
                    k = d.int(0, 2)
                    if k == 0:
                        a, u = "get-%s-of-%s" % (f, t.name), "put-%s-of-%s" % (f, t.name)
                        fs.append("(mutable %s %s %s)" % (f, a, u) if m else "(immutable %s %s)" % (f, a))
                    elif m or k == 1:
                        fs.append("(mutable %s)" % f if m else "(immutable %s)" % f)
                    else:
                        fs.append(f)
                    t.acc.append(a)
                    t.mut.append(u if m else None)
                if fs or d.bool(0.3):
                    cl.append("(fields%s)" % "".join(" " + f for f in fs))
                if t.n >= 1 and d.bool(0.25):
                    # a protocol: the constructor takes one value and repeats it
                    t.proto = True
                    cl.append("(protocol (lambda (new) (lambda (v) (new%s))))" % (" v" * t.n))
                if t.own and d.bool(0.2):
                    j = d.int(0, len(t.own) - 1)
                    t.equal = t.base + j
                    cl.append("(methods gen:equal+hash (lambda (a b rec) (rec (%s a) (%s b))) (lambda (a rec) (rec (%s a))))" % (t.acc[j], t.acc[j], t.acc[j]))
                if t.own and d.bool(0.2):
                    j = d.int(0, len(t.own) - 1)
                    t.writer = t.base + j
                    cl.append("(methods gen:custom-write (lambda (v p mode) (put-string p \"<%s \") (if mode (display (%s v) p) (write (%s v) p)) (put-string p \">\")))" % (t.name, t.acc[j], t.acc[j]))
                d.shuffle(cl)
                L.append("(define-record-type %s %s)" % (head, " ".join(cl)))
            else:
                t.rtd, t.mk, t.p = "&%d" % i, "mk%d" % i, "is%d" % i
                L.append("(define-values (%s) (make-record-type-descriptor '%s %s %s %s %s #(%s)))" % (
                    t.rtd, t.name, t.parent.rtd if t.parent else "#f", "'" + t.uid if t.uid else "#f", ml.show(t.sealed), ml.show(t.opaque),
                    " ".join("(%s %s)" % ("mutable" if m else "immutable", f) for m, f in t.own)))
                L.append("(define-values (%s) (record-constructor %s))" % (t.mk, t.rtd))
                L.append("(define-values (%s) (record-predicate %s))" % (t.p, t.rtd))
                for j, (m, f) in enumerate(t.own):
                    a, u = "a%d.%d" % (i, j), "m%d.%d" % (i, j)
                    L.append("(define-values (%s) (record-accessor %s %d))" % (a, t.rtd, j))
                    t.acc.append(a)
                    if m:
                        L.append("(define-values (%s) (record-mutator %s %d))" % (u, t.rtd, j))
                    t.mut.append(u if m else None)
                if t.own and d.bool(0.2):
                    j = d.int(0, len(t.own) - 1)
                    t.equal = t.base + j
                    L.append("(record-type-equal-procedure %s (lambda (a b rec) (rec (%s a) (%s b))))" % (t.rtd, t.acc[j], t.acc[j]))
                    L.append("(record-type-hash-procedure %s (lambda (a rec) (rec (%s a))))" % (t.rtd, t.acc[j]))
                if t.own and d.bool(0.2):
                    j = d.int(0, len(t.own) - 1)
                    t.writer = t.base + j
                    L.append("(record-writer %s (lambda (v p mode) (begin (put-string p \"<%s \") (if mode (display (%s v) p) (write (%s v) p)) (put-string p \">\"))))" % (t.rtd, t.name, t.acc[j], t.acc[j]))
            t.eqv = t.equal
            t.wname, t.eqid = (t.name if t.writer is not None else None), (t if t.equal is not None else None)
            if t.parent:
                if t.equal is None:
                    t.equal, t.eqid = t.parent.equal, t.parent.eqid
                if t.writer is None:
                    t.writer, t.wname = t.parent.writer, t.parent.wname

        def isa(x, t):
            u = x.t if isinstance(x, Inst) else None
            while u is not None:
                if u is t:
                    return True
                u = u.parent
            return False

        def text(x, disp=False):
            if isinstance(x, Inst):
                if x.t.writer is not None:
                    return "<%s %s>" % (x.t.wname, text(x.v[x.t.writer], disp))
                return "#<%s>" % x.t.name
            if isinstance(x, Pair):
                out, first = "(", True
                while isinstance(x, Pair):
                    out += ("" if first else " ") + text(x.car, disp)
                    first, x = False, x.cdr
                return out + ("" if x is NIL else " . " + text(x, disp)) + ")"
            if isinstance(x, Vec):
                return "#(" + " ".join(text(y, disp) for y in x.v) + ")"
            if isinstance(x, ml.Box):
                return "#&" + text(x.v, disp)
            return ml.show(x, disp)

        def size(x, n=0):
            if isinstance(x, Inst) and x.t.writer is not None:
                return 1 + size(x.v[x.t.writer])
            return 1

        def same(a, b):
            if a is b:
                return True
            if isinstance(a, Inst) and isinstance(b, Inst):
                if a.t.eqid is not None and a.t.eqid is b.t.eqid:
                    return same(a.v[a.t.equal], b.v[b.t.equal])
                return False
            if isinstance(a, Inst) or isinstance(b, Inst):
                return False
            return ml.equal(a, b)

        def cyclic(x, target):
            return x is target or (isinstance(x, Inst) and any(cyclic(y, target) for y in x.v))

        def atom():
            return d.weighted([(3, lambda: steps.fixnum(d)), (1, lambda: steps.symbol(d)), (1, lambda: steps.string(d, 4)), (1, lambda: steps.value(d, 1))])()

        V = {}

        def arg():
            """(source, model)"""
            if I and d.bool(0.3):
                v = d.choice(I)
                return v, V[v]
            x = atom()
            return ml.fresh(x), x

        for _ in d.repeat(25, 60):
            k = d.weighted([(5 if len(I) < 6 else 1, "new"), (8, "get"), (6, "set"), (5, "pred"), (3, "write"), (3, "equal"), (2, "meta"), (2, "bad")])
            if k == "new":
                t = d.choice(T)
                v = "r%d" % len(I)
                if t.proto:
                    e, x = arg()
                    L.append("(define-values (%s) (%s %s))" % (v, t.mk, e))
                    if d.bool(0.15):
                        show("(%s)" % t.mk, Sym("!exn"))
                    V[v] = Inst(t, [x] * t.n)
                else:
                    a = [arg() for _ in range(t.n)]
                    if d.bool(0.15):
                        n = d.choice([t.n + 1, t.n - 1, t.n + 3])
                        if n >= 0:
                            show("(%s%s)" % (t.mk, " 1" * n), Sym("!arity"))
                            flags.add("reject")
                    L.append("(define-values (%s) (%s%s))" % (v, t.mk, "".join(" " + e for e, _ in a)))
                    V[v] = Inst(t, [x for _, x in a])
                I.append(v)
            elif k in ("get", "set") and I:
                ts = [t for t in T if t.own]
                if not ts:
                    continue
                v = d.choice(I)
                x = V[v]
                if d.bool(0.8):
                    ts = [t for t in ts if isa(x, t)]
                if not ts:
                    continue
                t = d.choice(ts)
                j = d.int(0, len(t.own) - 1)
                if k == "get":
                    if isa(x, t):
                        if x.t is not t:
                            flags.add("inherited")
                        y = x.v[t.base + j]
                        show("(%s %s)" % (t.acc[j], v), text(y))
                    else:
                        flags.add("reject")
                        show("(%s %s)" % (t.acc[j], v), Sym("!argument"))
                else:
                    if t.mut[j] is None:
                        continue
                    e, y = arg()
                    if isa(x, t):
                        if cyclic(y, x):
                            continue
                        if x.t is not t:
                            flags.add("inherited")
                        L.append("(%s %s %s)" % (t.mut[j], v, e))
                        x.v[t.base + j] = y
                    else:
                        flags.add("reject")
                        show("(%s %s %s)" % (t.mut[j], v, e), Sym("!argument"))
            elif k == "pred":
                e, x = arg()
                t = d.choice(T)
                show("(list (%s %s) (record? %s))" % (t.p, e, e), ml.lst([isa(x, t), isinstance(x, Inst) and not x.t.opaque]))
                if isinstance(x, Inst):
                    show("(list (pair? %s) (vector? %s) (procedure? %s) (symbol? %s) (string? %s) (hashtable? %s) (record-type-descriptor? %s))" % ((e,) * 7), ml.lst([False] * 7))
            elif k == "write":
                e, x = arg()
                if size(x) < 100:
                    show("(list 1 %s)" % e, "(1 %s)" % text(x))
                    L.append("(begin (display (vector %s)) (newline))" % e)
                    out.append("#(%s)" % text(x, True))
            elif k == "equal" and I:
                (a, x), (b, y) = arg(), arg()
                if d.bool(0.5):
                    a = d.choice(I)
                    x = V[a]
                    # a sibling with the same contents
                    if not x.t.proto:
                        t = x.t
                        b = "%sb%d" % (a, len(V))
                        L.append("(define-values (%s) (%s%s))" % (b, t.mk, "".join(" " + (ml.fresh(z) if not isinstance(z, Inst) else [n for n in V if V[n] is z][0]) for z in x.v)))
                        y = Inst(t, list(x.v))
                        V[b] = y
                show("(equal? %s %s)" % (a, b), same(x, y))
                show("(equal? (list %s) (list %s))" % (b, a), same(x, y))
                if same(x, y):
                    show("(= (equal-hash %s) (equal-hash %s))" % (a, b), True)
            elif k == "meta":
                t = d.choice(T)
                show("(list (record-type-name %s) (record-type-field-names %s) (record-type-sealed? %s) (record-type-opaque? %s) (record-type-uid %s))" % ((t.rtd,) * 5),
                     ml.lst([Sym(t.name), Vec([Sym(f) for _, f in t.own]), t.sealed, t.opaque, t.uid]))
                show("(eq? (record-type-parent %s) %s)" % (t.rtd, t.parent.rtd if t.parent else "#f"), True)
                for j, (m, f) in enumerate(t.own):
                    show("(record-type-field-mutable? %s %d)" % (t.rtd, j), m)
                if I:
                    v = d.choice(I)
                    if not V[v].t.opaque:
                        show("(eq? (record-rtd %s) %s)" % (v, V[v].t.rtd), True)
            elif k == "bad":
                t = d.choice(T)
                n = len(t.own)
                flags.add("reject")
                c = [("(record-accessor %s %d)" % (t.rtd, n), "range"), ("(record-mutator %s %d)" % (t.rtd, n + 2), "range"), ("(record-accessor %s -1)" % t.rtd, "argument"),
                     ("(record-accessor 'a 0)", "argument"), ("(record-constructor 5)", "argument"), ("(record-predicate \"x\")", "argument"), ("(record-rtd 5)", "argument"),
                     ("(record-type-name 'x)", "argument"), ("(record-type-field-mutable? %s %d)" % (t.rtd, n), "range"),
                     ("(record-accessor %s 'a)" % t.rtd, "argument")]
                e, kind = d.choice(c)
                show(e, Sym("!" + kind))
        if d.bool(0.2):
            # declarations that must be rejected
            bad = ["(make-record-type-descriptor 'bad #f #f #f #f #((mutable x) (immutable x)))", "(make-record-type-descriptor 'bad 5 #f #f #f #())", "(make-record-type-descriptor \"bad\" #f #f #f #f #())",
                   "(make-record-type-descriptor 'bad #f #f #f #f '((mutable x)))", "(make-record-type-descriptor 'bad #f #f #f #f #((shared x)))", "(make-record-type-descriptor 'bad #f #f 1 #f #())"]
            for t in T:
                if t.sealed:
                    bad += ["(make-record-type-descriptor 'bad %s #f #f #f #())" % t.rtd] * 4
                    if lib:
                        bad += ["(let () (define-record-type bad (parent %s)) 1)" % t.rtd] * 4
            show(d.choice(bad), Sym("!argument"))
        return dict(prog="\n".join(L) + "\n", out="".join(o + "\n" for o in out), mode="lib" if lib else "core", nt={"inherited", "shared-name", "reject"} <= flags)


CHECK = P13
