"""Ports: histories over string and file ports against a byte-stream model."""
import ml, spell, steps
from ml import Sym, Str, Ch, Pair
from runner import ProgCheck

PRE = """
(define-values (drain) (lambda (p) (letrec-values ([(loop) (lambda (n acc) (let-values ([(c) (read-char p)]) (if (eof-object? c) (list->string (reverse acc)) (loop (+ n 1) (cons c acc)))))]) (loop 0 '()))))
(define-values (many) (lambda (n mk) (if (= n 0) 'done (begin (mk) (many (- n 1) mk)))))
"""


class In:
    def __init__(self, var, data):
        self.var, self.data, self.pos, self.open = var, data, 0, True


class Out:
    def __init__(self, var, name=None):
        self.var, self.name, self.buf, self.open = var, name, "", True     # name None: string port


class P18(ProgCheck):
    id = "P18"
    technique = "stateful model-based testing: generated histories over several string, file and standard ports against a byte-stream model"
    rule = ("a case is a history of about 40 operations over string and file ports; non-trivial when at least two ports are interleaved, output is read back (file reopened or string fetched twice), "
            "a datum is read between characters, and a closed port or end of input is used")
    prologue = ml.CONTINUE_ON_ERROR + PRE
    quick_s = 25

    def text(self, d):
        k = d.int(0, 3)
        if k == 0:
            return ""
        if k == 1:
            return bytes(d.list(lambda: steps.char(d).c, 1, 12)).decode("latin-1")
        sp = spell.Spell(d, 0.5)
        for _ in range(d.int(1, 3)):
            sp.gap(must=True)
            sp.datum(spell.value(d, 1))
        return sp.text()

    def gen(self, d):
        L, out = [], []
        ins, outs, disk = [], [], {}
        flags = set()
        nv = 0

        def show(e, text):
            L.append("(begin (write %s) (newline))" % e)
            out.append(text)

        stdin = self.text(d) if d.bool(0.4) else ""
        std = In(None, stdin)

        def newvar(p="p"):
            nonlocal nv
            nv += 1
            return "%s%d" % (p, nv)

        def openers():
            return [f for f in disk]

        def s(x):
            return ml.show(Str(x.encode("latin-1")))

        last = None
        used = set()
        for _ in d.repeat(40, 90):
            k = d.weighted([(2, "oi"), (2, "oo"), (1, "of"), (2, "rf"), (12, "in"), (12, "out"), (2, "close"), (1, "pred"), (1, "bad"), (1, "flush")])
            if k == "oi":
                v, t = newvar(), self.text(d)
                if d.bool(0.3) and t:
                    # the port holds its own copy of the string
                    sv = newvar("s")
                    L.append("(define-values (%s) (string-append %s \"\"))" % (sv, s(t)))
                    L.append("(define-values (%s) (open-input-string %s))" % (v, sv))
                    L.append("(string-set! %s 0 #\\!)" % sv)
                else:
                    L.append("(define-values (%s) (open-input-string %s))" % (v, s(t)))
                ins.append(In(v, t))
            elif k == "oo":
                v = newvar()
                L.append("(define-values (%s) (open-output-string))" % v)
                outs.append(Out(v))
            elif k == "of":
                n = d.choice(["a.txt", "b.txt", "c d.txt"])
                if any(o.name == n and o.open for o in outs) or any(i.open and getattr(i, "name", None) == n for i in ins):
                    continue
                v = newvar()
                L.append('(define-values (%s) (open-output-file "%s"))' % (v, n))
                outs.append(Out(v, n))
                disk[n] = ""
            elif k == "rf":
                names = [n for n in disk if not any(o.name == n and o.open for o in outs)]
                if not names:
                    if d.bool(0.1):
                        show('(open-input-file "nosuch/file")', "!exn")
                        show('(open-output-file "nosuch/file")', "!exn")
                    continue
                n = d.choice(names)
                v = newvar()
                L.append('(define-values (%s) (open-input-file "%s"))' % (v, n))
                p = In(v, disk[n])
                p.name = n
                ins.append(p)
                flags.add("readback")
            elif k == "in":
                cand = [p for p in ins if p.open] * 4 + [p for p in ins if not p.open] + [std]
                p = d.choice(cand)
                arg = " " + p.var if p.var else d.choice(["", " (current-input-port)"])
                op = d.weighted([(6, "read-char"), (4, "peek-char"), (1, "char-ready?"), (4, "read"), (1, "drain")])
                if op == "char-ready?" and p is std:
                    op = "peek-char"
                if not p.open:
                    flags.add("closed")
                    if op == "drain":
                        op = "read-char"
                    show("(%s%s)" % (op, arg), "!exn")
                    continue
                if used - {p}:
                    flags.add("interleaved")
                used.add(p)
                rest = p.data[p.pos:]
                if not rest:
                    flags.add("eof")
                if op == "read-char":
                    show("(read-char%s)" % arg, ml.show(Ch(ord(rest[0]))) if rest else "#<eof>")
                    p.pos += bool(rest)
                elif op == "peek-char":
                    show("(peek-char%s)" % arg, ml.show(Ch(ord(rest[0]))) if rest else "#<eof>")
                elif op == "char-ready?":
                    show("(char-ready?%s)" % arg, "#t" if rest else "#f")
                elif op == "read":
                    r = spell.Reader(rest)
                    try:
                        x = r.read()
                    except (spell.Bad, spell.Unspec):
                        continue
                    show("(read%s)" % arg, "#<eof>" if x is None else ml.show(x))
                    p.pos += r.i
                    flags.add("datum")
                else:
                    show("(drain %s)" % (p.var or "(current-input-port)"), s(rest))
                    p.pos = len(p.data)
            elif k == "out":
                if not outs:
                    continue
                p = d.choice([o for o in outs if o.open] * 4 + [o for o in outs if not o.open])
                op = d.weighted([(4, "put-char"), (4, "put-string"), (3, "write"), (3, "display"), (2, "newline"), (2, "fprintf"), (5, "get"), (1, "put-datum")])
                if op == "get":
                    if p.name is not None:
                        show("(get-output-string %s)" % p.var, "!argument")
                    elif not p.open:
                        show("(get-output-string %s)" % p.var, "!exn")
                        flags.add("closed")
                    else:
                        show("(get-output-string %s)" % p.var, s(p.buf))
                        if getattr(p, "fetched", False):
                            flags.add("readback")
                        p.fetched = True
                        p.buf = ""
                    continue
                if op == "put-char":
                    c = steps.char(d)
                    e, t = d.choice(["(put-char %s %s)", "(put-char %s %s)"]) % (p.var, ml.show(c)), chr(c.c)
                    if d.bool():
                        e = "(write-char %s %s)" % (ml.show(c), p.var)
                elif op == "put-string":
                    x = steps.string(d, 30)
                    t = x.b.decode("latin-1")
                    a = d.int(0, len(t))
                    b = d.int(0, len(t) - a)
                    e, t = d.choice([("(put-string %s %s)" % (p.var, s(t)), t), ("(put-string %s %s %d)" % (p.var, s(t), a), t[a:]), ("(put-string %s %s %d %d)" % (p.var, s(t), a, b), t[a:a + b])])
                elif op == "newline":
                    e, t = "(newline %s)" % p.var, "\n"
                else:
                    x = denul(spell.value(d, 2))
                    if op == "write":
                        e, t = "(write %s %s)" % (ml.fresh(x), p.var), ml.show(x)
                    elif op == "put-datum":
                        e, t = "(put-datum %s %s)" % (p.var, ml.fresh(x)), ml.show(x)
                    elif op == "display":
                        e, t = "(display %s %s)" % (ml.fresh(x), p.var), ml.show(x, True)
                    else:
                        e, t = "(fprintf %s \"<~a~%%~s>\" %s 'k)" % (p.var, ml.fresh(x)), "<%s\nk>" % ml.show(x, True)
                if not p.open:
                    if not t:
                        continue        # nothing to write
                    flags.add("closed")
                    # what a compound printer returns after a failed write is not fixed; a single one's is
                    if op in ("put-char", "newline"):
                        show(e, "!exn")
                    continue
                if used - {p}:
                    flags.add("interleaved")
                used.add(p)
                L.append(e if d.bool(0.8) or op == "x" else "(begin (write (void? %s)) (newline))" % e)
                if L[-1] != e:
                    out.append("#t")
                p.buf += t
                if p.name is not None:
                    pass
            elif k == "flush":
                c = [o for o in outs if o.open and o.name]
                if not c:
                    continue
                p = d.choice(c)
                L.append("(flush-output-port %s)" % p.var)
                show('(drain (open-input-file "%s"))' % p.name, s(p.buf))
                flags.add("readback")
            elif k == "close":
                c = ins + outs
                if not c:
                    continue
                p = d.choice(c)
                L.append("(close-%s-port %s)" % ("input" if isinstance(p, In) else "output", p.var))
                if isinstance(p, Out) and p.open and p.name:
                    disk[p.name] = p.buf
                p.open = False
            elif k == "pred":
                c = ins + outs
                if not c:
                    continue
                p = d.choice(c)
                show("(list (input-port? %s) (output-port? %s))" % (p.var, p.var), "(%s %s)" % (("#t", "#f") if isinstance(p, In) else ("#f", "#t")))
                if isinstance(p, Out):
                    show("(string-port? %s)" % p.var, "#t" if p.name is None else "#f")
            elif k == "bad":
                # wrong kind of port or argument
                e = []
                for p in outs[-2:]:
                    e += ["(read-char %s)" % p.var, "(read %s)" % p.var, "(peek-char %s)" % p.var, "(close-input-port %s)" % p.var, "(put-char %s 1)" % p.var]
                for p in ins[-2:]:
                    e += ["(put-char %s #\\a)" % p.var, "(get-output-string %s)" % p.var, "(close-output-port %s)" % p.var, "(flush-output-port %s)" % p.var, "(newline %s)" % p.var]
                e += ["(read-char 'x)", "(open-input-string 5)", "(open-input-file 'a)", "(open-output-file 1)", "(get-output-string \"a\")", "(put-string 1 \"a\")"]
                show(d.choice(e), "!argument")
        # what reached the disk
        for o in outs:
            if o.open and o.name:
                L.append("(close-output-port %s)" % o.var)
                disk[o.name] = o.buf
        for n in sorted(disk):
            show('(drain (open-input-file "%s"))' % n, s(disk[n]))
        return dict(prog="\n".join(L) + "\n", out="".join(o + "\n" for o in out), stdin=stdin,
                    nt={"interleaved", "readback", "datum"} <= flags and bool(flags & {"closed", "eof"}))

    def fixed(self):
        F = []
        for mk in ['(lambda () (open-input-string "abc"))', "(lambda () (open-output-string))", '(lambda () (format "~a" 1))', '(lambda () (open-input-file "data.txt"))']:
            # ports nobody holds do not use up the process's descriptors
            F.append(dict(prog="(begin (write (many 25000 %s)) (newline))\n" % mk, out="done\n", files={"data.txt": "x"}, nt=True))
        return F


def denul(x):
    if isinstance(x, Ch) and x.c == 0:
        return Ch(7)
    if isinstance(x, ml.Pair):
        return ml.Pair(denul(x.car), denul(x.cdr))
    if isinstance(x, ml.Vec):
        return ml.Vec([denul(y) for y in x.v])
    if isinstance(x, ml.Box):
        return ml.Box(denul(x.v))
    return x


CHECK = P18
