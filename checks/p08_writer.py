"""Printing: write, display, put-datum and formatted output against a model of the external representation; write/read round trip."""
import ml, spell, steps
from ml import Sym, Pair, Vec, Box, Str, Ch, NIL
from runner import ProgCheck

PRE = """
(define-values (&pt) (make-record-type-descriptor 'pt #f #f #f #f #((immutable x) (mutable y))))
(define-values (&wr) (make-record-type-descriptor 'wr #f #f #f #f #((immutable x))))
(define-values (mk-pt) (record-constructor &pt))
(define-values (mk-wr) (record-constructor &wr))
(define-values (wr-x) (record-accessor &wr 0))
(record-writer &wr (lambda (x p d?) (begin (put-string p "<<") (if d? (display (wr-x x) p) (write (wr-x x) p)) (put-string p ">>"))))
(define-values (again) (lambda (x) (read (open-input-string (format "~s" x)))))
(define-values (same) (lambda (x) (let-values ([(y) (again x)]) (if (equal? x y) #t (list 'differs y)))))
(define-values (to-string) (lambda (f) (let-values ([(p) (open-output-string)]) (begin (f p) (get-output-string p)))))
"""


class Opaque:
    def __init__(self, src, text):
        self.s, self.t = src, text

    def src(self):
        return self.s

    def show(self, d):
        return self.t


class WRec:
    def __init__(self, x):
        self.x = x

    def src(self):
        return "(mk-wr %s)" % ml.fresh(self.x)

    def show(self, d):
        return "<<%s>>" % ml.show(self.x, d)


class Stx:
    def __init__(self, x):
        self.x = x

    def src(self):
        return "(datum->syntax '%s)" % ml.show(self.x)

    def show(self, d):
        return "#<syntax %s>" % ml.show(self.x, d)


def opaque(d):
    return d.choice([Opaque("(void)", "#<void>"), Opaque("(read-char (open-input-string \"\"))", "#<eof>"), Opaque("car", "#<procedure>"), Opaque("(lambda (x) x)", "#<procedure>"),
                     Opaque("(make-eq-hashtable)", "#<hashtable>"), Opaque("(current-input-port)", "#<input port>"), Opaque("(open-output-string)", "#<output port>"),
                     Opaque("(mk-pt 1 2)", "#<pt>"), Opaque("&pt", "#<record-type:pt>"), Opaque("(open-input-string \"x\")", "#<input port>")])


def denul(x):
    """Strings hold no NUL (they are C strings); keep NUL characters out of formatted text."""
    if isinstance(x, Ch) and x.c == 0:
        return Ch(7)
    if isinstance(x, Pair):
        return Pair(denul(x.car), denul(x.cdr))
    if isinstance(x, Vec):
        return Vec([denul(y) for y in x.v])
    if isinstance(x, Box):
        return Box(denul(x.v))
    return x


class P08(ProgCheck):
    id = "P08"
    technique = "generated values printed by every output procedure and by generated format strings against a model of the external representation, plus write/read round trips"
    rule = ("a case prints about 15 values; non-trivial when it includes a string or character that needs escaping inside a compound value, both write and display output, "
            "a format string with at least two directives, and a round trip")
    prologue = ml.EXIT_ON_ERROR + PRE
    quick_s = 25

    def val(self, d, depth=3, readable=False):
        if not readable and d.bool(0.12):
            k = d.int(0, 5)
            if k == 0:
                return WRec(self.val(d, 1))
            if k == 1:
                return Stx(steps.value(d, 2))
            return opaque(d)
        if depth > 0 and d.bool(0.3):
            k = d.int(0, 3)
            xs = d.list(lambda: self.val(d, depth - 1, readable), 0, 4)
            if k == 0:
                return ml.lst(xs)
            if k == 1:
                return ml.lst(xs, self.val(d, depth - 1, readable)) if xs else NIL
            if k == 2:
                return Vec(xs)
            return Box(self.val(d, depth - 1, readable))
        return denul(spell.value(d, min(depth, 1)))

    def src(self, x):
        """sources keep symbols that program text can spell"""
        return ml.fresh(x)

    def gen(self, d):
        L, out = [], []
        esc = rt = fm = wd = 0

        def line(e, text):
            L.append("(begin %s (newline))" % e)
            out.append(text + "\n")

        def needs(x, top=True):
            t, u = ml.show(x), ml.show(x, True)
            return t != u and not isinstance(x, (Str, Ch))

        end = None
        for _ in d.repeat(15, 40):
            k = d.weighted([(4, "write"), (3, "display"), (1, "put-datum"), (4, "format"), (4, "same"), (3, "str"), (2, "slice"), (1, "chars")])
            x = self.val(d)
            s = self.src(x)
            if k == "write":
                esc += needs(x)
                wd |= 1
                line(d.choice(["(write %s)", "(write %s (current-output-port))", "(printf \"~~s\" %s)".replace("~~", "~"), "(fprintf (current-output-port) \"~S\" %s)", "(put-datum (current-output-port) %s)",
                               "(display (format \"~s\" %s))", "(display (to-string (lambda (p) (write %s p))))"]) % s, ml.show(x))
            elif k == "display":
                esc += needs(x)
                wd |= 2
                line(d.choice(["(display %s)", "(display %s (current-output-port))", "(printf \"~A\" %s)", "(fprintf (current-output-port) \"~a\" %s)",
                               "(display (format \"~a\" %s))", "(display (to-string (lambda (p) (display %s p))))"]) % s, ml.show(x, True))
            elif k == "put-datum":
                line("(write (to-string (lambda (p) (put-datum p %s))))" % s, ml.show(Str(ml.show(x).encode("latin-1"))))
            elif k == "format":
                fs, ft, args = "", "", []
                for _ in range(d.int(0, 6)):
                    q = d.weighted([(3, 0), (3, 1), (2, 2), (1, 3), (3, 4)])
                    if q in (0, 1):
                        y = self.val(d, 2)
                        args.append(self.src(y))
                        fs += "~" + d.choice("aA" if q == 0 else "sS")
                        ft += ml.show(y, q == 0)
                    elif q == 2:
                        fs += "~%"
                        ft += "\n"
                    elif q == 3:
                        fs += "~~"
                        ft += "~"
                    else:
                        t = steps.string(d, 6).b.decode("latin-1").replace("~", "-")
                        fs += t
                        ft += t
                fm += len(args) >= 2
                a = "".join(" " + y for y in args)
                lit = ml.show(Str(fs.encode("latin-1")))
                line(d.choice(["(printf %s%s)", "(display (format %s%s))", "(fprintf (current-output-port) %s%s)", "(display (to-string (lambda (p) (fprintf p %s%s))))"]) % (lit, a), ft)
            elif k == "same":
                x = self.val(d, 4, readable=True)
                rt += 1
                line("(write (same %s))" % self.src(x), "#t")
            elif k == "str":
                x = self.val(d, 3)
                line("(write (string-length (format \"~s\" %s)))" % self.src(x), str(len(ml.show(x))))
            elif k == "slice":
                st = steps.string(d, 10)
                n = len(st.b)
                a = d.weighted([(5, lambda: d.int(0, n)), (1, lambda: n + 1), (1, lambda: d.int(0, 2 ** 62))])()
                b = d.weighted([(5, lambda: d.int(0, max(0, n - a))), (1, lambda: n - a + 1 if n >= a else 1), (1, lambda: d.int(0, 2 ** 62))])()
                if a > n or (a + b > n):
                    L.append("(begin (put-string (current-output-port) %s %d %d) (newline))" % (ml.show(st), a, b))
                    out.append("!range\n")
                    end = True
                    break
                elif d.bool(0.3):
                    line("(put-string (current-output-port) %s %d)" % (ml.show(st), a), st.b[a:].decode("latin-1"))
                else:
                    line("(put-string (current-output-port) %s %d %d)" % (ml.show(st), a, b), st.b[a:a + b].decode("latin-1"))
            elif k == "chars":
                c = steps.char(d)
                line(d.choice(["(write-char %s)", "(write-char %s (current-output-port))", "(put-char (current-output-port) %s)", "(display %s)"]) % ml.show(c), chr(c.c))
        if not end and d.bool(0.3):
            # the last step fails: the error is raised before anything is printed
            if d.bool():
                e, kind = d.choice([("(write)", "exn"), ("(write 1 2)", "argument"), ("(write 1 (open-input-string \"\"))", "argument"), ("(display 1 'x)", "argument"), ("(put-datum 1 1)", "argument"),
                                    ("(put-char (current-output-port) 65)", "argument"), ("(put-string (current-output-port) 'a)", "argument"),
                                    ("(put-string (current-output-port) \"abc\" -1)", "argument"), ("(put-string (current-output-port) \"abc\" 'a 1)", "argument"), ("(newline 5)", "argument"),
                                    ("(write-char 97)", "argument"), ("(printf 'a)", "argument"), ("(format)", "exn"), ("(fprintf \"~a\" 1)", "argument")])
            else:
                f, a = d.choice([("~a", []), ("~a", [1, 2]), ("x", [1]), ("~q", [1]), ("~", []), ("abc~", []), ("~s~a", [1]), ("~%", [1]), ("~~", [1]), ("~d", [1]), ("~ a", [1]), ("~a~", [1])])
                e = "(%s%s \"%s\"%s)" % (d.choice([("format", ""), ("printf", ""), ("fprintf", " (current-output-port)")]) + (f, "".join(" %d" % y for y in a)))
                kind = "exn"
            L.append("(begin (write %s) (newline))" % e)
            end = "!%s\n" % kind
            out.append(end)
        return dict(prog="\n".join(L) + "\n", out="".join(out), code=3 if end else 0, nt=bool(esc and rt and fm and wd == 3))


CHECK = P08
