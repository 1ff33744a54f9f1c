"""The reader: every spelling of a datum reads as that datum; malformed text is an error; never a crash."""
import ml, server, spell
from ml import Sym, Pair, Vec
from runner import Check, ProgCheck, Fail, boot_server

READ = ml.EXIT_ON_ERROR + """
(define-values (show) (lambda (x) (begin (write x) (newline))))
(define-values (all) (lambda (p) (let-values ([(x) (read p)]) (if (eof-object? x) (begin (display "eof") (newline)) (begin (show x) (all p))))))
"""
WRITE_STRING = "(display \"eof\")"


class P07(ProgCheck):
    id = "P07"
    technique = "generated data with random spellings (round trip), generated malformed text, and byte-mutated text against an independent reader, under AddressSanitizer"
    rule = ("a case is a text of several data in random spelling read through a file port, a string port, load or as program text, or a malformed or mutated text; non-trivial when it uses at "
            "least three of comments, datum comments, escapes, alternative number spellings, brackets, dots, quotes, raw characters; or is malformed after a well-formed prefix")
    variant = "asan"
    quick_s = 35
    timeout = 20.0

    def gen(self, d):
        k = d.weighted([(5, self.good), (3, self.bad), (3, self.mutated), (1, self.big)])
        return k(d)

    def prog(self, text, route, d=None):
        if route == "file":
            return dict(prog=READ + '(all (open-input-file "data.txt"))\n', files={"data.txt": text})
        if route == "string":
            return dict(prog=READ + "(all (open-input-string %s))\n" % ml.show(ml.Str(text)))
        raise ValueError(route)

    def good(self, d):
        sp = spell.Spell(d)
        vals, text, chars = [], "", []
        n = d.int(1, 6)
        route = d.weighted([(4, "file"), (3, "string"), (2, "text"), (1, "load"), (2, "chars")])
        if route in ("text", "load"):
            lines, out = [], []
            for _ in range(n):
                x = spell.value(d)
                out.append(ml.show(x))
                s1 = spell.Spell(d)
                s1.gap()
                s1.emit("(", False)
                s1.datum(Sym("show"))
                s1.gap()
                s1.emit("'", False)
                s1.datum(x)
                s1.gap()
                s1.emit(")", False)
                sp.kinds |= s1.kinds
                lines.append(s1.text())
            body = "\n".join(lines) + d.choice(["\n", "", " ", "\n; end", "\n#| end |#", "\n#;end"])
            c = dict(prog=READ + body) if route == "text" else dict(prog=READ + '(load "data.min")\n', files={"data.min": body})
            self.tag("route-" + route)
            return dict(c, out="".join(o + "\n" for o in out), nt=len(sp.kinds) >= 3)
        seq = []
        for i in range(n):
            x = spell.value(d)
            sp.gap(must=i > 0 and d.bool(0.7))
            sp.datum(x)
            vals.append(x)
            seq.append(len(sp.text()))
        sp.gap()
        t = sp.text()
        got, end = spell.read_all(t)
        if end == "eof" and [ml.show(x) for x in got] != [ml.show(x) for x in vals]:
            raise AssertionError("spelling generator and reader disagree on %r" % t)
        self.tag("route-" + route)
        if route == "chars":
            # reading stops right after the datum: the next character is the next one of the text
            L, out = [], []
            for x, e in zip(vals, seq):
                L.append("(show (read p))")
                out.append(ml.show(x))
                nx = t[e:e + 1]
                L.append("(show (peek-char p))")
                out.append(ml.show(ml.Ch(ord(nx))) if nx else "#<eof>")
                if nx and nx in spell.WS:
                    L.append("(show (read-char p))")
                    out.append(ml.show(ml.Ch(ord(nx))))
            return dict(prog=READ + '(define-values (p) (open-input-file "data.txt"))\n' + "\n".join(L) + "\n", files={"data.txt": t},
                        out="".join(o + "\n" for o in out), nt=len(sp.kinds) >= 3)
        c = self.prog(t, route)
        return dict(c, out="".join(ml.show(x) + "\n" for x in vals) + "eof\n", nt=len(sp.kinds) >= 3)

    def bad(self, d):
        sp = spell.Spell(d)
        pre = d.list(lambda: spell.value(d, 2), 0, 3)
        for x in pre:
            sp.gap(must=True)
            sp.datum(x)
        sp.gap(must=True)
        k = d.int(0, 9)
        x = spell.value(d, 2)
        s2 = spell.Spell(d)
        if k <= 3:
            # every strict prefix of a compound datum is incomplete
            y = ml.lst(d.list(lambda: spell.value(d, 2), 1, 4)) if d.bool(0.7) else Vec(d.list(lambda: spell.value(d, 2), 1, 4))
            s2.datum(y)
            t = s2.text()
            if t[:1] == "'" or t[:2] == "#'":
                raise_cut = len(t.rstrip())
            cut = d.int(1, len(t) - 1)
            t = t[:cut]
            kind = "truncated"
        elif k == 4:
            t = d.choice(["'", "#'", "#&", "#;", "#|", "#| |", "#| #| |#", '"abc', '"abc\\', "(a . ", "#(1 2", "#", "#\\"]) + d.choice(["", " ", "\n"])
            if t.startswith("#\\") and len(t) > 2:
                t = "#\\"
            if t.startswith("#") and len(t) == 2 and t[1] in " \n":
                t = "#"
            kind = "eof"
        elif k == 5:
            o, c = d.choice([("(", "]"), ("(", "}"), ("[", ")"), ("[", "}"), ("{", ")"), ("{", "]"), ("#(", "]"), ("#(", "}")])
            s2.datum(x)
            t = o + s2.text() + " " + c
            kind = "mismatch"
        elif k == 6:
            t = d.choice([")", "]", "}"])
            kind = "stray"
        elif k == 7:
            t = d.choice(["#z", "#1", "#)", "#[1]", "#{1}", "# 1", '#"a"', "#a", "#@", "##", "#T", "#F", "#X1", "#?"])
            kind = "hash"
        elif k == 8:
            t = d.choice(['"a\\', '"\\']) + d.choice("czqx0189 \n(") + '"'
            kind = "escape"
        else:
            t = d.choice(["#\\spacex", "#\\newlin", "#\\spqr", "#\\nulx", "#\\tabs", "#\\ab", "#\\x41", "#\\de", "#\\delet", "#\\pagex", "#\\((", "(a . b c)", "(a . b . c)", "(a . )", "(a .\n)", "#\\aa", "#\\11"]
                         ) + d.choice(["", " ", " 1"])
            if t.startswith("#\\((") and len(t) > 4:
                t = "#\\(x"
            kind = "form"
        t = sp.text() + t
        got, end = spell.read_all(t)
        if end == "open" or (end == "eof"):
            # (cutting an abbreviation or a token may leave a complete datum)
            if end == "open":
                return self.good(d)
        if end == "error":
            self.tag("bad-" + kind)
            c = self.prog(t, d.choice(["file", "string"]))
            return dict(c, out="".join(ml.show(x) + "\n" for x in got) + "!exn\n", code=3, nt=len(got) > 0)
        c = self.prog(t, "file")
        return dict(c, out="".join(ml.show(x) + "\n" for x in got) + "eof\n", nt=False)

    def mutated(self, d):
        sp = spell.Spell(d)
        for _ in range(d.int(1, 4)):
            sp.gap(must=True)
            sp.datum(spell.value(d, 3))
        t = list(sp.text())
        for _ in range(d.weighted([(5, 1), (2, 2), (2, 4), (1, 12)])):
            i = d.int(0, len(t))
            k = d.int(0, 4)
            b = d.weighted([(6, lambda: d.choice("()[]{}#\\\"';.|&x %+-09atnul \n\t")), (1, lambda: chr(d.int(1, 255)))])()
            if k == 0 and t:
                t[min(i, len(t) - 1)] = b
            elif k == 1:
                t.insert(i, b)
            elif k == 2 and t:
                del t[min(i, len(t) - 1)]
            elif k == 3:
                j = min(len(t), i + d.int(1, 8))
                t[i:i] = t[i:j]
            else:
                t = t[:i] if d.bool(0.3) else t[i:]
        t = "".join(t)
        got, end = spell.read_all(t)
        self.tag("mutated-" + end)
        c = self.prog(t, "file")
        base = "".join(ml.show(x) + "\n" for x in got)
        if end == "open":
            return dict(c, out=base, prefix=True, nt=False)
        if end == "error":
            return dict(c, out=base + "!exn\n", code=3, nt=len(got) > 0)
        return dict(c, out=base + "eof\n", nt=len(sp.kinds) >= 3)

    def big(self, d):
        k = d.int(0, 6)
        n = d.choice([1, 15, 16, 255, 256, 1023, 1024, 2000, 4000])
        if k == 0:
            x = Sym("s" * n)
            t = str(x)
        elif k == 1:
            x = ml.Str(b"q" * n)
            t = ml.show(x)
        elif k == 2:
            x = ml.lst(range(n * 4))
            t = ml.show(x)
        elif k == 3:
            x = Vec(range(n * 4))
            t = ml.show(x)
        elif k == 4:
            n = min(n, 2000)
            o, c = d.choice(["()", "[]", "{}"])
            t = o * n + "x" + c * n
            out = "(" * n + "x" + ")" * n
            return dict(self.prog(t, "file"), out=out + "\neof\n", nt=True)
        elif k == 5:
            n = min(n, 2000)
            return dict(self.prog("#|" * n + " x " + "|#" * n + " 7", "file"), out="7\neof\n", nt=True)
        else:
            n = d.choice([20, 100, 4000])
            x = 12345678
            t = "0" * n + str(x)
        text = d.choice(["", " ", "(a) "]) + t
        return dict(self.prog(text, d.choice(["file", "string"]) if n < 1000 and k != 2 and k != 3 else "file"),
                    out=("(a)\n" if text.startswith("(a)") else "") + ml.show(x) + "\neof\n", nt=True)

    def run(self, case):
        if case.get("prefix"):
            r = self.exec(case["prog"], files=case.get("files"))
            if r.timeout:
                raise Fail("timeout", "no answer\ntext: %r" % case["files"])
            if r.crashed or r.code not in (0, 3):
                raise Fail("crash", "%s\ntext: %r" % (r.describe(), case["files"]))
            if not r.text.startswith(case["out"]):
                raise Fail("output", "expected to start with %r, got %r\ntext: %r" % (case["out"], r.text, case["files"]))
            return False, None
        try:
            return super().run(case)
        except Fail as f:
            f.msg = "text: %r\n%s" % (case.get("files"), f.msg)
            raise

    def fixed(self):
        F = []
        for t, out, code in [("", "eof\n", 0), ("; only a comment", "eof\n", 0), ("#| only |#", "eof\n", 0), ("(1 ; c\n)", "(1)\neof\n", 0), ("(1 #;2)", "(1)\neof\n", 0),
                             ("(1 . 2 #;3)", "(1 . 2)\neof\n", 0), ("#;1", "eof\n", 0), ("-9223372036854775808 9223372036854775807", "-9223372036854775808\n9223372036854775807\neof\n", 0)]:
            F.append(dict(self.prog(t, "file"), out=out, code=code, nt=False))
        for n in (4096, 5000, 20000):
            # a token may be refused for its length, but never cut or mixed up
            F.append(dict(self.prog("1 " + "a" * n, "file"), out="1\n", prefix=True, nt=False))
            F.append(dict(self.prog('1 "' + "a" * n + '"', "file"), out="1\n", prefix=True, nt=False))
        return F


CHECK = P07
