"""Module text: what the module reader reads is what the core reader reads."""
import ml, spell
from ml import Sym, Pair, Vec, Box
from runner import ProgCheck


def open_to_both(x):
    """Symbols the two readers are known to treat apart are left out."""
    if isinstance(x, Sym):
        return not x.startswith("#")
    if isinstance(x, Pair):
        if isinstance(x.car, Sym) and x.car in ("quote-syntax", "syntax"):
            return False
        while isinstance(x, Pair):
            if not open_to_both(x.car):
                return False
            x = x.cdr
        return x is ml.NIL or open_to_both(x)
    if isinstance(x, Vec):
        return all(open_to_both(y) for y in x.v)
    if isinstance(x, Box):
        return open_to_both(x.v)
    return True


class P26(ProgCheck):
    id = "P26"
    mode = "lib"
    prologue = ""
    technique = "generated data in random spellings as module text, and generated truncated module text, against an independent reader; the core reader is held to the same model by P07"
    rule = ("a case is a module with 1..6 quoted data in random spelling, or one with such data followed by malformed text; non-trivial when it uses at least three of comments, datum comments, "
            "escapes, alternative number spellings, brackets, dots, quotes, raw characters, or is malformed after well-formed forms")
    quick_s = 22

    def value(self, d, depth=3):
        for _ in range(20):
            x = spell.value(d, depth)
            if open_to_both(x):
                return x
        return 0

    def gen(self, d):
        lines, out, kinds = [], [], set()
        for i in range(d.int(1, 6)):
            x = self.value(d)
            out.append(ml.show(x))
            s = spell.Spell(d, canonical_syntax_quote=True, module=True)
            s.gap()
            s.emit("(", False)
            s.datum(Sym("write"))
            s.gap()
            s.emit("'", False)
            s.datum(x)
            s.gap()
            s.emit(")", False)
            t = s.text()
            if "#'" in t or "#%" in t or "#;" in t and "quote-syntax" in t:
                continue_ok = False
            else:
                continue_ok = True
            if not continue_ok:
                out.pop()
                continue
            kinds |= s.kinds
            lines.append(t + d.choice(["", " ", "\n"]) + "(newline)")
        body = "\n".join(lines) + d.choice(["\n", "", " ", "\n; end", "\n#| end |#", "\n#;end"])
        if d.bool(0.25):
            x = ml.lst([self.value(d, 2) for _ in range(d.int(1, 3))])
            s = spell.Spell(d, module=True)
            s.datum(x)
            t = s.text()
            t = t[:d.int(1, len(t) - 1)]
            if d.bool(0.4):
                t = d.choice(["(1 2]", "[1)", "{a]", ")", "]", '"abc', '"a\\q"', "#|", "#| #| |#", "#z", "(a . b c)", "(a .)", "#\\spacex", "#;", "'", "(1 #;)", "#(1 2]", "#\\"])
            text = "\n".join(lines) + "\n" + t
            got, end = spell.read_all(text)
            if end == "error" and "#%" not in t and "#'" not in t:
                self.tag("malformed")
                return {"prog": text, "out": "", "code": 1, "nt": bool(lines)}
        return {"prog": body, "out": "".join(o + "\n" for o in out), "nt": len(kinds) >= 3}


CHECK = P26
