"""External representations: a generator of random spellings of a datum, and an independent reader.

Both follow the language's documented lexical syntax:
  datum    := atom | ( datum* ) | ( datum+ . datum ) | #( datum* ) | #& datum | ' datum | #' datum
  brackets := () [] {} (a vector closes with a parenthesis)
  atmosphere := whitespace | ; line comment | #| nested block comment |# | #; datum
"""
import ml
from ml import Sym, Str, Ch, Pair, Vec, Box, NIL

WS = " \t\n\r\f\v"
DELIM = set(WS + "()[]{}\";")
NAMES = {"alarm": 7, "backspace": 8, "delete": 127, "esc": 27, "linefeed": 10, "newline": 10, "nul": 0, "page": 12,
         "return": 13, "space": 32, "tab": 9, "vtab": 11}
ESC = {"n": 10, "t": 9, "a": 7, "b": 8, "f": 12, "r": 13, "v": 11, "\\": 92, "'": 39, '"': 34}
MAXTOK = 4096


# ------------------------------------------------------------------ values to spell

def symname(d):
    k = d.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
    first = "abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/:<=>?^_~"
    rest = first + "0123456789+-.#'|\\,`@"
    if k == 0:
        return d.choice(first) + "".join(d.list(lambda: d.choice(rest), 0, 8))
    if k == 1:
        return d.choice(["+", "-", "...", "-a", "+a", "1+", "-5a", "+5-", "5a", "12x", "0x1f", "..", ".a", "-.", "+.5", "-1.5", "1.5", "a.b", "--", "->x", "#%foo", "#%a#", "a#b", "a'b", "a|b|", "1#", "007b", "9-"])
    if k == 2:
        return "".join(d.list(lambda: chr(d.choice(list(range(128, 256)) + [1, 2, 14, 31, 127])), 1, 5))
    return d.choice(first) * d.int(1, 300)


def value(d, depth=3):
    k = d.weighted([(3, 0), (1, 1), (4, 2), (2, 3), (3, 4), (1, 5)] + ([(5, 6), (2, 7), (2, 8), (1, 9), (1, 10)] if depth > 0 else []))
    if k == 0:
        import steps
        return steps.fixnum(d)
    if k == 1:
        return d.bool()
    if k == 2:
        return Sym(symname(d))
    if k == 3:
        return Ch(d.weighted([(3, lambda: d.int(33, 126)), (2, lambda: d.choice(list(NAMES.values()))), (1, lambda: d.int(1, 31)), (1, lambda: d.int(128, 255)),
                              (2, lambda: d.choice([ord(c) for c in "abdelnprstv0xU()[]{}\";#'\\,"]))])())
    if k == 4:
        n = d.weighted([(6, lambda: d.int(0, 10)), (1, lambda: d.int(10, 200))])()
        return Str(bytes(d.weighted([(4, lambda: d.int(32, 126)), (3, lambda: d.choice(list(ESC.values()))), (1, lambda: d.int(1, 255))])() for _ in range(n)))
    if k == 5:
        return NIL
    if k == 6:
        return ml.lst(d.list(lambda: value(d, depth - 1), 0, 5))
    if k == 7:
        return ml.lst(d.list(lambda: value(d, depth - 1), 1, 3), value(d, depth - 1))
    if k == 8:
        return Vec(d.list(lambda: value(d, depth - 1), 0, 4))
    if k == 9:
        return Box(value(d, depth - 1))
    return ml.lst([Sym(d.choice(["quote", "quote-syntax"])), value(d, depth - 1)])


# ------------------------------------------------------------------ spelling

class Spell:
    """Builds text token by token; keeps the rule that some tokens need a delimiter after them."""

    def __init__(self, d, rich=1.0, canonical_syntax_quote=True, module=False):
        self.d, self.out, self.rich, self.module = d, [], rich, module
        self.pending = False        # last token needs a delimiter next
        self.kinds = set()

    def text(self):
        return "".join(self.out)

    def emit(self, s, needs):
        if self.pending and s[0] not in DELIM:
            self.ws()
        self.out.append(s)
        self.pending = needs

    def ws(self):
        self.out.append("".join(self.d.choice(WS if self.d.bool(0.5) else " ") for _ in range(self.d.int(1, 2))))
        self.pending = False

    def gap(self, must=False):
        """Atmosphere between tokens (maybe empty)."""
        d = self.d
        if must:
            self.ws()
        if not d.bool(0.5 * self.rich):
            return
        for _ in range(d.int(1, 2)):
            k = d.weighted([(5, 0), (1, 1), (1, 2), (1, 3)])
            if k == 0:
                self.ws()
            elif k == 1:
                self.kinds.add("line-comment")
                self.out.append(";" + "".join(d.list(lambda: d.choice("ab ()[]\"#|;'.\\\t"), 0, 8)) + "\n")
                self.pending = False
            elif k == 2:
                self.kinds.add("block-comment")
                self.emit(self.block(2), False)
            elif self.rich > 0.2:
                self.kinds.add("datum-comment")
                self.emit("#;", False)
                r, self.rich = self.rich, self.rich * 0.4
                self.datum(value(d, 1))
                self.rich = r

    def block(self, depth):
        d = self.d
        s = ["#|"]
        for _ in range(d.int(0, 4)):
            k = d.weighted([(5, 0), (1 if depth else 0, 1)])
            s.append(d.choice(["a", " ", "\n", ";", '"', "(", ")", "x y", "# ", "| ", "'", "\\", "|| ", "## "]) if k == 0 else self.block(depth - 1))
        return "".join(s) + "|#"

    def datum(self, x):
        d = self.d
        if isinstance(x, bool):
            self.emit("#t" if x else "#f", True)
        elif isinstance(x, int):
            self.emit(self.number(x), True)
        elif isinstance(x, Sym):
            self.emit(str(x), True)
        elif isinstance(x, Ch):
            names = [n for n, c in NAMES.items() if c == x.c]
            if names and d.bool(0.6) or x.c == 0:
                self.emit("#\\" + d.choice(names), True)
            else:
                self.kinds.add("raw-char")
                self.emit("#\\" + chr(x.c), True)
        elif isinstance(x, Str):
            s = []
            for c in x.b:
                e = [k for k, v in ESC.items() if v == c]
                if c in (34, 92) or (e and d.bool(0.6)):
                    s.append("\\" + e[0])
                    self.kinds.add("escape")
                else:
                    s.append(chr(c))
            self.emit('"' + "".join(s) + '"', self.module)
        elif x is NIL:
            o, c = self.bracket()
            self.emit(o, False)
            self.gap()
            self.emit(c, self.module)
        elif isinstance(x, Pair):
            q = x.car if isinstance(x.car, Sym) and isinstance(x.cdr, Pair) and x.cdr.cdr is NIL else None
            if q == "quote" and d.bool(0.7):
                self.emit("'", False)
                self.kinds.add("quote")
                self.gap()
                self.datum(x.cdr.car)
                return
            if q == "quote-syntax" and not self.module and d.bool(0.7):
                self.emit("#'", False)
                self.kinds.add("quote-syntax")
                self.gap()
                self.datum(x.cdr.car)
                return
            o, c = self.bracket()
            self.emit(o, False)
            while True:
                self.gap()
                self.datum(x.car)
                x = x.cdr
                if not isinstance(x, Pair):
                    break
                if d.bool(0.1):
                    break               # the tail may be spelled (a . (b c))
            if x is not NIL:
                self.kinds.add("dot")
                self.gap(must=True)
                if self.pending:
                    self.ws()
                self.emit(".", True)
                self.ws()
                self.gap()
                self.datum(x)
            self.gap()
            self.emit(c, self.module)
        elif isinstance(x, Vec):
            self.emit("#(", False)
            for y in x.v:
                self.gap()
                self.datum(y)
            self.gap()
            self.emit(")", self.module)
        elif isinstance(x, Box):
            self.emit("#&", False)
            self.gap()
            self.datum(x.v)
        else:
            raise TypeError(x)

    def bracket(self):
        b = self.d.choice(["()", "()", "[]", "{}"])
        if b != "()":
            self.kinds.add("bracket")
        return b[0], b[1]

    def number(self, n):
        d = self.d
        k = d.int(0, 9)
        if k <= 5:
            return str(n)
        sign = "-" if n < 0 else d.choice(["", "+"])
        z = "0" * d.int(0, 4)
        if k <= 7:
            self.kinds.add("odd-number")
            return sign + z + str(abs(n))
        self.kinds.add("hex")
        h = "%x" % abs(n)
        return "#x" + sign + z + (h.upper() if d.bool() else h)


# ------------------------------------------------------------------ an independent reader

class Bad(Exception):
    """Malformed input."""


class Unspec(Exception):
    """Input the syntax leaves open."""


class Reader:
    def __init__(self, s):
        self.s, self.i, self.depth = s, 0, 0

    def peek(self, k=0):
        return self.s[self.i + k] if self.i + k < len(self.s) else ""

    def atmosphere(self):
        """True if it met a datum comment or so; stops at the next token."""
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in WS:
                self.i += 1
            elif c == ";":
                while self.i < len(s) and s[self.i] != "\n":
                    self.i += 1
            elif c == "#" and self.peek(1) == "|":
                self.i += 2
                lv = 1
                while lv:
                    two = s[self.i:self.i + 2]
                    if not two:
                        raise Bad("block comment")
                    if two == "#|":
                        lv, self.i = lv + 1, self.i + 2
                    elif two == "|#":
                        lv, self.i = lv - 1, self.i + 2
                    else:
                        self.i += 1
            elif c == "#" and self.peek(1) == ";":
                self.i += 2
                self.must()
            else:
                return

    def must(self):
        x = self.read()
        if x is None:
            raise Bad("end of input")
        return x

    def token(self):
        j = self.i
        while j < len(self.s) and self.s[j] not in DELIM:
            j += 1
        return self.s[self.i:j]

    def delim(self):
        if self.i < len(self.s) and self.s[self.i] not in DELIM:
            raise Bad("delimiter")

    def seq(self, close, dots):
        items, tail = [], None
        self.depth += 1
        if self.depth > 150:
            raise Unspec("deep")
        while True:
            self.atmosphere()
            c = self.peek()
            if c == "":
                raise Bad("eof in sequence")
            if c in ")]}":
                if c != close:
                    raise Bad("mismatch")
                self.i += 1
                self.depth -= 1
                return items, tail
            if tail is not None:
                self.must()
                raise Bad("after tail")
            if c == ".":
                t = self.token()
                if t == ".":
                    n = self.peek(1)
                    if not dots or not items or n == "" or n not in WS:
                        raise Unspec("dot")
                    self.i += 1
                    tail = self.must()
                    continue
            items.append(self.must())

    def read(self):
        """A datum, or None at the end of input."""
        self.atmosphere()
        c = self.peek()
        if c == "":
            return None
        if c == "\0":
            raise Unspec("nul")
        if c in ")]}":
            raise Bad("stray closer")
        if c in "([{":
            self.i += 1
            items, tail = self.seq({"(": ")", "[": "]", "{": "}"}[c], True)
            return ml.lst(items, NIL if tail is None else tail)
        if c == "'":
            self.i += 1
            return ml.lst([Sym("quote"), self.must()])
        if c == '"':
            self.i += 1
            b = []
            while True:
                c = self.peek()
                if c == "":
                    raise Bad("eof in string")
                self.i += 1
                if c == '"':
                    break
                if c == "\0":
                    raise Unspec("nul")
                if c == "\\":
                    e = self.peek()
                    if e not in ESC:
                        raise Bad("escape")
                    self.i += 1
                    b.append(ESC[e])
                else:
                    b.append(ord(c))
                if len(b) > MAXTOK - 3:
                    raise Unspec("long")
            return Str(bytes(b))
        if c == "#":
            n = self.peek(1)
            if n == "":
                raise Bad("eof after #")
            if n == "%":
                return self.symbol()
            self.i += 2
            if n in "tf":
                if self.token():
                    raise Unspec("#t without delimiter")
                return n == "t"
            if n == "(":
                return Vec(self.seq(")", False)[0])
            if n == "&":
                return Box(self.must())
            if n == "'":
                return ml.lst([Sym("quote-syntax"), self.must()])
            if n == "\\":
                c = self.peek()
                if c == "":
                    raise Bad("eof in character")
                if c == "\0":
                    raise Unspec("nul")
                self.i += 1
                t = c + self.token()
                if c in DELIM:
                    if len(t) > 1:
                        raise Bad("delimiter")
                    return Ch(ord(c))
                self.i += len(t) - 1
                if len(t) == 1:
                    return Ch(ord(t))
                if t in NAMES:
                    return Ch(NAMES[t])
                raise Bad("character name")
            if n == "x":
                t = self.token()
                self.i += len(t)
                m = t[1:] if t[:1] in ("+", "-") else t
                if not m or any(x not in "0123456789abcdefABCDEF" for x in m) or int(m, 16) > 2 ** 63 - (t[0] != "-"):
                    raise Unspec("hex")
                return int(t, 16)
            raise Bad("unknown #")
        return self.symbol()

    def symbol(self):
        t = self.token()
        if "\0" in t or len(t) > MAXTOK - 3:
            raise Unspec("nul or long")
        if t == ".":
            raise Unspec("dot")
        self.i += len(t)
        m = t[1:] if t[0] in "+-" else t
        if m and all(x in "0123456789" for x in m):
            if int(m) > 2 ** 63 - (t[0] != "-"):
                raise Unspec("overflow")
            return int(t)
        return Sym(t)


def read_all(s):
    """(data, 'eof' | 'error' | 'open'): what reading s to the end gives."""
    r, out = Reader(s), []
    try:
        while True:
            x = r.read()
            if x is None:
                return out, "eof"
            out.append(x)
    except Bad:
        return out, "error"
    except Unspec:
        return out, "open"
