"""Fixnum arithmetic, comparison, predicates, number/string conversion and numeric literals."""
import ml, steps
from steps import call, fixnum
from runner import ProgCheck

NARY = ["+", "-", "*", "/"]
CMP = ["=", "<", ">", "<=", ">="]
UN = ["add1", "sub1"]
PRED = ["zero?", "negative?", "positive?", "non-negative?", "negative-integer?", "positive-integer?", "non-negative-integer?",
        "integer?", "number?", "fixnum?"]


class P03(ProgCheck):
    id = "P03"
    technique = "generated expressions over boundary-biased fixnums against exact big-integer arithmetic reduced modulo 2^64"
    rule = ("a case is about 30 steps of nested arithmetic, comparison, conversion and literal-reading expressions; non-trivial when it has an operation "
            "whose exact result leaves the 64-bit range or a division with operands of different sign, and at least 8 distinct operations")
    prologue = ml.CONTINUE_ON_ERROR
    quick_s = 35

    def operand(self, d, depth):
        if d.bool(0.02):
            return steps.value(d, 1)      # wrong type now and then
        if depth > 0 and d.bool(0.3):
            return self.num(d, depth - 1)
        return fixnum(d)

    def num(self, d, depth):
        k = d.weighted([(4, 0), (3, 1), (3, 2), (1, 3)])
        if k == 0:
            op = d.choice(["+", "-", "*"])
            n = d.weighted([(5, 2), (2, 3), (1, 1), (1, 0), (1, 4), (1, 6), (1, 9)])
            if op == "-":
                n = max(1, n)
            return call(op, *[self.operand(d, depth) for _ in range(n)])
        if k == 1:
            return call("/", *[self.divisor(d, depth, i) for i in range(d.weighted([(6, 2), (1, 1), (2, 3), (1, 5)]))])
        if k == 2:
            return call(d.choice(["remainder", "modulo"]), self.operand(d, depth), self.divisor(d, depth, 1))
        return call(d.choice(UN), self.operand(d, depth))

    def divisor(self, d, depth, i):
        if i and d.bool(0.5):
            return d.choice([1, -1, 2, -2, 3, -3, 7, -7, 10, -10, 0])
        return self.operand(d, depth)

    def gen(self, d):
        p = steps.Prog(d)
        
        for _ in d.repeat(30, 60):
            k = d.weighted([(6, 0), (3, 1), (2, 2), (2, 3), (1, 4), (1, 5)])
            if k == 0:
                p.show(self.num(d, 2))
            elif k == 1:
                n = d.weighted([(5, 2), (1, 1), (2, 3), (1, 5)])
                xs = [self.operand(d, 1) for _ in range(n)]
                if d.bool(0.6):        # make ties and chains likely
                    base = fixnum(d)
                    op = d.choice(["add", "same", "mono"])
                    xs = [ml.wrap(base + {"add": d.int(-1, 1), "same": 0, "mono": i}[op]) for i in range(n)]
                    if d.bool(0.3):
                        xs.reverse()
                p.show(call(d.choice(CMP), *xs))
            elif k == 2:
                p.show(call(d.choice(PRED), fixnum(d)) if d.bool(0.8) else call(d.choice(PRED[1:]), steps.value(d, 1)))
            elif k == 3:
                p.show(call("string->number", call("number->string", self.num(d, 1)))) if d.bool() else p.show(call("number->string", fixnum(d)))
            elif k == 4:
                # literals: decimal with sign and leading zeros, hexadecimal in both cases
                n = fixnum(d)
                t = d.choice(["%d" % n, ("-" if n < 0 else "+") + "%d" % abs(n), ("-" if n < 0 else "") + "000%d" % abs(n),
                              "#x%x" % (n & (2 ** 63 - 1)), "#x%X" % (n & (2 ** 63 - 1))])
                v = int(t[2:], 16) if t.startswith("#x") else int(t)
                if ml.wrap(v) != v:
                    continue
                p.lines.append("(begin (write (list %s '%s)) (newline))" % (t, t))
                p.out.append("(%d %d)" % (v, v))
            else:
                n = fixnum(d)
                p.show(call("string->number", ml.Str(d.choice(["%d", "+%d", "00%d"]) % abs(n) if n >= 0 else "%d" % n)))
        txt = "\n".join(p.lines)
        big = any(len(w.strip("()-")) >= 16 for w in txt.split())
        return p.case(big and len(p.used) >= 8, tags=sorted(p.used) + ["error-step"] * p.errors)

    def run(self, case):
        for t in case.get("tags", []):
            self.tag(t)
        return super().run(case)


CHECK = P03
