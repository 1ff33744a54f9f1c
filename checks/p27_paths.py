"""Paths and substrings against definitions over Python strings."""
import ml
from ml import Str, Ch, Pair, Err, Sym
from runner import ProgCheck


def path_list(p):
    """Elements of a path: separators end an element; a separator with nothing before it stands for itself."""
    out, cur = [], ""
    for c in p:
        if c != "/":
            cur += c
        elif cur:
            out.append(cur)
            cur = ""
        else:
            out.append("/")
    if cur:
        out.append(cur)
    return out


def build(parts):
    out = parts[0]
    last = parts[0]
    for p in parts[1:]:
        if p == "":
            continue
        out += p if last.endswith("/") else "/" + p
        last = p
    return out


def S(s):
    return Str(s)


class P27(ProgCheck):
    id = "P27"
    mode = "lib"
    prologue = '(import "lib/base.min")\n' + ml.CONTINUE_ON_ERROR
    technique = "model-based property testing: path and substring operations on generated strings against Python definitions, with the round trip of building what was split"
    rule = ("a case is a program of about 22 path and substring calls; non-trivial when a path of three or more elements is split or built and a substring with 0 < start < end < length is taken")
    quick_s = 18

    def gen(self, d):
        L, out = [], []
        st = {"path": False, "sub": False}

        def show(e, v):
            L.append("(begin (write %s) (newline))" % e)
            out.append("!" + v.kind if isinstance(v, Err) else ml.show(v))

        def seg():
            return d.weighted([(5, lambda: "".join(d.choice("ab.c-_ ") for _ in range(d.int(1, 4)))), (1, lambda: ".."), (1, lambda: "."), (1, lambda: "x" * d.int(20, 60))])()

        def path():
            p = "/" if d.bool(0.4) else ""
            p += "/".join(seg() for _ in range(d.weighted([(5, d.int(1, 5)), (1, d.int(5, 12)), (1, 1)])))
            if d.bool(0.1):
                i = d.int(0, len(p))
                p = p[:i] + "/" + p[i:]
            if d.bool(0.1):
                p += "/"
            return p

        for _ in d.repeat(22, 40):
            k = d.weighted([(4, "list"), (4, "split"), (5, "build"), (3, "round"), (2, "abs"), (7, "sub"), (2, "suberr"), (1, "err")])
            if k in ("list", "split", "round"):
                p = path()
                es = path_list(p)
                st["path"] = st["path"] or len(es) >= 3
                if k == "list":
                    show("(path->list %s)" % ml.lit(S(p)), ml.lst([S(x) for x in es]))
                elif k == "split":
                    show("(split-path %s)" % ml.lit(S(p)), Pair(S(build(es[:-1])) if len(es) > 1 else False, S(es[-1])))
                else:
                    show("(apply build-path (path->list %s))" % ml.lit(S(p)), S(build(es)))
                    if "//" not in p and not (p.endswith("/") and len(p) > 1):
                        show("(equal? (apply build-path (path->list %s)) %s)" % (ml.lit(S(p)), ml.lit(S(p))), True)
            elif k == "build":
                parts = [path()] + [d.weighted([(5, seg), (2, path), (1, lambda: "")])() for _ in range(d.int(0, 4))]
                parts = [parts[0]] + [x[1:] if x.startswith("/") and d.bool(0.7) else x for x in parts[1:]]
                show("(build-path%s)" % "".join(" " + ml.lit(S(x)) for x in parts), S(build(parts)))
            elif k == "abs":
                p = d.choice([path(), "", "/", "a"])
                show("(is-absolute-path? %s)" % ml.lit(S(p)), p.startswith("/"))
            elif k == "sub":
                n = d.weighted([(4, d.int(0, 8)), (2, d.int(5, 40)), (1, d.int(100, 300))])
                s = bytes(d.choice([97 + i % 26, 65, 48, 32, 10, 200, 255]) if n < 50 else 97 + i % 26 for i in range(n))
                a = d.int(0, n)
                b = d.int(a, n)
                st["sub"] = st["sub"] or 0 < a < b < n
                v = "s%d" % len(L)
                L.append("(define-values (%s) %s)" % (v, ml.fresh(Str(s))))
                show("(substring %s %d %d)" % (v, a, b), Str(s[a:b]))
                if b > a and d.bool(0.3):
                    show("(let ([t (substring %s %d %d)]) (begin (string-set! t 0 #\\Q) (list (string-length t) %s)))" % (v, a, b, v), ml.lst([b - a, Str(s)]))
                if d.bool(0.3):
                    show("(equal? (string-append (substring %s 0 %d) (substring %s %d %d)) %s)" % (v, a, v, a, n, v), True)
            elif k == "suberr":
                n = d.int(0, 5)
                s = ml.lit(S("abcde"[:n]))
                e, kind = d.choice([("(substring %s 0 %d)" % (s, n + d.int(1, 3)), "range"), ("(substring %s -1 %d)" % (s, n), "argument"), ("(substring %s 'a 0)" % s, "argument"),
                                    ("(substring 5 0 0)", "argument"), ("(substring %s %d %d)" % (s, n + 1, n), "range"), ("(substring %s 0 #f)" % s, "argument")])
                show(e, Err(kind))
            else:
                show(d.choice(["(split-path 5)", "(path->list 'a)", "(path->list '())", "(split-path #f)"]), Err("argument"))
        return {"prog": "\n".join(L) + "\n", "out": "".join(o + "\n" for o in out), "nt": st["path"] and st["sub"]}


CHECK = P27
