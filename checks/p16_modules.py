"""Modules: generated import graphs against a model of instantiation, visibility and sharing."""
import os
import ml
from ml import Sym
from runner import ProgCheck, Fail

DIRS = ["", "s/", "s/t/", "u/"]


def rel(d, frm, to, twist=True):
    """A spelling of the path of module `to` (dir, name) relative to directory frm."""
    a, b = [x for x in frm.split("/") if x], [x for x in to[0].split("/") if x]
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i] and (not twist or d.bool(0.9)):
        i += 1
    parts = [".."] * (len(a) - i) + b[i:]
    if twist and d.bool(0.12):
        parts.insert(d.int(0, len(parts)), ".")
    if twist and d.bool(0.1):
        # down into a directory that exists, and back up
        cur = a[:]
        pos = d.int(0, len(parts))
        for p in parts[:pos]:
            if p == "..":
                cur.pop()
            elif p != ".":
                cur.append(p)
        here = "/".join(cur)
        subs = {"": ["s", "u"], "s": ["t"]}.get(here)
        if subs:
            parts[pos:pos] = [d.choice(subs), ".."]
    p = "/".join(parts + [to[1] + ".min"])
    if twist and d.bool(0.06):
        p = "@DIR@/" + to[0] + to[1] + ".min"
    if twist and d.bool(0.05) and "/" in p:
        i = p.index("/", 1) if "/" in p[1:] else 0
        p = p[:i] + "//" + p[i + 1:]
    return p


class Mod:
    def __init__(self, i, d):
        self.i, self.name, self.dir = i, "m%d" % i, d
        self.body, self.late = [], []
        self.values, self.macros = {}, {}       # exported name -> model thing
        self.all = {}
        self.imports = []
        self.run = []                           # closures that produce the output of evaluating the module


class P16(ProgCheck):
    id = "P16"
    mode = "lib"
    prologue = ""
    technique = "model-based property testing: generated module graphs over nested directories with respelled paths, private names, shared state, macros and re-exports against a model of instantiation and visibility"
    rule = ("a case is a graph of 2..7 modules imported by a main module; non-trivial when some module is reached along two import paths, both importers use its state, and a private name is defined "
            "in two modules")
    quick_s = 26
    timeout = 20.0

    def gen(self, d):
        n = d.int(2, 6)
        mods = []
        for i in range(n):
            mods.append(Mod(i, d.choice(DIRS)))
        main = Mod(n, "")
        main.name = "main"
        files = {}
        nt = {"shared": False, "uses": {}}
        fail = d.weighted([(8, None), (1, "unbound"), (1, "hidden"), (1, "missing"), (1, "noexport"), (1, "cycle"), (1, "badall")])
        fail_at = d.int(0, n) if fail else None
        deadly = None

        for m in mods + [main]:
            base = d.bool(0.8) or m is main
            define = (lambda nm, e: "(define %s %s)" % (nm, e)) if base else (lambda nm, e: "(define-values (%s) %s)" % (nm, e))
            head, body, exports = [], [], []
            cands = mods[:m.i]
            deps = [x for x in cands if d.bool(0.6)] if m is not main else [x for x in cands if d.bool(0.7)]
            if not deps and cands:
                deps = [d.choice(cands)]
            deps = d.shuffle(deps)
            if deps and d.bool(0.15):
                deps.append(d.choice(deps))
            strs = [rel(d, m.dir, (x.dir, x.name)) for x in deps]
            baseimp = '"%s"' % rel(d, m.dir, ("lib/", "base"), twist=d.bool(0.3))
            parts = [(s, x) for s, x in zip(strs, deps)]
            # imports in one form or several
            groups, cur = [], []
            for p in parts:
                cur.append(p)
                if d.bool(0.4):
                    groups.append(cur)
                    cur = []
            if cur:
                groups.append(cur)
            imps = ["(import%s)" % "".join(' "%s"' % s for s, _ in g) for g in groups]
            if base:
                imps.insert(d.int(0, len(imps)), "(import %s)" % baseimp)
            m.imports = [x for x, in [(x,) for g in groups for _, x in g]]
            vis = {}                           # visible imported names -> (owner, kind)
            for x in m.imports:
                for k, v in x.all.items():
                    vis.setdefault(k, v)
            ev = m.run

            def say(text):
                body.append('(begin (display "%s") (newline))' % text)
                ev.append(lambda w, t=text: w.out.append(t))

            def shown(expr, f):
                """A top-level expression whose value is printed, or an explicit write."""
                if d.bool(0.4):
                    body.append(expr)
                else:
                    body.append("(begin (write %s) (newline))" % expr)
                ev.append(lambda w, f=f: w.out.append(ml.show(f(w))))

            def scope(nm, val):
                ev.append(lambda w, m=m, nm=nm, val=val: w.set(m, nm, val))

            say("%s[" % m.name)
            # the same private names in every module
            priv = d.shuffle(["secret", "helper", "state"])[:d.int(1, 3)]
            k0 = 100 * (m.i + 1)
            if "secret" in priv:
                body.append(define("secret", str(k0)))
            if "helper" in priv:
                body.append(define("helper", "(lambda (x) (+ x %d))" % k0))
            ex = lambda suffix: "%s-%s" % (m.name, suffix)
            if m is not main:
                # shared state behind exported procedures
                if d.bool(0.8):
                    st = "state" if "state" in priv else ex("count")
                    body.append(define(st, str(k0)))
                    body.append(define(ex("bump!"), "(lambda () (begin (set! %s (+ %s 1)) %s))" % (st, st, st)))
                    body.append(define(ex("peek"), "(lambda () %s)" % st))
                    ev.append(lambda w, m=m, k0=k0: w.count.__setitem__(m.i, k0))
                    for s in ("bump!", "peek"):
                        exports.append(ex(s))
                        m.values[ex(s)] = (m, s)
                if "helper" in priv and d.bool(0.7):
                    if "secret" in priv:
                        body.append(define(ex("f"), "(lambda (x) (list '%s (helper (* x secret))))" % m.name))
                        m.values[ex("f")] = (m, "f1")
                    else:
                        body.append(define(ex("f"), "(lambda (x) (list '%s (helper x)))" % m.name))
                        m.values[ex("f")] = (m, "f2")
                    exports.append(ex("f"))
                # a value computed from imported ones
                srcs = [k for k, v in vis.items() if v[1] == "v"]
                terms = [k for k in srcs if d.bool(0.7)]
                if d.bool(0.7):
                    body.append(define(ex("v"), "(+ %d%s)" % (k0 + 1, "".join(" " + t for t in terms))))
                    owners = [vis[t][0] for t in terms]
                    ev.append(lambda w, m=m, k=k0 + 1, owners=owners: w.val.__setitem__(m.i, k + sum(w.val[o.i] for o in owners)))
                    exports.append(ex("v"))
                    m.values[ex("v")] = (m, "v")
                if base and d.bool(0.5):
                    body.append("(define-record-type %s (fields x (mutable y)))" % ex("pt"))
                    for nm in ("make-%s", "%s?", "%s-x", "%s-y", "%s-y-set!"):
                        exports.append(nm % ex("pt"))
                        m.values[nm % ex("pt")] = (m, "pt" if nm == "make-%s" else "-")
                if base and ex("bump!") in m.values and d.bool(0.5):
                    body.append("(define-syntax %s (syntax-rules () [(_) '%s] [(_ x) (list 'mac x (%s))]))" % (ex("mac"), m.name, ex("bump!")))
                    exports.append(ex("mac"))
                    m.values[ex("mac")] = (m, "mac")
            # uses of what is visible
            uses = [(k, v) for k, v in vis.items() if v[1] != "-"]
            if m is not main and m.values:
                uses += [(k, v) for k, v in m.values.items() if v[1] not in ("-",)]
            for _ in d.repeat(4 if m is not main else 9, 20):
                if not uses:
                    break
                k, (o, kind) = d.choice(uses)
                if kind in ("bump!", "peek", "mac"):
                    nt["uses"].setdefault(o.i, set()).add(m.i)
                if kind == "bump!":
                    shown("(%s)" % k, lambda w, o=o: w.bump(o))
                elif kind == "peek":
                    shown("(%s)" % k, lambda w, o=o: w.count[o.i])
                elif kind in ("f1", "f2"):
                    x = d.int(0, 9)
                    r = 100 * (o.i + 1)
                    r = r + (x * r if kind == "f1" else x)
                    shown("(%s %d)" % (k, x), lambda w, o=o, r=r: ml.lst([Sym(o.name), r]))
                elif kind == "v":
                    shown(k, lambda w, o=o: w.val[o.i])
                elif kind == "mac":
                    if not base or k.replace("mac", "bump!") not in vis and o is not m:
                        continue
                    x = d.int(0, 9)
                    if d.bool(0.3):
                        shown("(%s)" % k, lambda w, o=o: Sym(o.name))
                    else:
                        shown("(%s %d)" % (k, x), lambda w, o=o, x=x: ml.lst([Sym("mac"), x, w.bump(o)]))
                elif kind == "pt":
                    pt = ex_pt = k[len("make-"):]
                    need = ["%s?" % pt, "%s-x" % pt, "%s-y" % pt, "%s-y-set!" % pt]
                    if not all(q in vis or o is m for q in need):
                        continue
                    a, b, c = d.int(0, 9), d.int(0, 9), d.int(0, 9)
                    shown("((lambda (p) (begin (%s-y-set! p %d) (list (%s? p) (%s? 5) (%s-x p) (%s-y p)))) (%s %d %d))" % (pt, c, pt, pt, pt, pt, k, a, b),
                          lambda w, a=a, c=c: ml.lst([True, False, a, c]))
            # what the module's own names shadow stays its own
            if "secret" in priv:
                shown("secret", lambda w, k0=k0: k0)
            if "helper" in priv:
                shown("(helper 1)", lambda w, k0=k0: k0 + 1)
            shadows = False
            sh = [k for k, v in vis.items() if v[1] == "v"]
            if sh and d.bool(0.2):
                k = d.choice(sh)
                body.append("(set! %s 'mine)" % k if d.bool() else define(k, "'mine"))
                shadows = True
                shown(k, lambda w: Sym("mine"))
            if d.bool(0.15):
                body.append("(values 1 \"two\" 'three)")
                ev.append(lambda w: w.out.extend(["1", '"two"', "three"]))
            say("]%s" % m.name)
            # exports: in any order, before or after, sometimes through (all ...)
            allx = []
            if m is not main:
                if deps and base and not shadows and d.bool(0.4):
                    x = d.choice(deps)
                    allx.append('(all "%s")' % rel(d, m.dir, (x.dir, x.name)))
                    m.all.update(x.all)
                keep = [e for e in exports if d.bool(0.85)]
                # keep record and counter exports together
                names = set(keep)
                for e in list(names):
                    if e.endswith("-mac") and e.replace("-mac", "-bump!") not in names:
                        names.add(e.replace("-mac", "-bump!"))
                keep = sorted(names)
                for e in keep:
                    m.all[e] = m.values[e]
                ef = [" ".join(d.shuffle(keep) + allx)] if keep or allx else []
                if ef and d.bool(0.3):
                    ef = list(d.shuffle(keep)) + allx
                efs = ["(export %s)" % e for e in ef]
            else:
                efs = []
            if fail and m.i == fail_at:
                if fail == "unbound":
                    body.append("(display vp-unbound)")
                    deadly = "early"
                elif fail == "hidden":
                    hid = [k for x in m.imports for k in x.values if k not in vis and not k.endswith("-pt")]
                    if hid:
                        body.append("(display %s)" % d.choice(hid))
                        deadly = "early"
                elif fail == "missing":
                    imps.append('(import "vp-nope.min")')
                    deadly = "early"
                elif fail == "noexport":
                    efs.append("(export vp-undefined)")
                    deadly = "late"
                elif fail == "cycle":
                    tgt = d.choice([x for x in mods if x.i >= m.i] or [None]) if m is not main else None
                    if tgt is m:
                        imps.append('(import "%s.min")' % m.name)
                        deadly = "early"
                elif fail == "badall" and [x for x in mods[:m.i] if x not in m.imports] and base:
                    x = d.choice([x for x in mods[:m.i] if x not in m.imports])
                    efs.append('(export (all "%s"))' % rel(d, m.dir, (x.dir, x.name), twist=False))
                    deadly = "early"
            m.deadly = deadly if fail and m.i == fail_at else None
            forms = body[:]
            text = imps[:]
            if imps and d.bool(0.15):
                # imports take effect before the body wherever they stand
                late = imps.pop() if not (base and len(imps) == 1) else None
                if late is not None and "lib/base" not in late:
                    text = imps + forms[:1] + [late]
                    forms = forms[1:]
                elif late is not None:
                    imps.append(late)
                    text = imps[:]
            if d.bool(0.3):
                text = text + forms + efs
            elif d.bool(0.5):
                text = efs + text + forms if "(all" not in "".join(efs) else text + efs + forms
            else:
                text = text + efs + forms
            files[m.dir + m.name + ".min" if m is not main else "main"] = "\n".join(text) + "\n"
            m.text = text

        # the model: depth first, each module once
        w = World()
        ok = w.load(main)
        reach = {}
        for m in mods + [main]:
            for x in set(y.i for y in m.imports):
                reach.setdefault(x, set()).add(m.i)
        nt_ok = any(len(v & reach.get(i, set())) >= 2 for i, v in nt["uses"].items())
        if fail and not ok:
            self.tag("fail-" + fail)
        prog = files.pop("main")
        return {"prog": prog, "files": files, "out": "".join(o + "\n" for o in w.out), "code": 0 if ok else 1, "nt": nt_ok, "fails": not ok,
                "key": prog + repr(sorted(files.items()))}

    def run(self, case):
        root = self.server("lib").dir
        sub = lambda t: t.replace("@DIR@", root)
        r = self.exec(sub(case["prog"]), files={k: sub(v) for k, v in case["files"].items()})
        desc = "\n".join("-- %s\n%s" % kv for kv in sorted(case["files"].items())) + "\n-- main\n" + case["prog"]
        if r.timeout:
            raise Fail("timeout", "no answer in %.0fs\n%s" % (self.timeout, desc))
        if r.crashed:
            raise Fail("crash", "interpreter died: %s\n%s" % (r.describe(), desc))
        a = case["out"]
        good = r.text == a and r.code == 0 if not case["fails"] else r.text.startswith(a) and r.code == 1 and self.quiet(r.text[len(a):])
        if not good:
            raise Fail("output", "expected %r%s, got exit %s %r stderr %r\n%s" % (a[-1500:], " then failure" if case["fails"] else "", r.code, r.text[-1500:], r.errtext[:400], desc))
        return case["nt"], case["key"]

    @staticmethod
    def quiet(rest):
        """After the failure nothing but the message of a rejected module is printed."""
        return rest == "" or "unknown variable" in rest and len(rest.splitlines()) <= 3


class World:
    def __init__(self):
        self.out, self.count, self.val, self.loaded = [], {}, {}, set()

    def bump(self, m):
        self.count[m.i] += 1
        return self.count[m.i]

    def load(self, m):
        if m.i in self.loaded:
            return True
        for x in m.imports:
            if not self.load(x):
                return False
        if m.deadly == "early":
            return False
        for f in m.run:
            f(self)
        if m.deadly == "late":
            return False
        self.loaded.add(m.i)
        return True


CHECK = P16
