"""The interpreter as a program: flags, command line, files, directories, exit codes and the REPL."""
import os, re, resource, shutil, subprocess, tempfile
import build, ml, steps
from ml import Sym, Str
from runner import Check, Fail


class P25(Check):
    id = "P25"
    technique = "generated command lines, file trees and REPL sessions run as real processes, against a model of flags, loading, directories, value printing and exit status"
    rule = ("a case is one process run: a command line with flags in any order, a tree of files that load each other, or a REPL session of about 12 inputs; "
            "non-trivial when files load each other across directories, arguments look like flags, or the session mixes definitions, values and input read by the program")
    quick_s = 30

    # ------------------------------------------------------------------ cases

    def gen(self, d):
        return getattr(self, "gen_" + d.weighted([(4, "repl"), (4, "files"), (1, "flags"), (1, "unknown")]))(d)

    def flags(self, d, libs=False, interactive=False, quiet=True, end=None):
        f = []
        if not libs:
            f.append("--no-libs")
        if interactive:
            f.append(d.choice(["-i", "--interactive"]))
        if quiet:
            f.append(d.choice(["-q", "--quiet"]))
        for x in list(f):
            if d.bool(0.1):
                f.append(x)
        d.shuffle(f)
        if end or (end is None and d.bool(0.2)):
            f.append("--")
        return f

    def args(self, d):
        return [d.choice(["a", "b c", "-x", "--no-libs", "-q", "--", "", "é", "x=1", "\"q\"", "-", "end\\"]) for _ in range(d.weighted([(3, 0), (3, 1), (2, 2), (1, 5)]))]

    def gen_flags(self, d):
        """No file: a REPL only without any argument or when asked for."""
        k = d.int(0, 3)
        libs, inter, quiet = d.bool(0.3), d.bool(), d.bool()
        f = [] if k == 0 else self.flags(d, libs, inter, quiet)
        repl = not f or inter
        if not f:
            libs, quiet = True, False
        out = ("" if quiet else "<banner>\n") + ("> (1 2)\n> " if repl else "")
        return {"argv": f, "files": {}, "stdin": "'(1 2)\n", "out": out, "code": 0, "nt": len(f) >= 2}

    def gen_unknown(self, d):
        bad = d.choice(["-x", "-z", "--nope", "--no-lib", "--quietly", "--interactive2", "-", "-Q", "-I"])
        f = self.flags(d, d.bool(), d.bool(), d.bool(), end=False)
        f.insert(d.int(0, len(f)), bad)
        return {"argv": f + (["main.min"] if d.bool() else []), "files": {"main.min": "(begin (write 'ran) (newline))\n"}, "stdin": "1\n", "out": "", "err": "unknown flag: %s\n" % bad, "code": 1, "nt": len(f) > 1}

    def gen_files(self, d):
        dirs = ["", "sub/", "sub/deep/", "other/"]
        files, out = {}, []
        code = [0]
        over = [False]
        count = [0]
        libs = d.bool(0.15)
        inter = not libs and d.bool(0.3)
        main = d.choice(dirs[:3]) + "main.min"
        err = [None]
        defs = {}

        def body(where, depth, name):
            """Text of a file; appends to out what running it prints."""
            L = []
            last = None
            here = where

            def emit(text, printed):
                L.append(text)
                if not over[0]:
                    out.append(printed)
            for _ in range(d.int(1, 5)):
                k = d.weighted([(4, "dir"), (4 if depth < 3 else 0, "load"), (2, "args"), (3, "def"), (2, "use"), (1, "exit"), (1, "raise"), (1, "chdir"), (2, "value"), (2, "read")])
                if over[0] and k in ("exit", "raise"):
                    continue
                if k == "dir":
                    emit("(vp-out (current-directory))", '"<root>/%s"' % here)
                elif k == "args":
                    emit("(vp-out (command-line))", ml.show(ml.lst([Str(a.encode()) for a in argv])))
                elif k == "def":
                    v = "g%d" % d.int(0, 5)
                    n = d.int(0, 99)
                    L.append("(define-values (%s) %d)" % (v, n))
                    if not over[0]:
                        defs[v] = n
                elif k == "use":
                    if defs:
                        v = d.choice(sorted(defs))
                        emit("(vp-out (list '%s %s))" % (v, v), "(%s %d)" % (v, defs[v]))
                elif k == "exit":
                    if d.bool(0.5):
                        c = d.choice([0, 1, 2, 3, 77, 255])
                        L.append("(exit %d)" % c if c or d.bool() else "(exit)")
                        over[0] = True
                        code[0] = c
                elif k == "raise":
                    if d.bool(0.4):
                        L.append("(raise 'stop)")
                        over[0] = True
                        code[0], err[0] = 1, "uncaught exception: stop\n"
                elif k == "chdir":
                    t = d.choice(dirs)
                    up = "../" * here.count("/")
                    L.append('(current-directory "%s")' % ((up + t) or "."))
                    here = t
                elif k == "value":
                    L.append(str(d.int(0, 9)))
                elif k == "read":
                    c = d.choice("abcXYZ")
                    if not over[0]:
                        stdin.append(c)
                    emit("(vp-out (read-char))", "#\\" + c)
                else:
                    count[0] += 1
                    sub = d.choice(dirs)
                    f = "f%d.min" % count[0]
                    rel = "../" * here.count("/") + sub + f
                    if d.bool(0.15):
                        rel = "./" + rel
                    show = d.bool(0.3)
                    n = d.int(0, 99)
                    L.append(('(vp-out (load "%s"))' if show else '(load "%s")') % rel)
                    keep = over[0]
                    files[sub + f] = None
                    txt = body(sub, depth + 1, f)
                    if show:
                        txt += "%d\n" % n
                        if not over[0]:
                            out.append(str(n))
                    files[sub + f] = txt
            return "\n".join(L) + "\n"

        stdin = []
        rest = self.args(d)
        start = d.choice(dirs)
        path = d.choice(["", "./"]) + "../" * start.count("/") + main
        argv = [path] + rest
        pre = "(define-values (vp-out) (lambda (x) (begin (write x) (newline))))\n"
        if libs and not inter:
            # a module of its own; the files it loads are not modules
            files[main] = pre + "(vp-out (command-line))\n" + ("(exit 4)\n" if d.bool() else "")
            code[0] = 4 if "exit" in files[main] else 0
            out = [ml.show(ml.lst([Str(a.encode()) for a in argv]))]
        else:
            txt = body(main[:-len("main.min")], 0, "main.min")
            files[main] = pre + txt
        if inter and not over[0]:
            out.append("> <root>" if False else "> ")
        quiet = d.bool(0.8)
        text = ("" if quiet else "<banner>\n") + "\n".join(out) + ("\n" if out and not out[-1].startswith("> ") else "")
        return {"argv": self.flags(d, libs, inter, quiet) + argv, "files": files, "cwd": start, "stdin": "".join(stdin), "out": text, "code": code[0], "err": err[0], "nt": len(files) > 2 or any(a.startswith("-") for a in rest)}

    def gen_repl(self, d):
        inp, out = [], []
        vars = {}
        code, err = 0, None
        kinds = set()
        libs = d.bool(0.1)

        def val(x, text=None):
            inp.append(text or ml.lit(x))
            out.append("> " + ml.show(x) + "\n")

        for i in d.repeat(12, 40):
            k = d.weighted([(5, "value"), (3, "define"), (3, "use"), (2, "values"), (2, "void"), (2, "read-char"), (2, "read"), (1, "special"), (1, "set"), (1, "comment"), (1, "proc"), (1, "end" if i > 3 else "use"), (1, "out")])
            kinds.add(k)
            if k == "value":
                x = steps.value(d, 2)
                val(x, ("'" + ml.show(x)) if d.bool() else None)
            elif k == "define":
                v = "v%d" % len(vars)
                x = steps.value(d, 1)
                vars[v] = x
                inp.append("(define-values (%s) %s)" % (v, ml.lit(x)))
                out.append("> ")
            elif k == "set":
                if vars:
                    v = d.choice(sorted(vars))
                    vars[v] = steps.value(d, 1)
                    inp.append("(begin (set! %s %s) (void))" % (v, ml.lit(vars[v])))
                    out.append("> ")
            elif k == "use":
                if vars:
                    v = d.choice(sorted(vars))
                    val(vars[v], d.choice(["%s", "(begin %s)", "((lambda (x) x) %s)", "(let-values ([(x) %s]) x)"]) % v)
                    if d.bool(0.3):
                        w = d.choice(sorted(vars))
                        val(ml.lst([vars[v], vars[w]]), "(list\n %s %s)" % (v, w))
            elif k == "values":
                xs = [steps.value(d, 1) for _ in range(d.choice([0, 2, 3, 5]))]
                inp.append("(values %s)" % " ".join(map(ml.lit, xs)))
                out.append("> " + "".join(ml.show(x) + "\n" for x in xs))
            elif k == "void":
                inp.append("(void)")
                out.append("> ")
            elif k == "read-char":
                c = d.choice("abc1() ;\"")
                inp.append("(%s)%s" % (d.choice(["read-char", "begin (read-char)"]), c))
                out.append("> " + ml.show(ml.Ch(ord(c))) + "\n")
            elif k == "read":
                x = steps.value(d, 2)
                inp.append("((lambda (x) (if (syntax? x) (syntax->datum x) x)) (read)) %s" % ml.show(x))
                out.append("> " + ml.show(x) + "\n")
            elif k == "special":
                s, o = d.choice([("car", "#<procedure:car>"), ("(lambda (x) x)", "#<procedure>"), ("(make-hashtable)", "#<hashtable>"), ("(current-output-port)", "#<output-port>"), ("(current-input-port)", "#<input-port>"),
                                 ("(list car (vector cdr))", "(#<procedure:car> #(#<procedure:cdr>))"), ("(read-char (open-input-string \"\"))", "#<eof>"), ("(list (void))", "(#<void>)"), ("#t", "#t"), ("(current-environment)", "#<environment>"),
                                 ("(datum->syntax '(a b))", "#<syntax>"), ("(make-record-type-descriptor 'point #f #f #f #f #((immutable x)))", "#<record-type:point>"),
                                 ("((record-constructor (make-record-type-descriptor 'point #f #f #f #f #((immutable x)))) 1)", "#<point>")])
                inp.append(s)
                out.append("> " + o + "\n")
            elif k == "proc":
                inp.append("(define-values (f%d) (lambda (a) (+ a %d)))\n(f%d 1)\nf%d" % (i, i, i, i))
                out += ["> ", "> %d\n" % (i + 1), "> #<procedure:f%d>\n" % i]
            elif k == "out":
                inp.append("(begin (display \"o\") (newline) %d)" % i)
                out.append("> o\n%d\n" % i)
            elif k == "comment":
                inp.append(d.choice(["; a comment", "#| block\n (car '()) |#", "#;(raise 1)"]))
            elif k == "end":
                e = d.int(0, 3)
                if e == 0:
                    code = d.int(0, 255)
                    inp.append("(exit %d)" % code)
                elif e == 1:
                    inp.append("(raise 'stop)")
                    code, err = 1, "uncaught exception: stop\n"
                elif e == 2:
                    inp.append("(car 5)")
                    code, err = 1, "car: contract violation\n  expected: pair?\n  given: 5\n"
                else:
                    inp.append("(if)")
                    code, err = 1, None
                out.append("> ")
                inp.append("(begin (display \"not reached\") (newline))")
                break
        else:
            out.append("> ")
        quiet = d.bool(0.85)
        sep = [d.choice(["\n", "\n", " ", "\n\n  "]) if not x.startswith(";") else "\n" for x in inp]
        return {"argv": self.flags(d, libs, True, quiet), "files": {}, "stdin": "".join(a + b for a, b in zip(inp, sep)), "out": ("" if quiet else "<banner>\n") + "".join(out), "code": code, "err": err,
                "nt": len(kinds) >= 6 and bool(kinds & {"read", "read-char"})}

    # ------------------------------------------------------------------ running

    def run(self, case):
        exe = build.minim("std")
        root = os.path.realpath(tempfile.mkdtemp(prefix="vp-p25-"))
        try:
            for sub in ("sub/deep", "other"):
                os.makedirs(os.path.join(root, sub))
            for f, text in case["files"].items():
                with open(os.path.join(root, f), "w") as fh:
                    fh.write(text)
            try:
                p = subprocess.run([exe] + case["argv"], cwd=os.path.join(root, case.get("cwd", "")), input=case["stdin"].encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20,
                                   preexec_fn=limits)
            except subprocess.TimeoutExpired:
                raise Fail("timeout", "no answer in 20 s: %s" % self.describe(case))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        out = p.stdout.decode("latin-1").replace(root, "<root>")
        out = re.sub(r'(<root>[^"\n]*?)/*"', r'\1"', out)
        exp = re.sub(r'(<root>[^"\n]*?)/*"', r'\1"', case["out"])
        if "<banner>\n" in exp:
            exp = exp.replace("<banner>\n", "")
            m = re.match(r"Minim v\S+\n", out)
            if not m:
                raise Fail("banner", "no banner in %r: %s" % (out[:200], self.describe(case)))
            out = out[m.end():]
        if out != exp:
            raise Fail("output", "expected %r\ngot      %r (exit %d, stderr %r)\n%s" % (exp[-1500:], out[-1500:], p.returncode, p.stderr[-300:], self.describe(case)))
        if p.returncode != case["code"]:
            raise Fail("exit", "exit status %d, expected %d (stderr %r)\n%s" % (p.returncode, case["code"], p.stderr[-300:], self.describe(case)))
        if case.get("err") is not None and p.stderr.decode("latin-1") != case["err"]:
            raise Fail("stderr", "stderr %r, expected %r\n%s" % (p.stderr[-500:], case["err"], self.describe(case)))
        return case["nt"], repr((case["argv"], case["files"], case["stdin"]))

    def describe(self, case):
        return "arguments: %r in %r\nstdin: %r\n%s" % (case["argv"], case.get("cwd", ""), case["stdin"], "".join("--- %s\n%s" % x for x in sorted(case["files"].items())))


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (15, 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CHECK = P25
