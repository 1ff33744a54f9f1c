#!/usr/bin/env python3
"""The property list; regenerates properties.jsonl and MANIFEST.json (python3 props.py)."""
import glob, importlib.util, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe or ["stdout, stderr and exit status of the interpreter"], "hook_needed": None,
                           **({"state": state} if state else {})}, _note=note))


prop("P01", "Core programs evaluate as the language defines",
     "Every core-language program prints what the language definition says, or stops with the error it prescribes. "
     "Operator and operands are evaluated left to right; closures share the variables they capture, also under set! and shadowing; let-values, letrec-values, "
     "lambda and case-lambda with fixed or rest formals, apply, values and call-with-values (inlined or not, single, several or no values) bind exactly the values produced; case-lambda selects the first clause that accepts the argument count. "
     "A wrong argument count, a wrong value count, a non-procedure operator, an undefined variable and a letrec variable read before its initialization are errors and are never optimized away.",
     ["programs"], "all closed core-language programs (generated: up to a few hundred nodes, nested to depth 7, up to 7 operands, up to 3 values per binding)",
     "the tests run some hundred hand-written expressions; compiler passes (normalisation, multiple-value rewriting, closure elimination, free-variable analysis) interact over all shapes of programs",
     ["src/core/c/jitopt.c", "src/core/c/jitanalyze.c", "src/core/c/jitcompile.c", "src/core/c/eval.c", "src/core/c/check.c"],
     [("optimization passes L0-L2", "src/core/c/jitopt.c"), ("free variables and scopes", "src/core/c/jitanalyze.c"), ("bytecode evaluator", "src/core/c/eval.c")],
     note="Differential against a reference interpreter written from the language definition (lib/refeval.py); trusts that reference.")
prop("P02", "Control stack: depth, width and tail calls are invisible",
     "Recursion depth, frame width and the number of arguments or values never change a program's result: computations that cross any number of stack segments return the same answer as in small cases, up to available memory. "
     "Calls in tail position (through if, begin, let bodies, case-lambda, apply and call-with-values consumers) run in constant space. "
     "Compiling deeply nested forms takes time and space in proportion to the program, and an error raised at any depth resumes the right frame when the handler returns.",
     ["programs"], "call structures: recursion depth 1..40000, frames of 0..300 words, 0..60000 arguments, 0..3000 values, tail loops up to 180000 iterations, nesting up to 120 forms",
     "tests recurse a few levels; the segment boundary is crossed only by deep or wide calls at particular alignments",
     ["src/core/c/eval.c", "src/core/c/frame.c", "src/core/c/jitcompile.c", "src/core/c/jitopt.c"],
     [("stack growth and underflow", "src/core/c/eval.c grow_stack/restore_frame"), ("continuation frames", "src/core/c/frame.c"), ("tail flags", "src/core/c/jitcompile.c")],
     note="Answers are computed in closed form; space bound is resident memory 24 MiB above an idle interpreter for >= 100000 iterations.")


prop("P03", "Fixnum arithmetic is exact modulo 2^64",
     "Addition, subtraction, multiplication, add1 and sub1 of any number of fixnums give the exact result reduced to 64-bit two's complement; / , remainder and modulo truncate or floor as documented for every sign combination, fold left over n operands, and raise on a zero divisor (never trap). "
     "Comparisons hold iff every adjacent pair is ordered, numeric predicates follow the value, and a non-number operand is always an error. "
     "number->string and string->number, and numeric literals in decimal and hexadecimal, are inverse to each other over the whole range.",
     ["inputs"], "all 64-bit operands (boundary-biased), 0..9 operands, nested expressions",
     "tests use small positive numbers; overflow, sign combinations, zero divisors and n-ary folding need the whole domain",
     ["src/core/c/number.c", "src/core/c/read.c", "src/core/s/prelude.min"],
     [("arithmetic primitives", "src/core/c/number.c"), ("numeric literals", "src/core/c/read.c")],
     note="Oracle: Python big integers reduced modulo 2^64.")
prop("P04", "equal? is an equivalence; hashes agree with it",
     "eq? is identity (value identity for fixnums, characters, symbols and the empty list); equal? is reflexive, symmetric, transitive and holds exactly when two values have the same shape and equal leaves, through lists, vectors, boxes, strings, hashtables of any insertion history, and records by their equality procedure. "
     "Equal values have equal equal-hash codes and eq? values equal eq-hash codes, at any nesting depth and size.",
     ["inputs"], "all pairs and triples of acyclic values (generated together with structurally mutated copies), nesting to tens of thousands",
     "tests compare a few literals; laws range over all pairs of values, and hash agreement over every insertion history",
     ["src/core/c/object.c", "src/core/c/hashtable.c", "src/core/c/record.c", "src/core/s/prelude.min"],
     [("equality", "src/core/c/object.c"), ("hashing", "src/core/c/hashtable.c")],
     note="Structural model in lib/ml.py decides equality independently; values with unspecified identity are not compared by eq?.")
prop("P05", "Hashtables behave as finite maps in every history",
     "After any history of set!, update!, delete!, clear!, copy, fill and drop, lookups, contains?, size, keys, vals and entries of an eq, equal or custom hashtable describe exactly the map the history denotes, each key once, whatever the growth, collisions, or negative hash codes. "
     "A copy and its source are independent; keys and entries snapshots do not change later. "
     "An update, default or failure procedure may itself change the table without losing entries, and a missing key without default raises a missing-key error.",
     ["histories"], "operation histories (about 30 operations, bulk fills to 600 entries) over up to 4 tables of 5 kinds of hash and equality",
     "a lost or duplicated entry depends on the sequence of growth, collisions and deletions; tests perform short fixed sequences",
     ["src/core/c/hashtable.c", "src/core/s/prelude.min"],
     [("buckets and growth", "src/core/c/hashtable.c"), ("update! and custom tables", "src/core/s/prelude.min")],
     note="Finite-map model; iteration order is not constrained.")
prop("P06", "Symbols are identical exactly when their names are",
     "Two symbols are eq? exactly when their names have the same bytes, whether they came from literals, the reader, string->symbol, symbols of numbers or strings built at run time, before or after the symbol table grows, and with colliding hashes. "
     "symbol->string and string->symbol are inverse, and mutating a string never changes a symbol.",
     ["histories"], "symbol names of any bytes 1..255 and up to 200 characters, from 6 routes, with up to tens of thousands of other symbols interned in between",
     "tests intern a few names; identity can only break with collisions or table growth",
     ["src/core/c/symbol.c", "src/core/c/read.c"],
     [("symbol table", "src/core/c/symbol.c")],
     note="Names compared as byte strings; NUL excluded (strings are C strings).")
prop("P07", "The reader accepts every spelling of a datum and rejects the rest",
     "Every spelling of a datum (any mix of white space, line, block and datum comments, bracket styles, quote prefixes, escapes, number notations and dotted notation) reads as that datum through a file port, a string port, load and program text, and reading stops exactly after it, so a sequence of data reads one by one and then yields the end-of-file object. "
     "Malformed or truncated text raises an error naming the problem after the well-formed data before it have been delivered. "
     "No byte sequence, token length or nesting depth crashes, hangs or reads outside a buffer.",
     ["inputs"], "texts of 1..6 data nested to depth 4 in random spellings; malformed and byte-mutated texts; tokens up to 5000 characters, nesting to 30000",
     "a grammar has unboundedly many spellings and malformed neighbours; tests read a few dozen literals",
     ["src/core/c/read.c", "src/core/c/io.c"],
     [("recursive descent reader", "src/core/c/read.c"), ("character sources", "src/core/c/io.c")],
     note="Independent reader in lib/spell.py; texts whose meaning the documentation leaves open are discarded.")
prop("P08", "write, display and format print the documented representation",
     "write prints every value so that read gives back an equal value whenever one exists: strings and characters are escaped, improper lists dotted, and nested values printed in the same mode; display prints the same structure with raw strings and characters. "
     "print, writeln, fprintf, printf and format send exactly the directives' texts (~a ~s ~% ~~) to the right port, and a missing or superfluous argument or unknown directive is an error before anything else happens. "
     "Custom writers of records are called with the port and mode at every depth.",
     ["inputs"], "all printable values nested to depth 4, containing any byte, records with custom writers, and generated format strings with up to 6 directives",
     "escaping errors occur for particular bytes in particular positions and modes",
     ["src/core/c/print.c", "src/core/s/prelude.min", "src/core/c/io.c"],
     [("kernel printer", "src/core/c/print.c"), ("write, display, format", "src/core/s/prelude.min")],
     note="Printer model in lib/ml.py; opaque objects are compared by their documented #<...> form.")
prop("P09", "FASL output reads back as equal data",
     "Whatever sequence of data fasl-write accepts (fixnums, characters, strings, symbols, lists, vectors, records and their type descriptors, void, eof, booleans) fasl-read returns in the same order as equal data, symbols eq? to the ones in memory, record types with the same name, fields, parent and flags. "
     "Object boundaries are exact, so FASL objects and text may alternate in one stream. "
     "Sizes on either side of every length-encoding boundary behave alike.",
     ["inputs"], "sequences of up to 25 values in one file, lengths around 127/128, 16383/16384 and above, nesting to tens of thousands",
     "length encodings, sign bits and nesting depth fail only at particular sizes and values",
     ["src/core/c/fasl.c"],
     [("FASL reader and writer", "src/core/c/fasl.c")],
     note="Round trip; cyclic data and unsupported types (boxes, procedures) are outside.")
prop("P12", "No program crashes the interpreter or corrupts its memory",
     "Calling any exported procedure with any arguments and argument count, or evaluating any datum as an expression, either returns values or raises an error: the process never dies from a signal, never reads or writes outside an object, and remains usable for the rest of the program. "
     "Ill-formed expressions are rejected before they are compiled. "
     "Excluded are procedures whose name begins with $ (documented as unsafe) and exhaustion of memory.",
     ["inputs", "programs"], "sequences of about 30 calls chained through their results over every exported procedure, and generated well- and ill-formed expressions to depth 5",
     "type and arity checks are spread over some 300 primitives; tests call them correctly",
     ["src/core/c/prim.c", "src/core/c/check.c", "src/core/c/jitopt.c", "src/core/c/eval.c", "src/core/s/prelude.min"],
     [("argument checks", "src/core/s/prelude.min"), ("syntax check", "src/core/c/check.c"), ("eval with an environment", "src/core/c/jitprims.c")],
     note="AddressSanitizer and UBSan build in which every GC object is a separate exact-size heap block.")
prop("P13", "Records: constructors, inheritance, predicates, mutation, equality",
     "For any hierarchy of record types, through make-record-type-descriptor and through define-record-type with any combination of clauses, a constructor fills the fields of the ancestors first; every accessor and mutator touches exactly its own field in the type and its descendants; predicates hold exactly for the type and its descendants; instances are disjoint from all other types. "
     "equal?, equal-hash and printing follow the type's own or inherited procedures, and without one records are equal only when identical. "
     "Sealed parents, malformed descriptors, wrong instances, indices out of range and wrong constructor argument counts are errors.",
     ["histories"], "hierarchies of 2..6 types with 0..4 fields each and histories of about 25 operations, in the procedural and the syntactic layer",
     "field offsets depend on the whole chain of ancestors, and behaviours on clause combinations",
     ["src/core/c/record.c", "src/core/s/prelude.min", "src/library/private/record.min"],
     [("record procedures", "src/core/s/prelude.min"), ("define-record-type", "src/library/private/record.min")],
     note="Object model of types and instances; whether opacity is inherited is not constrained.")
prop("P18", "Ports are independent character streams",
     "Characters, data and lines read from any interleaving of string, file and standard ports are exactly the bytes of each source in order; peek-char does not consume, and the end of input gives the end-of-file object repeatedly. "
     "What is written to a string port is what get-output-string returns, and what is written to a file is in the file after flush or close, byte for byte. "
     "Operations on closed ports, on ports of the wrong direction or on non-ports are errors that affect no other port.",
     ["histories"], "histories of about 40 operations over up to 6 string, file and standard ports, with any byte 1..255 as content",
     "buffering and position errors depend on how operations on several ports interleave",
     ["src/core/c/io.c", "src/core/s/prelude.min"],
     [("port objects and streams", "src/core/c/io.c"), ("port procedures", "src/core/s/prelude.min")],
     note="Byte-stream model; the result of writing to a closed port by compound printers is only required to be an error.")
prop("P10", "Strings and characters behave as mutable byte arrays",
     "Every string operation (construction, length, ref, set!, fill!, copy, substring, append, list conversion, comparison, case and number conversion) gives the value a model of byte arrays gives, for every content including bytes above 127 and control characters; mutation is visible through every alias and through no copy. "
     "An index outside the string, a wrong type or a wrong argument count is an error and leaves the string unchanged.",
     ["histories"], "operation histories over aliased strings of up to 2000 bytes with boundary indices",
     "aliasing and bounds errors depend on the history and on the exact index",
     ["src/core/c/string.c", "src/core/c/char.c", "src/core/s/prelude.min"],
     [("string primitives", "src/core/c/string.c"), ("character tables", "src/core/c/char.c")],
     note="Byte-array model; NUL bytes excluded.")
prop("P11", "Lists, vectors and boxes: access, mutation, sharing",
     "Every pair, list, vector and box operation (construction, cxr chains, length, ref, set!, fill!, append, reverse, conversions, map, for-each, andmap, ormap, apply) returns what a heap model returns; in-place mutation is visible exactly through the objects that share the mutated cell. "
     "Improper lists, indices out of range, wrong types and wrong argument counts are errors that change nothing.",
     ["histories"], "operation histories over shared heap structures, with higher-order arguments of any arity",
     "sharing and bounds are properties of histories; tests look at one operation on one literal",
     ["src/core/c/list.c", "src/core/c/vector.c", "src/core/c/box.c", "src/core/s/prelude.min"],
     [("pair and list primitives", "src/core/c/list.c"), ("vector primitives", "src/core/c/vector.c")],
     note="Heap model with object identity; whether append shares its last argument's copy is not constrained.")


prop("P14", "Syntax objects, syntax-case and templates match and build exactly what they describe",
     "A syntax-case, syntax-rules or with-syntax clause accepts a form exactly when the form has the shape of its pattern (pairs, proper and improper tails, ellipses at any depth with trailing patterns, vectors, literals, wildcards, constants) and its fender holds, and the first accepting clause is used; "
     "a syntax template yields exactly the datum obtained by substituting what the pattern variables matched, for every nesting of ellipses. "
     "Whether syntax was read, quoted, or assembled with datum->syntax makes no difference, and a form no clause accepts is a syntax error. "
     "Macros expand the same at module level, in bodies, in expressions and inside the expansion of other macros.",
     ["programs"], "patterns and templates nested to depth 3 with up to two levels of ellipsis, 1..4 clauses, inputs instantiated from the patterns and mutated",
     "matching interacts over pattern shape, input shape and how the syntax object was built; tests use a dozen fixed patterns",
     ["src/core/c/syntax.c", "src/library/private/stxcase.min", "src/library/private/template-utils.min", "src/library/expander.min"],
     [("syntax objects", "src/core/c/syntax.c"), ("pattern matcher", "src/library/private/stxcase.min"), ("templates", "src/library/private/template-utils.min"), ("transformer application", "src/library/expander.min")],
     note="Reference matcher and template filler in Python; hygiene is outside (the expander is unhygienic by design).")
prop("P15", "Derived forms mean what their core expansions mean",
     "let, named let, let*, letrec, cond with => and else, case, when, unless, and, or, do, define in its function and curried shapes, internal definitions, and the -values variants of all of these evaluate as the language defines them for every nesting: each subexpression at most once, in order, in the right scope and only when selected. "
     "A malformed use is rejected before anything of the module is evaluated.",
     ["programs"], "generated programs of nested derived forms with shadowing, assignment, side-effect traces and multiple values, and ill-formed variants of every form",
     "scope and order errors need particular nestings of shadowed names; tests use each form by itself",
     ["src/library/private/let.min", "src/library/private/cond.min", "src/library/private/case.min", "src/library/private/define.min", "src/library/private/do.min", "src/library/private/and-or.min", "src/library/private/when-unless.min", "src/library/expander.min", "src/core/c/eval.c", "src/core/c/jitopt.c"],
     [("let forms", "src/library/private/let.min"), ("cond and case", "src/library/private/cond.min"), ("internal definitions", "src/library/expander.min")],
     note="Differential against the reference interpreter of lib/refeval.py extended with the derived forms.")
prop("P17", "Environments bind, copy, extend and evaluate independently",
     "environment-ref, environment-set!, environment-names, copy-environment, extend-environment, import and eval behave as finite maps of names to mutable locations: a copy is independent of its original, an extension sees its parent until it shadows, a name is bound exactly when it was defined, and names are listed once. "
     "eval in an environment defines, assigns and looks up there and nowhere else, closures keep the locations they captured, and an error during eval leaves the current environment as before.",
     ["histories"], "histories of definitions, assignments, copies, extensions, evaluated programs and errors over several environments that share ancestry",
     "aliasing between environments is a property of the history; tests use one environment and one name",
     ["src/core/c/env.c", "src/core/c/eval.c", "src/core/c/jitprims.c", "src/core/c/system.c"],
     [("environment tables", "src/core/c/env.c"), ("eval and global lookup", "src/core/c/eval.c")],
     note="Reference environments in Python; immutability flags (a TODO in the code) are not claimed.")
prop("P23", "The project's collector frees exactly what is unreachable",
     "minim-gc keeps every block reachable from the stack, the callee-saved registers, a registered root or a traced word of a reachable block, at its address and with its contents; a collection frees every other block. "
     "Atomic blocks are not traced, markers decide what is traced, destructors run exactly once when the block is collected, freed or finalized and see it intact, calloc'd memory is zero, realloc keeps contents and rootness, pausing stops automatic collection, which otherwise bounds garbage; a failing malloc or realloc collects and retries without losing reachable blocks; the statistics are exact.",
     ["histories"], "histories of 20..150 operations, up to 50000 blocks, chains of up to 15000 blocks, table growth and shrinking, allocation failure at any allocation",
     "no test runs this collector; a fault needs a collection at the wrong moment, a bucket collision or a failing malloc",
     ["src/gc/minim-gc/gc-impl.c", "src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-types.h"],
     [("mark and sweep, record table", "src/gc/minim-gc/gc-impl.c"), ("interface", "src/gc/minim-gc/gc.c")],
     observe=["harness linked with src/gc/minim-gc, malloc/free wrapped"],
     note="Block base addresses only (interior pointers are not kept by design); marking recursion beyond 15000 blocks is not claimed; a second failure of the same allocation is not injected.")
prop("P24", "Collections are invisible to the program",
     "A garbage collection at any allocation, of the reader, compiler, evaluator, a primitive or the expander, never changes what a program prints, how it ends, or the state it can observe: everything reachable from variables, pending frames on any stack segment, continuations, closures, code, records, tables, ports, syntax objects, environments and the symbol table stays alive and unchanged, and equal names keep denoting the same symbol.",
     ["schedules"], "programs of the other checks' generators plus recursions with survivors of every kind, bursts of 25..80 collections from any point, one every 1..3000 allocations, freed cells overwritten",
     "which allocation triggers a collection depends on the heap; the tests allocate too little to collect inside most primitives",
     ["src/core/c/eval.c", "src/core/c/frame.c", "src/core/c/symbol.c", "src/core/c/global.c", "src/core/c/env.c", "src/core/c/jit.c", "src/gc/gc.h"],
     [("allocation of every object kind", "src/core/c"), ("stack segments", "src/core/c/eval.c"), ("roots", "src/core/c/global.c")],
     note="Differential between two runs of the same program; the interpreter linked with the project's own collector is not claimed (it keeps only interior pointers to code).")
prop("P25", "The interpreter program: flags, files, directories, exit status and the REPL",
     "Flags in any order select quiet, interactive and library-free runs, end at the first file or --, and an unknown flag is refused before anything runs; command-line lists the file and exactly the arguments after it. "
     "A file runs its forms in order with the current directory set to the file's own (restored afterwards, at any nesting of loads), its last value is the result of load, and the process ends with the status given to exit, 1 after an unhandled error, else 0. "
     "The REPL reads one datum at a time from standard input (leaving the rest for the program), prints each non-void value as write would, several values on a line each, and keeps definitions between inputs.",
     ["histories"], "command lines, trees of files loading each other and REPL sessions, one process each",
     "flag order, nesting of loads and input consumption combine; the tests never run the REPL or look at the command line",
     ["src/boot/c/minim.c", "src/core/c/system.c", "src/core/c/print.c", "src/core/c/thread.c", "src/core/c/read.c"],
     [("main", "src/boot/c/minim.c"), ("load and directories", "src/core/c/system.c"), ("value printer", "src/core/c/print.c")],
     note="Grouped single-letter flags are left out.")
prop("P28", "Procedures know their arity and name, and renaming copies them",
     "procedure-arity describes exactly the argument counts a call of the procedure accepts, for lambda, case-lambda with any clauses, primitives and renamed copies; a call with an accepted count runs the first clause that takes it, any other count is an arity error that runs nothing. "
     "procedure-name is the name of the first definition or let binding the procedure was bound by, and #f before that; procedure-rename returns a distinct copy with the new name that shares the captured variables and leaves the original alone.",
     ["histories"], "histories over procedures made in every naming context, aliased, renamed and called with counts 0..9 directly, through apply, call-with-values and let-values",
     "names and captured cells are shared state that a history of aliases and copies changes; tests check single procedures",
     ["src/core/c/procedure.c", "src/core/c/eval.c", "src/core/c/jitcompile.c", "src/core/s/prelude.min"],
     [("procedure primitives", "src/core/c/procedure.c"), ("arity checks and naming", "src/core/c/eval.c"), ("arity of clauses", "src/core/c/jitcompile.c")],
     note="letrec-values names and set! are left out: the code gives those procedures temporary names.")
prop("P29", "Errors reach the current handler once, as the condition that describes them",
     "Every failure, whether raised by the program, by a checked primitive, by the evaluator or by the reader, calls the current error handler exactly once with a condition of the right kind whose fields (who, message, expected, actual, bounds, keys, forms) are those given, wherever it occurs: operand, tail position, callback, deep recursion, eval, loaded file, top-level form. "
     "A value returned by the handler of an explicit raise becomes the value of the raise, handlers can be replaced and can fail themselves, and the default handler prints the condition to standard error and exits with status 1.",
     ["programs"], "generated failures at generated positions and depths under handlers that resume, replace, nest or default",
     "the position, depth and handler state combine; tests only look at the final message of a few errors",
     ["src/core/c/error.c", "src/core/c/eval.c", "src/core/s/prelude.min", "src/core/c/system.c"],
     [("error entry points", "src/core/c/error.c"), ("conditions and default handler", "src/core/s/prelude.min")],
     note="Model of conditions and handlers; resuming from inside a primitive's own check is not claimed.")


prop("P31", "A core form is checked whole before any of it runs",
     "eval, load and the top level accept a form exactly when every part of it, at any depth, fits the grammar of the core forms (if, set!, begin, quote, quote-syntax, lambda, case-lambda, let-values, letrec-values, define-values, application; proper lists; identifiers where names are bound). "
     "A malformed form is one syntax error at any position inside the form, raised before any effect of that form and after the effects of the forms before it; quoted data is never checked.",
     ["inputs"], "core forms of nesting 1..4 corrupted at a generated position: element dropped, added, replaced, improper tail, empty application, bad formals or bindings",
     "the tests reject a handful of malformed forms at depth one; a fault can sit in any sub-form of any other form",
     ["src/core/c/check.c", "src/core/c/eval.c", "src/core/c/system.c"],
     [("syntax checker", "src/core/c/check.c"), ("eval and load call it first", "src/core/c/eval.c")],
     note="Duplicate formals and definitions below the top level are left out.")


prop("P16", "Each module is evaluated once and importers see exactly its exports",
     "In any acyclic import graph, however the paths are spelled (., .., doubled separators, absolute, from nested directories) and however often a module is imported, it is evaluated exactly once, after the modules it imports in the order of its import forms and before its importer. "
     "Importers see exactly the names it exports (directly or through (all ...)), including macros, with state behind exported procedures shared by all importers; private names, redefinitions and assignments in one module never affect another. "
     "Missing files, undefined exports, unbound or unexported names, bad re-exports and cyclic imports fail with status 1 after the effects of the modules evaluated before, and run nothing of the failing module's importers.",
     ["histories"], "generated module graphs of 2..7 files in nested directories with respelled import paths, private names, shared state, macros, records, re-exports and one planted failure",
     "visibility and instantiation depend on the whole graph; the tests import one library directly",
     ["src/library/module.min", "src/library/expander.min", "src/core/c/env.c", "src/boot/c/minim.c"],
     [("module loader", "src/library/module.min"), ("expansion of a module", "src/library/expander.min")],
     note="A name imported from two modules is left out; symbolic links are not followed when paths are simplified.")
prop("P19", "Sets and enumerations are finite sets",
     "make-set, set-add!, set-remove!, set-clear!, set-copy, union, intersect, subtract, symmetric difference, the inclusion predicates, counting, listing and iteration agree with finite sets of values under equal?; derived sets share nothing with their sources, iteration visits the elements present when it began, and sets with equal elements are equal? and hash alike. "
     "Enumeration sets keep universe order, drop or reject symbols outside the universe, and combine only with sets of the same enumeration.",
     ["histories"], "operation histories over up to 7 sets and 9 enumeration sets, with aliases and mutation during iteration",
     "aliasing, growth and derived sets make the outcome a function of the history",
     ["src/library/private/set.min", "src/library/private/enum.min", "src/core/c/hashtable.c"],
     [("sets", "src/library/private/set.min"), ("enumerations", "src/library/private/enum.min")],
     note="Enumerations with repeated symbols are left out.")
prop("P20", "The list library and sort meet their definitions",
     "first..tenth, list-ref, list-set, cons*, member, remove, remove*, filter, foldl, foldr, assoc and index-of compute their definitions for every list and procedure, calling the procedure once per element in order; sort returns the stable sorted permutation under any strict weak order, for lists and vectors of any length. None of them changes its arguments.",
     ["inputs"], "lists up to 200 elements with repeats, comparison procedures with ties, tagged elements to see stability, arguments printed again afterwards",
     "merge patterns depend on length and order; the tests sort a few fixed lists",
     ["src/library/private/list.min", "src/library/private/sort.min", "src/core/c/list.c"],
     [("list library", "src/library/private/list.min"), ("merge sort", "src/library/private/sort.min")])
prop("P21", "A promise is computed once",
     "force evaluates the body of a promise at most once to completion and returns the same value ever after; a body that fails leaves the promise unforced; lazy forces through promises that yield promises, forcing each once; promise-forced? and the printed form say which case holds.",
     ["histories"], "histories of delay, make-promise, force, lazy over up to 7 promises that depend on, yield or fail before one another, with an effect log",
     "the number and order of effects depend on which promises were forced before",
     ["src/library/private/promise.min"], [("promises", "src/library/private/promise.min")],
     note="A body that forces its own promise is left out.")
prop("P22", "Generic methods dispatch on the record type they were attached to",
     "generics-accessor returns, for a record type, the implementation attached last for exactly that type and interface, in method order; types and interfaces do not interfere, children do not inherit; an attachment with the wrong number, kind or arity of procedures is rejected and changes nothing.",
     ["histories"], "histories over 1..3 interfaces and 2..4 record types with attach, reattach, reject, dispatch",
     "the answer depends on every attachment made before; tests attach once",
     ["src/library/private/generics.min", "src/library/private/record.min", "src/core/c/hashtable.c", "src/core/c/procedure.c"],
     [("generics table", "src/library/private/generics.min"), ("methods clause", "src/library/private/record.min")])
prop("P26", "Modules read the same language as the core",
     "Every spelling of a datum the lexical syntax allows (comments, datum comments, brackets, escapes, number forms, raw characters) means the same datum in a module as in a file read by the core reader, and malformed module text is rejected with status 1 before any of the module runs.",
     ["inputs"], "random spellings of generated data as module text, and truncated or malformed module text",
     "the interpreter has two readers, one in C and one in Minim; only generated text keeps them in step",
     ["src/library/read.min", "src/core/c/read.c", "src/boot/s/boot.min"],
     [("module reader", "src/library/read.min"), ("core reader of the boot file", "src/core/c/read.c")],
     note="#' and symbols beginning with # are read differently by the two readers and left out.")

prop("P27", "Paths split and join without loss, substrings are slices",
     "path->list, split-path and build-path agree on what an element is for every string, building what was split gives the path back, and only a leading separator makes a path absolute; (substring s a b) is the fresh slice [a, b) for every 0 <= a <= b <= length and an error for every other index.",
     ["inputs"], "generated paths with empty, dotted and long elements, and byte strings up to 300 characters",
     "separators at either end and empty elements are the cases that go wrong and are rarely listed",
     ["src/library/private/path.min", "src/library/private/string.min"],
     [("paths", "src/library/private/path.min"), ("substring", "src/library/private/string.min")],
     note="An empty base path is left out.")


def main():
    sys.path.insert(0, os.path.join(HERE, "lib"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        m = glob.glob(os.path.join(HERE, "checks", p["id"].lower() + "_*.py"))
        if not m:
            print("no check yet:", p["id"])
            continue
        spec = importlib.util.spec_from_file_location(p["id"], m[0])
        mod = importlib.util.module_from_spec(spec)
        sys.modules[p["id"]] = mod
        spec.loader.exec_module(mod)
        checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s quick" % p["id"],
                       "thorough_cmd": "python3-vt run.py %s thorough" % p["id"], "technique": mod.CHECK.technique,
                       "level": "exploration", "level_note": p["_note"] or "generated-input search; no claim beyond the cases explored"})
    man = {"version": 1, "setup_cmd": "python3-vt lib/build.py std asan stress", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in P
                              if p["id"] not in {c["property"] for c in checks}],
           "notes": "No hooks in /repo. Checks compile /repo/src into /verif/build with their own GC shims; replay a failure with: python3-vt run.py <ID> --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
