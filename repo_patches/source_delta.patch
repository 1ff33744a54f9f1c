From 6759309f1b901474053402854c5b5282d6f03567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 01/40] fix: allocate the full size of a character object

---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From a625dd614b5bfd8fe584f6df1b6afc88a94111b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 02/40] fix: growing the argument stack keeps the current frame
 and respects its bounds

---
 src/boot/c/boot.c |  2 +-
 src/core/c/eval.c | 24 +++++++++++++-----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..fb5df55 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..43789ee 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -77,7 +77,7 @@ static int stack_overflowp(mobj tc, size_t size) {
 }
 
 static void grow_stack(mobj tc, size_t size) {
-    mobj srecord;
+    mobj srecord, *frame;
     void *stack;
     size_t req, actual;
 
@@ -89,12 +89,16 @@ static void grow_stack(mobj tc, size_t size) {
     srecord = Mcached_stack(tc_stack_base(tc), tc_stack_link(tc), tc_stack_size(tc), tc_ccont(tc));
 
     // allocate new stack segment
+    frame = tc_sfp(tc);
     stack = GC_alloc(actual);
     tc_stack_base(tc) = stack;
     tc_stack_link(tc) = srecord;
     tc_stack_size(tc) = actual;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
+
+    // the current frame continues in the new segment
+    memcpy(tc_sfp(tc), frame, (1 + tc_ac(tc)) * ptr_size);
 }
 
 void reserve_stack(mobj tc, size_t argc) {
@@ -193,11 +197,10 @@ static mobj do_rest(mobj tc, size_t idx) {
 }
 
 static void do_apply(mobj tc) {
-    mobj *sfp, rest;
+    mobj rest;
     size_t i, ac, req;
 
     // thread parameters
-    sfp = tc_sfp(tc);
     ac = tc_ac(tc);
 
     // the first argument becomes the current procedure
@@ -219,11 +222,8 @@ static void do_apply(mobj tc) {
 
     // check if we have room for the application
     req = stack_frame_size(tc, list_length(rest));
-    if (stack_overflowp(tc, req)) {
+    if (stack_overflowp(tc, req))
         grow_stack(tc, req);
-        for (i = 0; i < ac; i++)
-            tc_frame_ref(tc, i) = sfp[i + 1]; 
-    }
 
     // push rest argument to stack
     for (; !minim_nullp(rest); rest = minim_cdr(rest))
@@ -248,6 +248,7 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        maybe_grow_stack(tc, tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
@@ -669,6 +670,8 @@ do_raise:
 
 // restores previous continuation
 restore_frame:
+    // the return address must be read before the segment is unwound
+    istream = tc_ra(tc);
     if (tc_sfp(tc) <= tc_stack_base(tc)) {
         // we underflowed, so we need to unpack the previous stack
         mobj srecord = tc_stack_link(tc);
@@ -683,14 +686,13 @@ restore_frame:
         tc_stack_size(tc) = cache_stack_len(srecord);
         tc_stack_link(tc) = cache_stack_prev(srecord);
         tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+        tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
         cc = cache_stack_ret(srecord);
     } else {
         cc = tc_ccont(tc);
     }
 
-    // restore instruction stream and environment
-    istream = tc_ra(tc);
+    // restore environment
     tc_env(tc) = continuation_env(cc);
 
     // update thread parameters
-- 
2.43.0


From f2c76cb38f0ba69c3be5e3cd1f2825db6118cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/40] fix: division, remainder and modulo: zero divisors
 raise, results are exact, n-ary division divides

---
 src/core/c/number.c    | 10 ++++++++--
 src/core/s/prelude.min | 36 ++++++++++++++++++++----------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..4424440 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,11 +41,17 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
+    // the quotient of the least fixnum and -1 traps
+    if (minim_fixnum(y) == -1)
+        return fx_neg(x);
     return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
+    // the remainder of the least fixnum and -1 traps
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0);
     return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
 }
 
@@ -53,8 +59,8 @@ mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    mfixnum z = (yv == -1) ? 0 : xv % yv;
+    if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..c02ec15 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -530,7 +530,7 @@
                      (case-lambda
                        [(x)
                         (if (number? x)
-                            x
+                            #t
                             (non-number-error who x))]
                        [(x y)
                         (if (number? x)
@@ -657,41 +657,41 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
          (if (number? x)
              (if (zero? x)
-                 (division-0-error '/ x)
+                 (divide-0-error '/ x)
                  ($fx2/ 1 x))
              (non-number-error '/ x))]
         [(x y)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      (letrec-values ([(loop)
                                       (lambda (x xs)
                                          (if (null? xs)
                                              x
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
-                                                     (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                                                     (divide-0-error '/ ($car xs))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
+                                                 (non-number-error '/ ($car xs)))))])
+                       (loop ($fx2/ x y) rest)))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 0b003a80fcc158a9e895c55d23eca427d257ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 04/40] fix: a symbol interned while the table grows goes into
 the bucket it is looked up in

---
 src/core/c/symbol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..eaf9156 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -171,8 +171,9 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
     // intern symbol
     obj = Msymbol(sym);
 
-    // update table
+    // update table (resizing moves the bucket)
     resize_if_needed(itab);
+    idx = h % itab->alloc;
     intern_table_insert(itab, idx, obj);
     return obj;
 }
-- 
2.43.0


From 12b292250b85a55cefae0c5a1a92a333a9a56c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 05/40] fix: reader: bound number tokens, terminate tokens of
 maximal length, keep symbols that begin like numbers

---
 src/core/c/read.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..f957cfa 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -255,7 +255,7 @@ static mobj read_vector(FILE *in) {
 }
 
 mobj read_object(FILE *in) {
-    char buffer[symbol_max_len];
+    char buffer[symbol_max_len + 1];
     long num, i, block_level;
     short sign;
     char c;
@@ -343,13 +343,18 @@ loop:
         if (c == '-') {
             sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
+        } else if (c == '+') {
             buffer[i++] = c;
+        } else {
+            ungetc(c, in);
         }
 
         // magnitude
         while (isdigit(c = getc(in))) {
+            if (i >= symbol_max_len) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             num = (num * 10) + (c - '0');
         }
@@ -375,13 +380,18 @@ read_hex:
         if (c == '-') {
             sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
+        } else if (c == '+') {
             buffer[i++] = c;
+        } else {
+            ungetc(c, in);
         }
 
         // magnitude
         while (isxdigit(c = getc(in))) {
+            if (i >= symbol_max_len) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
             else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
-- 
2.43.0


From a646d6720c6f19d8893e66817b81260e135f403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 06/40] fix: reader: end of input, comments before a closer,
 bytes above 127 and deep nesting

---
 src/core/c/read.c | 144 ++++++++++++++++++++++++++--------------------
 src/core/minim.h  |   2 +-
 2 files changed, 84 insertions(+), 62 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index f957cfa..e773d26 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,25 +14,26 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
 }
 
-static void assert_matching_paren(char open, char closed) {
+static void assert_matching_paren(int open, int closed) {
     if (!(open == '(' && closed == ')') && 
         !(open == '[' && closed == ']') &&
         !(open == '{' && closed == '}')) {
         minim_error2("read_object", "parenthesis mismatch", Mchar(closed), Mchar(open));
     }
 }
+
 static int peek_char(FILE *in) {
     int c = getc(in);
     ungetc(c, in);
@@ -186,67 +187,64 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
-static mobj read_pair(FILE *in, char open_paren) {
-    mobj car, cdr;
-    int c;
+static mobj read_datum(FILE *in, int *stop, int dotp);
 
-    skip_whitespace(in);
-    c = getc(in);
-    assert_not_eof(c);
+// Reads a datum that must be present.
+static mobj read_required(FILE *in) {
+    mobj x;
 
-    if (c == ')' || c == ']' || c == '}') {
-        // empty list
-        assert_matching_paren(open_paren, c);
-        return minim_null;
+    x = read_object(in);
+    if (x == NULL) {
+        minim_error("read_object", "unexpected end of input");
     }
 
-    ungetc(c, in);
-    car = read_object(in);
+    return x;
+}
 
-    skip_whitespace(in);
-    c = fgetc(in);
-    assert_not_eof(c);
+static mobj read_pair(FILE *in, int open_paren) {
+    mobj head, tail, x;
+    int c;
 
-    if (is_cons_dot(in, c)) {
-        // improper list
-        peek_expected_delimeter(in);
-        cdr = read_object(in);
+    head = minim_null;
+    tail = minim_null;
+    while ((x = read_datum(in, &c, !minim_nullp(head))) != NULL) {
+        x = Mcons(x, minim_null);
+        if (minim_nullp(head)) {
+            head = x;
+        } else {
+            minim_cdr(tail) = x;
+        }
 
-        skip_whitespace(in);
-        c = getc(in);
-        assert_not_eof(c);
+        tail = x;
+    }
 
-       if (c == ')' || c == ']' || c == '}') {
-            // list read
-            assert_matching_paren(open_paren, c);
-            return Mcons(car, cdr);
+    assert_not_eof(c);
+    if (c == '.') {
+        // improper list
+        minim_cdr(tail) = read_required(in);
+        if (read_datum(in, &c, 0) != NULL) {
+            minim_error("read_object", "expected pair terminator");
         }
 
-        minim_error1("read_object", "expected pair terminator", Mchar(c));      
-    } else {
-        // list
-        ungetc(c, in);
-        cdr = read_pair(in, open_paren);
-        return Mcons(car, cdr);
+        assert_not_eof(c);
     }
+
+    // list read
+    assert_matching_paren(open_paren, c);
+    return head;
 }
 
 static mobj read_vector(FILE *in) {
-    mobj l;
+    mobj l, x;
     int c;
 
     l = minim_null;
-    while (1) {
-        skip_whitespace(in);
-        c = peek_char(in);
-        if (c == ')') {
-            read_char(in);
-            break;
-        }
-
-        l = Mcons(read_object(in), l);
+    while ((x = read_datum(in, &c, 0)) != NULL) {
+        l = Mcons(x, l);
     }
 
+    assert_not_eof(c);
+    assert_matching_paren('(', c);
     if (minim_nullp(l)) {
         return minim_empty_vec;
     } else {
@@ -254,11 +252,15 @@ static mobj read_vector(FILE *in) {
     }
 }
 
-mobj read_object(FILE *in) {
-    char buffer[symbol_max_len + 1];
+// Reads the next datum. Returns NULL at the end of input.
+// When `stop` is not NULL, also returns NULL at a closing parenthesis
+// (and at the dot of an improper list when `dotp` is set);
+// the character that was reached is stored in `stop`.
+static mobj read_datum(FILE *in, int *stop, int dotp) {
+    static char buffer[symbol_max_len + 1];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
@@ -267,6 +269,13 @@ loop:
     // no assertion: may actually be at end
     // assert_not_eof(c);
 
+    if (stop != NULL) {
+        *stop = c;
+        if (c == ')' || c == ']' || c == '}' || (dotp && is_cons_dot(in, c))) {
+            return NULL;
+        }
+    }
+
     if (c == '#') {
         // special value
         c = getc(in);
@@ -288,23 +297,20 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_required(in), minim_null));
         case '(':
             // vector
             return read_vector(in);
         case '&':
             // vector
-            return Mbox(read_object(in));
+            return Mbox(read_required(in));
         case 'x':
             // hex number
             c = getc(in);
             goto read_hex;
         case ';':
             // datum comment
-            skip_whitespace(in);
-            c = peek_char(in);
-            assert_not_eof(c);
-            read_object(in);        // throw away
+            read_required(in);      // throw away
             goto loop;
         case '|':
             // block comment
@@ -315,15 +321,17 @@ loop:
                 switch (c)
                 {
                 case '#':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '|') ++block_level;
+                    if (peek_char(in) == '|') {
+                        fgetc(in);
+                        ++block_level;
+                    }
                     break;
                 
                 case '|':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '#') --block_level;
+                    if (peek_char(in) == '#') {
+                        fgetc(in);
+                        --block_level;
+                    }
                     break;
                 }
             }
@@ -418,6 +426,16 @@ read_hex:
                     c = '\n';
                 } else if (c == 't') {
                     c = '\t';
+                } else if (c == 'a') {
+                    c = BEL_CHAR;
+                } else if (c == 'b') {
+                    c = BS_CHAR;
+                } else if (c == 'f') {
+                    c = FF_CHAR;
+                } else if (c == 'r') {
+                    c = CR_CHAR;
+                } else if (c == 'v') {
+                    c = VT_CHAR;
                 } else if (c == '\\') {
                     c = '\\';
                 } else if (c == '\'') {
@@ -443,7 +461,7 @@ read_hex:
         return read_pair(in, c);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
+        return Mcons(intern("quote"), Mcons(read_required(in), minim_null));
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
@@ -472,3 +490,7 @@ read_symbol:
 
     minim_error("read_object", "unreachable");
 }
+
+mobj read_object(FILE *in) {
+    return read_datum(in, NULL, 0);
+}
diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..e1971d3 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -175,7 +175,7 @@ extern mobj minim_unbound;
 // +------------+
 #define minim_char_size         ptr_size
 #define minim_charp(o)          (minim_type(o) == MINIM_OBJ_CHAR)
-#define minim_char(o)           (*((char *) ptr_add(o, 4)))
+#define minim_char(o)           (*((unsigned char *) ptr_add(o, 4)))
 
 #define NUL_CHAR        ((mchar) 0x00)      // null
 #define BEL_CHAR        ((mchar) 0x07)      // alarm / bell
-- 
2.43.0


From be491e132a1b5a0df0c8458b94779254538564f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 07/40] fix: compiler: no duplicated consumers, saved frames
 for values in argument position, arity kept on inlined closures

---
 src/core/c/jitcompile.c | 34 ++++++++++++++++++-----------
 src/core/c/jitopt.c     | 47 +++++++++++++++++++++++------------------
 2 files changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..8d240ab 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,22 +298,32 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
-    
-    vals = minim_cdr(expr);
-    if (minim_nullp(vals)) {
-        ins = Mlist1(Mlist1(do_values_symbol));
+    mobj vals, ins, label;
+
+    // need to save a continuation if not in tail position:
+    // the values are collected in a frame of their own
+    if (tailp) {
+        ins = minim_null;
     } else {
-        ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
-        for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
-            list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
-            list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
-        }
+        label = scope_cenv_make_label(env);
+        ins = Mlist1(Mlist2(save_cc_symbol, label));
+    }
 
-        list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
+    vals = minim_cdr(expr);
+    ins = list_append2(ins, Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals)))));
+    for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
+        list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
+        list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
     }
 
-    return with_tail_ret(ins, tailp);
+    list_set_tail(ins, Mlist3(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol), Mlist1(ret_symbol)));
+
+    // need a label to jump to if not in tail position
+    if (!tailp) {
+        list_set_tail(ins, Mlist1(label));
+    }
+
+    return ins;
 }
 
 static mobj compile_begin(mobj expr, mobj env, int tailp) {
diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..d7e3821 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -331,12 +331,15 @@ static mobj jit_opt_L1_values(mobj expr) {
     }
 }
 
-// L1 optimization for `values`
+// L1 optimization for `mv-call`
+// Assumes the subexpressions have already been optimized
 static mobj jit_opt_L1_mvcall(mobj expr) {
     mobj e, consumer, producer, body, hd, tl;
+    int lambdap;
 
     e = minim_cadr(expr);
     consumer = minim_car(minim_cddr(expr));
+    lambdap = minim_consp(consumer) && minim_car(consumer) == lambda_symbol;
     if (minim_consp(e)) {
         if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
             producer = minim_car(e);
@@ -345,16 +348,16 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
                 body = minim_cddr(producer);
                 if (minim_nullp(minim_cdr(body))) {
                     // (mv-call ((lambda () e)) consumer) => (mv-call e consumer)
-                    return jit_opt_L1(Mlist3(mvcall_symbol, minim_car(body), consumer));
+                    return jit_opt_L1_mvcall(Mlist3(mvcall_symbol, minim_car(body), consumer));
                 } else {
                     // (mv-call ((lambda () e ...) consumer => (mv-call (begin e ...) consumer)
-                    return jit_opt_L1(Mlist3(mvcall_symbol, Mcons(begin_symbol, body), consumer)); 
+                    return jit_opt_L1_mvcall(Mlist3(mvcall_symbol, Mcons(begin_symbol, body), consumer)); 
                 }
             }
         } else if (minim_car(e) == mvvalues_symbol) {
             // (mv-call (mv-values e ...) consumer) => (consumer e ...)
-            return jit_opt_L1(Mcons(consumer, minim_cdr(e)));
-        } else if (minim_car(e) == begin_symbol) {
+            return Mcons(consumer, minim_cdr(e));
+        } else if (minim_car(e) == begin_symbol && minim_consp(minim_cdr(e))) {
             // (mv-call (begin e ... e_last) consumer)
             // => (begin e ... (mv-call e_last consumer))
             hd = tl = Mlist1(begin_symbol);
@@ -363,41 +366,40 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
                 tl = minim_cdr(tl);
             }
 
-            minim_cdr(tl) = Mlist1(Mlist3(mvcall_symbol, minim_car(e), consumer));
-            return jit_opt_L1(hd);
-        } else if (minim_car(e) == if_symbol) {
+            minim_cdr(tl) = Mlist1(jit_opt_L1_mvcall(Mlist3(mvcall_symbol, minim_car(e), consumer)));
+            return hd;
+        } else if (minim_car(e) == if_symbol && minim_symbolp(consumer)) {
             // (mv-call (if cond ift iff) consumer)
             // => (if cond (mv-call ift consumer) (mv-call iff consumer)
-            return jit_opt_L1(Mlist4(
+            // only for identifiers: otherwise the consumer would be duplicated
+            return Mlist4(
                 if_symbol,
                 minim_cadr(e),
-                Mlist3(mvcall_symbol, minim_car(minim_cddr(e)), consumer),
-                Mlist3(mvcall_symbol, minim_cadr(minim_cddr(e)), consumer)
-            ));
+                jit_opt_L1_mvcall(Mlist3(mvcall_symbol, minim_car(minim_cddr(e)), consumer)),
+                jit_opt_L1_mvcall(Mlist3(mvcall_symbol, minim_cadr(minim_cddr(e)), consumer))
+            );
         } else if (minim_car(e) == lambda_symbol ||
             minim_car(e) == quote_symbol ||
             minim_car(e) == quote_syntax_symbol) {
             // (mv-call e_single consumer) => (consumer e_single)
-            return jit_opt_L1(Mlist2(consumer, e));
+            return Mlist2(consumer, e);
         }
 
-        if (minim_consp(consumer) &&
-            minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+        if (lambdap && minim_consp(minim_cadr(consumer)) && minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
-            return jit_opt_L1(Mlist4(
+            return Mlist4(
                 mvlet_symbol,
                 e,
                 minim_cadr(consumer),
                 minim_nullp(minim_cdr(body)) ? minim_car(body) : Mcons(begin_symbol, body)
-            ));
+            );
         }
 
         return expr;
     } else {
         // (mv-call e_lit consumer) => (consumer e_lit)
-        return jit_opt_L1(Mlist2(consumer, e));
+        return Mlist2(consumer, e);
     }
 }
 
@@ -517,7 +519,10 @@ static mobj jit_opt_L2_app(mobj expr) {
     mobj hd, tl, args, body;
 
     hd = minim_car(expr);
-    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd))) {
+    if (minim_consp(hd) &&
+        minim_car(hd) == lambda_symbol &&
+        minim_listp(minim_cadr(hd)) &&
+        list_length(minim_cadr(hd)) == list_length(minim_cdr(expr))) {
         // `((lambda (ids ...) body ...) args ...)`
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
@@ -538,7 +543,7 @@ static mobj jit_opt_L2_app(mobj expr) {
         } else {
             expr = Mlist4(
                 mvlet_symbol,
-                Mcons(values_symbol, args),
+                Mcons(mvvalues_symbol, args),
                 minim_cadr(hd),
                 minim_nullp(minim_cdr(body))
                     ? minim_car(body)
-- 
2.43.0


From 756e2f816aa910363f7af55a40c771e49fdf479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 08/40] fix: syntax check covers application heads, lambda and
 case-lambda clauses

---
 src/core/c/check.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..499a28e 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -132,7 +132,12 @@ static void check_begin(mobj expr) {
 // Already assumes `expr` is `(<name> . <???>)`
 // Check: `expr` must be `(<name> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args;
+
+    if (!minim_consp(minim_cdr(expr)))
+        bad_syntax_exn(expr);
+
+    args = minim_cadr(expr);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
@@ -148,6 +153,9 @@ static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
@@ -214,6 +222,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                return;
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
@@ -224,7 +235,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
-- 
2.43.0


From 73ebf85997a1d98ca5eb39c1096494ea6a34e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 09/40] fix: equal? on hashtables compares sizes, equal-hash
 covers hashtables and strings

---
 src/core/c/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 1987771..461f086 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -237,7 +237,7 @@ mobj equal_hash_proc(mobj x) {
     size_t hc;
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
-    } else if (minim_string(x)) {
+    } else if (minim_stringp(x)) {
         hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
     } else {
         hc = eq_hash(x);
-- 
2.43.0


From c246ff332936a5e9f2e2a94bcb623a8c51d6abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 10/40] fix: prelude: error paths, record descriptors, boxes,
 write-char and number parsing behave as documented

---
 src/core/c/string.c    |   4 +-
 src/core/s/prelude.min | 101 +++++++++++++++++++++--------------------
 2 files changed, 55 insertions(+), 50 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..cd58361 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -71,7 +71,7 @@ mobj number_to_string(mobj n) {
 
 mobj string_to_number(mobj s) {
     // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    return Mfixnum(strtol(minim_string(s), NULL, 10));
 }
 
 mobj symbol_to_string(mobj s) {
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index c02ec15..a72e9a0 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
@@ -1133,7 +1133,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1143,7 +1143,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
@@ -1200,7 +1200,7 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
@@ -1229,7 +1229,7 @@
                      (if (pair? field)
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
-                            (if (if (eq? type 'immutable) #t (eq? type 'mutable))
+                            (if (if (pair? rib) (if (eq? type 'immutable) #t (eq? type 'mutable)) #f)
                                 (let-values ([(name) ($car rib)]
                                              [(rib) ($cdr rib)])
                                    (if (symbol? name)
@@ -1240,7 +1240,7 @@
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1304,10 +1304,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+      (let-values ([(rtd) (check-args! name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
                          [(rec-hash) (record-type-hash-procedure parent)]
@@ -1319,7 +1319,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
@@ -1396,7 +1396,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
@@ -1728,7 +1728,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1736,10 +1736,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
@@ -1763,7 +1763,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1819,7 +1819,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1856,15 +1856,17 @@
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
                          (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
-                             (let-values ([(kas vas) (hashtable-entries a)])
-                               (andmap
-                                 (lambda (i)
-                                   (let-values ([(ka) ($vector-ref kas i)]
-                                                [(va) ($vector-ref vas i)])
-                                     (if (hashtable-contains? b ka)
-                                         (equal? va (hashtable-ref b ka))
-                                         #f)))
-                                 (iota ($vector-length kas))))
+                             (if (= (hashtable-size a) (hashtable-size b))
+                                 (let-values ([(kas vas) (hashtable-entries a)])
+                                   (andmap
+                                     (lambda (i)
+                                       (let-values ([(ka) ($vector-ref kas i)]
+                                                    [(va) ($vector-ref vas i)])
+                                         (if (hashtable-contains? b ka)
+                                             (equal? va (hashtable-ref b ka))
+                                             #f)))
+                                     (iota ($vector-length kas))))
+                                 #f)
                              #f)
                          #f))])
     (lambda (a b)
@@ -1925,7 +1927,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (+ hc (hashtable-size x))
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
@@ -1964,7 +1966,7 @@
         (if (char? ch)
             ($put-char p ch)
             (raise-argument-error 'put-char "char?" ch))
-        (raise-argument-error 'put-char "output-port?" ch))))
+        (raise-argument-error 'put-char "output-port?" p))))
 
 (define-values (put-string)
   (let-values ([(non-output-port-error)
@@ -1982,8 +1984,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2020,12 +2022,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
@@ -2042,6 +2044,7 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (wrbox x d? p)
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2051,7 +2054,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>"))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
@@ -2120,6 +2123,11 @@
                                               (loop (+ i 1) #\space))))])
                        (loop 0 lparen))
                      (put-char p rparen))]
+                  ; box writer
+                  [(wrbox)
+                   (lambda (x d? p)
+                     (put-string p "#&")
+                     (wr (unbox x) d? p))]
                   ; record type writer
                   [(wrrtd)
                    (lambda (x d? p)
@@ -2193,7 +2201,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
@@ -2246,7 +2254,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
@@ -2353,10 +2361,7 @@
         (raise-argument-error 'environment-symbols "environment?" env))))
 
 (define-values (environment-ref)
-  (letrec-values ([(default-fail)
-                   (lambda (env k)
-                     (raise-missing-error 'environment-ref "key" env k))]
-                  [(1/environment-ref)
+  (letrec-values ([(1/environment-ref)
                    (lambda (env k fail)
                      (if (environment? env)
                          (if (symbol? k)
@@ -2366,11 +2371,11 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (lambda () (raise-missing-error 'environment-ref "key" env k)))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
@@ -2432,7 +2437,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2441,7 +2446,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2450,7 +2455,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2459,7 +2464,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2471,7 +2476,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2481,7 +2486,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 532415ab5ad4fd9f78a08f222dbf2b78a5112492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 11/40] fix: procedure arity of case-lambda is a sorted arity
 list, empty case-lambda is bad syntax

---
 src/core/c/check.c      |  3 ++
 src/core/c/jitcompile.c | 69 ++++++++++++++---------------------------
 2 files changed, 26 insertions(+), 46 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 499a28e..9ac0e4e 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -152,6 +152,9 @@ static void check_lambda(mobj expr) {
 static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
+    if (!minim_consp(minim_cdr(expr)))
+        bad_syntax_exn(expr);
+
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
         if (!minim_consp(minim_car(clauses)))
             bad_syntax_exn(expr);
diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 8d240ab..a92b0e7 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -13,57 +13,34 @@ static int get_formals_len(mobj e, size_t *len) {
     return !minim_nullp(e);
 }
 
-static mobj update_arity(mobj arity, size_t req_arity, int restp) {
+// Inserts the argument count `n` into the sorted arity list `arity`;
+// a list ending in `#f` also accepts any count after its last element.
+static mobj arity_list_insert(mobj arity, size_t n, int restp) {
     if (minim_nullp(arity)) {
-        // no arity set
-        return restp ? Mcons(Mfixnum(req_arity), minim_false) : Mfixnum(req_arity);
-    } else if (minim_fixnump(arity)) {
-        // single arity
-        if (req_arity > minim_fixnum(arity)) {
-            if (restp) {
-                 return Mcons(arity, Mcons(Mfixnum(req_arity), minim_false));
-            } else {
-                return Mlist2(arity, Mfixnum(req_arity));
-            }
-        } else if (req_arity == minim_fixnum(arity)) {
-            if (restp) {
-                return Mcons(arity, minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(Mfixnum(req_arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
+        return Mcons(Mfixnum(n), restp ? minim_false : minim_null);
+    } else if (n > minim_fixnum(minim_car(arity))) {
+        if (minim_falsep(minim_cdr(arity)))
+            return arity;
+        return Mcons(minim_car(arity), arity_list_insert(minim_cdr(arity), n, restp));
+    } else if (restp) {
+        return Mcons(Mfixnum(n), minim_false);
+    } else if (n == minim_fixnum(minim_car(arity))) {
+        return arity;
     } else {
-        // multi-arity or arity with rest
-        if (req_arity > minim_fixnum(minim_car(arity))) {
-            if (minim_falsep(minim_cdr(arity))) {
-                return arity;
-            } else {
-                return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
-            }
-        } else if (req_arity == minim_fixnum(minim_car(arity))) {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
-
-        minim_error("update_arity", "unimplemented");
+        return Mcons(Mfixnum(n), arity);
     }
 }
 
+// An arity is a non-negative integer (exact), or a pair:
+// a list of such integers, possibly ending in `#f` rather than `()`.
+static mobj update_arity(mobj arity, size_t req_arity, int restp) {
+    if (minim_fixnump(arity))
+        arity = Mlist1(arity);
+
+    arity = arity_list_insert(arity, req_arity, restp);
+    return minim_nullp(minim_cdr(arity)) ? minim_car(arity) : arity;
+}
+
 //
 //  Compiler
 //
-- 
2.43.0


From d1715c0f6e17c72b1d6060b06c0e67920ff2c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 12/40] fix: set! on an undefined variable raises, eval checks
 syntax, load from a running procedure resumes it

---
 src/core/c/eval.c | 60 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 43789ee..3a9c41c 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -43,6 +43,11 @@ void arity_mismatch_exn(mobj proc, size_t actual) {
         // range of arities
         mobj min_arity = minim_car(arity);
         mobj max_arity = minim_cdr(arity);
+        while (minim_consp(max_arity) && !minim_nullp(minim_cdr(max_arity)))
+            max_arity = minim_cdr(max_arity);
+        if (minim_consp(max_arity))
+            max_arity = minim_car(max_arity);
+
         if (minim_falsep(max_arity)) {
             // at-least arity
             minim_error2(
@@ -329,6 +334,10 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
+    if (minim_falsep(cell)) {
+        minim_error1(NULL, "cannot set variable before its definition", id);
+    }
+
     minim_cdar(cell) = val;
 }
 
@@ -553,6 +562,7 @@ application:
     } else if (ty == tl_rebind_symbol) {
         // tl-rebind
         tl_env_rebind(tc, minim_cadr(ins), tregs[0]);
+        tregs[0] = minim_void;
     } else if (ty == push_env_symbol) {
         // push-env
         tc_env(tc) = Menv(minim_fixnum(minim_cadr(ins)));
@@ -581,6 +591,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
@@ -706,7 +717,52 @@ not_procedure:
     minim_error1(NULL, "expected procedure", tc_cp(tc));
 }
 
+// Number of active calls to `eval_expr`
+static int eval_depth = 0;
+
 mobj eval_expr(mobj tc, mobj expr) {
-    mobj code = compile_expr(expr);
-    return eval_istream(tc, minim_code_it(code));
+    mobj code, result, *sfp, *esp, cp, ccont, *stack_base, stack_link;
+    size_t ac, stack_len;
+    jmp_buf reentry;
+
+    code = compile_expr(expr);
+    if (eval_depth == 0) {
+        eval_depth += 1;
+        result = eval_istream(tc, minim_code_it(code));
+        eval_depth -= 1;
+        return result;
+    }
+
+    // called by a procedure that is running (`load`):
+    // evaluate on a stack of its own, then resume the caller
+    ac = tc_ac(tc);
+    cp = tc_cp(tc);
+    sfp = tc_sfp(tc);
+    esp = tc_esp(tc);
+    ccont = tc_ccont(tc);
+    stack_base = tc_stack_base(tc);
+    stack_len = tc_stack_size(tc);
+    stack_link = tc_stack_link(tc);
+    memcpy(&reentry, tc_reentry(tc), sizeof(jmp_buf));
+
+    tc_stack_base(tc) = GC_alloc(stack_size);
+    tc_stack_link(tc) = minim_null;
+    tc_stack_size(tc) = stack_size;
+    tc_sfp(tc) = tc_stack_base(tc);
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
+
+    eval_depth += 1;
+    result = eval_istream(tc, minim_code_it(code));
+    eval_depth -= 1;
+
+    tc_ac(tc) = ac;
+    tc_cp(tc) = cp;
+    tc_sfp(tc) = sfp;
+    tc_esp(tc) = esp;
+    tc_ccont(tc) = ccont;
+    tc_stack_base(tc) = stack_base;
+    tc_stack_size(tc) = stack_len;
+    tc_stack_link(tc) = stack_link;
+    memcpy(tc_reentry(tc), &reentry, sizeof(jmp_buf));
+    return result;
 }
-- 
2.43.0


From 0235904f22d208af48444376c7df77a522045ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 13/40] fix: the empty vector is written as #()

---
 src/core/s/prelude.min | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index a72e9a0..f4c5aab 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2111,17 +2111,17 @@
                   ; vector writer
                   [(wrvector)
                    (lambda (x d? p)
-                     (put-char p #\#)
+                     (put-string p "#(")
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (zero? i) (void) (put-char p #\space))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
                   ; box writer
                   [(wrbox)
-- 
2.43.0


From 5cceef8961997781016ac7570d73543b6652b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:30 +0000
Subject: [PATCH 14/40] fix: a thunk applied to arguments as a producer is
 still an arity error

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index d7e3821..1823bba 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -343,7 +343,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     if (minim_consp(e)) {
         if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
             producer = minim_car(e);
-            if (minim_nullp(minim_cadr(producer))) {
+            if (minim_nullp(minim_cadr(producer)) && minim_nullp(minim_cdr(e))) {
                 // producer is `(lambda () e ...)`
                 body = minim_cddr(producer);
                 if (minim_nullp(minim_cdr(body))) {
-- 
2.43.0


From 4ce5e647b1a4113564855f5b3222f0fd96cfd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 15/40] fix: hashtable-update! loses entries when the updater
 changes the table

---
 src/core/s/prelude.min | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index f4c5aab..037a993 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1652,16 +1652,9 @@
     
     [(1/hashtable-update!)
      (lambda (ht k updater default)
-       (letrec-values ([(h) (do-hash (hashtable-hash-proc ht) k)]
-                       [(cell) (1/hashtable-cell-ref ht h k)])
-         (if cell
-             (set-cdr! cell (updater ($cdr cell)))
-             (let-values ([(store) ($hashtable-store ht)]
-                          [(cell) (cons k (if (procedure? default)
-                                              (updater (default))
-                                              (updater default)))])
-               ($hashtable-set! store h (cons cell ($hashtable-ref store h)))
-               (incr-size! ht store)))))]
+       ; the updater and the default may change the table
+       (let-values ([(v) (updater (1/hashtable-ref ht k default))])
+         (1/hashtable-set! ht k v)))]
 
     [(no-key!)
      (lambda (who ht k)
-- 
2.43.0


From 557725b405069343a0fc2d5c00f14ab58a8dd2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 16/40] fix: operations on closed ports are errors instead of
 using a freed stream

---
 src/core/c/fasl.c |  2 ++
 src/core/c/io.c   | 33 +++++++++++++++++++++++++++------
 src/core/minim.h  |  2 ++
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..7a64264 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -345,11 +345,13 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
+    check_port_open("fasl-read", port);
     return read_fasl(minim_port(port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
+    check_port_open("fasl-write", port);
     write_fasl(minim_port(port), x);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..2515d24 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -20,7 +20,7 @@ static void gc_port_dtor(void *ptr, void *data) {
 mobj Minput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = PORT_FLAG_READ;
+    minim_port_flags(o) = PORT_FLAG_OPEN | PORT_FLAG_READ;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
@@ -29,12 +29,18 @@ mobj Minput_port(FILE *stream) {
 mobj Moutput_port(FILE *stream) {
     mobj o = GC_alloc(minim_port_size);
     minim_type(o) = MINIM_OBJ_PORT;
-    minim_port_flags(o) = 0x0;
+    minim_port_flags(o) = PORT_FLAG_OPEN;
     minim_port(o) = stream;
     GC_register_dtor(o, gc_port_dtor);
     return o;
 }
 
+void check_port_open(const char *who, mobj port) {
+    if (!minim_port_openp(port)) {
+        minim_error1(who, "port is closed", port);
+    }
+}
+
 //
 //  Primitives
 //
@@ -136,15 +142,21 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    if (minim_port_openp(port)) {
+        fclose(minim_port(port));
+        minim_port_unset(port, PORT_FLAG_OPEN);
+    }
+
     return minim_void;
 }
 
@@ -152,6 +164,7 @@ mobj get_output_string(mobj port) {
     // (-> (and output-port? string-port?) string?)
     mobj str;
     size_t len, read;
+    check_port_open("get-output-string", port);
     
     // read from file
     len = ftell(minim_port(port));
@@ -174,17 +187,20 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
+    check_port_open("read", port);
     return read_object(minim_port(port));
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
+    check_port_open("read-char", port);
     mchar ch = getc(minim_port(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
+    check_port_open("peek-char", port);
     mchar ch = getc(minim_port(port));
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
@@ -192,6 +208,7 @@ mobj peek_char_proc(mobj port) {
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
+    check_port_open("char-ready?", port);
     mchar ch = getc(minim_port(port));
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_false : minim_true;
@@ -199,18 +216,21 @@ mobj char_readyp_proc(mobj port) {
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
+    check_port_open("put-char", port);
     putc(minim_char(ch), minim_port(port));
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
+    check_port_open("flush-output-port", port);
     fflush(minim_port(port));
     return minim_void;
 }
 
 mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     // (-> output-port? string? integer? integer?)
+    check_port_open("put-string", port);
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
     for (long i = start_idx; i < end_idx; i++) {
@@ -222,6 +242,7 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
+    check_port_open("newline", port);
     putc('\n', minim_port(port));
     return minim_void;
 }
diff --git a/src/core/minim.h b/src/core/minim.h
index e1971d3..db349db 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -620,6 +620,8 @@ mobj box_set_proc(mobj x, mobj v);
 
 // Port
 
+void check_port_open(const char *who, mobj port);
+
 mobj input_portp_proc(mobj x);
 mobj output_portp_proc(mobj x);
 mobj string_portp_proc(mobj x);
-- 
2.43.0


From a6f0a8b0e630aa6b80b819aca0915f5361ed27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 17/40] fix: module reader accepts what the core reader accepts
 and rejects truncated input

---
 src/boot/s/boot.min  |   2 +-
 src/library/read.min | 215 ++++++++++++++++++++++---------------------
 2 files changed, 109 insertions(+), 108 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 08c26a0..41e7830 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((char-between?) (lambda (c lo hi) (if (char? c) (<= (char->integer lo) (char->integer c) (char->integer hi)) #f))) ((digit?) (lambda (c) (char-between? c #\0 #\9))) ((hex-digit?) (lambda (c) (let-values (((or-t) (char-between? c #\0 #\9))) (if or-t or-t (let-values (((or-t) (char-between? c #\a #\f))) (if or-t or-t (char-between? c #\A #\F))))))) ((close?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((closing) (list (quote closing))) ((read-required) (lambda () (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values))) (() (let-values () (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) (void)) (values)))) x))) ((read-pair) (lambda (open) (letrec-values (((loop) (lambda (elems) (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values)))) (if (eq? x closing) (let-values () (assert-matching-parens! open (read-char p)) (reverse elems)) (if (if (pair? elems) (eq? (syntax-e x) (quote .)) #f) (let-values () (letrec-values (((tail) (read-required)) ((end) (read-loop)) (() (let-values () (assert-not-eof! end) (values))) (() (let-values () (if (eq? end closing) (assert-matching-parens! open (read-char p)) (error (quote read) "missing closing parenthesis")) (values)))) (letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) (loop elems tail)))) (loop (cons x elems)))))))) (loop (quote ()))))) ((read-vector) (lambda () (list->vector (read-pair oparen)))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((names) (quote ((#\a #\l "arm" 7) (#\b #\a "ckspace" 8) (#\d #\e "lete" 127) (#\e #\s "c" 27) (#\l #\i "nefeed" 10) (#\n #\e "wline" 10) (#\n #\u "l" 0) (#\p #\a "ge" 12) (#\r #\e "turn" 13) (#\s #\p "ace" 32) (#\t #\a "b" 9) (#\v #\t "ab" 11)))) ((char) (letrec-values (((loop) (lambda (names) (if (null? names) c (if (if (eq? c (caar names)) (eq? (peek-char p) (cadr (car names))) #f) (let-values () (read-char p) (check-expected-string! (caddr (car names))) (integer->char (cadddr (car names)))) (loop (cdr names))))))) (loop names))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) char))) ((read-number) (lambda (prefix) (letrec-values (((0-char) (char->integer #\0)) ((chars) prefix) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((escapes) (quote ((#\a . 7) (#\b . 8) (#\t . 9) (#\n . 10) (#\v . 11) (#\f . 12) (#\r . 13) (#\" . 34) (#\' . 39) (#\\ . 92)))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) ((escape) (assoc c escapes))) (if escape (let-values () (read-char p) (loop (cons (integer->char (cdr escape)) acc))) (errorf (quote read) "unknown escape character ~a" c)))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (integer? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (close? c) closing (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) ((x) (read-loop))) (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) x)))))
diff --git a/src/library/read.min b/src/library/read.min
index 06fce4e..1c4f90f 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -25,9 +25,18 @@
      (define obrace (integer->char 123))
      (define cbrace (integer->char 125))
  
+     (define tab (integer->char 9))
+     (define vtab (integer->char 11))
+     (define page (integer->char 12))
+     (define return (integer->char 13))
+ 
      (define (space? c)
        (or (eq? c #\space)
-           (eq? c #\newline)))
+           (eq? c #\newline)
+           (eq? c tab)
+           (eq? c vtab)
+           (eq? c page)
+           (eq? c return)))
  
      (define (delimeter? c)
        (or (eof-object? c) (space? c)
@@ -38,17 +47,20 @@
      (define (symbol-char? c)
        (not (delimeter? c)))
  
+     (define (char-between? c lo hi)
+       (and (char? c)
+            (<= (char->integer lo) (char->integer c) (char->integer hi))))
+ 
      (define (digit? c)
-       (define 0-char (char->integer #\0))
-       (define 9-char (char->integer #\9))
-       (define i (char->integer c))
-       (<= 0-char i 9-char))
+       (char-between? c #\0 #\9))
  
      (define (hex-digit? c)
-       (define i (char->integer c))
-       (or (<= (char->integer #\0) i (char->integer #\9))
-           (<= (char->integer #\a) i (char->integer #\f))
-           (<= (char->integer #\A) i (char->integer #\F))))
+       (or (char-between? c #\0 #\9)
+           (char-between? c #\a #\f)
+           (char-between? c #\A #\F)))
+ 
+     (define (close? c)
+       (or (eq? c cparen) (eq? c cbrack) (eq? c cbrace)))
  
      (define (digit-prefix? c)
        (or (digit? c)
@@ -91,6 +103,7 @@
            [(= block-level 0) (void)]
            [else
             (define c (read-char p))
+            (assert-not-eof! c)
             (cond
               [(eq? c #\#)
                (define c (peek-char p))
@@ -142,100 +155,86 @@
            [else
             (void)])))
  
-     ; pair reader
-     (define (read-pair open)
-       (skip-until-token!)
-       (define c (peek-char p))
-       (assert-not-eof! c)
+     ; returned by `read-loop` at a closing parenthesis
+     (define closing (list 'closing))
  
-       (cond
-         [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-          (assert-matching-parens! open c)
-          (read-char p)
-          '()]
-         [else
-          (define car (read-loop))
-          ;; possibly a dot
-          (let loop ([car car])
-            (skip-until-token!)
-            (define c (peek-char p))
-            (assert-not-eof! c)
-            (cond
-              [(eq? c #\.)
-               ; maybe a pair
-               (define maybe-dot (read-loop))
-               (cond
-                 [(eq? (syntax-e maybe-dot) '.)
-                  ; pair
-                  (define cdr (read-loop))
- 
-                  (skip-until-token!)
-                  (define c (peek-char p))
-                  (assert-not-eof! c)
- 
-                  (cond
-                    [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-                     (assert-matching-parens! open c)
-                     (read-char p)
-                     (cons car cdr)]
-                    [else
-                     (error 'read "missing closing parenthesis")])]
-                 [else
-                  ; oops, just kidding
-                  (cons car (loop maybe-dot))])]
-              [else
-               (define cdr (read-pair open))
-               (cons car cdr)]))]))
+     ; reads a datum that must be present
+     (define (read-required)
+       (define x (read-loop))
+       (assert-not-eof! x)
+       (if (eq? x closing)
+           (errorf 'read "unexpected input: ~a" (peek-char p))
+           (void))
+       x)
  
-     ; vector reader
-     (define (read-vector)
+     ; pair reader
+     (define (read-pair open)
        (let loop ([elems '()])
-         (skip-until-token!)
-         (define c (peek-char p))
+         (define x (read-loop))
+         (assert-not-eof! x)
          (cond
-           [(eq? c cparen)
-            (read-char p)
-            (list->vector (reverse elems))]
+           [(eq? x closing)
+            (assert-matching-parens! open (read-char p))
+            (reverse elems)]
+           [(and (pair? elems) (eq? (syntax-e x) '.))
+            ; improper list
+            (define tail (read-required))
+            (define end (read-loop))
+            (assert-not-eof! end)
+            (if (eq? end closing)
+                (assert-matching-parens! open (read-char p))
+                (error 'read "missing closing parenthesis"))
+            (let loop ([elems elems] [lst tail])
+              (if (null? elems)
+                  lst
+                  (loop (cdr elems) (cons (car elems) lst))))]
            [else
-            (loop (cons (read-loop) elems))])))
+            (loop (cons x elems))])))
+ 
+     ; vector reader
+     (define (read-vector)
+       (list->vector (read-pair oparen)))
  
      ; character reader
      (define (read-character)
-       (define c (read-char p))  
+       (define c (read-char p))
        (if (eof-object? c)
            (error 'read "incomplete character literal")
            (void))
-   
-       ; check for special values
-       (cond
-         [(eq? c #\s)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\p)
-             (check-expected-string! "pace")
-             #\space]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [(eq? c #\n)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\e)
-             (check-expected-string! "ewline")
-             #\newline]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [else
-          (assert-delimeter! (peek-char p))
-          c]))
+ 
+       ; named characters are recognized by their first two characters
+       (define names
+         '((#\a #\l "arm" 7)
+           (#\b #\a "ckspace" 8)
+           (#\d #\e "lete" 127)
+           (#\e #\s "c" 27)
+           (#\l #\i "nefeed" 10)
+           (#\n #\e "wline" 10)
+           (#\n #\u "l" 0)
+           (#\p #\a "ge" 12)
+           (#\r #\e "turn" 13)
+           (#\s #\p "ace" 32)
+           (#\t #\a "b" 9)
+           (#\v #\t "ab" 11)))
+       (define char
+         (let loop ([names names])
+           (cond
+             [(null? names) c]
+             [(and (eq? c (caar names)) (eq? (peek-char p) (cadr (car names))))
+              (read-char p)
+              (check-expected-string! (caddr (car names)))
+              (integer->char (cadddr (car names)))]
+             [else
+              (loop (cdr names))])))
+       (assert-delimeter! (peek-char p))
+       char)
  
      ; decimal number reader
-     (define (read-number)
+     (define (read-number prefix)
        ; if we encounter a non-digit, the token is a symbol
        ; so we need to track characters that we read
        (define 0-char (char->integer #\0))
-       (define chars '())
+       (define chars prefix)
        (define num 0)
  
        ; magnitude
@@ -303,6 +302,10 @@
             (* num sign)])))
  
      ; string reader
+     (define escapes
+       '((#\a . 7) (#\b . 8) (#\t . 9) (#\n . 10) (#\v . 11) (#\f . 12) (#\r . 13)
+         (#\" . 34) (#\' . 39) (#\\ . 92)))
+ 
      (define (read-string)
        (let loop ([acc '()])
          (define c (peek-char p))
@@ -314,16 +317,12 @@
             ; escape character
             (read-char p)
             (define c (peek-char p))
+            (assert-not-eof! c)
+            (define escape (assoc c escapes))
             (cond
-              [(eq? c #\n)
+              [escape
                (read-char p)
-               (loop (cons #\newline acc))]
-              [(eq? c #\\)
-               (read-char p)
-               (loop (cons #\\ acc))]
-              [(eq? c #\")
-               (read-char p)
-               (loop (cons #\" acc))]
+               (loop (cons (integer->char (cdr escape)) acc))]
               [else
                (errorf 'read "unknown escape character ~a" c)])]
            [(eq? c #\")
@@ -374,7 +373,7 @@
             [(eq? c #\')
              ; quoted syntax
              (read-char p)
-             (datum->syntax (list 'syntax (read-loop)))]
+             (datum->syntax (list 'syntax (read-required)))]
             [(eq? c oparen)
              ; vector
              (read-char p)
@@ -382,7 +381,7 @@
             [(eq? c #\&)
              ; box
              (read-char p)
-             (datum->syntax (box (read-loop)))]
+             (datum->syntax (box (read-required)))]
             [(eq? c #\x)
              ; hex number
              (read-char p)
@@ -390,17 +389,14 @@
             [(eq? c #\;)
              ; datum comment
              (read-char p)
-             (skip-until-token!)
-             (define c (peek-char p))
-             (assert-not-eof! c)
              ; read and ignore, then actually read
-             (read-loop)
+             (read-required)
              (read-loop)]
             [(eq? c #\|)
              ; block comment
              (read-char p)         
              (skip-block-comment!)
-             (datum->syntax (read-loop))]
+             (read-loop)]
             [else
              ; unknown
              (errorf 'read "unknown special character ~a" c)])]
@@ -411,15 +407,15 @@
           (cond
             [(digit? n)
              ; optional sign
-             (define pos-num (read-number))
-             (if (eq? c #\-)
+             (define pos-num (read-number (list c)))
+             (if (and (eq? c #\-) (integer? pos-num))
                  (datum->syntax (- pos-num))
                  (datum->syntax pos-num))]
             [else
              (datum->syntax (read-symbol (list c)))])]
          [(digit? c)
           ; number
-          (datum->syntax (read-number))]
+          (datum->syntax (read-number '()))]
          [(eq? c #\")
           ; string
           (read-char p)
@@ -433,11 +429,16 @@
          [(eq? c #\')
           ; quoted form
           (read-char p)
-          (datum->syntax (list 'quote (read-loop)))]
+          (datum->syntax (list 'quote (read-required)))]
+         [(close? c)
+          closing]
          [(symbol-char? c)
           ; symbol
           (datum->syntax (read-symbol '()))]
          [else
           (errorf 'read "unexpected input: ~a" c)]))
  
-     (read-loop)]))
+     (define x (read-loop))
+     (if (eq? x closing)
+         (errorf 'read "unexpected input: ~a" (peek-char p))
+         x)]))
-- 
2.43.0


From 128fdac8b28c5314a6673f01098b35e1bb7c31b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 18/40] fix: read at the end of input returns the eof object

---
 src/core/c/io.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 2515d24..f43cf17 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -186,9 +186,12 @@ mobj get_output_string(mobj port) {
 }
 
 mobj read_proc(mobj port) {
-    // (-> input-port? any/c)
+    // (-> input-port? (or any/c eof-object?))
+    mobj x;
+
     check_port_open("read", port);
-    return read_object(minim_port(port));
+    x = read_object(minim_port(port));
+    return x == NULL ? minim_eof : x;
 }
 
 mobj read_char_proc(mobj port) {
-- 
2.43.0


From 662de27ede2093c77002a4f84d3b10283a02a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:54 +0000
Subject: [PATCH 19/40] fix: unreachable ports are collected when file
 descriptors run out; format closes its port

---
 src/core/c/io.c        | 25 +++++++++++++++++++++----
 src/core/s/prelude.min |  4 +++-
 src/gc/gc.h            |  1 +
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index f43cf17..9f963bd 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -2,6 +2,8 @@
     Basic I/O
 */
 
+#include <errno.h>
+
 #include "../minim.h"
 
 //
@@ -41,6 +43,21 @@ void check_port_open(const char *who, mobj port) {
     }
 }
 
+// Opens a file, or a temporary file when `name` is NULL.
+// When there are no file descriptors left, the unreachable ports
+// that still hold one are collected first.
+static FILE *open_stream(const char *name, const char *mode) {
+    FILE *stream;
+
+    stream = (name == NULL) ? tmpfile() : fopen(name, mode);
+    if (stream == NULL && (errno == EMFILE || errno == ENFILE)) {
+        GC_collect();
+        stream = (name == NULL) ? tmpfile() : fopen(name, mode);
+    }
+
+    return stream;
+}
+
 //
 //  Primitives
 //
@@ -80,7 +97,7 @@ mobj open_input_file(mobj name) {
     FILE *stream;
     mobj port;
 
-    stream = fopen(minim_string(name), "r");
+    stream = open_stream(minim_string(name), "r");
     if (stream == NULL) {
         minim_error1("open-input-file", "cannot open input file", name);
     }
@@ -95,7 +112,7 @@ mobj open_output_file(mobj name) {
     FILE *stream;
     mobj port;
 
-    stream = fopen(minim_string(name), "w");
+    stream = open_stream(minim_string(name), "w");
     if (stream == NULL) {
         minim_error1("open-output-file", "cannot open output file", name);
     }
@@ -111,7 +128,7 @@ mobj open_input_string(mobj str) {
     mobj port;
 
     // port backed by a temporary file
-    stream = tmpfile();
+    stream = open_stream(NULL, NULL);
     if (stream == NULL) {
         minim_error("open-input-string", "cannot create buffer");
     }
@@ -130,7 +147,7 @@ mobj open_output_string() {
     mobj port;
 
     // port backed by a temporary file
-    stream = tmpfile();
+    stream = open_stream(NULL, NULL);
     if (stream == NULL) {
         minim_error("open-output-string", "cannot create buffer");
     }
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 037a993..014f714 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2261,7 +2261,9 @@
         (check-format! 'format fmt args)
         (let-values ([(p) (open-output-string)])
           (do-format p fmt args)
-          (get-output-string p))))))
+          (let-values ([(str) (get-output-string p)])
+            (close-output-port p)
+            str))))))
                                         
 
 ;; --------------------------------------------------------
diff --git a/src/gc/gc.h b/src/gc/gc.h
index e06d360..f9fdb98 100644
--- a/src/gc/gc.h
+++ b/src/gc/gc.h
@@ -26,6 +26,7 @@
 #define GC_finalize()       GC_deinit();
 #define GC_pause()          GC_disable()
 #define GC_resume()         GC_enable()
+#define GC_collect()        GC_gcollect()
 
 // ignore
 #define GC_REGISTER_LOCAL_ARRAY(x)
-- 
2.43.0


From cc4fda64f200496bfb4c4b56584184ee620f8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 20/40] fix: eval in an environment restores the caller's
 environment and checks its argument

---
 src/core/c/eval.c     | 10 +++++++---
 src/core/c/jitprims.c |  7 +++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 3a9c41c..3b62db6 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -574,14 +574,18 @@ application:
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
-        // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        // (set-arg <stack index> <src reg>)
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
     } else if (ty == set_tenv_symbol) {
         // (set-tenv <src reg>)
-        tc_tenv(tc) = load_reg(tc, tregs, ins, minim_cadr(ins));
+        v0 = load_reg(tc, tregs, ins, minim_cadr(ins));
+        if (!minim_top_envp(v0))
+            bad_type_exn("eval", "environment?", v0);
+        tc_tenv(tc) = v0;
     } else if (ty == do_apply_symbol) {
         // do-apply
         do_apply(tc);
diff --git a/src/core/c/jitprims.c b/src/core/c/jitprims.c
index eae170b..334b4c7 100644
--- a/src/core/c/jitprims.c
+++ b/src/core/c/jitprims.c
@@ -129,14 +129,13 @@ mobj compile_eval(mobj name) {
                 Larity2,
                 Mlist3(branchne_symbol, Mfixnum(2), Larity_err),
                 Mlist3(get_arg_symbol, Mfixnum(res_reg_idx), Mfixnum(0)), // %res <- %sfp[1] [expr]
+                Mlist1(do_eval_symbol), // may raise, so before the environment is switched
                 Mlist3(get_arg_symbol, Mfixnum(t0_reg_idx), Mfixnum(1)),  // %t0 <- %sfp[2] [new env]
-                Mlist2(get_tenv_symbol, Mfixnum(t1_reg_idx)), // %t1 <- %tenv [old env]
-                Mlist3(set_arg_symbol, Mfixnum(1), Mfixnum(t1_reg_idx))  // %sfp[2] <- %t1 [old env]
-                
+                Mlist2(get_tenv_symbol, Mfixnum(t1_reg_idx)) // %t1 <- %tenv [old env]
             ),
             list_append2(Mlist5(
+                Mlist3(set_arg_symbol, Mfixnum(1), Mfixnum(t1_reg_idx)),  // %sfp[2] <- %t1 [old env]
                 Mlist2(set_tenv_symbol, Mfixnum(t0_reg_idx)),   // %tenv <- %t0 [new env]
-                Mlist1(do_eval_symbol),
                 Mlist2(save_cc_symbol, Lpop_tenv),
                 Mlist1(set_proc_symbol),
                 Mlist1(apply_symbol)
-- 
2.43.0


From 608337d8b28a2f4f24053744648269926fd743d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:27 +0000
Subject: [PATCH 21/40] fix: an application of call-with-values to other than
 two arguments is an arity error

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 1823bba..afb4a8b 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -442,7 +442,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 return jit_opt_L1_mvcall(
                     Mlist3(
-- 
2.43.0


From c8e22123df78838ef79ce555fc950833295a1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 22/40] fix: a procedure with an empty body compiles

---
 src/core/c/jitopt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index afb4a8b..ba12b8c 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -165,9 +165,15 @@ static mobj jit_opt_L0_let_values(mobj expr) {
     return jit_opt_L0(expr);
 }
 
+// L0 optimization for a procedure body
+// The other passes expect at least one expression.
+static mobj jit_opt_L0_body(mobj body) {
+    return minim_nullp(body) ? Mlist1(Mlist1(begin_symbol)) : jit_opt_L0_seq(body);
+}
+
 // L0 optimization for a single `case-lambda` clause
 static mobj jit_opt_L0_case_lambda_clause(mobj clause) {
-    return Mcons(minim_car(clause), jit_opt_L0_seq(minim_cdr(clause)));
+    return Mcons(minim_car(clause), jit_opt_L0_body(minim_cdr(clause)));
 }
 
 // L0 optimization for `case-lambda`
@@ -223,7 +229,7 @@ mobj jit_opt_L0(mobj expr) {
                 return Mlist3(head, minim_cadr(expr), jit_opt_L0(minim_car(minim_cddr(expr))));
             } else if (head == lambda_symbol) {
                 // lambda form
-                return Mcons(head, Mcons(minim_cadr(expr), jit_opt_L0_seq(minim_cddr(expr))));
+                return Mcons(head, Mcons(minim_cadr(expr), jit_opt_L0_body(minim_cddr(expr))));
             } else if (head == case_lambda_symbol) {
                 // case-lambda form
                 return jit_opt_L0_case_lambda(expr);
-- 
2.43.0


From c9e21d42d386f64bdd8245cc28fe4de02abc5b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 23/40] fix: expander: pattern variables of the enclosing
 context stay in scope after a nested expansion

---
 src/boot/s/boot.min      |  2 +-
 src/library/expander.min | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 41e7830..e1e6354 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -120,7 +120,7 @@
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) ((apply-xform) (lambda (xform expr name) (set! $expander-pattern-vars patterns) (eval/xform xform expr name)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (apply-xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (apply-xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (let-values () (set! $expander-pattern-vars null) (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index db46607..b3cd7c4 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -506,7 +506,11 @@
   ; Expr, List of Xform -> Expr
   (define (expand/expr expr xforms recur-begin?)
     (define patterns (filter (lambda (e) (pattern-variable? (cadr e))) xforms))
-    (set! $expander-pattern-vars patterns)
+    ; applies a transformer with the pattern variables of this context in scope
+    ; (expanding a subexpression may have changed them)
+    (define (apply-xform xform expr name)
+      (set! $expander-pattern-vars patterns)
+      (eval/xform xform expr name))
     (let loop ([expr expr])
       (cond
         [(stx-self-evaluating? expr)
@@ -515,7 +519,7 @@
          ; transform if xform
          (define id (syntax->datum expr))
          (define maybe-xform (lookup-xform expr xforms))
-         (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr)]
+         (if maybe-xform (loop (apply-xform maybe-xform expr id)) expr)]
         [(or (define-values-form? expr) (define-syntaxes-form? expr))
          ; define-values/define-syntaxes form
          ; shouldn't be expanded in this context
@@ -624,7 +628,7 @@
          (define head (stx-car expr))
          (define maybe-xform (lookup-xform head xforms))
          (if maybe-xform
-            (expand/expr (eval/xform maybe-xform expr (syntax-e head))
+            (expand/expr (apply-xform maybe-xform expr (syntax-e head))
                          (merge-xforms xforms (cadr maybe-xform))
                          recur-begin?)
             (let ([stx-lst (syntax->list expr)])
@@ -652,6 +656,7 @@
          (define maybe-xform (lookup-xform head xforms))
          (cond
            [maybe-xform
+            (set! $expander-pattern-vars null)
             (expand/top-level
               (eval/xform maybe-xform expr (syntax-e head))
               (merge-xforms xforms (cadr maybe-xform)))]
-- 
2.43.0


From 3d41262565773bf00251786acab7edacb6315181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 24/40] fix: named let evaluates the initial values outside the
 scope of its name

---
 src/boot/s/boot.min         | 84 ++++++++++++++++++-------------------
 src/library/private/let.min | 11 +++--
 2 files changed, 49 insertions(+), 46 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index e1e6354..a7c2c97 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -1,28 +1,28 @@
-(define-values (cons*) (lambda (x . xs) (letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) (loop x xs))))
+(define-values (cons*) (lambda (x . xs) ((letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) loop) x xs)))
 (define-values (first) (lambda (xs) (if (list? xs) (car xs) (raise-argument-error (quote first) "list?" xs))))
-(define-values (second) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) (loop lst 2)) (raise-argument-error (quote second) "list?" lst))))
-(define-values (third) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) (loop lst 3)) (raise-argument-error (quote third) "list?" lst))))
-(define-values (fourth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) (loop lst 4)) (raise-argument-error (quote fourth) "list?" lst))))
-(define-values (fifth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) (loop lst 5)) (raise-argument-error (quote fifth) "list?" lst))))
-(define-values (sixth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) (loop lst 6)) (raise-argument-error (quote sixth) "list?" lst))))
-(define-values (seventh) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) (loop lst 7)) (raise-argument-error (quote seventh) "list?" lst))))
-(define-values (eighth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) (loop lst 8)) (raise-argument-error (quote eighth) "list?" lst))))
-(define-values (ninth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) (loop lst 9)) (raise-argument-error (quote ninth) "list?" lst))))
-(define-values (tenth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) (loop lst 10)) (raise-argument-error (quote tenth) "list?" lst))))
-(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) (loop lst 0))))
-(define-values (member) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) (loop xs))))
-(define-values (remove) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) (loop xs))))
-(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) (letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) (letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) (loop2 xs)))))))) (loop ks xs))))
-(define-values (filter) (lambda (f lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) (loop lst (quote ())))))
-(define-values (foldl) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) (loop lst acc))))
-(define-values (foldr) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) (loop lst))))
-(define-values (assoc) (lambda (k lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) (loop lst))))
-(define-values (index-of) (lambda (k lst) (letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) (loop lst 0))))
-(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) (loop lst 0 (quote ())))))
+(define-values (second) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) loop) lst 2) (raise-argument-error (quote second) "list?" lst))))
+(define-values (third) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) loop) lst 3) (raise-argument-error (quote third) "list?" lst))))
+(define-values (fourth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) loop) lst 4) (raise-argument-error (quote fourth) "list?" lst))))
+(define-values (fifth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) loop) lst 5) (raise-argument-error (quote fifth) "list?" lst))))
+(define-values (sixth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) loop) lst 6) (raise-argument-error (quote sixth) "list?" lst))))
+(define-values (seventh) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) loop) lst 7) (raise-argument-error (quote seventh) "list?" lst))))
+(define-values (eighth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) loop) lst 8) (raise-argument-error (quote eighth) "list?" lst))))
+(define-values (ninth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) loop) lst 9) (raise-argument-error (quote ninth) "list?" lst))))
+(define-values (tenth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) loop) lst 10) (raise-argument-error (quote tenth) "list?" lst))))
+(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) loop) lst 0)))
+(define-values (member) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) loop) xs)))
+(define-values (remove) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) loop) xs)))
+(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) ((letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) ((letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) loop2) xs))))))) loop) ks xs)))
+(define-values (filter) (lambda (f lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) loop) lst (quote ()))))
+(define-values (foldl) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) loop) lst acc)))
+(define-values (foldr) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) loop) lst)))
+(define-values (assoc) (lambda (k lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) loop) lst)))
+(define-values (index-of) (lambda (k lst) ((letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) loop) lst 0)))
+(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) loop) lst 0 (quote ()))))
 (define-values (is-absolute-path?) (lambda (path) (if (> (string-length path) 0) (eq? (string-ref path 0) #\/) #f)))
-(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) (letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) (loop subpaths (list base))))) (apply string-append paths))))
+(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) ((letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) loop) subpaths (list base)))) (apply string-append paths))))
 (define-values (split-path) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote split-path) "string?" path))) (letrec-values (((path-elems) (reverse (path->list path)))) (if (pair? (cdr path-elems)) (let-values () (letrec-values (((end) (car path-elems)) ((rest) (cdr path-elems))) (cons (apply build-path (reverse rest)) end))) (cons #f (car path-elems))))))
-(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) (letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) (letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) (loop2 0)))))))) (loop path (quote ())))))
+(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) ((letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) ((letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) loop2) 0))))))) loop) path (quote ()))))
 (define-values ($generics-type) (make-record-type-descriptor (quote generics) #f #f #f #f (quote #((immutable name) (immutable methods)))))
 (define-values ($generics-type?) (record-predicate $generics-type))
 (define-values ($make-generics-type) (record-constructor $generics-type))
@@ -32,7 +32,7 @@
 (define-values (non-rtd-error) (lambda (who v) (raise-argument-error who "record-type-descriptor?" v)))
 (define-values ($generics-type-method-names) (lambda (generics) (if ($generics-type? generics) (void) (let-values () (non-generics-type-error (quote $generics-type-method-names) generics))) (map car ($generics-type-methods generics))))
 (define-values ($record-generics) (make-hashtable))
-(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
+(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) ((letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) loop) formals 0)) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
 (define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" generic))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
 (define-values (generic-instance?) (lambda (generic) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generic-instance?) generic))) (lambda (rtd) (if (record-type-descriptor? rtd) (let-values (((generics) (hashtable-ref $record-generics rtd #f))) (if generics (assoc generic generics) #f)) #f))))
 (define-values (gen:equal+hash gen:equal+hash?) (let-values (((:gen) ($make-generics-type (quote equal+hash) (quote ((equal-proc a b rec-equal?) (hash-proc a rec-hash)))))) (values :gen (generic-instance? :gen))))
@@ -50,16 +50,16 @@
 (define-values (set-remove!) (lambda (st v) (if (set? st) (void) (let-values () (not-set-error (quote set-remove!) st))) (hashtable-delete! (set-store st) v)))
 (define-values (set-clear!) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set-clear!) st))) (hashtable-clear! (set-store st))))
 (define-values (set->list) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set->list) st))) (vector->list (hashtable-keys (set-store st)))))
-(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) (letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) (loop (set->list st)))))
+(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) ((letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) loop) (set->list st))))
 (define-values (proper-subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote proper-subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote proper-subset?) st2))) (if (subset? st st2) (not (subset? st2 st)) #f)))
 (define-values (set=?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote set=?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote set=?) st2))) (if (subset? st st2) (subset? st2 st) #f)))
 (define-values (set-map) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-map) st))) (map proc (set->list st))))
 (define-values (set-for-each) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-for-each) st))) (for-each proc (set->list st))))
 (define-values (set-union) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-union) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((u) (make-set)) (() (let-values () (for-each (lambda (s) (for-each (lambda (x) (set-add! u x)) (set->list s))) ss) (values)))) u))))))
-(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
-(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) ((letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) loop) (cdr ss) i)))))))
+(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
@@ -85,12 +85,12 @@
 (define-values (make-base-scope) (lambda () (letrec-values (((bound) (make-set)) (() (let-values () (for-each (lambda (n) (set-add! bound n)) (environment-symbols $base-env)) (values)))) (make-scope bound #f))))
 (define-values (scope-extend) (lambda (prev) (make-scope (make-set) prev)))
 (define-values (scope-add!) (lambda (scope name) (set-add! (scope-bound scope) name)))
-(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () (letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) (loop scope)) (values)))) names)))
-(define-values (scope-contains?) (lambda (scope name) (letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) (loop scope))))
+(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () ((letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) loop) scope) (values)))) names)))
+(define-values (scope-contains?) (lambda (scope name) ((letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) loop) scope)))
 (define-values ($base-env) (make-base-environment))
 (define-values ($base-scope) (make-base-scope))
 (define-values (lookup-xform) (lambda (maybe-id xforms) (if (identifier? maybe-id) (let-values (((entry) (assoc (syntax-e maybe-id) xforms))) (if entry (cdr entry) #f)) #f)))
-(define-values (merge-xforms) (lambda (xforms new-xforms) (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) (loop xforms new-xforms))))
+(define-values (merge-xforms) (lambda (xforms new-xforms) ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) loop) xforms new-xforms)))
 (define-values (_-form?) (lambda (form-name) (lambda (expr) (if (stx-pair? expr) (let-values (((head) (stx-car expr))) (if (identifier? head) (eq? (syntax-e head) form-name) #f)) #f))))
 (define-values (define-values-form?) (_-form? (quote define-values)))
 (define-values (define-syntaxes-form?) (_-form? (quote define-syntaxes)))
@@ -105,12 +105,12 @@
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
 (define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t) (boolean? datum))) (if or-t or-t (let-values (((or-t) (number? datum))) (if or-t or-t (let-values (((or-t) (string? datum))) (if or-t or-t (let-values (((or-t) (vector? datum))) (if or-t or-t (let-values (((or-t) (box? datum))) (if or-t or-t (char? datum))))))))))))))
-(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) (letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) (loop new-ids)))))
+(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) ((letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) loop) new-ids))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
 (define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,21 +119,21 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) ((apply-xform) (lambda (xform expr name) (set! $expander-pattern-vars patterns) (eval/xform xform expr name)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (apply-xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (apply-xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (let-values () (set! $expander-pattern-vars null) (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) ((apply-xform) (lambda (xform expr name) (set! $expander-pattern-vars patterns) (eval/xform xform expr name)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (apply-xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (apply-xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (let-values () (set! $expander-pattern-vars null) (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) (letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) (loop (quote ())))))) (($import) (lambda (exprs) (letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) (letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) (loop2 (cdr expr))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) (letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) (loop2 (cdr expr))) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) (loop exprs (quote ()))))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
-(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) (letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) (loop imports)))))
-(define-values ($eval-exprs) (lambda (exprs env print-handler) (letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results (letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) (loop2 results (void))))))))))) (loop exprs (void)))))
-(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () (letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) (loop exports)) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
-(define-values ($repl) (lambda (env stx-env xforms scope) (letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) (loop xforms))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
+(define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
+(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
+(define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
 (define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
 (define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((char-between?) (lambda (c lo hi) (if (char? c) (<= (char->integer lo) (char->integer c) (char->integer hi)) #f))) ((digit?) (lambda (c) (char-between? c #\0 #\9))) ((hex-digit?) (lambda (c) (let-values (((or-t) (char-between? c #\0 #\9))) (if or-t or-t (let-values (((or-t) (char-between? c #\a #\f))) (if or-t or-t (char-between? c #\A #\F))))))) ((close?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((closing) (list (quote closing))) ((read-required) (lambda () (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values))) (() (let-values () (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) (void)) (values)))) x))) ((read-pair) (lambda (open) (letrec-values (((loop) (lambda (elems) (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values)))) (if (eq? x closing) (let-values () (assert-matching-parens! open (read-char p)) (reverse elems)) (if (if (pair? elems) (eq? (syntax-e x) (quote .)) #f) (let-values () (letrec-values (((tail) (read-required)) ((end) (read-loop)) (() (let-values () (assert-not-eof! end) (values))) (() (let-values () (if (eq? end closing) (assert-matching-parens! open (read-char p)) (error (quote read) "missing closing parenthesis")) (values)))) (letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) (loop elems tail)))) (loop (cons x elems)))))))) (loop (quote ()))))) ((read-vector) (lambda () (list->vector (read-pair oparen)))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((names) (quote ((#\a #\l "arm" 7) (#\b #\a "ckspace" 8) (#\d #\e "lete" 127) (#\e #\s "c" 27) (#\l #\i "nefeed" 10) (#\n #\e "wline" 10) (#\n #\u "l" 0) (#\p #\a "ge" 12) (#\r #\e "turn" 13) (#\s #\p "ace" 32) (#\t #\a "b" 9) (#\v #\t "ab" 11)))) ((char) (letrec-values (((loop) (lambda (names) (if (null? names) c (if (if (eq? c (caar names)) (eq? (peek-char p) (cadr (car names))) #f) (let-values () (read-char p) (check-expected-string! (caddr (car names))) (integer->char (cadddr (car names)))) (loop (cdr names))))))) (loop names))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) char))) ((read-number) (lambda (prefix) (letrec-values (((0-char) (char->integer #\0)) ((chars) prefix) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((escapes) (quote ((#\a . 7) (#\b . 8) (#\t . 9) (#\n . 10) (#\v . 11) (#\f . 12) (#\r . 13) (#\" . 34) (#\' . 39) (#\\ . 92)))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) ((escape) (assoc c escapes))) (if escape (let-values () (read-char p) (loop (cons (integer->char (cdr escape)) acc))) (errorf (quote read) "unknown escape character ~a" c)))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (integer? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (close? c) closing (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) ((x) (read-loop))) (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) x)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((char-between?) (lambda (c lo hi) (if (char? c) (<= (char->integer lo) (char->integer c) (char->integer hi)) #f))) ((digit?) (lambda (c) (char-between? c #\0 #\9))) ((hex-digit?) (lambda (c) (let-values (((or-t) (char-between? c #\0 #\9))) (if or-t or-t (let-values (((or-t) (char-between? c #\a #\f))) (if or-t or-t (char-between? c #\A #\F))))))) ((close?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((closing) (list (quote closing))) ((read-required) (lambda () (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values))) (() (let-values () (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) (void)) (values)))) x))) ((read-pair) (lambda (open) ((letrec-values (((loop) (lambda (elems) (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values)))) (if (eq? x closing) (let-values () (assert-matching-parens! open (read-char p)) (reverse elems)) (if (if (pair? elems) (eq? (syntax-e x) (quote .)) #f) (let-values () (letrec-values (((tail) (read-required)) ((end) (read-loop)) (() (let-values () (assert-not-eof! end) (values))) (() (let-values () (if (eq? end closing) (assert-matching-parens! open (read-char p)) (error (quote read) "missing closing parenthesis")) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))) (loop (cons x elems)))))))) loop) (quote ())))) ((read-vector) (lambda () (list->vector (read-pair oparen)))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((names) (quote ((#\a #\l "arm" 7) (#\b #\a "ckspace" 8) (#\d #\e "lete" 127) (#\e #\s "c" 27) (#\l #\i "nefeed" 10) (#\n #\e "wline" 10) (#\n #\u "l" 0) (#\p #\a "ge" 12) (#\r #\e "turn" 13) (#\s #\p "ace" 32) (#\t #\a "b" 9) (#\v #\t "ab" 11)))) ((char) ((letrec-values (((loop) (lambda (names) (if (null? names) c (if (if (eq? c (caar names)) (eq? (peek-char p) (cadr (car names))) #f) (let-values () (read-char p) (check-expected-string! (caddr (car names))) (integer->char (cadddr (car names)))) (loop (cdr names))))))) loop) names)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) char))) ((read-number) (lambda (prefix) (letrec-values (((0-char) (char->integer #\0)) ((chars) prefix) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((escapes) (quote ((#\a . 7) (#\b . 8) (#\t . 9) (#\n . 10) (#\v . 11) (#\f . 12) (#\r . 13) (#\" . 34) (#\' . 39) (#\\ . 92)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) ((escape) (assoc c escapes))) (if escape (let-values () (read-char p) (loop (cons (integer->char (cdr escape)) acc))) (errorf (quote read) "unknown escape character ~a" c)))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (integer? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (close? c) closing (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) ((x) (read-loop))) (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) x)))))
diff --git a/src/library/private/let.min b/src/library/private/let.min
index b01bfe8..f02acb8 100644
--- a/src/library/private/let.min
+++ b/src/library/private/let.min
@@ -51,11 +51,14 @@
                                              (datum->syntax
                                                (cons (quote-syntax lambda)
                                                  (cons vars e)))])
+                                 ; initial values are outside the scope of `id`
                                  (datum->syntax
-                                   (list
-                                     (quote-syntax letrec-values)
-                                     (list (list (list id) fn-stx))
-                                     (cons id vals)))))))]
+                                   (cons
+                                     (list
+                                       (quote-syntax letrec-values)
+                                       (list (list (list id) fn-stx))
+                                       id)
+                                     vals))))))]
                       [else
                        ; let form
                        (if (not (stx-list? stx))
-- 
2.43.0


From befbaf47f406a7bdb199befbc2933de4f70234fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 25/40] fix: syntax-case: patterns for list tails, wildcards
 and vector elements after an ellipsis

---
 src/library/private/stxcase.min | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index a64fe74..1410685 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -244,14 +244,14 @@
                               (list
                                 (quote-syntax if)
                                 (list
-                                  (quote-syntax stx-null/#f)
+                                  (quote-syntax stx-pair?)
                                   (quote-syntax e))
-                                #f
                                 (loop tail-pat (+ idx 1)
                                       (datum->syntax
                                         (list
                                           (quote-syntax stx-cdr)
-                                          (quote-syntax e)))))]
+                                          (quote-syntax e))))
+                                #f)]
                              [(variable? head-pat)
                               ; variable =>
                               ;  bind one variable
@@ -494,7 +494,7 @@
                                       [else
                                        (list
                                          (quote-syntax append/#f)
-                                         (gen-match/expr (vector-ref v i)
+                                         (gen-match/expr (vector-ref v (+ before-ellipsis 1 i))
                                                          (datum->syntax
                                                            (list
                                                              (quote-syntax stx-vector-ref)
@@ -586,16 +586,22 @@
                  (list
                    (quote-syntax lambda)
                    (list (quote-syntax e))
+                   ; the tail of a list might not be syntax
                    (list
                      (quote-syntax if)
                      (list
-                       (quote-syntax equal?)
+                       (quote-syntax and)
                        (list
-                         (quote-syntax quote)
-                         (syntax-e pattern))
+                         (quote-syntax syntax?)
+                         (quote-syntax e))
                        (list
-                         (quote-syntax syntax-e)
-                         (quote-syntax e)))
+                         (quote-syntax equal?)
+                         (list
+                           (quote-syntax quote)
+                           (syntax-e pattern))
+                         (list
+                           (quote-syntax syntax-e)
+                           (quote-syntax e))))
                      (quote-syntax null)
                      #f))
                  arg))]
-- 
2.43.0


From a3b8f031c3a41e86b080315d83cb777762635240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 26/40] fix: syntax templates: improper tails after an
 ellipsis, and a bare tail variable gives syntax

---
 src/library/private/template-utils.min | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/library/private/template-utils.min b/src/library/private/template-utils.min
index dfc9bb7..97bea9f 100644
--- a/src/library/private/template-utils.min
+++ b/src/library/private/template-utils.min
@@ -318,7 +318,11 @@
 
 (define (do-template stx tstx get-pattern)
   (define prog (parse-template stx tstx get-pattern))
-  (make-template-builder prog))
+  (define builder (make-template-builder prog))
+  (if (instr-eq? prog 'var)
+      ; the tail of a list might not be syntax
+      (datum->syntax (list (quote-syntax datum->syntax) builder))
+      builder))
 
 (define (template-subst guide instrs . args)
   (define (run/mode mode n idx guide arg)
@@ -326,7 +330,12 @@
       (cond
         [(< idx n) (cons (car guide) (loop (+ idx 1) (cdr guide)))]
         [(not mode) (cons arg (cdr guide))]
-        [(eq? mode 'append) (append arg (cdr guide))]
+        [(eq? mode 'append)
+         ; the rest of the template may be improper
+         (let loop ([xs arg])
+           (if (null? xs)
+               (cdr guide)
+               (cons (car xs) (loop (cdr xs)))))]
         [(eq? mode 'tail) arg]
         [else (error #f "unknown substitution operator" mode)])))
     
-- 
2.43.0


From 7c2e77e99ac169d03dc3019ce67f161ab78cd50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 27/40] fix: datum->syntax continues a list whose tail is
 syntax for a list

---
 src/core/c/syntax.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/c/syntax.c b/src/core/c/syntax.c
index eb7e546..1fe3e0b 100644
--- a/src/core/c/syntax.c
+++ b/src/core/c/syntax.c
@@ -12,12 +12,19 @@ mobj Msyntax(mobj e, mobj loc) {
     return o;
 }
 
+// Returns the tail of a list, looking through the syntax of a (partial) list
+static mobj list_tail(mobj o) {
+    while (minim_syntaxp(o) && (minim_consp(minim_syntax_e(o)) || minim_nullp(minim_syntax_e(o))))
+        o = minim_syntax_e(o);
+    return o;
+}
+
 // Converts a (possibly improper) list to syntax
 static mobj pair_to_syntax(mobj o) {
     mobj hd, tl, it;
 
     hd = tl = Mcons(to_syntax(minim_car(o)), NULL);
-    for (it = minim_cdr(o); minim_consp(it); it = minim_cdr(it)) {
+    for (it = list_tail(minim_cdr(o)); minim_consp(it); it = list_tail(minim_cdr(it))) {
         minim_cdr(tl) = Mcons(to_syntax(minim_car(it)), NULL);
         tl = minim_cdr(tl);
     }
-- 
2.43.0


From 160d3cce3192e6c1c40519c2aa307c71a44565dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:50 +0000
Subject: [PATCH 28/40] fix: procedure-rename returns a renamed copy

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From 9695d3a9a2343c69912549518f9a9fc98e11958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:50 +0000
Subject: [PATCH 29/40] fix: environments: variables only referenced are not
 bound; copies hold each variable once

---
 src/core/c/env.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index 41a322a..7911b20 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -84,7 +84,7 @@ mobj top_env_copy2(mobj env, mobj syms, int mutablep) {
 
     for (; !minim_nullp(syms); syms = minim_cdr(syms)) {
         cell = top_env_find(env, minim_car(syms));
-        if (!minim_falsep(cell)) {
+        if (!minim_falsep(cell) && minim_falsep(top_env_find(env2, minim_car(syms)))) {
             i = minim_fixnum(minim_cadr(cell)) % minim_top_env_alloc(env2);
             b = minim_top_env_bucket(env2, i);
             cell = Mcons(
@@ -161,7 +161,9 @@ static mobj top_env_symbols(mobj env) {
         b = minim_top_env_bucket(env, i);
         for (; !minim_nullp(b); b = minim_cdr(b)) {
             cell = minim_car(b);
-            syms = Mcons(minim_caar(cell), syms);
+            // variables may be referenced before they are defined
+            if (minim_cdar(cell) != minim_unbound)
+                syms = Mcons(minim_caar(cell), syms);
         }
     }
 
@@ -236,7 +238,7 @@ mobj environment_names(mobj env) {
 mobj environment_variable_ref(mobj env, mobj k, mobj fail) {
     // (-> environment symbol any)
     mobj cell = top_env_find(env, k);
-    return minim_falsep(cell) ? fail : minim_cdar(cell);
+    return (minim_falsep(cell) || minim_cdar(cell) == minim_unbound) ? fail : minim_cdar(cell);
 }
 
 mobj environment_variable_set(mobj env, mobj k, mobj v) {
-- 
2.43.0


From 29e109e73b02fb8202719afb49069243b872a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:50 +0000
Subject: [PATCH 30/40] fix: set! of an undefined variable some closure
 mentions is an error

---
 src/core/c/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 3b62db6..fee055f 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -334,7 +334,7 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
-    if (minim_falsep(cell)) {
+    if (minim_falsep(cell) || minim_cdar(cell) == minim_unbound) {
         minim_error1(NULL, "cannot set variable before its definition", id);
     }
 
-- 
2.43.0


From c09a3ea1ba49f9c963afe3c3cfd30a1d95154fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:38 +0000
Subject: [PATCH 31/40] fix: errors in tail position of a top-level form reach
 the error handler

---
 src/core/c/error.c | 2 +-
 src/core/c/eval.c  | 4 ++++
 src/core/minim.h   | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/c/error.c b/src/core/c/error.c
index b7ecb3a..1324f71 100644
--- a/src/core/c/error.c
+++ b/src/core/c/error.c
@@ -4,7 +4,7 @@
 
 NORETURN static void do_error2(const char *name, const char *msg, mobj args) {
     mobj tc = current_tc();
-    if (minim_nullp(tc_ccont(tc)) || minim_falsep(tc_c_error_handler(tc))) {
+    if (!eval_activep() || minim_falsep(tc_c_error_handler(tc))) {
         // exception cannot be handled by runtime
         if (name) fprintf(stderr, "Error in %s: %s", name, msg);
         else fprintf(stderr, "Error: %s", msg);
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index fee055f..0cb1206 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -724,6 +724,10 @@ not_procedure:
 // Number of active calls to `eval_expr`
 static int eval_depth = 0;
 
+int eval_activep() {
+    return eval_depth > 0;
+}
+
 mobj eval_expr(mobj tc, mobj expr) {
     mobj code, result, *sfp, *esp, cp, ccont, *stack_base, stack_link;
     size_t ac, stack_len;
diff --git a/src/core/minim.h b/src/core/minim.h
index db349db..01e5260 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -939,6 +939,7 @@ void set_arg(mobj tc, size_t i, mobj x);
 mobj get_arg(mobj tc, size_t i);
 
 void check_expr(mobj expr);
+int eval_activep();
 mobj eval_expr(mobj tc, mobj expr);
 
 // intern table
-- 
2.43.0


From d6f48ee0af349f33db9f3bf72c9eff308eeeda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:13 +0000
Subject: [PATCH 32/40] fix: apply names procedure? as what its first argument
 must be

---
 src/core/c/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 0cb1206..464d4ae 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -211,7 +211,7 @@ static void do_apply(mobj tc) {
     // the first argument becomes the current procedure
     tc_cp(tc) = tc_frame_ref(tc, 0);
     if (!minim_procp(tc_cp(tc))) {
-        bad_type_exn("apply", "list?", tc_cp(tc));
+        bad_type_exn("apply", "procedure?", tc_cp(tc));
     }
 
     // save rest argument (needs to be a list)
-- 
2.43.0


From ba5ea6564e0b78d3695dc0977ee38589800f84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:34 +0000
Subject: [PATCH 33/40] fix: the REPL writes strings with their escapes

---
 src/core/c/print.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/c/print.c b/src/core/c/print.c
index 968f663..6ebe98f 100644
--- a/src/core/c/print.c
+++ b/src/core/c/print.c
@@ -20,6 +20,25 @@ static void write_char(FILE *out, mobj o) {
     else fputc(c, out);
 }
 
+static void write_string(FILE *out, mobj o) {
+    char *c;
+
+    fputc('"', out);
+    for (c = minim_string(o); *c; ++c) {
+        if (*c == BEL_CHAR) fputs("\\a", out);
+        else if (*c == BS_CHAR) fputs("\\b", out);
+        else if (*c == '\n') fputs("\\n", out);
+        else if (*c == FF_CHAR) fputs("\\f", out);
+        else if (*c == CR_CHAR) fputs("\\r", out);
+        else if (*c == '\t') fputs("\\t", out);
+        else if (*c == VT_CHAR) fputs("\\v", out);
+        else if (*c == '"') fputs("\\\"", out);
+        else if (*c == '\\') fputs("\\\\", out);
+        else fputc(*c, out);
+    }
+    fputc('"', out);
+}
+
 static void write_pair(FILE *out, mobj o) {
     fputc('(', out);
 loop:
@@ -85,7 +104,7 @@ void write_object(FILE *out, mobj o) {
     else if (minim_charp(o)) write_char(out, o);
     else if (minim_fixnump(o)) fprintf(out, "%ld", minim_fixnum(o));
     else if (minim_symbolp(o)) fprintf(out, "%s", minim_symbol(o));
-    else if (minim_stringp(o)) fprintf(out, "\"%s\"", minim_string(o));
+    else if (minim_stringp(o)) write_string(out, o);
     else if (minim_consp(o)) write_pair(out, o);
     else if (minim_vectorp(o)) write_vector(out, o);
     else if (minim_boxp(o)) write_box(out, o);
-- 
2.43.0


From 6d41e4d1acf5758e4296e53cd42277f0b7dc75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:16 +0000
Subject: [PATCH 34/40] fix: current-directory reports an absolute path after a
 relative change

---
 src/core/c/system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 8395c7a..119cdf9 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -69,7 +69,7 @@ void set_current_dir(const char *str) {
         minim_error1("set_current_dir", "could not set current directory", Mstring(str));
     }
 
-    tc_directory(current_tc()) = Mstring(str);
+    tc_directory(current_tc()) = Mstring(_get_current_dir());
 }
 
 char* get_current_dir() {
-- 
2.43.0


From 043ece58e737b2e47e2aa1dcdaf5e6eb9a122ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 35/40] fix: freeing a root block no longer turns another block
 of its bucket into a root

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..e7aa8cf 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -302,7 +302,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-- 
2.43.0


From 47b9c00c4fc6cf22bf16e4ed261ad27593a6d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 36/40] fix: GC_free runs the destructor of the block

---
 src/gc/minim-gc/gc-impl.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index e7aa8cf..1d3bde5 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -305,8 +305,12 @@ gc_remove(gc_t *gc,
             if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
-            // free if needed
-            if (destroy)    free(r);
+            // call dtor and free if needed
+            if (destroy) {
+                if (r->dtor)    r->dtor(gc_record_ptr(r), NULL);
+                free(r);
+            }
+
             return;
         }
 
-- 
2.43.0


From 90a6c70d646769bd6f866178c0acafd0a377c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 37/40] fix: GC_get_collectable counts bytes, not buckets

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 1d3bde5..d1366c0 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -469,7 +469,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From 9107d1b3e4b9d500f214094c174bfd654334a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:22 +0000
Subject: [PATCH 38/40] fix: a reallocation that has to collect keeps the block
 and what it refers to

---
 src/gc/minim-gc/gc-impl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index d1366c0..4df6bac 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -375,7 +375,12 @@ gc_realloc_record(gc_t *gc,
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
     {
+        // collect, keeping the record and what it refers to
+        gc_add_record(gc, r);
+        gc_record_root_set(r);
         gc_collect(gc);
+        gc_remove(gc, gc_record_ptr(r), 0);
+
         r2 = realloc(r, size + sizeof(gc_record_t));
         if (r2 == NULL)
             return NULL;
-- 
2.43.0


From fea574ddc492ee39c4fa9c5f3641843c7365674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:07 +0000
Subject: [PATCH 39/40] fix: substring reports a start past the end as a range
 error

---
 src/boot/s/boot.min            | 2 +-
 src/library/private/string.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index a7c2c97..ba7e632 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) ((letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) loop) (cdr ss) i)))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) loop) sts))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) loop) sts))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
diff --git a/src/library/private/string.min b/src/library/private/string.min
index 183f2fc..2d5973c 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -6,9 +6,9 @@
 (export substring)
 
 (define (substring str start end)
-  (define len (string-length str))
   (unless (string? str)
     (raise-argument-error 'substring "string?" str))
+  (define len (string-length str))
   (unless (non-negative-integer? start)
     (raise-argument-error 'substring "non-negative-integer?" start))
   (unless (non-negative-integer? end)
@@ -16,7 +16,7 @@
   (unless (<= end len)
     (raise-range-error 'substring str "end" 0 (+ len 1) end))
   (unless (<= start end)
-    (raise-range-error 'substring str "start" 0 end))
+    (raise-range-error 'substring str "start" 0 (+ end 1) start))
   (define sstr (make-string (- end start)))
   (let loop ([i 0] [n start])
     (cond
-- 
2.43.0


From 3d2e467fc9f2a862f1802c3df221bca1576b4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:07 +0000
Subject: [PATCH 40/40] fix: a module has one path however it is spelled, and
 cyclic imports are errors

---
 src/boot/s/boot.min    | 15 +++++-----
 src/library/module.min | 65 ++++++++++++++++++++++++++----------------
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index ba7e632..eef7267 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -126,14 +126,15 @@
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($resolve-path) (lambda (dir name) ((letrec-values (((loop) (lambda (elems accum) (if (null? elems) (apply build-path (reverse accum)) (if (let-values (((or-t) (equal? (car elems) "."))) (if or-t or-t (if (pair? accum) (equal? (car elems) "/") #f))) (loop (cdr elems) accum) (if (if (equal? (car elems) "..") (if (pair? accum) (not (equal? (car accum) "..")) #f) #f) (loop (cdr elems) (if (equal? (car accum) "/") accum (cdr accum))) (loop (cdr elems) (cons (car elems) accum)))))))) loop) (path->list (if (is-absolute-path? name) name (build-path dir name))) (quote ()))))
+(define-values ($load-module) (lambda (path print-handler result-handler loading) (letrec-values (((this-path) path) ((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($resolve-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler (cons this-path loading)) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (if (string? module-name) ($resolve-path new-cwd module-name) #f))) (if (if path (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
-(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
+(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler loading) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler loading)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
 (define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
-(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
-(define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
-(define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
-(define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
+(define-values ($load-or-import) (lambda (name print-handler result-handler loading) (letrec-values (((path) ($resolve-path (current-directory) name)) (() (let-values () (if (member path loading) (let-values () (error (quote import) "cyclic import" path)) (void)) (values)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler loading))))))
+(define-values (read/module) (lambda (name) (letrec-values (((path) ($resolve-path (current-directory) name))) ($load-module path #f #f (quote ())))))
+(define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f (quote ()))))
+(define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o) (quote ()))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) ($resolve-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((char-between?) (lambda (c lo hi) (if (char? c) (<= (char->integer lo) (char->integer c) (char->integer hi)) #f))) ((digit?) (lambda (c) (char-between? c #\0 #\9))) ((hex-digit?) (lambda (c) (let-values (((or-t) (char-between? c #\0 #\9))) (if or-t or-t (let-values (((or-t) (char-between? c #\a #\f))) (if or-t or-t (char-between? c #\A #\F))))))) ((close?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) loop) 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((closing) (list (quote closing))) ((read-required) (lambda () (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values))) (() (let-values () (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) (void)) (values)))) x))) ((read-pair) (lambda (open) ((letrec-values (((loop) (lambda (elems) (letrec-values (((x) (read-loop)) (() (let-values () (assert-not-eof! x) (values)))) (if (eq? x closing) (let-values () (assert-matching-parens! open (read-char p)) (reverse elems)) (if (if (pair? elems) (eq? (syntax-e x) (quote .)) #f) (let-values () (letrec-values (((tail) (read-required)) ((end) (read-loop)) (() (let-values () (assert-not-eof! end) (values))) (() (let-values () (if (eq? end closing) (assert-matching-parens! open (read-char p)) (error (quote read) "missing closing parenthesis")) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))) (loop (cons x elems)))))))) loop) (quote ())))) ((read-vector) (lambda () (list->vector (read-pair oparen)))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((names) (quote ((#\a #\l "arm" 7) (#\b #\a "ckspace" 8) (#\d #\e "lete" 127) (#\e #\s "c" 27) (#\l #\i "nefeed" 10) (#\n #\e "wline" 10) (#\n #\u "l" 0) (#\p #\a "ge" 12) (#\r #\e "turn" 13) (#\s #\p "ace" 32) (#\t #\a "b" 9) (#\v #\t "ab" 11)))) ((char) ((letrec-values (((loop) (lambda (names) (if (null? names) c (if (if (eq? c (caar names)) (eq? (peek-char p) (cadr (car names))) #f) (let-values () (read-char p) (check-expected-string! (caddr (car names))) (integer->char (cadddr (car names)))) (loop (cdr names))))))) loop) names)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) char))) ((read-number) (lambda (prefix) (letrec-values (((0-char) (char->integer #\0)) ((chars) prefix) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) ((letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) read-digit!))))) ((escapes) (quote ((#\a . 7) (#\b . 8) (#\t . 9) (#\n . 10) (#\v . 11) (#\f . 12) (#\r . 13) (#\" . 34) (#\' . 39) (#\\ . 92)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) ((escape) (assoc c escapes))) (if escape (let-values () (read-char p) (loop (cons (integer->char (cdr escape)) acc))) (errorf (quote read) "unknown escape character ~a" c)))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) loop) acc))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-loop)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-loop)) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number (list c)))) (if (if (eq? c #\-) (integer? pos-num) #f) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (close? c) closing (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) ((x) (read-loop))) (if (eq? x closing) (errorf (quote read) "unexpected input: ~a" (peek-char p)) x)))))
diff --git a/src/library/module.min b/src/library/module.min
index a99ca91..d627bc8 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -17,9 +17,30 @@
 (define $module-envs (make-hashtable))
 (define $module-internals (make-hashtable))
 
-;; Like `$load-module`, but does not check the cache
-(define ($load-module path print-handler result-handler)
+;; Resolves a module name relative to a directory. There is one path
+;; for a module: `.`, `..` and repeated separators are simplified away.
+(define ($resolve-path dir name)
+  (let loop ([elems (path->list (if (is-absolute-path? name) name (build-path dir name)))]
+             [accum '()])
+    (cond
+      [(null? elems)
+       (apply build-path (reverse accum))]
+      [(or (equal? (car elems) ".")
+           (and (pair? accum) (equal? (car elems) "/")))
+       (loop (cdr elems) accum)]
+      [(and (equal? (car elems) "..")
+            (pair? accum)
+            (not (equal? (car accum) "..")))
+       (loop (cdr elems)
+             (if (equal? (car accum) "/") accum (cdr accum)))]
+      [else
+       (loop (cdr elems) (cons (car elems) accum))])))
+
+;; Like `$load-module`, but does not check the cache;
+;; `loading` are the paths of the modules that are being imported
+(define ($load-module path print-handler result-handler loading)
   ;; paths
+  (define this-path path)
   (define new-cwd (car (split-path path)))
 
   ;; module information
@@ -59,10 +80,10 @@
                  (loop (cdr exprs) evalable)]
                 [(pair? imports)
                  (define maybe-import (syntax-e (car imports)))
-                 (define path (build-path new-cwd maybe-import))
                  (cond
                    [(string? maybe-import)
-                    ($load-or-import path print-handler result-handler)
+                    (define path ($resolve-path new-cwd maybe-import))
+                    ($load-or-import path print-handler result-handler (cons this-path loading))
                     (define from-module (hashtable-ref $module-table path))
                     (set! imported-modules (cons path imported-modules))
                     (set! imported-xforms (merge-xforms imported-xforms (car from-module)))
@@ -88,9 +109,9 @@
                     (cond
                       [(eq? (syntax-e (car maybe-export)) 'all)
                        (define module-name (syntax-e (cadr maybe-export)))
-                       (define path (build-path new-cwd module-name))
+                       (define path (and (string? module-name) ($resolve-path new-cwd module-name)))
                        (cond
-                         [(and (string? module-name)
+                         [(and path
                                (null? (cddr maybe-export))
                                (member path imported-modules))
                           (define from-module (hashtable-ref $module-table path))
@@ -157,10 +178,10 @@
                   (writeln (car results)))
                 (loop2 (cdr results) (car results))]))))])))
 
-(define ($load-or-import-no-check path print-handler result-handler)
+(define ($load-or-import-no-check path print-handler result-handler loading)
   ;; load expressions
   (define-values (exprs module-xforms imports exports stx-env scope)
-    ($load-module path print-handler result-handler))
+    ($load-module path print-handler result-handler loading))
   ;; evaluate
   (define env ($eval-environment $base-env imports))
   (define last ($eval-exprs exprs env print-handler))
@@ -214,40 +235,34 @@
     ; loop
     (loop xforms*)))
 
-(define ($load-or-import name print-handler result-handler)
+(define ($load-or-import name print-handler result-handler loading)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($resolve-path (current-directory) name))
+  ;; a module cannot import itself
+  (when (member path loading)
+    (error 'import "cyclic import" path))
   ;; check cache first
   (unless (hashtable-contains? $module-table path)
-    ($load-or-import-no-check path print-handler result-handler)))
+    ($load-or-import-no-check path print-handler result-handler loading)))
 
 (define (read/module name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
-  ($load-module path #f #f))
+  (define path ($resolve-path (current-directory) name))
+  ($load-module path #f #f '()))
 
 ;; imports a file
 (define (import name)
-  ($load-or-import name (lambda (o) (writeln o)) #f))
+  ($load-or-import name (lambda (o) (writeln o)) #f '()))
 
 ;; loads a file
 (define (load name)
-  (define result ($load-or-import name #f (lambda (o) o)))
+  (define result ($load-or-import name #f (lambda (o) o) '()))
   (unless (void? result) (writeln result))
   (enter! name))
 
 (define (enter! name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($resolve-path (current-directory) name))
   ;; set up environments
   (unless (hashtable-contains? $module-envs path)
     (error 'enter! "unknown module" name))
-- 
2.43.0

