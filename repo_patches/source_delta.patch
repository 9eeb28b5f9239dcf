From 6c81e50a9dbf2d60614a7f05cb2d31bf80b2b0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 001/109] fix: the bytecode VM keeps its frames apart

Locals of a new frame were not cleared, so that a closure shared the
captured variables of an earlier call; the registers of default arguments
grew the frame of the caller for good, so that callers on the stack lost
their registers; and a call which needed a new stack lost its last argument,
its defaults, and was checked against the frame of the caller.
---
 core/vm.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 8c869ed..fc9b958 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,7 +214,7 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
-#define JUMPS_MAX 1024
+#define STACK_SPARE 64 // room for the defaults of a call
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
@@ -637,8 +637,9 @@ reentry:
 
   if (pos == 0) {
     reg[-1] = reg[0] = self;
-    //if (f->localsize)
-    //  memset((void*)locals, 0, sizeof(PN) * f->localsize);
+    // left from an earlier frame: stale values, or refs shared with its closures
+    if (f->localsize)
+      memset((void*)locals, 0, sizeof(PN) * f->localsize);
     if (upc > 0 && upargs != NULL) {
       PN_SIZE i;
       for (i = 0; i < upc; i++) {
@@ -828,17 +829,9 @@ reentry:
                 }
               }
               reg[op.a] = potion_call(P, reg[op.a], op.b - op.a, reg + op.a + 1);
-            } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
-	      DBG_vt(" >stack");
-              PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i < op.b - op.a; i++)
-                PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
-              reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
-                cl->extra - 1, &cl->data[1]);
             } else {
-	      DBG_vt(" stack");
-              self = reg[op.a + 1];
-              args = &reg[op.a + 2];
+              long defs = 0; // registers beyond f->stack, for the defaults of this call
+              vPN(Proto) callee = PN_PROTO(cl->data[0]);
               if (PN_IS_TUPLE(sig)) {
 		int arity = cl->arity;
 		PN err = potion_sig_check(P, cl, arity, numargs);
@@ -849,13 +842,27 @@ reentry:
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
-                  f->stack = PN_NUM(PN_INT(f->stack)+1);
+                  defs++;
                   op.b++;
                 }
               }
+              if ((reg - stack) + PN_INT(f->stack) + defs + callee->upvalsize
+                  + callee->localsize + PN_INT(callee->stack) + STACK_SPARE >= STACK_MAX) {
+	        DBG_vt(" >stack");
+                PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
+                for (i = 2; i <= op.b - op.a; i++)
+                  PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
+                reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
+                  cl->extra - 1, &cl->data[1]);
+                break;
+              }
+	      DBG_vt(" stack");
+              self = reg[op.a + 1];
+              args = &reg[op.a + 2];
               upc = cl->extra - 1;
               upargs = &cl->data[1];
-              current = reg + PN_INT(f->stack) + 2;
+              current = reg + PN_INT(f->stack) + defs + 3;
+              current[-3] = PN_NUM(defs);
               current[-2] = (PN)f;
               current[-1] = (PN)pos;
 
@@ -891,7 +898,7 @@ reentry:
           pos = (PN_SIZE)current[-1];
           op = PN_OP_AT(f->asmb, pos);
 
-          reg = current - (PN_INT(f->stack) + 2);
+          reg = current - (PN_INT(f->stack) + PN_INT(current[-3]) + 3);
           current = reg - (f->localsize + f->upvalsize + 1);
           reg[op.a] = val;
           pos++;
-- 
2.43.0


From ac685b4133011bf1549dd743a74b82d088ca9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 002/109] fix: number arithmetic promotes to double on overflow
 and on division by zero

Additions, subtractions and multiplications wrapped around in the methods,
integer division and modulo by zero killed the process, and ** was done on
the truncated integers of its operands in the bytecode VM.
---
 core/number.c | 32 +++++++++++++++++++++-----------
 core/vm.c     | 16 ++++++++++++----
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/core/number.c b/core/number.c
index 2d674f9..d6d13fb 100644
--- a/core/number.c
+++ b/core/number.c
@@ -9,6 +9,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdarg.h>
+#include <float.h>
+#include <limits.h>
 #include <math.h>
 #include "potion.h"
 #include "internal.h"
@@ -44,11 +46,14 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
   return potion_double(P, sqrt(PN_DBL(self)));
 }
 
-#define PN_NUM_MATH(math_op) \
+#define PN_FITS_INT(v) ((v) <= PN_INT(LONG_MAX) && (v) >= PN_INT(LONG_MIN))
+#define PN_NUM_MATH_OV(math_op, ov) \
+  long z; \
   DBG_CHECK_NUM(self); \
   DBG_CHECK_NUM(num); \
-  if (PN_IS_INT(self) && PN_IS_INT(num)) \
-    return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
+  if (PN_IS_INT(self) && PN_IS_INT(num) \
+      && !__builtin_##ov##_overflow(PN_INT(self), PN_INT(num), &z) && PN_FITS_INT(z)) \
+    return PN_NUM(z); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
 #define PN_INT_MATH(math_op) \
   DBG_CHECK_INT(self); \
@@ -64,7 +69,7 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(+)
+  PN_NUM_MATH_OV(+, saddl)
 }
 
 /**\memberof PNNumber
@@ -72,7 +77,7 @@ static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(-)
+  PN_NUM_MATH_OV(-, ssubl)
 }
 
 /**\memberof PNNumber
@@ -80,7 +85,7 @@ static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(*)
+  PN_NUM_MATH_OV(*, smull)
 }
 
 /**\memberof PNNumber
@@ -88,7 +93,14 @@ static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(/)
+  DBG_CHECK_NUM(self);
+  DBG_CHECK_NUM(num);
+  if (PN_IS_INT(self) && PN_IS_INT(num) && PN_INT(num) != 0) {
+    long z = PN_INT(self) / PN_INT(num);
+    if (PN_FITS_INT(z))
+      return PN_NUM(z);
+  }
+  return potion_double(P, PN_DBL(self) / PN_DBL(num));
 }
 
 /**\memberof PNNumber
@@ -96,11 +108,9 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
-  if (PN_IS_INT(self) && PN_IS_INT(num))
+  if (PN_IS_INT(self) && PN_IS_INT(num) && PN_INT(num) != 0)
     return PN_NUM(PN_INT(self) % PN_INT(num));
-  double x = PN_DBL(self), y = PN_DBL(num);
-  int z = (int)(x / y);
-  return potion_double(P, x - (y * (double)z));
+  return potion_double(P, fmod(PN_DBL(self), PN_DBL(num)));
 }
 
 /**\memberof PNNumber
diff --git a/core/vm.c b/core/vm.c
index fc9b958..056dae1 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -375,6 +375,12 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
+/* not inlined: division by zero and overflow promote to double */
+#define PN_VM_DIV(name)                                           \
+  PN_CHECK_NUM(reg[op.a]);                                        \
+  PN_CHECK_NUM(reg[op.b]);                                        \
+  reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);
+
 #if (defined(__clang__) && \
      ((!defined(__apple_build_version__) &&                       \
        ((__clang_major__ > 3) || (__clang_major__ == 3 && __clang_minor__ >= 4))) \
@@ -749,10 +755,12 @@ reentry:
       CASE(ADD, PN_VM_MATH3(add, +, saddl))
       CASE(SUB, PN_VM_MATH3(sub, -, ssubl))
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
-      CASE(DIV, PN_VM_MATH2(div, /))
-      CASE(REM, PN_VM_MATH2(rem, %))
-      CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
-					    (double)PN_INT(reg[op.b]))))
+      CASE(DIV, PN_VM_DIV(div))
+      CASE(REM, PN_VM_DIV(rem))
+      CASE(POW,
+           PN_CHECK_NUM(reg[op.a]);
+           PN_CHECK_NUM(reg[op.b]);
+           reg[op.a] = potion_num_pow(P, PN_NIL, reg[op.a], reg[op.b]))
 #ifdef P2
       CASE(NOT, reg[op.a] = PN_ZERO == reg[op.a] ? PN_TRUE : PN_BOOL(!PN_TEST(reg[op.a])))
 #else
-- 
2.43.0


From ec1ab9eaf2f39cc462423e7e7643a5980598f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 003/109] fix: print doubles of any size

"%.16f" of doubles >= 1e22 overflowed the 40 byte buffers.
---
 core/number.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index d6d13fb..61c2aed 100644
--- a/core/number.c
+++ b/core/number.c
@@ -249,7 +249,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[DBL_MAX_10_EXP + 24];
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -260,7 +260,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[DBL_MAX_10_EXP + 24];
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-- 
2.43.0


From 295afcb04d7a265eda9da4c98c07ee7d5fabef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 004/109] fix: cmp of a number to another type or to a double

---
 core/number.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index 61c2aed..50046da 100644
--- a/core/number.c
+++ b/core/number.c
@@ -404,14 +404,20 @@ static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
  \return PNInteger -1, 0 or 1
  \sa potion_tuple_sort. */
 static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
+  if (!PN_IS_NUM(n))
+    n = potion_send(n, PN_number);
   if (PN_IS_DBL(self)) {
     double d1 = ((struct PNDouble *)self)->value;
-    double d2 = PN_DBL(potion_send(PN_number, n));
+    double d2 = PN_DBL(n);
     return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
   } else {
     long n1, n2;
+    if (PN_IS_DBL(n)) {
+      double d1 = PN_DBL(self), d2 = PN_DBL(n);
+      return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
+    }
     n1 = PN_INT(self);
-    n2 = PN_IS_INT(n) ? PN_INT(n) : PN_INT(potion_send(PN_number, n));
+    n2 = PN_INT(n);
     return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
   }
 }
-- 
2.43.0


From a3302f31436d7810940ac2dd92b8d9e7de2d79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 005/109] fix: cmp of nil, booleans and tuples return potion
 numbers

They returned untagged C ints, with the wrong sign for tuple to nil or bool,
and tuples were compared without their last elements.
---
 core/primitive.c |  6 +++---
 core/table.c     | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/primitive.c b/core/primitive.c
index ca4db7f..4403407 100644
--- a/core/primitive.c
+++ b/core/primitive.c
@@ -35,7 +35,7 @@ PN potion_any_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TNIL:
-    return 0;
+    return PN_ZERO;
   case PN_TNUMBER:
     return potion_send(PN_ZERO, PN_cmp, value);
   case PN_TBOOLEAN:
@@ -51,13 +51,13 @@ static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_bool_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TBOOLEAN:
-    return self < value ? -1 : self == value ? 0 : 1;
+    return self == value ? PN_ZERO : PN_NUM(self == PN_FALSE ? -1 : 1);
   case PN_TNUMBER:
     return potion_send(PN_NUM(PN_TEST(self)), PN_cmp, value);
   case PN_TNIL:
   case PN_TSTRING: // false < ".." < true
   default:
-    return value == PN_FALSE ? -1 : 1; //false < any < true
+    return PN_NUM(self == PN_FALSE ? -1 : 1); //false < any < true
   }
 }
 
diff --git a/core/table.c b/core/table.c
index cc4ed80..4d82b16 100644
--- a/core/table.c
+++ b/core/table.c
@@ -883,9 +883,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
   DBG_CHECK_TYPE(self,PN_TTUPLE);
   switch (potion_type(value)) {
   case PN_TBOOLEAN: // false < () < true
-    return value == PN_FALSE ? -1 : 1;
+    return value == PN_FALSE ? PN_NUM(1) : PN_NUM(-1);
   case PN_TNIL:
-    return -1; //nil < () < (...)
+    return PN_NUM(1); //nil < () < (...)
   case PN_TTUPLE: // recurse
     if(PN_TUPLE_LEN(self) && PN_TUPLE_LEN(value)) {
       PN cmp;
@@ -895,8 +895,8 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
 	{
 	  PN t1 = potion_tuple_clone(P,cl,self);
 	  PN t2 = potion_tuple_clone(P,cl,value);
-	  potion_tuple_pop(P,cl,t1);
-	  potion_tuple_pop(P,cl,t2);
+	  potion_tuple_shift(P,cl,t1);
+	  potion_tuple_shift(P,cl,t2);
 	  return potion_send(t1, PN_cmp, t2);
 	}
       else {
@@ -904,9 +904,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
       }
     }
     else {
-      if (PN_TUPLE_LEN(value)) return -1;
-      else if (PN_TUPLE_LEN(self)) return 1;
-      else return 0;
+      if (PN_TUPLE_LEN(value)) return PN_NUM(-1);
+      else if (PN_TUPLE_LEN(self)) return PN_NUM(1);
+      else return PN_ZERO;
     }
   default:
     potion_fatal("Invalid tuple cmp type");
-- 
2.43.0


From 794efbb87183ad3ad2b78bc508797f073d786c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 006/109] fix: filter of a table removes the keys by key, not
 by the index of another table

---
 core/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index 4d82b16..3215bb5 100644
--- a/core/table.c
+++ b/core/table.c
@@ -276,7 +276,7 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       if (!PN_TEST(ret))
-        kh_del(PN, t2, k);
+        potion_table_remove(P, cl, (PN)t2, kh_key(PN, t, k));
     }
   PN_TOUCH(t2);
   return (PN)t2;
-- 
2.43.0


From 5b31843d79d3fc15c6fbe2566c3c8967aed10295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 007/109] fix: sort tuples of any length, with negative numbers
 and with a block

The empty tuple sorted forever, the default sort left out an element,
negative integers were taken as huge ones, a block was called without its
closure, and sort ordered tuples of 10 and more elements in reverse.
---
 core/table.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/table.c b/core/table.c
index 3215bb5..6098822 100644
--- a/core/table.c
+++ b/core/table.c
@@ -759,24 +759,24 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     // inclusively, by moving all elements less than pivot before
     // the pivot, and the equal or greater elements after it.
     if (cmp == PN_NIL) { // default: sort by uniq, not value
-      for (i=from; i < to-1; i++) { // from ≤ i < to
+      for (i=from; i < to; i++) { // from ≤ i < to
 	if (PN_UNIQ(GET(i)) <= PN_UNIQ(pivot)) { SWAP(i, index); index++; }
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
       for (i=from; i < to; i++) {
-	if (GET(i) <= pivot) {
+	if ((long)GET(i) <= (long)pivot) {
 	  SWAP(i, index); index++;
 	}
       }
     } else if (cmp == PN_FALSE) { // sort by descending number
       for (i=from; i < to; i++) {
-	if (GET(i) > pivot) { SWAP(i, index); index++;
+	if ((long)GET(i) > (long)pivot) { SWAP(i, index); index++;
 	}
       }
     } else {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
+	if (PN_INT(c->method(P, cmp, P->lobby, GET(i), pivot)) < 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -809,7 +809,8 @@ static PN potion_tuple_sort(Potion *P, PN cl,
   PN_SIZE len = PN_TUPLE_LEN(self);
   if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
-  potion_sort_internal(P, cl, data, 0, len-1, cmp);
+  if (len > 1)
+    potion_sort_internal(P, cl, data, 0, len-1, cmp);
   return data;
 }
  
@@ -841,7 +842,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
       c = PN_CLOSURE(cmp);
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && PN_INT(c->method(P, cl, cmp, GET(j-1), GET(j))) > 0) {
+	while (j > 0 && PN_INT(c->method(P, cmp, P->lobby, GET(j-1), GET(j))) > 0) {
 	  SWAP(j, j-1);
 	  j--;
 	}
@@ -850,7 +851,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_TRUE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) > GET(j)) {
+	while (j > 0 && (long)GET(j-1) > (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
@@ -859,7 +860,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_FALSE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) < GET(j)) {
+	while (j > 0 && (long)GET(j-1) < (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From 49c2d572660c54568659c768a32910db7d473334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 008/109] fix: record tuples made by map and reverse for the
 garbage collector

---
 core/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/table.c b/core/table.c
index 6098822..f92963c 100644
--- a/core/table.c
+++ b/core/table.c
@@ -460,6 +460,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
   });
+  PN_TOUCH(t);
   return (PN)t;
 }
 
@@ -651,6 +652,7 @@ PN potion_tuple_reverse(Potion *P, PN cl, PN self) {
   PN_TUPLE_EACH(self, i, x, {
     PN_TUPLE_AT(tuple, len - i) = x;
   });
+  PN_TOUCH(tuple);
   return tuple;
 }
 
-- 
2.43.0


From 4b8d4ae6b21a25374c24b79a5fadbeab3150e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 009/109] fix: check the bounds of tuple accesses

at, put, slice, pop, shift, remove and delete read or wrote outside of the
tuple on short or empty tuples or with indices out of range, and push onto a
tuple without space.
---
 core/table.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/core/table.c b/core/table.c
index f92963c..1389af1 100644
--- a/core/table.c
+++ b/core/table.c
@@ -311,8 +311,9 @@ PN potion_tuple_push(Potion *P, PN tuple, PN value) {
   vPN(Tuple) t = PN_GET_TUPLE(tuple);
   DBG_CHECK_TUPLE(t);
   if (t->len >= t->alloc) {
-    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len * 2)); // overalloc by 2 times
-    t->alloc = t->len * 2;
+    PN_SIZE alloc = t->len ? t->len * 2 : 3;
+    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * alloc); // overalloc by 2 times
+    t->alloc = alloc;
   }
   t->set[t->len] = value;
   t->len++;
@@ -366,7 +367,7 @@ PN potion_tuple_at(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(self);
   long i = PN_INT(index), len = PN_TUPLE_LEN(self);
   if (i < 0) i += len;
-  if (i >= len) return PN_NIL;
+  if (i < 0 || i >= len) return PN_NIL;
   return PN_TUPLE_AT(self, i);
 }
 
@@ -410,6 +411,7 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     DBG_CHECK_INT(start);
     i = PN_INT(start);
     if (i < 0) i = t1->len + i;
+    if (i < 0) i = 0;
   }
   if (!end)
     l = t1->len - i;
@@ -417,13 +419,14 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     long e = PN_INT(end);
     DBG_CHECK_INT(end);
     if (e < 0) e = t1->len + e;
+    if (e < 0) e = 0;
     l = e - i;
     if (l < 0) { i = e; l = labs(l) + 1; }
     else l++;
-    if (l > t1->len) l = t1->len; // permit overshoots
+    if (l > (long)t1->len - i) l = (long)t1->len - i; // permit overshoots
   }
   DBG_vt("; splice(i=%ld,len=%ld)\n", i, l);
-  if (!l || i >= t1->len) return PN_NIL;
+  if (l < 1 || i >= (long)t1->len) return PN_NIL;
   NEW_TUPLE(t2, l);
   PN_MEMCPY_N(&t2->set[0], &t1->set[i], PN, l);
   t2->alloc = l;
@@ -557,10 +560,11 @@ PN potion_tuple_string(Potion *P, PN cl, PN self) {
 
 ///\memberof PNTuple
 /// "pop" method. remove the last element and return it
-///\return last PN
+///\return last PN or PN_NIL if the PNTuple is empty
 PN potion_tuple_pop(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[t->len - 1];
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
@@ -579,7 +583,7 @@ PN potion_tuple_put(Potion *P, PN cl, PN self, PN key, PN value) {
     DBG_CHECK_TUPLE(self);
     long i = PN_INT(key), len = PN_TUPLE_LEN(self);
     if (i < 0) i += len;
-    if (i < len) {
+    if (i >= 0 && i < len) {
       PN_TUPLE_AT(self, i) = value;
       PN_TOUCH(self);
       return self;
@@ -610,12 +614,13 @@ PN potion_tuple_unshift(Potion *P, PN cl, PN self, PN value) {
 ///\memberof PNTuple
 /// "shift" method. remove first element and return it
 ///\param value PN
-///\return PNTuple
+///\return first PN or PN_NIL if the PNTuple is empty
 PN potion_tuple_shift(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[0];
-  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len);
+  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len - 1);
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
   PN_TOUCH(self);
@@ -673,9 +678,10 @@ PN potion_tuple_remove(Potion *P, PN cl, PN self, PN index) {
     PN_SIZE i = PN_INT(index);
     PN data = potion_tuple_clone(P, cl, self);
     t = PN_GET_TUPLE(data);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    if (i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     //((struct PNFwd *)data)->ptr = (PN)t;
     PN_TOUCH(data);
     return data;
@@ -692,9 +698,10 @@ PN potion_tuple_delete(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(t);
   if (t->len) {
     PN_SIZE i = PN_INT(index);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    if (i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     PN_TOUCH(self);
   }
   return self;
-- 
2.43.0


From a87411003e824d041b7f0ddc102399ce50410e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 010/109] fix: ord, slices and formatted strings of multibyte
 text

ord decoded up to the end of the string, an index behind the end read
behind the string, bytes clone did not copy the bytes, and formatted strings
were not interned.
---
 core/string.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/string.c b/core/string.c
index c246015..6b54060 100644
--- a/core/string.c
+++ b/core/string.c
@@ -92,7 +92,12 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   vsnprintf(s->chars, len + 1, format, args);
   va_end(args);
   s->len = len;
-  return (PN)s;
+  PN exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
 }
 
 ///\memberof PNString
@@ -164,6 +169,7 @@ static size_t potion_utf8char_offset(const char *s, size_t index) {
 /// returns byte position of next utf8 char after s[offset]
 static size_t potion_utf8char_nextchar(const char *s, size_t offset) {
   size_t i;
+  if (!s[offset]) return offset;
   for (i = offset+1; s[i]; i++)
     if ((s[i] & 0xC0) != 0x80)
       return i;
@@ -206,13 +212,15 @@ static const uint8_t utf8d[] = {
 static unsigned long potion_utf8char_decode(const char *s) {
   unsigned char data, byte;
   unsigned long unic = 0;
-  while ((byte = *s++)) {
+  if (!*s) return 0;
+  do {
+    byte = *s++;
     if (byte >= 0x80) {
       data = utf8d[ byte - 0x80 ];
       byte = (byte ^ (uint8_t)(data << 4));
     }
     unic = (unic << 6) | byte;
-  }
+  } while ((*s & 0xC0) == 0x80);
   return unic;
 }
 
@@ -317,7 +325,7 @@ static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
   if (PN_STR_LEN(self) > 255) goto slow;
   else {
     long len = potion_cp_strlen_utf8(str);
-    if (len == PN_STR_LEN(self) && PN_INT(index) < len) {
+    if (len == PN_STR_LEN(self) && PN_INT(index) >= 0 && PN_INT(index) < len) {
       return PN_NUM(str[PN_INT(index)]);
     }
     else {
@@ -355,6 +363,7 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
   vPN(Bytes) s = PN_ALLOC_N(PN_TBYTES, struct PNBytes, b->siz);
   s->siz = b->siz;
   s->len = b->len;
+  PN_MEMCPY_N(s->chars, b->chars, char, b->len + 1);
   return (PN)s;
 }
 
-- 
2.43.0


From 8c8e6c07e1a9ed0ed6dd0bbb4ec186f3fc34424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 011/109] fix: unicode escapes at the borders of the utf-8
 lengths

U+07FF and U+FFFF were encoded too long, U+10FFFF, U+00C0 and U+00C1 were
refused, and the surrogate U+DFFF was accepted.
---
 core/syntax.y | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index c77bc0f..6392364 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -284,13 +284,11 @@ escu        = esc 'u' < hexl hexl hexl hexl > {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) { // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
   } else { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
@@ -304,18 +302,16 @@ escU       = esc 'U' '{' < hexl+ > '}' {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) { // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+  } else if (code <= 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
+  } else if (code <= 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 18) | 0xf0;
     utfc[nbuf++] = ((code >> 12) & 0x3f) | 0x80;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
-- 
2.43.0


From 8e566ae2c9e194302ddc67865dc62cffef62e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 012/109] fix: jit arithmetic and comparison agree with the
 bytecode VM

Additions did not see an overflow (lea sets no flags), division, modulo and
the shifts were done on 32 bits, comparisons with nan were true and <=>
compiled to a test.
---
 core/vm-x86.c | 75 +++++++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed3fc7c..99c137f 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -673,8 +673,9 @@ void potion_x86_setpath(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 void potion_x86_add(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_add, {
-    X86_PRE(); ASMS("\x8D\x44\x10\xFF"); // lea -1(%eax,%edx,1),%eax
-    ASM(0x70); ASM(2);                   // jo +2
+    X86_PRE(); ASMS("\xFF\xC8"); 	// dec %rax
+    X86_PRE(); ASMS("\x01\xD0"); 	// add %rdx %rax
+    ASM(0x70); ASM(2);                  // jo +2
   });
 }
 
@@ -701,26 +702,30 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_div(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_div, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\x83\xFA\x01"); 	// cmp 0 %rdx, division by zero not inlined
+    ASM(0x74); ASM(X86C(17,24, 0,0)); 	// je +24
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x01\xC0"); 	// add %rax %rax
+    ASM(0x70); ASM(X86C(4,5, 0,0)); 	// jo +5, min int / -1
+    X86_PRE(); ASMS("\xFF\xC0"); 	// inc %rax
   });
 }
 
 void potion_x86_rem(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_rem, {
-    ASMS("\xD1\xF8"	  	// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x12\x01");   // lea 0x1(%edx,%edx,1),%eax
+    X86_PRE(); ASMS("\x83\xFA\x01"); 	// cmp 0 %rdx, division by zero not inlined
+    ASM(0x74); ASM(X86C(15,21, 0,0)); 	// je +21
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x12\x01"); // lea 0x1(%rdx,%rdx,1),%rax
   });
 }
 
@@ -760,15 +765,15 @@ void potion_x86_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
 
 void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7C, 0x72,  		// jl, jb
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
+  X86_NUMCMP(0x7C, 0x77,  		// jl, ja (false with nan)
+             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
              );
 }
 
 void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7E, 0x76,		// jle, jbe
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
+  X86_NUMCMP(0x7E, 0x73,		// jle, jae (false with nan)
+             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
              );
 }
 
@@ -797,26 +802,22 @@ void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_bitl(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitl, {
-      ASMS("\xD1\xF8" 		// sar %eax
-	   "\xD1\xFA" 		// sar %edx
-	   "\x89\xD1" 		// mov %edx %ecx
-	   "\x89\xC2" 		// mov %eax %edx
-	   "\xD3\xE0"); 	// sal %cl %eax
-      ASM(0x70); ASM(6);        // jo +6
-      ASMS("\x8D\x44\x00\x01"); // lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xE0"); 	// sal %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_bitr(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitr, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA"		// sar %edx
-	 "\x89\xD1"		// mov %edx %ecx
-	 "\x89\xC2"		// mov %eax %edx
-	 "\xD3\xF8");		// sar %cl %eax
-    ASM(0x70); ASM(6);          // jo +6
-    ASMS("\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xF8"); 	// sar %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
@@ -880,7 +881,11 @@ void potion_x86_not(Potion *P, struct PNProto * volatile f, PNAsm * volatile *as
 }
 
 void potion_x86_cmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
-  potion_x86_test_asm(P, f, asmp, pos, 0);
+  PN_OP op = PN_OP_AT(f->asmb, pos);
+  X86_MOV_RBP(0x8B, op.b); 				// mov -B(%rbp) %rax
+  X86_PRE(); ASM(0x2B); ASM_MOV_EBP(0x45, op.a) 	// sub -A(%rbp) %rax
+  X86_PRE(); ASMS("\xFF\xC0"); 			// inc %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
 }
 
 void potion_x86_testjmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, PNJumps *jmps, size_t *offs, int *jmpc) {
-- 
2.43.0


From 1e7235db375b59d9b7e63e30b75f64b66c783312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 013/109] fix: unset locals are nil in jitted functions

---
 core/vm-x86.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 99c137f..5b98308 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -431,19 +431,16 @@ void potion_x86_stack(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 }
 
 void potion_x86_registers(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, long start) {
-  PN_HAS_UPVALS(up);
+  int argx = 0, regs = PN_INT(f->stack);
   // (Potion *, self) in the first argument slot, self in the first register
   // DBG_v(";regs start %ld\n", start);
   X86_ARGI(start - 3, 0);
   X86_ARGI(start - 2, 1);
   X86_ARGI(start - 1, 2);
   X86_ARGI(0, 2);
-  // empty locals, since use of setlocal requires something there
-  if (up) {
-    int argx = 0, regs = PN_INT(f->stack);
-    for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
-      X86_MOVQ(regs + argx, PN_NIL);
-    }
+  // empty locals, unset locals are nil and setlocal requires something there
+  for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
+    X86_MOVQ(regs + argx, PN_NIL);
   }
 }
 
-- 
2.43.0


From edc37f484ba7ef59cf6e00e510d383c6daac1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 014/109] fix: jitted calls and named arguments in registers
 above 15

---
 core/vm-x86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 5b98308..7e79a12 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -925,7 +925,7 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 #else
   if (op.a + 2 > 15) {
     DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2); //!! +2 only XXX
-    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASM(RBP(op.a + 2)); ASM(0xff); ASM(0xff);
+    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASMI(RBPN(op.a + 2));
   } else {
     X86_PRE(); ASM(0x89); ASM(0x54); ASM(0xC5); ASM(RBP(op.a + 2)); // mov %rdx -A(%rbp,%rax,8)
   }
@@ -1015,7 +1015,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_PRE(); ASM(0x89); ASM(0x45); ASM(RBP(op.a)); 	// mov %rbp(A) %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 7d7e4d2c953bcf7172838450ce342ef5a8fd3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 015/109] fix: jit functions with more than 1024 operations

The jump tables on the stack overflowed.
---
 core/vm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index 056dae1..7fab52c 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -221,8 +221,10 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 PN_F potion_jit_proto(Potion *P, PN proto) {
   long regs = 0, lregs = 0, need = 0, rsp = 0, argx = 0, protoargs = 4;
   PN_SIZE pos;
-  PNJumps jmps[JUMPS_MAX]; size_t offs[JUMPS_MAX]; int jmpc = 0, jmpi = 0;
+  int jmpc = 0, jmpi = 0;
   vPN(Proto) f = (struct PNProto *)proto;
+  PNJumps *jmps = (PNJumps *)malloc(PN_OP_LEN(f->asmb) * sizeof(PNJumps));
+  size_t *offs = (size_t *)malloc(PN_OP_LEN(f->asmb) * sizeof(size_t));
   long upc = PN_TUPLE_LEN(f->upvals);
   PNAsm * volatile asmb = potion_asm_new(P);
   u8 *fn;
@@ -354,6 +356,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 
   target->finish(P, f, &asmb);
+  free(jmps);
+  free(offs);
 
   fn = (u8*)PN_ALLOC_FUNC(asmb->len);
 #if defined(JIT_DEBUG)
-- 
2.43.0


From 56389ca5d32436a2f874d491025c62c91bc6a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 016/109] fix: an if whose body ends in a false value does not
 run its else

---
 core/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 787668d..7cc70ba 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -614,6 +614,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing if body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE); // the body may have used the register of the clause
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_elsif) {
         int jmp1 = PN_OP_LEN(f->asmb), jmp2; breg++;
@@ -626,6 +627,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing elsif body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE);
         PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
         PN_OP_AT(f->asmb, jmp2).b = (PN_OP_LEN(f->asmb) - jmp2) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_else) {
-- 
2.43.0


From 10b17b7db5c41ae785c0c69bc46bdb6cc8718be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 017/109] fix: arguments before a block with parameters

---
 core/compile.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 7cc70ba..fdd95e9 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -800,7 +800,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 #define LOAD_ARG() PN_ARG_TABLE(PN_S(t,1), breg, 1)
           if (arg) {
             u8 part1 = PN_PART(PN_S(t,1));
-            if (part1 == AST_VALUE || (part1 == AST_LIST && PN_S(t,2) == PN_NIL)) {
+            if (part1 == AST_VALUE || (part1 == AST_LIST &&
+                (PN_S(t,2) == PN_NIL || PN_PART(PN_S(t,2)) == AST_PROTO))) {
               LOAD_ARG();
             }
           }
@@ -836,8 +837,12 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             PN_ASM1(OP_SELF, ++breg);
             PN_ARG_TABLE(PN_S(t,1), breg, 1);
             if (PN_S(t,2) != PN_NIL) {
+              vPN(Source) t2 = PN_S_(t,2);
               breg++;
-              PN_BLOCK(breg, PN_S(t,2), PN_NIL);
+              if (t2->part == AST_PROTO)
+                PN_BLOCK(breg, PN_S(t2,1), PN_S(t2,0));
+              else
+                PN_BLOCK(breg, (PN)t2, PN_NIL);
             }
             DBG_c("; call %d %d\n", reg, breg);
             PN_ASM2(OP_CALL, reg, breg);
-- 
2.43.0


From 5a3d8389292d369c31bd359516f573f7a0a9ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 018/109] fix: the bytecode VM compares negative integers

---
 core/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index 7fab52c..9914fe3 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -414,7 +414,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 // TODO: support str1 < str2, or list1 < list2? (i.e. call the cmp method)
 #define PN_VM_NUMCMP(cmp)					  \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
-    reg[op.a] = PN_BOOL(reg[op.a] cmp reg[op.b]);		  \
+    reg[op.a] = PN_BOOL((long)reg[op.a] cmp (long)reg[op.b]);     \
   else {                                                          \
     PN_CHECK_NUM(reg[op.a]);                                      \
     PN_CHECK_NUM(reg[op.b]);                                      \
-- 
2.43.0


From 039e991ac602219209bf5fd0c5423abb180f715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 019/109] fix: a sign before a parenthesised expression

---
 core/compile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index fdd95e9..996a9c8 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -185,8 +185,10 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   if (reg >= PN_INT(f->stack)) \
     f->stack = PN_NUM(reg + 1)
 #define PN_ARG(n, reg) \
-  if (PN_PART(t->a[n]) == AST_EXPR && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST) { \
-    PN test = PN_S(PN_TUPLE_AT(PN_S(t->a[n],0), 0), 0);			\
+  if (PN_PART(t->a[n]) == AST_LIST || \
+      (PN_PART(t->a[n]) == AST_EXPR && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST)) { \
+    PN test = PN_PART(t->a[n]) == AST_LIST ? PN_S(t->a[n],0)		\
+      : PN_S(PN_TUPLE_AT(PN_S(t->a[n],0), 0), 0);			\
     if (!PN_IS_NIL(test)) {						\
       DBG_c("expr (list %s) => %s\n", AS_STR(test), AS_STR(test));	\
       PN_TUPLE_EACH(test, i, v, {					\
-- 
2.43.0


From dede3c0c3fdc8a2d6f52668cc825b5fb46315a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 020/109] fix: AST nodes of prefix -- and reused memory are
 safe to collect

---
 core/ast.c     | 20 ++++----------------
 core/compile.c |  4 ++--
 core/syntax.y  |  4 ++--
 3 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/core/ast.c b/core/ast.c
index dcc13c3..f285b5b 100644
--- a/core/ast.c
+++ b/core/ast.c
@@ -21,7 +21,7 @@ const char *potion_ast_names[] = {
 const int potion_ast_sizes[] = {
   1, 3, 2, 1, 2, 2, 2, 2, 2,
   2, 2, 2, 2, 2, 2, 2, 1, 2,
-  2, 2, 2, 2, 2, 2, 2, 2,
+  2, 2, 2, 3, 2, 2, 2, 2,
   3, 1, 1, 1, 1, 1, 1, 3,
   2, 3
 };
@@ -40,21 +40,9 @@ PN potion_source(Potion *P, u8 p, PN a, PN b, PN c, int lineno, PN line) {
   t->loc.fileno = P->fileno; // only advanced by load/require
   t->loc.lineno = lineno;
   t->line = line;
-#if 1
-  switch (size) {
-  case 3: t->a[2] = PN_SRC(c);
-  case 2: t->a[1] = PN_SRC(b);
-  case 1: t->a[0] = PN_SRC(a); break;
-  default: potion_fatal("invalid AST type");
-  }
-#else
-  switch (size) {
-  case 3: t->a[0] = PN_SRC(a); t->a[1] = PN_SRC(b); t->a[2] = PN_SRC(c); break;
-  case 2: t->a[0] = PN_SRC(a); t->a[1] = PN_SRC(b); t->a[2] = 0; break;
-  case 1: t->a[0] = PN_SRC(a); t->a[1] = t->a[2] = 0; break;
-  default: potion_fatal("invalid AST type");
-  }
-#endif
+  if (size < 1 || size > 3) potion_fatal("invalid AST type");
+  // the GC looks at all three
+  t->a[0] = PN_SRC(a); t->a[1] = PN_SRC(b); t->a[2] = PN_SRC(c);
   return (PN)t;
 }
 
diff --git a/core/compile.c b/core/compile.c
index 996a9c8..9711381 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -546,11 +546,11 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         PN_ASM2(OP_GETUPVAL, reg, num);
        else if (opcode == OP_SETLOCAL)
         PN_ASM2(OP_GETLOCAL, reg, num);
-      if (PN_IS_INT(PN_S(t,1))) {
+      if (PN_S(t,2) == PN_NIL) { // postfix
         breg++;
         PN_ASM2(OP_MOVE, breg, reg);
       }
-      PN_ASM2(OP_LOADPN, breg + 1, (PN_S(t,1) | PN_FINTEGER));
+      PN_ASM2(OP_LOADPN, breg + 1, PN_S(t,1));
       PN_ASM2(OP_ADD, breg, breg + 1);
       PN_ASM2(opcode, breg, num);
       PN_REG(f, breg + 1);
diff --git a/core/syntax.y b/core/syntax.y
index 6392364..66190b8 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -134,8 +134,8 @@ expr = ( not a:expr           { a = PN_AST(NOT, a) }
        | wavy a:expr          { a = PN_AST(WAVY, a) }
        | minus !minus a:atom  { a = PN_OP(AST_MINUS, PN_AST(VALUE, PN_ZERO), a) }
        | plus !plus a:atom    { a = PN_OP(AST_PLUS, PN_AST(VALUE, PN_ZERO), a) }
-       | mminus a:atom        { a = PN_OP(AST_INC, a, PN_NUM(-1) ^ 1) }
-       | pplus a:atom         { a = PN_OP(AST_INC, a, PN_NUM(1) ^ 1) }
+       | mminus a:atom        { a = PN_AST3(INC, a, PN_NUM(-1), PN_TRUE) }
+       | pplus a:atom         { a = PN_AST3(INC, a, PN_NUM(1), PN_TRUE) }
        | a:atom (pplus          { a = PN_OP(AST_INC, a, PN_NUM(1)) }
                | mminus         { a = PN_OP(AST_INC, a, PN_NUM(-1)) })?) { a = PN_TUP(a) }
          (c:call { a = PN_PUSH(a, c) })*
-- 
2.43.0


From 20c53aa68b847256b722d068100e3be9f86f02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 021/109] fix: arithmetic of a number and another type is an
 error in jitted code

---
 core/number.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/number.c b/core/number.c
index 50046da..a092b14 100644
--- a/core/number.c
+++ b/core/number.c
@@ -33,8 +33,11 @@ PN potion_strtod(Potion *P, char *str, int len) {
  \param sup PNNumber
  \return PNNumber (PNInteger or PNDouble) */
 PN potion_num_pow(Potion *P, PN cl, PN self, PN sup) {
-  double x = PN_DBL(self), y = PN_DBL(sup);
-  double z = pow(x, y);
+  double x, y, z;
+  PN_CHECK_NUM(self);
+  PN_CHECK_NUM(sup);
+  x = PN_DBL(self); y = PN_DBL(sup);
+  z = pow(x, y);
   if (PN_IS_INT(self) && PN_IS_INT(sup) && fabs(z) < INT_MAX)
     return PN_NUM((int)z);
   return potion_double(P, z);
@@ -50,7 +53,7 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
 #define PN_NUM_MATH_OV(math_op, ov) \
   long z; \
   DBG_CHECK_NUM(self); \
-  DBG_CHECK_NUM(num); \
+  PN_CHECK_NUM(num); \
   if (PN_IS_INT(self) && PN_IS_INT(num) \
       && !__builtin_##ov##_overflow(PN_INT(self), PN_INT(num), &z) && PN_FITS_INT(z)) \
     return PN_NUM(z); \
@@ -94,7 +97,7 @@ static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
   DBG_CHECK_NUM(self);
-  DBG_CHECK_NUM(num);
+  PN_CHECK_NUM(num);
   if (PN_IS_INT(self) && PN_IS_INT(num) && PN_INT(num) != 0) {
     long z = PN_INT(self) / PN_INT(num);
     if (PN_FITS_INT(z))
@@ -108,6 +111,7 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_NUM(num);
   if (PN_IS_INT(self) && PN_IS_INT(num) && PN_INT(num) != 0)
     return PN_NUM(PN_INT(self) % PN_INT(num));
   return potion_double(P, fmod(PN_DBL(self), PN_DBL(num)));
-- 
2.43.0


From b98a3802d7746eedee04c61a2ac81d7b28e0a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 022/109] fix: record functions grown by the compiler for the
 garbage collector

---
 core/compile.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 9711381..bc59327 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -23,8 +23,15 @@
 #include <dlfcn.h>
 #endif
 
-#define PN_ASM1(ins, _a)     f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0)
-#define PN_ASM2(ins, _a, _b) f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b)
+// the proto may be older than its grown asmb
+#define PN_ASM2(ins, _a, _b) ({ \
+    PN asmn = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b); \
+    if (asmn != f->asmb) { \
+      f->asmb = asmn; \
+      PN_TOUCH(f); \
+    } \
+  })
+#define PN_ASM1(ins, _a)     PN_ASM2(ins, _a, 0)
 
 const struct {
   const char *name;
@@ -228,7 +235,9 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
       if (numup != PN_NONE) { \
         up = f; \
         while (depth--) { \
-          up->upvals = PN_PUSH(up->upvals, name); \
+          PN upvals = PN_PUSH(up->upvals, name); \
+          up->upvals = upvals; \
+          PN_TOUCH(up); \
 	  DBG_c("upvals %s =>\n", AS_STR(name)); \
           up = (struct PNProto *)up->source; \
         } \
@@ -1075,6 +1084,7 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   f->sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
   f->asmb = (PN)potion_asm_new(P);
   f->name = PN_NIL;
+  PN_TOUCH(f);
 
   potion_source_asmb(P, f, NULL, 0, t, 0);
   PN_ASM1(OP_RETURN, 0);
@@ -1116,6 +1126,7 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   PN_MEMCPY_N(asmb->ptr, ((PNAsm *)f->asmb)->ptr, u8, len);
   asmb->len = len;
   n->asmb = (PN)asmb;
+  PN_TOUCH(n);
 
   return (PN)n;
 }
@@ -1179,6 +1190,7 @@ PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
   f->upvalsize = PN_TUPLE_LEN(f->upvals);
   f->pathsize  = PN_TUPLE_LEN(f->paths);
   *ptr += len;
+  PN_TOUCH(f);
   return (PN)f;
 }
 
-- 
2.43.0


From 770fa3abcb42c87656ab7b93f6edb769b767fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 023/109] fix: jitted calls with more than 3 arguments keep the
 registers of the caller

---
 core/vm-x86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 7e79a12..aa918bc 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -397,15 +397,16 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
     break;
     default: // can only pass max 6 arg via regs, rest on stack
       if (out) {
-	X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	// %rbx belongs to the caller, %r11 not
+	ASMS("\x4C\x8B"); ASM_MOV_EBP(0x5d,regn)     // mov %rbp(A) %r11
 	if (argn == 6) {
-	  X86_PRE(); ASMS("\x89\x1c\x24");    // mov %rbx (%rsp)
+	  ASMS("\x4C\x89\x1c\x24");                // mov %r11 (%rsp)
 	} else {
-	  X86_PRE(); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %rbx N(%rsp)
+	  ASMS("\x4C\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	X86_PRE(); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
-	X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	ASMS("\x4C\x8b\x5d"); ASM((argn - 4) * sizeof(PN));
+	ASMS("\x4C\x89"); ASM_MOV_EBP(0x5d,regn)     // mov %r11 %rbp(A)
       }
     break;
   }
-- 
2.43.0


From e5455550fd89589fa69a008866541c06d0bb7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 024/109] fix: room for all arguments of a jitted call

---
 core/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/vm.c b/core/vm.c
index 9914fe3..fa2b094 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -252,6 +252,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     }
   }
 
+  // called functions may take more arguments than the nested protos
+  for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
+    PN_OP op = PN_OP_AT(f->asmb, pos);
+    if (op.code == OP_CALL && op.b - op.a + 2 > protoargs)
+      protoargs = op.b - op.a + 2;
+  }
+
   regs = PN_INT(f->stack);
   lregs = regs + PN_TUPLE_LEN(f->locals);
   need = lregs + upc + 3;
-- 
2.43.0


From 00bbf2c8b5282af57f1827c3025d9104283a7bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 025/109] fix: jitted writes to captured locals reach the
 closures and the collector

---
 core/vm-x86.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index aa918bc..8e85e24 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -517,24 +517,38 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x89, op.a); 		     // a: mov %eax %esp(A)
 }
 
+// write to a captured local, the ref may be older than the value
+void potion_ref_set(Potion *P, PN ref, PN val) {
+  PN_DEREF(ref) = val;
+  PN_TOUCH(ref);
+}
+
 // if (PN_IS_REF(locals[op.b])) PN_DEREF(locals[op.b])  = reg[op.a];
 // else locals[op.b] = reg[op.a];
 void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
+  int tag_a1, tag_a2, tag_a3, tag_b;
   PN_HAS_UPVALS(up);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// mov %rsp(A) %rdx
   if (up) { // upvals need to be deref'd
     X86_MOV_RBP(0x8B, regs + op.b); 			// mov %rsp(B) %rax
-    ASMS("\xF6\xC0\x01" 				// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
+    ASMS("\xF6\xC0\x01"); 				// test 0x1 %al
+    TAG_PREP(tag_a1); ASM(0x75); ASM(0); 		// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 			// jz a
+    TAG_PREP(tag_a2); ASM(0x74); ASM(0); 		// jz a
     ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
-    ASM(0x75); ASM(X86C(3,4, 0,0)); 			// jnz a
-    X86_PRE(); ASM(0x89); ASM(0x50);
-               ASM(sizeof(struct PNObject)); 		// mov N(%rax) %rax
+    TAG_PREP(tag_a3); ASM(0x75); ASM(0); 		// jnz a
+    X86_ARGO(regs + PN_TUPLE_LEN(f->locals) + PN_TUPLE_LEN(f->upvals), 0); // P
+    X86_ARGO(regs + op.b, 1);
+    X86_ARGO(op.a, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_ref_set); 	// mov &potion_ref_set %rax
+    ASM(0xFF); ASM(0xD0); 				// callq %rax
+    TAG_PREP(tag_b); ASM(0xEB); ASM(0); 		// jmp b, keep the ref
+    TAG_LABEL(tag_a1); TAG_LABEL(tag_a2); TAG_LABEL(tag_a3);
   }
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// a: mov %rdx %rsp(B)
+  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// a: mov %rsp(A) %rdx
+  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)//    mov %rdx %rsp(B)
+  if (up)
+    TAG_LABEL(tag_b);
 }
 
 // reg[op.a] = PN_DEREF(upvals[op.b])
@@ -546,12 +560,13 @@ void potion_x86_getupval(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 }
 
 // PN_DEREF(upvals[op.b]) = reg[op.a]
-// TODO: place the upval in the write barrier (or have stack scanning handle weak refs)
 void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 		// mov -A(%rbp) %edx
-  X86_MOV_RBP(0x8B, lregs + op.b); 				// mov %rsp(B) %rax
-  X86_PRE(); ASM(0x89); ASM(0x50); ASM(sizeof(struct PNObject));// mov %rdx %rax.data
+  X86_ARGO(lregs + PN_TUPLE_LEN(f->upvals), 0); 	// P
+  X86_ARGO(lregs + op.b, 1);
+  X86_ARGO(op.a, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_ref_set); 		// mov &potion_ref_set %rax
+  ASM(0xFF); ASM(0xD0); 				// callq %rax
 }
 
 void potion_x86_global(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 73d04aa540d9c9fe46240b0297c375ce287258ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 026/109] fix: jitted return from within an expression

---
 core/vm-x86.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 8e85e24..1017e88 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1048,7 +1048,8 @@ void potion_x86_tailcall(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 }
 
 void potion_x86_return(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
-  X86_MOV_RBP(0x8B, 0); // mov -0(%rbp) %eax
+  PN_OP op = PN_OP_AT(f->asmb, pos);
+  X86_MOV_RBP(0x8B, op.a); // mov -A(%rbp) %eax
   ASM(0xC9); ASM(0xC3); // leave; ret
 }
 
-- 
2.43.0


From 2d16436999af34a1f89e6d445704c322bcc99005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 027/109] fix: parsing of sources large enough to run the
 garbage collector

---
 core/gc.c       | 15 +++++++++------
 core/gc.h       |  2 ++
 core/potion.h   |  1 +
 core/syntax.y   | 19 +++++++++++++++++++
 tools/compile.c |  2 ++
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index d610985..3efe277 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -57,7 +57,7 @@ PN_SIZE potion_stack_len(Potion *P, _PN **p) {
 #define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || PN_TYPECHECK(PN_VTYPE(v))))
 
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
-static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int type) {
+PN_SIZE potion_mark_array(Potion *P, register _PN *x, register long n, int type) {
   _PN v;
   PN_SIZE i = 0;
   struct PNMemory *M = P->mem;
@@ -108,7 +108,7 @@ PN_SIZE potion_mark_stack(Potion *P, int type) {
 #endif
   DBG_Gv(P,"mark_stack (%p -> %p = %ld, type=%d)\n", start, end, n, type);
   if (n <= 0) return 0;
-  return pngc_mark_array(P, start, n, type);
+  return potion_mark_array(P, start, n, type);
 }
 
 void *pngc_page_new(int *sz, const char exec) {
@@ -159,6 +159,8 @@ static int potion_gc_minor(Potion *P, int sz) {
 	M->old_lo, M->old_hi, (long)(M->old_hi - M->old_lo),
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
+  potion_mark_parser(P, 1);
+  potion_mark_minor(P, (const struct PNObject *)P);
 
   GC_MINOR_STRINGS();
 
@@ -227,6 +229,7 @@ static int potion_gc_major(Potion *P, int siz) {
   DBG_G(P,"(new old: %p -> %p = %d)\n", newold, (char *)newold + newoldsiz, newoldsiz);
 
   potion_mark_stack(P, 2);
+  potion_mark_parser(P, 2);
 
   wb = (void **)M->birth_storeptr;
   if (M->birth_lo != M) {
@@ -454,7 +457,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((Potion *)ptr)->callset);
       GC_MINOR_UPDATE(((Potion *)ptr)->input);
       GC_MINOR_UPDATE(((Potion *)ptr)->source);
-      //GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
       GC_MINOR_UPDATE(((Potion *)ptr)->line);
       GC_MINOR_UPDATE(((Potion *)ptr)->unclosed);
       //GC_MINOR_UPDATE(((Potion *)ptr)->target);
@@ -507,7 +510,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCONT:
       GC_KEEP(ptr);
-      pngc_mark_array(P, (_PN *)((struct PNCont *)ptr)->stack + 3, ((struct PNCont *)ptr)->len - 3, 1);
+      potion_mark_array(P, (_PN *)((struct PNCont *)ptr)->stack + 3, ((struct PNCont *)ptr)->len - 3, 1);
     break;
   }
 
@@ -568,7 +571,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       //DBG_G(P,"   source\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->source);
       //DBG_G(P,"   pbuf\n");
-      //GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
       //DBG_G(P,"   line\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->line);
       //DBG_G(P,"   unclosed\n");
@@ -624,7 +627,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCONT:
       GC_KEEP(ptr);
-      pngc_mark_array(P, (_PN *)((struct PNCont *)ptr)->stack + 3, ((struct PNCont *)ptr)->len - 3, 2);
+      potion_mark_array(P, (_PN *)((struct PNCont *)ptr)->stack + 3, ((struct PNCont *)ptr)->len - 3, 2);
     break;
   }
 
diff --git a/core/gc.h b/core/gc.h
index 444fb23..63524f0 100644
--- a/core/gc.h
+++ b/core/gc.h
@@ -156,6 +156,8 @@ static inline int potion_birth_suggest(int need, volatile void *oldlo, volatile
 
 PN_SIZE potion_stack_len(Potion *, _PN **);
 PN_SIZE potion_mark_stack(Potion *, int);
+PN_SIZE potion_mark_array(Potion *, register _PN *, register long, int);
+void potion_mark_parser(Potion *, int);
 void *potion_gc_copy(Potion *, struct PNObject *);
 void *pngc_page_new(int *, const char);
 void *potion_mark_minor(Potion *, const struct PNObject *);
diff --git a/core/potion.h b/core/potion.h
index d9b8c66..6899c42 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -668,6 +668,7 @@ struct Potion_State {
   PN line;                 ///< currently parsed line (for debug)
   PN_SIZE fileno;          ///< currently parsed file
   PN unclosed;             ///< used by parser for named block endings
+  void *parser;            ///< the running parser, its values are kept
 };
 
 ///
diff --git a/core/syntax.y b/core/syntax.y
index 66190b8..1f8fd11 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -11,6 +11,7 @@
 #include "internal.h"
 #include "asm.h"
 #include "ast.h"
+#include "gc.h"
 
 #undef PN_AST
 #undef PN_AST2
@@ -38,6 +39,7 @@
   } \
 }
 
+#define YY_ALLOC(N, D) calloc(1, N)
 #define YY_NAME(N) potion_code_##N
 
 #define YY_TINT 3
@@ -375,11 +377,24 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 
 %%
 
+/** the values of the rules are not on the machine stack
+  */
+void potion_mark_parser(Potion *P, int type) {
+  GREG *G = (GREG *)P->parser;
+  if (G != NULL) {
+    potion_mark_array(P, (_PN *)&G->ss, 1, type);
+    if (G->vals != NULL)
+      potion_mark_array(P, (_PN *)G->vals, G->valslen, type);
+  }
+}
+
 PN potion_parse(Potion *P, PN code, char *filename) {
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = G;
   P->yypos = 0;
   P->input = code;
   P->source = PN_NIL;
@@ -398,6 +413,7 @@ PN potion_parse(Potion *P, PN code, char *filename) {
     fprintf(stderr, "%s", s->chars);
     P->source = PN_NIL;
   }
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   code = P->source;
@@ -439,9 +455,11 @@ PN potion_sig(Potion *P, char *fmt) {
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
 
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = G;
   P->yypos = 0;
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
@@ -452,6 +470,7 @@ PN potion_sig(Potion *P, char *fmt) {
 
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   out = P->source;
diff --git a/tools/compile.c b/tools/compile.c
index 9d7e359..5fbdd38 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -814,9 +814,11 @@ YY_LOCAL(void) yyPush(GREG *G, char *text, int count, yythunk *thunk, YY_XTYPE Y
   yyprintfv((stderr, \"yyPush %d\\n\", count));\n\
   size_t off = (G->val - G->vals) + count;\n\
   if (off > G->valslen) {\n\
+    int oldlen = G->valslen;\n\
     while (G->valslen < off + 1)\n\
       G->valslen *= 2;\n\
     G->vals= (YYSTYPE*)YY_REALLOC((void *)G->vals, sizeof(YYSTYPE) * G->valslen, G->data);\n\
+    memset((void *)(G->vals + oldlen), 0, sizeof(YYSTYPE) * (G->valslen - oldlen));\n\
     G->val= G->vals + off;\n\
   } else {\n\
     G->val += count;\n\
-- 
2.43.0


From 5d9378d95aec979d3165321e28e24bf7c9dd3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 028/109] fix: a signature (x | y=N) keeps y's name

---
 core/compile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index bc59327..385dae0 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1010,8 +1010,8 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 	  //x|y=o => (assign (pipe (expm x) (expm y)) (expm o))
 	  SIG_EXPR_MSG(name, lhs->a[0]);
 	  sig = PN_PUSH(sig, PN_NUM('|'));
-	  rhs = lhs->a[1];
-	  DBG_c("; (%s | ", AS_STR(name));
+	  SIG_EXPR_MSG(name, lhs->a[1]);
+	  DBG_c("; (| %s ", AS_STR(name));
 	} else {
 	  potion_syntax_error(P, t, "in signature: unexpected AST %s", AS_STR(lhs));
 	}
-- 
2.43.0


From 85005d1465d539bc67331358e4d4289273f1e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 029/109] fix: default values in signatures are not counted as
 parameter names

---
 core/objmodel.c |  8 ++++----
 core/syntax.y   | 17 +++++++++++------
 core/vm.c       |  6 ++++--
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index a25e7cd..80267fa 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -89,8 +89,8 @@ int potion_sig_arity(Potion *P, PN sig) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++; // names
-	// but not string default values
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	// but not the default values
+	if (PN_IS_INT(v) && v == PN_NUM(':')) i++;
       }
     }
     return count;
@@ -138,7 +138,7 @@ PN potion_sig_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (PN_IS_INT(v) && v == PN_NUM(':')) { i++; continue; }
 	if (count == index) {
 	  result = potion_tuple_new(P, v);
 	  if (i+1 < t->len && PN_IS_INT((PN)t->set[i+1])) {
@@ -171,7 +171,7 @@ PN potion_sig_name_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (PN_IS_INT(v) && v == PN_NUM(':')) { i++; continue; }
 	if (count == index)
 	  return v;
       }
diff --git a/core/syntax.y b/core/syntax.y
index 1f8fd11..e625152 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -485,6 +485,7 @@ int potion_sig_find(Potion *P, PN cl, PN name)
 {
   PN_SIZE idx = 0;
   PN sig;
+  PN prev = PN_NIL;
 
   if (!PN_IS_CLOSURE(cl))
     cl = potion_obj_get_call(P, cl);
@@ -495,12 +496,16 @@ int potion_sig_find(Potion *P, PN cl, PN name)
     return -1;
 
   PN_TUPLE_EACH(sig, i, v, {
-    PN prev = PN_NIL;
-    if (v == name) return idx;
-    // count names, not string default values
-    if (PN_IS_STR(v) && !(PN_IS_INT(prev) && prev == PN_NUM(':')))
-      idx++;
-    prev = v;
+    // count names, not default values
+    if (prev == PN_NUM(':'))
+      prev = PN_NIL;
+    else {
+      if (PN_IS_STR(v)) {
+        if (v == name) return idx;
+        idx++;
+      }
+      prev = v;
+    }
   });
   return -1;
 }
diff --git a/core/vm.c b/core/vm.c
index fa2b094..b9a671f 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -281,8 +281,10 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     vPN(Tuple) t = (vPN(Tuple)) potion_fwd(f->sig);
     for (i=0; i < t->len; i++) {
       PN v = (PN)t->set[i];
-      // arg names, except string default
-      if (PN_IS_STR(v) && !(i>0 && PN_IS_INT(t->set[i-1]) && t->set[i-1] == PN_NUM(':'))) {
+      // arg names, not default values
+      if (PN_IS_INT(v) && v == PN_NUM(':'))
+        i++;
+      else if (PN_IS_STR(v)) {
         PN_SIZE num = PN_GET(f->locals, v);
         if (num != PN_NONE)
           target->local(P, f, &asmb, regs + num, argx);
-- 
2.43.0


From 33285180e241441c2745c3725fe97ca9a95b75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 030/109] fix: string literals of 33 bytes taken for array
 references

---
 core/compile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 385dae0..0b41f06 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -365,7 +365,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       PN_OP op; op.a = PN_S(t,0); // but 12bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
-      } else if (a != PN_NIL && PN_IS_PTR(a)
+      } else if (PN_IS_PTR(a) && potion_ptr_type((PN)a) == PN_TSOURCE // not a string of 33 bytes
                  && PN_PART(a) == AST_LICK && PN_PART(a->a[0]) == AST_MSG) {
         vPN(Source) msg = a->a[0];
         PN tpl = PN_S(msg, 0);
@@ -417,7 +417,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 	DBG_c("values %d %s => %d\n", reg, AS_STR(a), (int)num);
         PN_ASM2(OP_LOADK, reg, num);
       }
-      if (PN_S(t,1) != PN_NIL && a->part != AST_LICK) {
+      if (PN_S(t,1) != PN_NIL
+          && !(PN_IS_PTR(a) && potion_ptr_type((PN)a) == PN_TSOURCE && PN_PART(a) == AST_LICK)) {
         u8 breg = reg;
         PN_ASM1(OP_SELF, ++breg);
         PN_ARG_TABLE(PN_S(t,1), breg, 1);
-- 
2.43.0


From ebc0b5cdf88ad9bd02ace601b67d94553e40e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 031/109] fix: minor collections keep the strings reached from
 other objects interned

---
 core/gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index 3efe277..453fe2a 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -162,8 +162,6 @@ static int potion_gc_minor(Potion *P, int sz) {
   potion_mark_parser(P, 1);
   potion_mark_minor(P, (const struct PNObject *)P);
 
-  GC_MINOR_STRINGS();
-
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
@@ -176,6 +174,9 @@ static int potion_gc_minor(Potion *P, int sz) {
     scanptr = potion_mark_minor(P, scanptr);
   scanptr = 0;
 
+  // only now it is known which strings survive
+  GC_MINOR_STRINGS();
+
   sz += 2 * POTION_PAGESIZE;
   sz = max(sz, potion_birth_suggest(sz, M->old_lo, M->old_cur));
 
-- 
2.43.0


From 525698d1294c1daa02ce64eb3ebe2ba04558da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 032/109] fix: doubles read back from compiled files stop at
 their end

---
 core/number.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/number.c b/core/number.c
index a092b14..b9fa581 100644
--- a/core/number.c
+++ b/core/number.c
@@ -22,10 +22,16 @@ PN potion_double(Potion *P, double v) {
   return (PN)d;
 }
 
-/// Convert string to double
+/// Convert string of len bytes to double
 PN potion_strtod(Potion *P, char *str, int len) {
-  char *ptr = str + len;
-  return potion_double(P, strtod(str, &ptr));
+  double d;
+  char *copy = malloc(len + 1);
+  if (copy == NULL) potion_allocation_error();
+  PN_MEMCPY_N(copy, str, char, len);
+  copy[len] = '\0';
+  d = strtod(copy, NULL);
+  free(copy);
+  return potion_double(P, d);
 }
 /**\memberof PNNumber
   "**" method.
-- 
2.43.0


From ab0eaece4ed692064e2555f4ef90766efe4a27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 033/109] fix: load runs the compiled file it has read

---
 core/load.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/load.c b/core/load.c
index 6736585..6bb9116 100644
--- a/core/load.c
+++ b/core/load.c
@@ -42,6 +42,8 @@ static PN potion_load_code(Potion *P, const char *filename) {
 	  potion_parse(P, buf, (char *)filename),
           PN_compile, potion_str(P, filename), PN_NIL),
         POTION_JIT);
+    } else {
+      result = potion_run(P, code, POTION_JIT);
     }
   } else {
     fprintf(stderr, "** could not read entire file: %s.", filename);
-- 
2.43.0


From 695ba69e2d0991de6b1938963fb202cbb42d2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 034/109] fix: compiled file names longer than 250 bytes

---
 core/potion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.c b/core/potion.c
index 61b847b..42edbcf 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -166,7 +166,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     potion_fatal("fatal: stack corruption (exec > MAX_EXEC)\n");
 
   if (exec == EXEC_COMPILE) { // needs an inputfile. TODO: -e"" -ofile
-    char outpath[255];
+    char outpath[strlen(filename) + 5];
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
-- 
2.43.0


From 26c088ac7a05bf3b2647a836e7d514fd462c392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 035/109] fix: compiled files of more than 8192 bytes or 255
 constants, doubles at full precision

---
 core/compile.c | 73 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 0b41f06..ec2cc49 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1150,20 +1150,25 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
     val; \
   })
 
-#define READ_TUPLE(ptr) \
-  long i = 0, count = READ_U8(ptr); \
-  PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
+// counts from 255 on follow as PN
+#define READ_COUNT(pn, ptr) ({ \
+    long rcount = READ_U8(ptr); \
+    if (rcount == 255) rcount = READ_PN(pn, ptr); \
+    rcount; \
+  })
+#define READ_TUPLE(pn, ptr) \
+  long i = 0, count = READ_COUNT(pn, ptr); \
+  PN tup = PN_TUP0(); \
   for (; i < count; i++)
 #define READ_VALUES(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = READ_CONST(pn, ptr); \
+    READ_TUPLE(pn, ptr) { PN rval = READ_CONST(pn, ptr); tup = PN_PUSH(tup, rval); } \
     tup; \
   })
 #define READ_PROTOS(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = potion_proto_load(P, (PN)f, pn, &(ptr)); \
+    READ_TUPLE(pn, ptr) { PN rval = potion_proto_load(P, (PN)f, pn, &(ptr)); tup = PN_PUSH(tup, rval); } \
     tup; \
   })
 
-// TODO: this byte string is volatile, need to avoid using ptr
 PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
   PN len = 0;
   PNAsm * volatile asmb = NULL;
@@ -1198,17 +1203,25 @@ PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
 ///\memberof PNSource
 // TODO: "load" from a stream
 PN potion_source_load(Potion *P, PN cl, PN buf) {
-  u8 *ptr;
+  u8 *ptr, *copy;
+  PN code;
   vPN(BHeader) h = (struct PNBHeader *)PN_STR_PTR(buf);
   // check for compiled binary first
   if ((size_t)PN_STR_LEN(buf) <= sizeof(struct PNBHeader) ||
       strncmp((char *)h->sig, POTION_SIG, 4) != 0)
     return PN_NIL;
 
-  ptr = h->proto;
-  return potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  // the garbage collector may move buf
+  copy = malloc(PN_STR_LEN(buf));
+  if (copy == NULL) potion_allocation_error();
+  PN_MEMCPY_N(copy, PN_STR_PTR(buf), u8, PN_STR_LEN(buf));
+  ptr = ((struct PNBHeader *)copy)->proto;
+  code = potion_proto_load(P, PN_NIL, ((struct PNBHeader *)copy)->pn, &ptr);
+  free(copy);
+  return code;
 }
 
+#define DBL_CHARS 40
 // TODO: switch to dump methods
 #define WRITE_U8(un, ptr) ({*ptr = (u8)un; ptr += sizeof(u8);})
 #define WRITE_PN(pn, ptr) ({*(PN *)ptr = pn; ptr += sizeof(PN);})
@@ -1219,11 +1232,12 @@ PN potion_source_load(Potion *P, PN cl, PN buf) {
       PN_MEMCPY_N(ptr, PN_STR_PTR(val), char, PN_STR_LEN(val)); \
       ptr += PN_STR_LEN(val); \
     } else if (PN_IS_DBL(val)) { \
-      PN str = potion_num_string(P, PN_NIL, val); \
-      PN count = ((PN_STR_LEN(str)+1) << 4) | 2; \
+      char dbl[DBL_CHARS]; \
+      int dlen = snprintf(dbl, sizeof(dbl), "%.17g", PN_DBL(val)); \
+      PN count = ((PN)(dlen+1) << 4) | 2; \
       WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(str), char, PN_STR_LEN(str)); \
-      ptr += PN_STR_LEN(str); \
+      PN_MEMCPY_N(ptr, dbl, char, dlen); \
+      ptr += dlen; \
     } else { \
       PN cval = (PN_IS_PTR(val) ? PN_NIL : val); \
       WRITE_PN(cval, ptr); \
@@ -1231,7 +1245,8 @@ PN potion_source_load(Potion *P, PN cl, PN buf) {
   })
 #define WRITE_TUPLE(tup, ptr) \
   long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count, ptr); \
+  if (count < 255) WRITE_U8(count, ptr); \
+  else { WRITE_U8(255, ptr); WRITE_PN(count, ptr); } \
   for (; i < count; i++)
 #define WRITE_VALUES(tup, ptr) ({ \
     WRITE_TUPLE(tup, ptr) WRITE_CONST(PN_TUPLE_AT(tup, i), ptr); \
@@ -1241,6 +1256,34 @@ PN potion_source_load(Potion *P, PN cl, PN buf) {
         out, (char *)ptr - PN_STR_PTR(out)); \
   })
 
+#define DUMP_VALUES_SIZE(size, tup) ({ \
+    long i = 0, count = PN_TUPLE_LEN(tup); \
+    size += sizeof(u8) + sizeof(PN); \
+    for (; i < count; i++) size += potion_const_dumpsize(P, PN_TUPLE_AT(tup, i)); \
+  })
+
+static size_t potion_const_dumpsize(Potion *P, PN val) {
+  return sizeof(PN) + (PN_IS_STR(val) ? PN_STR_LEN(val) : PN_IS_DBL(val) ? DBL_CHARS : 0);
+}
+
+/// upper bound of the bytes potion_proto_dumpbc writes
+static size_t potion_proto_dumpsize(Potion *P, PN proto) {
+  vPN(Proto) f = (struct PNProto *)proto;
+  size_t size = sizeof(PN) + PN_FLEX_SIZE(f->asmb);
+  size += potion_const_dumpsize(P, f->name) + potion_const_dumpsize(P, f->source)
+    + potion_const_dumpsize(P, f->stack);
+  DUMP_VALUES_SIZE(size, f->sig);
+  DUMP_VALUES_SIZE(size, f->values);
+  DUMP_VALUES_SIZE(size, f->paths);
+  DUMP_VALUES_SIZE(size, f->locals);
+  DUMP_VALUES_SIZE(size, f->upvals);
+  size += sizeof(u8) + sizeof(PN);
+  PN_TUPLE_EACH(f->protos, i, v, {
+    size += potion_proto_dumpsize(P, v);
+  });
+  return size;
+}
+
 ///\memberof PNProto
 /// compile to bytecode
 ///\param proto  PNProto
@@ -1271,7 +1314,7 @@ long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
 /// dump to bytecode
 // Low TODO: dump to a stream (if we have not enough memory)
 PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
-  PN pnb = potion_bytes(P, 8192);
+  PN pnb = potion_bytes(P, sizeof(struct PNBHeader) + potion_proto_dumpsize(P, proto));
   struct PNBHeader h;
   DBG_c("compile bc\n");
   PN_MEMCPY_N(h.sig, POTION_SIG, u8, 4);
-- 
2.43.0


From 6a237dbe07386e82ae7942025ec0926a84da09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 036/109] fix: parent, isa? and subclass? of values that are no
 classes

---
 core/objmodel.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 80267fa..bf301a8 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -553,8 +553,9 @@ PN potion_object_size(Potion *P, PN cl, PN self) {
  \return returns TRUE or FALSE if the object has the same type as the class */
 PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t  = PN_TYPE(self);
-  PNType t1 = vtable->type;
+  PNType t1;
   PN_CHECK_TYPE(vtable, PN_TVTABLE);
+  t1 = vtable->type;
   if (!PN_TYPECHECK(t1)) return potion_type_error(P, (PN)vtable);
   if (PN_IS_PTR(self) && !PN_TYPECHECK(t)) return potion_type_error(P, self);
   return t == t1  ? PN_TRUE : PN_FALSE;
@@ -566,6 +567,7 @@ PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
 PN potion_object_subclass(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t = PN_TYPE(self);
   PNType t0, p;
+  PN_CHECK_TYPE(vtable, PN_TVTABLE);
   if (potion_lobby_isa(P, cl, self, vtable) == PN_TRUE) return PN_TRUE;
   if (!PN_IS_PTR(self))
     return vtable->type == PN_TNUMBER
@@ -614,7 +616,7 @@ PN potion_lobby_kind(Potion *P, PN cl, PN self) {
  global \c "parent" method
  \return the parent of self */
 PN potion_lobby_parent(Potion *P, PN cl, PN self) {
-  if (!PN_IS_PTR(self) || self == P->lobby)
+  if (PN_TYPE(self) != PN_TVTABLE || self == P->lobby)
     self = potion_lobby_kind(P, cl, self);
   PNType t = ((struct PNVtable *)self)->parent;
   if(!PN_TYPECHECK(t))
-- 
2.43.0


From 50c6a33a71cf2557a7446814614bfcf8516b507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 037/109] fix: registers of a class's block and of a call
 without arguments are reserved

---
 core/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index ec2cc49..cf5daf5 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -208,6 +208,7 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   PN block = potion_send(blk, PN_compile, (PN)f, sig); \
   PN_SIZE num = PN_PUT(f->protos, block); \
   DBG_c("protos => %u\n", num); \
+  PN_REG(f, reg); \
   PN_ASM2(OP_PROTO, reg, num); \
   PN_TUPLE_EACH(((struct PNProto *)block)->upvals, i, v, { \
     PN_SIZE numup = PN_GET(f->upvals, v); \
@@ -427,6 +428,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
           PN_BLOCK(breg, PN_S(t,2), PN_NIL);
         }
         DBG_c("; call %d %d VALUE\n", reg, breg);
+        PN_REG(f, breg);
         PN_ASM2(OP_CALL, reg, breg);
       }
     }
-- 
2.43.0


From 1a9f55ec0f919b670d5f699a0d8e60e1ec778b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 038/109] fix: variables of a parser rule which are not set are
 nil, not values of an earlier rule

---
 tools/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/compile.c b/tools/compile.c
index 5fbdd38..5ade17a 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -823,6 +823,8 @@ YY_LOCAL(void) yyPush(GREG *G, char *text, int count, yythunk *thunk, YY_XTYPE Y
   } else {\n\
     G->val += count;\n\
   }\n\
+  /* a variable which is not set must not keep the value of an earlier rule */\n\
+  memset((void *)(G->val - count), 0, sizeof(YYSTYPE) * count);\n\
 }\n\
 YY_LOCAL(void) yyPop(GREG *G, char *text, int count, yythunk *thunk, YY_XTYPE YY_XVAR) {\n\
   yyprintfv((stderr, \"yyPop %d\\n\", count));\n\
-- 
2.43.0


From 74518fd6b0b8c2a870f1de33d7db95a201315d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 039/109] fix: a collection while an object grows keeps the new
 copy whole

---
 core/potion.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/potion.h b/core/potion.h
index 6899c42..ebdc3d0 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -746,6 +746,10 @@ static inline void *potion_gc_realloc(Potion *P, PNType vt, struct PNObject * vo
     oldsz = potion_type_size(P, (const struct PNObject *)obj);
     if (oldsz >= sz)
       return (void *)obj;
+    // collect before dst exists: it takes its size from obj until the caller
+    // has set the new one, so recording obj below must not run the collector
+    if ((char *)P->mem->birth_cur + PN_ALIGN(sz, 8) >= (char *)((void **)P->mem->birth_storeptr - 8))
+      potion_garbagecollect(P, PN_ALIGN(sz, 8) + 16 * sizeof(void *), 0);
   }
 
   dst = potion_gc_alloc(P, vt, sz);
-- 
2.43.0


From 041d94df76e7f8d92871cdcf620058aea9b052a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 040/109] fix: messages to a parenthesised list as an operand

---
 core/compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index cf5daf5..12e6173 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -193,7 +193,8 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
     f->stack = PN_NUM(reg + 1)
 #define PN_ARG(n, reg) \
   if (PN_PART(t->a[n]) == AST_LIST || \
-      (PN_PART(t->a[n]) == AST_EXPR && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST)) { \
+      (PN_PART(t->a[n]) == AST_EXPR && PN_TUPLE_LEN(PN_S(t->a[n],0)) == 1 && \
+       PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST)) { \
     PN test = PN_PART(t->a[n]) == AST_LIST ? PN_S(t->a[n],0)		\
       : PN_S(PN_TUPLE_AT(PN_S(t->a[n],0), 0), 0);			\
     if (!PN_IS_NIL(test)) {						\
-- 
2.43.0


From c6a01e736cb70336dc8fd341cad187541a6db6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 041/109] fix: a method is stored in its class before anything
 else is allocated

---
 core/objmodel.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index bf301a8..b3c16ce 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -348,10 +348,6 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   PN cl;
   vPN(Vtable) vt = (struct PNVtable *)self;
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
-  unsigned k = kh_put(PN, vt->methods, key, &ret);
-  PN_QUICK_FWD(struct PNTable *, vt->methods);
-  PN_TOUCH(vt->methods);
-
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
@@ -365,8 +361,13 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   }
   else
     PN_CLOSURE(method)->name = key;
+  PN_TOUCH(method);
 
+  // the new slot gets its value before anything else is allocated
+  unsigned k = kh_put(PN, vt->methods, key, &ret);
+  PN_QUICK_FWD(struct PNTable *, vt->methods);
   kh_val(PN, vt->methods, k) = method;
+  PN_TOUCH(vt->methods);
   PN_TOUCH(self);
 
 #ifdef JIT_MCACHE
-- 
2.43.0


From 7f6de35780002012ffb8828bf4dbc26eeacd4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 042/109] fix: the collector keeps errors whole and the targets
 of recorded forwards

---
 core/gc.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 453fe2a..046286f 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -357,6 +357,9 @@ PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
     case PN_TFILE:
       sz = sizeof(struct PNFile);
     break;
+    case PN_TERROR:
+      sz = sizeof(struct PNError);
+    break;
     case PN_TVTABLE:
       sz = sizeof(struct PNVtable);
     break;
@@ -423,6 +426,9 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     case POTION_COPIED:
     case POTION_FWD:
       GC_MINOR_UPDATE(((struct PNFwd *)ptr)->ptr);
+      // a recorded object may have moved within the older generation
+      if (((struct PNFwd *)ptr)->fwd == POTION_FWD && IN_OLDER_REGION(((struct PNFwd *)ptr)->ptr))
+        potion_mark_minor(P, (const struct PNObject *)((struct PNFwd *)ptr)->ptr);
     goto done_2;
   }
 
@@ -467,6 +473,10 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     case PN_TFILE:
       GC_MINOR_UPDATE(((struct PNFile *)ptr)->path);
     break;
+    case PN_TERROR:
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TVTABLE:
       if (((struct PNVtable *)ptr)->parent)
         GC_MINOR_UPDATE(PN_VTABLE(((struct PNVtable *)ptr)->parent));
@@ -584,6 +594,10 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     case PN_TFILE:
       GC_MAJOR_UPDATE(((struct PNFile *)ptr)->path);
     break;
+    case PN_TERROR:
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TVTABLE:
       if (((struct PNVtable *)ptr)->parent)
         GC_MAJOR_UPDATE(PN_VTABLE(((struct PNVtable *)ptr)->parent));
-- 
2.43.0


From d52297c50f26d0564a00a777ce008302261751ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 043/109] fix: classes and their metaclasses are recorded for
 the garbage collector

---
 core/objmodel.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index b3c16ce..398bb93 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -191,27 +191,37 @@ PN potion_no_call(Potion *P, PN cl, PN self) {
 }
 
 void potion_add_metaclass(Potion *P, vPN(Vtable) vt) {
-  struct PNVtable *meta = vt->meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
-  meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
+  vPN(Vtable) meta;
+  // all allocations come first, each of them may move the others
   PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
+  volatile PN methods = potion_table_empty(P);
+  volatile PN ctor = PN_FUNC(potion_no_call, 0);
+  meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
   PN_FLEX_SIZE(P->vts)++;
   meta->name = PN_NIL;
   meta->parent = PN_TVTABLE;
-  meta->methods = (struct PNTable *)potion_table_empty(P);
-  meta->ctor = PN_FUNC(potion_no_call, 0);
+  meta->methods = (struct PNTable *)methods;
+  meta->ctor = ctor;
   PN_VTABLE(meta->type) = (PN)meta;
   meta->meta = NULL;
+  vt->meta = (struct PNVtable *)meta;
+  PN_TOUCH(vt);
   PN_TOUCH(P->vts);
 }
 /// create a non-user type, derived from self
 PN potion_type_new(Potion *P, PNType t, PN self) {
+  PNType parent = self ? ((struct PNVtable *)self)->type : 0;
+  volatile PN methods = potion_table_empty(P);
+  volatile PN ctor = PN_FUNC(potion_no_call, 0);
   vPN(Vtable) vt = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
   vt->type = t;
   vt->name = PN_NIL;
-  vt->parent = self ? ((struct PNVtable *)self)->type : 0;
-  vt->methods = (struct PNTable *)potion_table_empty(P);
-  vt->ctor = PN_FUNC(potion_no_call, 0);
+  vt->parent = parent;
+  vt->methods = (struct PNTable *)methods;
+  vt->ctor = ctor;
   PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(P->vts);
   potion_add_metaclass(P, vt);
   return (PN)vt;
 }
@@ -219,6 +229,7 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
 PN potion_type_new2(Potion *P, PNType t, PN self, PN name) {
   vPN(Vtable) vt = (vPN(Vtable))potion_type_new(P, t, self);
   vt->name = name;
+  PN_TOUCH(vt);
   return (PN)vt;
 }
 /// sets the default call method of the PNVtable
@@ -266,8 +277,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   if (!PN_IS_CLOSURE(cl))
     cl = ((struct PNVtable *)parent)->ctor;
   ((struct PNVtable *)self)->ctor = cl;
-
-  PN_TOUCH(P->vts);
+  PN_TOUCH(self);
   return self;
 }
 
@@ -288,7 +298,7 @@ PNType potion_class_type(Potion *P, PN class) {
 }
 
 PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
-  struct PNVtable *vt = (struct PNVtable *)self;
+  vPN(Vtable) vt = (struct PNVtable *)self;
 #ifdef POTION_JIT_TARGET
   // TODO: allocate assembled instructions together into single pages
   // since many times these tables are <100 bytes.
@@ -299,7 +309,8 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
-  return self;
+  PN_TOUCH(vt);
+  return (PN)vt;
 }
 
 static inline long potion_obj_find_ivar(Potion *P, PN self, PN ivar) {
@@ -651,7 +662,10 @@ static void potion_init_class_reference(Potion *P, PN name, PN vt) {
   potion_send(P->lobby, PN_def, name, vt);
   ((struct PNVtable *)vt)->name = name;
   sprintf(meta_str, "<metaclass: %s>", PN_STR_PTR(name));
-  ((struct PNVtable *)vt)->meta->name = potion_str(P, meta_str);
+  PN_TOUCH(vt);
+  PN meta_name = potion_str(P, meta_str);
+  ((struct PNVtable *)vt)->meta->name = meta_name;
+  PN_TOUCH(((struct PNVtable *)vt)->meta);
 }
 
 void potion_define_global(Potion *P, PN name, PN val) {
-- 
2.43.0


From 5dfe4087a83353be83f673fd6ced391a42585e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 044/109] fix: the names of functions and the results of map
 survive the collector

---
 core/gc.c       | 4 ++++
 core/objmodel.c | 2 ++
 core/table.c    | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index 046286f..8e9ef93 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -446,6 +446,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MINOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MINOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MINOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -497,6 +498,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     case PN_TPROTO:
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->source);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->sig);
+      GC_MINOR_UPDATE(((struct PNProto *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->stack);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->paths);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->locals);
@@ -556,6 +558,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -618,6 +621,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     case PN_TPROTO:
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->source);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->sig);
+      GC_MAJOR_UPDATE(((struct PNProto *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->stack);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->paths);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->locals);
diff --git a/core/objmodel.c b/core/objmodel.c
index 398bb93..bad6914 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -18,6 +18,7 @@ PN potion_closure_new(Potion *P, PN_F meth, PN sig, PN_SIZE extra) {
   PN_SIZE i; PN cr;
   vPN(Closure) c = PN_ALLOC_N(PN_TCLOSURE, struct PNClosure, extra * sizeof(PN));
   c->method = meth;
+  c->name = PN_NIL;
   if (PN_IS_TUPLE(sig) && PN_TUPLE_LEN(sig) > 0) {
     c->sig = sig;
     c->arity = potion_sig_arity(P, sig);
@@ -363,6 +364,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
       PN_PROTO(method)->name = key;
+      PN_TOUCH(method);
     }
     else
       cl = potion_closure_new(P, (PN_F)potion_getter_method, PN_NIL, 1);
diff --git a/core/table.c b/core/table.c
index 1389af1..9bc31fb 100644
--- a/core/table.c
+++ b/core/table.c
@@ -111,6 +111,7 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      PN_TOUCH(t2); // the next call may run the collector
     }
   PN_TOUCH(t2);
   return (PN)t2;
@@ -462,8 +463,8 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
+    PN_TOUCH(t); // the next call may run the collector
   });
-  PN_TOUCH(t);
   return (PN)t;
 }
 
-- 
2.43.0


From 02142f89bf02bf909d87f2b3c0fad3fb6fc06732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 045/109] fix: each of bytes follows them when the collector
 moves them

---
 core/string.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/string.c b/core/string.c
index 6b54060..02cbbe7 100644
--- a/core/string.c
+++ b/core/string.c
@@ -454,11 +454,12 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\param block=&
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
-  self = potion_fwd(self);
-  char *s = PN_STR_PTR(self);
-  int i;
-  for (i = 0; i < PN_STR_LEN(self); i++) {
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &s[i], 1));
+  vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
+  PN_SIZE i;
+  for (i = 0; i < s->len; i++) {
+    char c = s->chars[i]; // making the byte may move s, and the block may change it
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
+    s = (struct PNBytes *)potion_fwd(self);
   }
   return PN_NIL;
 }
-- 
2.43.0


From 08d91f99a6d900dae99979314ad0189d75281ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 046/109] fix: + concatenates strings in the bytecode VM and
 refuses other values in jitted code

---
 core/string.c | 1 +
 core/vm.c     | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 02cbbe7..3e3df34 100644
--- a/core/string.c
+++ b/core/string.c
@@ -285,6 +285,7 @@ static PN potion_str_bytes(Potion *P, PN cl, PN self) {
 ///\param x PNString
 ///\return concat PNString
 PN potion_str_add(Potion *P, PN cl, PN self, PN x) {
+  if (!PN_IS_STR(x)) return potion_type_error_want(P, "str", x, "String");
   char *s = malloc(PN_STR_LEN(self) + PN_STR_LEN(x));
   PN str;
   if (s == NULL) potion_allocation_error();
diff --git a/core/vm.c b/core/vm.c
index b9a671f..4c06ff4 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -765,7 +765,10 @@ reentry:
            reg[op.a] = potion_obj_get(P, PN_NIL, reg[op.a], reg[op.b]))
       CASE(SETPATH,
            potion_obj_set(P, PN_NIL, reg[op.a], reg[op.a + 1], reg[op.b]))
-      CASE(ADD, PN_VM_MATH3(add, +, saddl))
+      CASE(ADD,
+           if (PN_IS_STR(reg[op.a]) && PN_IS_STR(reg[op.b]))
+             reg[op.a] = potion_obj_add(P, reg[op.a], reg[op.b]);
+           else PN_VM_MATH3(add, +, saddl))
       CASE(SUB, PN_VM_MATH3(sub, -, ssubl))
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
       CASE(DIV, PN_VM_DIV(div))
-- 
2.43.0


From c90a366e32e3cac946a1e55dc2e8a32038a3379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 047/109] fix: slice of a string whose end lies before its
 start

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index 3e3df34..254cb0e 100644
--- a/core/string.c
+++ b/core/string.c
@@ -271,6 +271,7 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
   }
+  if (endoffset < startoffset) endoffset = startoffset;
   return potion_str2(P, str + startoffset, endoffset - startoffset);
 }
 
-- 
2.43.0


From 9ed86fb036820ca2e87f0bc775c4340c5be982fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 048/109] fix: slice of a string from a negative start to a
 positive end

---
 core/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 254cb0e..180a5c3 100644
--- a/core/string.c
+++ b/core/string.c
@@ -264,7 +264,7 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
   else {
     DBG_CHECK_INT(end);
   }
-  if (end < start) {
+  if ((long)start >= 0 && end < start) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(start+end, len, len)));
   } else {
-- 
2.43.0


From ea8417f15ed0452bba554937b3e6d10e9a378873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 049/109] fix: chars inside of a string are copied before an
 allocation may move it

---
 core/string.c | 64 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/core/string.c b/core/string.c
index 180a5c3..23aedd1 100644
--- a/core/string.c
+++ b/core/string.c
@@ -30,14 +30,31 @@ PN potion_lookup_str(Potion *P, const char *str) {
   return PN_NIL;
 }
 
+/// chars inside of a collectable object move with it when something is allocated.
+///\return a copy of those to be freed, or NULL
+static char *potion_chars_copy(Potion *P, const char *str, size_t len) {
+  struct PNMemory *M = P->mem;
+  char *copy;
+  if (!((void *)str >= (void *)M->birth_lo && (void *)str < (void *)M->birth_hi) &&
+      !((void *)str >= (void *)M->old_lo && (void *)str < (void *)M->old_hi))
+    return NULL;
+  copy = malloc(len + 1);
+  if (copy == NULL) potion_allocation_error();
+  PN_MEMCPY_N(copy, str, char, len);
+  copy[len] = '\0';
+  return copy;
+}
+
 PN potion_str(Potion *P, const char *str) {
   PN val = potion_lookup_str(P, str);
   if (val == PN_NIL) {
     size_t len = strlen(str);
+    char *copy = potion_chars_copy(P, str, len);
     vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
     s->len = (PN_SIZE)len;
-    PN_MEMCPY_N(s->chars, str, char, len);
+    PN_MEMCPY_N(s->chars, copy ? copy : str, char, len);
     s->chars[len] = '\0';
+    free(copy);
     potion_add_str(P, (PN)s);
     val = (PN)s;
   }
@@ -46,12 +63,14 @@ PN potion_str(Potion *P, const char *str) {
 
 PN potion_str2(Potion *P, char *str, size_t len) {
   PN exist = PN_NIL;
+  char *copy = potion_chars_copy(P, str, len);
 
   vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
   s->len = (PN_SIZE)len;
   assert(len < 0x10000000);
-  PN_MEMCPY_N(s->chars, str, char, len);
+  PN_MEMCPY_N(s->chars, copy ? copy : str, char, len);
   s->chars[len] = '\0';
+  free(copy);
 
   exist = potion_lookup_str(P, s->chars);
   if (exist == PN_NIL) {
@@ -65,9 +84,13 @@ PN potion_strcat(Potion *P, char *str, char *str2) {
   PN exist = PN_NIL;
   int len = strlen(str);
   int len2 = strlen(str2);
+  char *copy = potion_chars_copy(P, str, len);
+  char *copy2 = potion_chars_copy(P, str2, len2);
   vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len+len2+1);
-  PN_MEMCPY_N(s->chars, str,  char, len);
-  PN_MEMCPY_N(s->chars+len, str2, char, len2);
+  PN_MEMCPY_N(s->chars, copy ? copy : str,  char, len);
+  PN_MEMCPY_N(s->chars+len, copy2 ? copy2 : str2, char, len2);
+  free(copy);
+  free(copy2);
   s->chars[len+len2] = '\0';
   s->len = len+len2;
   exist = potion_lookup_str(P, s->chars);
@@ -82,15 +105,20 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   vPN(String) s;
   PN_SIZE len;
   va_list args;
+  char *buf; // the arguments may be chars of collectable strings
 
   va_start(args, format);
   len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
   va_end(args);
-  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  buf = malloc(len + 1);
+  if (buf == NULL) potion_allocation_error();
 
   va_start(args, format);
-  vsnprintf(s->chars, len + 1, format, args);
+  vsnprintf(buf, len + 1, format, args);
   va_end(args);
+  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  PN_MEMCPY_N(s->chars, buf, char, len + 1);
+  free(buf);
   s->len = len;
   PN exist = potion_lookup_str(P, s->chars);
   if (exist == PN_NIL) {
@@ -343,9 +371,11 @@ PN potion_byte_str(Potion *P, const char *str) {
 }
 
 PN potion_byte_str2(Potion *P, const char *str, size_t len) {
+  char *copy = potion_chars_copy(P, str, len);
   vPN(Bytes) s = (struct PNBytes *)potion_bytes(P, len);
-  PN_MEMCPY_N(s->chars, str, char, len);
+  PN_MEMCPY_N(s->chars, copy ? copy : str, char, len);
   s->chars[len] = '\0';
+  free(copy);
   return (PN)s;
 }
 
@@ -373,10 +403,16 @@ PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
   PN_SIZE len;
   va_list args;
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(bytes);
+  char *buf; // the arguments may be chars of collectable strings
 
   va_start(args, format);
   len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
   va_end(args);
+  buf = malloc(len + 1);
+  if (buf == NULL) potion_allocation_error();
+  va_start(args, format);
+  vsnprintf(buf, len + 1, format, args);
+  va_end(args);
 
   if (s->len + len + 1 > s->siz) {
     size_t siz = BYTES_ALIGN(((s->len + len) * BYTES_FACTOR) + 1);
@@ -384,9 +420,8 @@ PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
     s->siz = (PN_SIZE)siz;
   }
 
-  va_start(args, format);
-  vsnprintf(s->chars + s->len, len + 1, format, args);
-  va_end(args);
+  PN_MEMCPY_N(s->chars + s->len, buf, char, len + 1);
+  free(buf);
 
   s->len += len;
   return len;
@@ -402,7 +437,7 @@ void potion_bytes_obj_string(Potion *P, PN bytes, PN obj) {
 ///\return PNBytes
 PN potion_bytes_append(Potion *P, PN cl, PN self, PN str) {
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
-  PN fstr = potion_fwd(str);
+  volatile PN fstr = potion_fwd(str);
   PN_SIZE len = PN_STR_LEN(fstr);
 
   if (s->len + len + 1 > s->siz) {
@@ -429,12 +464,13 @@ static PN potion_bytes_length(Potion *P, PN cl, PN self) {
 /// "string" method.
 // TODO: ensure it's UTF-8 data
 PN potion_bytes_string(Potion *P, PN cl, PN self) {
-  PN exist = potion_lookup_str(P, PN_STR_PTR(self = potion_fwd(self)));
+  vPN(Bytes) b = (struct PNBytes *)potion_fwd(self);
+  PN exist = potion_lookup_str(P, b->chars);
   if (exist == PN_NIL) {
-    PN_SIZE len = PN_STR_LEN(self);
+    PN_SIZE len = b->len;
     vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
     s->len = len;
-    PN_MEMCPY_N(s->chars, PN_STR_PTR(self), char, len + 1);
+    PN_MEMCPY_N(s->chars, b->chars, char, len + 1);
     potion_add_str(P, (PN)s);
     exist = (PN)s;
   }
-- 
2.43.0


From 46a4a99cea491c95a8a66bc3cc6770b77d1313d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 050/109] fix: string of bytes which fill their buffer is not
 ended by a zero byte

---
 core/string.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/core/string.c b/core/string.c
index 23aedd1..41e5b57 100644
--- a/core/string.c
+++ b/core/string.c
@@ -465,16 +465,8 @@ static PN potion_bytes_length(Potion *P, PN cl, PN self) {
 // TODO: ensure it's UTF-8 data
 PN potion_bytes_string(Potion *P, PN cl, PN self) {
   vPN(Bytes) b = (struct PNBytes *)potion_fwd(self);
-  PN exist = potion_lookup_str(P, b->chars);
-  if (exist == PN_NIL) {
-    PN_SIZE len = b->len;
-    vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
-    s->len = len;
-    PN_MEMCPY_N(s->chars, b->chars, char, len + 1);
-    potion_add_str(P, (PN)s);
-    exist = (PN)s;
-  }
-  return exist;
+  // a full buffer has no room for the ending '\0'
+  return potion_str2(P, b->chars, b->len);
 }
 
 ///\memberof PNBytes
-- 
2.43.0


From 5cf7fc39b6618f5567946abe48fff3ec0118a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 051/109] fix: arguments parsed across a collection are not
 recorded in their call

---
 core/syntax.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/syntax.y b/core/syntax.y
index e625152..d8b472d 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -147,7 +147,8 @@ atom = e:value | e:closure | e:list | e:extern | e:call
 
 call = (n:name { v = PN_NIL; b = PN_NIL; } (v:value | v:list)? (b:block | b:closure)? |
        (v:value | v:list) { n = PN_AST(MSG, PN_NIL); b = PN_NIL; } b:block?)
-         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b) }
+         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b);
+           PN_TOUCH(n) }
 
 extern = "extern" - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
          { $$ = PN_AST2(MSG, PN_extern, PN_PUSH(PN_TUP(n), P->source)) }
-- 
2.43.0


From be786b2ebdf6c84daf7d08deb70f6044c43fd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 052/109] fix: a collection which has grown is another key of a
 table

---
 core/khash.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/khash.h b/core/khash.h
index b18b0b7..0f6fb8e 100644
--- a/core/khash.h
+++ b/core/khash.h
@@ -197,8 +197,9 @@ static inline khint_t __luaS_hash_string(const char *s)
 #define kh_pnstr_hash_equal(a, b) (strcmp(PN_STR_PTR(a), PN_STR_PTR(b)) == 0)
 #define kh_str_hash_func(key) __luaS_hash_string(key)
 #define kh_str_hash_equal(a, b) (strcmp(PN_STR_PTR(a), b) == 0)
-#define kh_pn_hash_func(key) (uint32_t)PN_UNIQ(key)
-#define kh_pn_hash_equal(a, b) (a == b)
+// a tuple, table or buffer which has grown is still the same key
+#define kh_pn_hash_func(key) ({ _PN _pnk = potion_fwd(key); (uint32_t)PN_UNIQ(_pnk); })
+#define kh_pn_hash_equal(a, b) (a == b || potion_fwd(a) == potion_fwd(b))
 
 static inline khint_t __ac_Wang_hash(khint_t key)
 {
-- 
2.43.0


From 27f94a7fa44a2a89336cee92cae34c6b4acfe55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 053/109] fix: a collection which has grown twice is not equal
 to itself

---
 core/vm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 4c06ff4..25b1a40 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -438,8 +438,7 @@ PN potion_vm_eq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(PN_DBL(a) == PN_DBL(b));
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a == potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) == potion_fwd(b));
   } else {
     return PN_BOOL(a == b);
   }
@@ -449,8 +448,7 @@ PN potion_vm_neq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(((struct PNDouble *)a)->value != ((struct PNDouble *)b)->value);
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a != potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) != potion_fwd(b));
   } else {
     return PN_BOOL(a != b);
   }
-- 
2.43.0


From ed0e0299d969b09bf89e15b89d2175575df4be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 054/109] fix: constant tuple indices below 0 or above 1023
 read another element

---
 core/compile.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 12e6173..3967dbb 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -393,11 +393,19 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
           assert(PN_VTYPE(key) == PN_TSOURCE && PN_PART(key) == AST_VALUE);
           PN k = PN_S(key, 0);
           if (PN_IS_INT(k)) {
-            if (PN_INT(k) >= ASM_TPL_IMM || PN_INT(k) < 0) {
+            if (PN_INT(k) < 0) { // from the end, as a(-1)
+              num = PN_PUT(f->values, k);
+              PN_ASM1(OP_SELF, reg+1);
+              PN_ASM2(OP_LOADK, reg+2, num);
+              PN_ASM2(OP_CALL, reg, reg+2);
+              PN_REG(f, reg + 2);
+              break;
+            }
+            if (PN_INT(k) >= ASM_TPL_IMM) {
               num = PN_PUT(f->values, k);
               PN_ASM2(OP_LOADK, reg+1, num);
               DBG_c("values %ld => %d\n", PN_INT(k), (int)num);
-              num = reg + 1;
+              num = (reg + 1) | ASM_TPL_IMM;
               PN_REG(f, reg + 1);
             } else {
               num = PN_INT(k);
-- 
2.43.0


From bc2fe1c4b14ec9097afa3d8165b01c23c5a9527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 055/109] fix: a captured variable as tuple index reads nil

---
 core/compile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 3967dbb..502622e 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -382,9 +382,14 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
         PN_ASM2(opcode, reg, num);
         if (PN_VTYPE(key) == PN_TSTRING) { // a[k] a variable
-          num = PN_PUT(f->locals, key);
-          DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
-          PN_ASM2(OP_GETLOCAL, reg+1, num);
+          num = PN_UPVAL(key);
+          opcode = OP_GETUPVAL;
+          if (num == PN_NONE) {
+            num = PN_PUT(f->locals, key);
+            DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
+            opcode = OP_GETLOCAL;
+          }
+          PN_ASM2(opcode, reg+1, num);
           num = reg+1;
           DBG_c("gettuple %d %d %s[%s]\n", reg, num, PN_STR_PTR(tpl), PN_STR_PTR(key));
           PN_ASM2(OP_GETTUPLE, reg, num | ASM_TPL_IMM);
-- 
2.43.0


From d5746d03332a419a19892f19e7a4a42f9a740c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 056/109] fix: a tuple which turns into a table is another key

---
 core/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/table.c b/core/table.c
index 9bc31fb..90c4b6e 100644
--- a/core/table.c
+++ b/core/table.c
@@ -48,6 +48,8 @@ PN potion_table_cast(Potion *P, PN self) {
   if (PN_IS_TUPLE(self)) {
     int ret; unsigned k;
     vPN(Table) t = PN_ALLOC(PN_TTABLE, struct PNTable);
+    self = potion_fwd(self);
+    t->uniq = ((struct PNObject *)self)->uniq; // it may be the key of a table
     PN_TUPLE_EACH(self, i, v, {
       k = kh_put(PN, t, PN_NUM(i), &ret);
       PN_QUICK_FWD(struct PNTable *, t);
-- 
2.43.0


From baa2b5ccf8e5dd9c00e1f8484fc53f85a0fcb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 057/109] fix: a closure promoted while its variables are
 captured loses them

Capturing a variable allocates, and may run the collector, which moves the
closure into the older generation. The references stored afterwards were not
recorded, so the next minor collection did not see them.
---
 core/vm-x86.c | 13 +++++++++++++
 core/vm.c     |  1 +
 2 files changed, 14 insertions(+)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 1017e88..8fe2a4a 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1063,10 +1063,16 @@ PN potion_f_protos(Potion *P, PN cl, PN i) {
   return (PN)c;
 }
 
+// making the refs of a closure may have run the collector, they may be younger
+void potion_closure_touch(Potion *P, PN cl) {
+  PN_TOUCH(cl);
+}
+
 /* OP_PROTO */
 void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE *pos, long lregs, long start, long regs) {
   PN_OP op = PN_OP_AT(f->asmb, *pos);
   PN proto = PN_TUPLE_AT(f->protos, op.b);
+  int refs = 0;
   X86_ARGO(start - 3, 0);
   X86_ARGO(start - 2, 1);
   X86_MOVQ(op.a, op.b);
@@ -1082,6 +1088,7 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
     if (opp.code == OP_GETUPVAL) {
       X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, lregs + opp.b) // mov upval %rdx
     } else if (opp.code == OP_GETLOCAL) {
+      refs = 1;
       X86_ARGO(start - 3, 0);
       X86_ARGO(regs + opp.b, 1);
       X86_PRE(); ASM(0xB8); ASMN(potion_ref); 	// mov &potion_ref %rax
@@ -1097,6 +1104,12 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
     if (n >= 0x80) { ASM(0x90); ASMI(n); }
     else { ASM(0x50); ASM(n); }
   });
+  if (refs) {
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(op.a, 1);
+    X86_PRE(); ASM(0xB8); ASMN(potion_closure_touch); // mov &potion_closure_touch %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
+  }
 }
 
 void potion_x86_class(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index 25b1a40..54b65ac 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -950,6 +950,7 @@ reentry:
             fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
           }
         });
+        PN_TOUCH(cl); // making the refs may have run the collector
         reg[areg] = (PN)cl;
       })
       CASE(CLASS, reg[op.a] = potion_vm_class(P, reg[op.b], reg[op.a]))
-- 
2.43.0


From c1ab14e4ac88a00444868bbb2661b25a376c4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 058/109] hook: collections at given allocations
 (POTION_GC_SCHEDULE)

---
 core/gc.c     | 31 +++++++++++++++++++++++++++++++
 core/potion.h |  7 +++++++
 2 files changed, 38 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 8e9ef93..cf510a4 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -307,6 +307,37 @@ void potion_garbagecollect(Potion *P, int sz, int full) {
   M->collecting = 0;
 }
 
+#ifdef POTION_GC_SCHEDULE
+/** Test instrumentation, called for each allocation: collects where the environment
+  variable POTION_GC_SCHEDULE says. "1024,300000,80000f" collects after 1024 allocated
+  bytes, after another 300000 and, fully, after another 80000. "@200000:1024" starts to
+  count with the first allocation of at least 200000 bytes. */
+void potion_gc_scheduled(Potion *P, int siz) {
+  static char *next = NULL;
+  static long left = -1, start = -1;
+  char *e;
+  // not while booting, the initial objects are not to be moved
+  if ((char *)P->mem->protect <= (char *)(P + 1) + 16 || P->mem->collecting) return;
+  if (next == NULL) {
+    if (!(next = getenv("POTION_GC_SCHEDULE"))) next = "";
+    if (*next == '@') {
+      start = strtol(next + 1, &next, 10);
+      if (*next == ':') next++;
+    }
+  }
+  if (siz < start || !*next) return;
+  start = -1;
+  if (left < 0)
+    left = strtol(next, &next, 10);
+  if ((left -= siz) >= 0) return;
+  left = -1;
+  e = next;
+  if (*next == 'f') next++;
+  if (*next == ',') next++;
+  potion_garbagecollect(P, siz, *e == 'f');
+}
+#endif
+
 PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
   int sz = 0;
 
diff --git a/core/potion.h b/core/potion.h
index ebdc3d0..f062cca 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -697,6 +697,10 @@ PN_SIZE potion_type_size(Potion *, const struct PNObject *);
 unsigned long potion_rand_int();
 double potion_rand_double();
 
+#ifdef POTION_GC_SCHEDULE
+void potion_gc_scheduled(Potion *P, int siz);
+#endif
+
 /// quick inline allocation
 static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   struct PNMemory *M = P->mem;
@@ -714,6 +718,9 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   assert(M->birth_storeptr);
   if (M->dirty || (char *)M->birth_cur + siz >= (char *)M->birth_storeptr - 2)
     potion_garbagecollect(P, siz + 4 * sizeof(double), 0);
+#ifdef POTION_GC_SCHEDULE
+  potion_gc_scheduled(P, siz + 4 * sizeof(double));
+#endif
   res = (struct PNObject *)M->birth_cur;
   res->vt = vt;
   res->uniq = (PNUniq)potion_rand_int();
-- 
2.43.0


From 1d87c98db117777abe997c31a92bfb36f7b8cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 059/109] fix: words in the code of the JIT are taken for
 objects by the collector

---
 core/gc.c     | 4 +++-
 core/vm-x86.c | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index cf510a4..fb8bb76 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -64,7 +64,9 @@ PN_SIZE potion_mark_array(Potion *P, register _PN *x, register long n, int type)
 
   while (n--) {
     v = *x;
-    if (IS_GC_PROTECTED(v) || IN_BIRTH_REGION(v) || IN_OLDER_REGION(v)) {
+    // objects are aligned; anything else is a number, or points into an object
+    if ((v & 7) == 0 &&
+        (IS_GC_PROTECTED(v) || IN_BIRTH_REGION(v) || IN_OLDER_REGION(v))) {
       v = potion_fwd(v);
       switch (type) {
         case 0: // count only
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 8fe2a4a..3ec9596 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -97,6 +97,10 @@ the x86 and x86_64 jit.
 #define TAG_LABEL4(tag)  ({ int* ptr = (int*)((*asmp)->ptr + tag); \
                             *ptr = (*asmp)->len - tag - 4; })
 
+// The collector takes words on the stack for pointers, and a type for an object.
+// Keep types in the code where no object may start. n: from here to the type
+#define ASM_UNALIGN(n) while (((*asmp)->len + (n)) % 8 == 0) ASM(0x90)
+
 // TODO refactor to use named TAGs
 // TODO optimize into seperate int and dbl variants
 // TODO check num type for the dbl case
@@ -505,6 +509,7 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   PN_HAS_UPVALS(up);
   X86_MOV_RBP(0x8B, regs + op.b); 		// mov %ebp(B) %eax
   if (up) { // upvals need to be deref'd
+    ASM_UNALIGN(15);
     ASMS("\xF6\xC0\x01" 		// test 0x1 %al
 	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 	// test REFMASK %eax
@@ -535,6 +540,7 @@ void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
     TAG_PREP(tag_a1); ASM(0x75); ASM(0); 		// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
     TAG_PREP(tag_a2); ASM(0x74); ASM(0); 		// jz a
+    ASM_UNALIGN(2);
     ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
     TAG_PREP(tag_a3); ASM(0x75); ASM(0); 		// jnz a
     X86_ARGO(regs + PN_TUPLE_LEN(f->locals) + PN_TUPLE_LEN(f->upvals), 0); // P
@@ -966,6 +972,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   X86_PRE(); ASM(0x83); ASM(0xE0); ASM(0xF8);		// and ~PRIMITIVE %rax
 
   // if a class, pull out the constructor
+  ASM_UNALIGN(2);
   ASM(0x81); ASM(0x38); ASMI(PN_TVTABLE);		// cmpq VTABLE (%eax)  # 0x25000a
   TAG_PREP(tag_c);
   ASM(0x75); ASM(X86C(13,20, 1, start-3));		// jnz [c]
@@ -982,6 +989,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 
   // check type of the closure
   TAG_LABEL(tag_c);
+  ASM_UNALIGN(2);
   ASM(0x81); ASM(0x38); ASMI(PN_TCLOSURE);	     // c: cmpq CLOSURE (%eax) # 0x250005
   TAG_PREP(tag_d);
   ASM(0x74); ASM(X86C(22,30, 2,op.a));			// jz [d]
-- 
2.43.0


From 00b1ab97e13840b485a43942feb51c8944dae21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 060/109] fix: characters on the stack are taken for pointers
 by the collector

---
 core/file.c   | 3 ++-
 core/number.c | 6 +++---
 lib/buffile.c | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/file.c b/core/file.c
index 700bfb7..ef3b17c 100644
--- a/core/file.c
+++ b/core/file.c
@@ -99,6 +99,7 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
   n = PN_INT(n);
   char buf[n];
+  memset(buf, 0, n); // the collector takes words on the stack for pointers
   int r = read(self->fd, buf, n);
   if (r == -1) {
     return potion_io_error(P, "read");
@@ -181,7 +182,7 @@ PN potion_file_string(Potion *P, PN cl, pn_file self) {
   global "read" method, read next line from stdin via fgets()
   \return PNString or or PN_NIL */
 PN potion_lobby_read(Potion *P, PN cl, PN self) {
-  char line[1024];
+  char line[1024] = "";
   if (fgets(line, 1024, stdin) != NULL)
     return potion_str(P, line);
   return PN_NIL;
diff --git a/core/number.c b/core/number.c
index b9fa581..702467d 100644
--- a/core/number.c
+++ b/core/number.c
@@ -205,7 +205,7 @@ static PN potion_int_bitr(Potion *P, PN cl, PN self, PN num) {
   "string" method, stringify
  \return PNString */
 PN potion_int_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[40] = ""; // all of it: the collector takes words on the stack for pointers
   sprintf(ints, "%ld", PN_INT(self));
   return potion_str(P, ints);
 }
@@ -259,7 +259,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[DBL_MAX_10_EXP + 24];
+  char ints[DBL_MAX_10_EXP + 24] = "";
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -270,7 +270,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[DBL_MAX_10_EXP + 24];
+  char ints[DBL_MAX_10_EXP + 24] = "";
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
diff --git a/lib/buffile.c b/lib/buffile.c
index a596140..3abf5fb 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -140,7 +140,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
-  char line[1024];
+  char line[1024] = "";
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
   return PN_NIL;
-- 
2.43.0


From 8027f19c89cca5be90f7ca6e2a893a20b7a68498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 061/109] fix: an empty index crashes the compiler

---
 core/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 502622e..a3c0943 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -374,6 +374,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         // locals or upvals. locals alone broke nbody
         PN_SIZE num = PN_UPVAL(tpl);
         u8 opcode =  OP_GETUPVAL;
+        if (PN_S(a->a[1], 0) == PN_NIL)
+          potion_syntax_error(P, t, "Missing index");
         PN key = PN_S(PN_TUPLE_AT(a->a[1]->a[0], 0), 0);
         if (num == PN_NONE) {
           num = PN_PUT(f->locals, tpl);
-- 
2.43.0


From f550e39cca6798b0a40bb18d9da5669c3fe871af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 062/109] fix: the collector drops the outermost words of a
 continuation's stack

---
 core/callcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/callcc.c b/core/callcc.c
index 564ef22..f9980d4 100644
--- a/core/callcc.c
+++ b/core/callcc.c
@@ -125,7 +125,7 @@ PN potion_callcc(Potion *P, PN cl, PN self) {
     return 0;
   }
   cc = PN_ALLOC_N(PN_TCONT, struct PNCont, sizeof(PN) * (n + 3 + PN_SAVED_REGS));
-  cc->len = n + 3;
+  cc->len = n + 3 + PN_SAVED_REGS;
   cc->stack[0] = (PN)sp1;
   cc->stack[1] = (PN)sp2;
   cc->stack[2] = (PN)sp3;
-- 
2.43.0


From f699fa37492eea52189bbc334f0618d019ac4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 063/109] fix: type numbers on the stack saved by a
 continuation are taken for objects by the collector

---
 core/gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index fb8bb76..3b9a72a 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -54,7 +54,7 @@ PN_SIZE potion_stack_len(Potion *P, _PN **p) {
   return esp < c ? c - esp : esp - c + 1;
 }
 
-#define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || PN_TYPECHECK(PN_VTYPE(v))))
+#define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || (PN_TYPECHECK(PN_VTYPE(v)) && ((struct PNObject *)v)->uniq)))
 
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
 PN_SIZE potion_mark_array(Potion *P, register _PN *x, register long n, int type) {
-- 
2.43.0


From e2ace6216a7aef53db0ef35db196408f99652f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 064/109] fix: writing bytes or an integer to a file takes a
 tagged number for a length or a value

---
 core/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/file.c b/core/file.c
index ef3b17c..866277d 100644
--- a/core/file.c
+++ b/core/file.c
@@ -124,7 +124,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
     else if (PN_IS_INT(obj)) {
-      tmp.l = PN_NUM(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
+      tmp.l = PN_INT(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
     }
     else if (PN_IS_BOOL(obj)) {
       tmp.c = (obj == PN_TRUE) ? 1 : 0; len = 1; ptr = (char *)&tmp.c;
@@ -135,7 +135,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = potion_send(obj, PN_STR("length")); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  len = PN_INT(potion_send(obj, PN_STR("length"))); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
-- 
2.43.0


From ab56b430b339a30a13b2d8209c5da26d68b19ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 065/109] fix: ord of bytes takes an index that was not passed,
 and is negative beyond 127

---
 core/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/string.c b/core/string.c
index 41e5b57..a50fd1e 100644
--- a/core/string.c
+++ b/core/string.c
@@ -356,7 +356,7 @@ static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
   else {
     long len = potion_cp_strlen_utf8(str);
     if (len == PN_STR_LEN(self) && PN_INT(index) >= 0 && PN_INT(index) < len) {
-      return PN_NUM(str[PN_INT(index)]);
+      return PN_NUM((unsigned char)str[PN_INT(index)]);
     }
     else {
     slow:
@@ -550,6 +550,6 @@ void potion_str_init(Potion *P) {
   potion_method(byt_vt, "print", potion_bytes_print, 0);
   potion_method(byt_vt, "string", potion_bytes_string, 0);
   potion_method(byt_vt, "clone", potion_bytes_clone, 0);
-  potion_method(byt_vt, "ord", potion_str_ord, 0);
+  potion_method(byt_vt, "ord", potion_str_ord, "|index=N");
   potion_method(byt_vt, "each", potion_bytes_each, "block=&");
 }
-- 
2.43.0


From 1fb6e0519f0126822af70260fbfcc2abb5ca3916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 066/109] fix: the name of a buffered file is lost to the
 collector

---
 lib/buffile.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 3abf5fb..31147bf 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -8,6 +8,7 @@
 #define __USE_XOPEN2K8
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 //#include <errno.h>
 #include "potion.h"
@@ -29,7 +30,7 @@ struct PNBufFile {
   PN_OBJECT_HEADER;
   PN_SIZE siz;
   FILE * file;
-  PN     path;
+  char * path; ///< malloced copy of the name or NULL. The GC does not look into data
 };
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
@@ -47,7 +48,7 @@ PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = path;
+  self->path = strdup(PN_STR_PTR(path));
   return (PN)self;
 }
 /**\memberof Lobby
@@ -61,7 +62,7 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   self->file = tmpfile(); // CID 32134
   if (!self->file)
     return potion_io_error(P, "tmpfile");
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 /**\memberof PNBufFile
@@ -76,7 +77,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
     return potion_io_error(P, "fdopen");
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 
@@ -97,7 +98,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = stream->path;
+  self->path = stream->path ? strdup(stream->path) : NULL;
   return (PN)self;
 }
 
@@ -118,7 +119,7 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 #endif
@@ -241,7 +242,7 @@ PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
   if (fileno(self->file) != -1) fclose(self->file);
-  if (!self->path || unlink(PN_STR_PTR(self->path))) {
+  if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
   return PN_TRUE;
@@ -279,8 +280,8 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   int fd = fileno(self->file), rv;
   char *buf;
   PN str;
-  if (self->path != PN_NIL && fd != -1) {
-    rv = asprintf(&buf, "<buffile %s fd: %d>", PN_STR_PTR(self->path), fd);
+  if (self->path && fd != -1) {
+    rv = asprintf(&buf, "<buffile %s fd: %d>", self->path, fd);
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-- 
2.43.0


From 80934263ca6a071dc97be4ef6aeecf853c4ae7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 067/109] fix: the handle of a database and the callback of
 exec are lost to the collector

---
 lib/database.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index 7ae9920..eb6f80b 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -18,17 +18,13 @@ struct PNDatabase {
   sqlite3 *db;
 };
 
+/// on the C stack, where the GC finds the closure
 struct PNCallback {
-  PN_OBJECT_HEADER;
-  PN_SIZE siz;
   Potion *P;
   PN     cb;
 };
 
-const int CallbackSize = sizeof(struct PNCallback) - sizeof(struct PNData);
-
 PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path);
-PN potion_callback(Potion *P, PN closure);
 
 static int
 potion_database_callback(void *callback, int argc, char **argv, char **azColName) {
@@ -72,13 +68,13 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
   char *zErrMsg = 0;
   int rc;
   struct PNDatabase *db = (struct PNDatabase *)self;
-  struct PNCallback *cb = (struct PNCallback*)potion_callback(P, callback);
+  struct PNCallback cb = { P, callback };
   if (db->db == NULL) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
   rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, cb, &zErrMsg);
+                    potion_database_callback, &cb, &zErrMsg);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
@@ -164,16 +160,9 @@ PN potion_sqlite_isopen(Potion *P, PN cl, PN self) {
   return db->db ? PN_TRUE : PN_FALSE;
 }
 
-PN potion_callback(Potion *P, PN closure) {
-  struct PNCallback *cb = (struct PNCallback *)potion_data_alloc(P, CallbackSize);
-  cb->siz = CallbackSize; // To help out GC
-  cb->P = P;
-  cb->cb = closure;
-  return (PN)cb;
-}
-
 void Potion_Init_database(Potion *P) {
-  PN db_vt = potion_class(P, 0, 0, 0);
+  // one ivar for sqlite3 *db, so that the GC copies it
+  PN db_vt = potion_class(P, 0, 0, PN_TUP(PN_STR("sqlite3 *")));
   PN_TDATABASE = potion_class_type(P, db_vt);
   potion_define_global(P, PN_STR("Database"), db_vt);
 
-- 
2.43.0


From a2977722fc61524ba581c7f494f5b4a5f05422d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 068/109] fix: -Ldirectory is not recognized

---
 core/potion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 42edbcf..c0150f7 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -288,7 +288,7 @@ int main(int argc, char *argv[]) {
     if (!strcmp(argv[i], "--")) { i++; break; }
     if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "--inspect")) {
       P->flags |= DEBUG_INSPECT; continue; }
-    if (!strcmp(argv[i], "-L")) {
+    if (argv[i][0] == '-' && argv[i][1] == 'L') {
 #ifdef SANDBOX
     potion_fatal("-L disabled in SANDBOX");
 #else
@@ -296,7 +296,7 @@ int main(int argc, char *argv[]) {
       if (*extra_path)
 	potion_loader_add(P, potion_str(P, extra_path));
       else {
-	if (i == argc) {
+	if (i + 1 == argc) {
 	    fprintf(stderr, "-L missing directory\n");
 	    goto END;
 	}
-- 
2.43.0


From 7f33b4e0f9bb0f470e26779eacd25b1dd67b30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 069/109] fix: libraries in a directory with a dot in its name
 are not loaded

---
 core/load.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/load.c b/core/load.c
index 6bb9116..20c6f67 100644
--- a/core/load.c
+++ b/core/load.c
@@ -53,19 +53,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
 }
 
 static char *potion_initializer_name(Potion *P, const char *filename, PN_SIZE len) {
-  PN_SIZE ext_name_len = 0;
-  char *allocated_str, *ext_name, *func_name;
-  while (*(filename + ++ext_name_len) != '.' && ext_name_len <= len);
-  allocated_str = ext_name = malloc(ext_name_len + 1);
-  if (allocated_str == NULL) potion_allocation_error();
-  strncpy(ext_name, filename, ext_name_len);
-  ext_name[ext_name_len] = '\0';
-  ext_name += ext_name_len;
-  while (*--ext_name != '/' && ext_name >= allocated_str);
-  ext_name++;
-  if (asprintf(&func_name, "Potion_Init_%s", ext_name) == -1)
+  const char *name = filename + len;
+  char *func_name;
+  while (name > filename && name[-1] != '/') name--;
+  if (asprintf(&func_name, "Potion_Init_%.*s", (int)strcspn(name, "."), name) == -1)
     potion_allocation_error();
-  free(allocated_str);
   return func_name;
 }
 
-- 
2.43.0


From 3e2a3fd20ef1f597ea82466b7507b92caa3a4dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 070/109] fix: load changes the name it is given, and does not
 find dir/name/name with an extension

---
 core/load.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/core/load.c b/core/load.c
index 20c6f67..5b3b915 100644
--- a/core/load.c
+++ b/core/load.c
@@ -118,14 +118,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
     PN_SIZE prefix_len = PN_STR_LEN(prefix);
     char dirname[prefix_len + 1 + str_len + 1];
     char *str_pos = dirname + prefix_len + 1;
-    char *dot;
     const char *ext;
     memcpy(str_pos, str, str_len);
-    dot = memchr(str, '.', str_len);
-    if (dot == NULL)
-      dirname[sizeof(dirname) - 1] = '\0';
-    else
-      *dot = '\0';
+    str_pos[str_len] = '\0';
     memcpy(dirname, PN_STR_PTR(prefix), prefix_len);
     dirname[prefix_len] = '/';
     if (stat(dirname, &st) == 0 && S_ISREG(st.st_mode)) {
@@ -142,9 +137,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
         file++;
       if (asprintf(&r, "%s/%s", dirname, file) == -1) potion_allocation_error();
       if (stat(r, &st) != 0 || !S_ISREG(st.st_mode)) {
-        int r_len = prefix_len + 1 + str_len * 2 + 1;
+        int r_len = strlen(r);
         if ((ext = find_extension(r)) == NULL) { free(r); r = NULL; continue; }
-        r = realloc(r, r_len + strlen(ext));
+        r = realloc(r, r_len + strlen(ext) + 1);
         if (r == NULL) potion_allocation_error();
         strcpy(r + r_len, ext);
       }
-- 
2.43.0


From 9beb785fb779a1e751153e5e6eb45498638939c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:38 +0000
Subject: [PATCH 071/109] fix: freopen keeps the name of the file it has
 closed, and unlink removes that one

---
 lib/buffile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 31147bf..00958f2 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -98,7 +98,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = stream->path ? strdup(stream->path) : NULL;
+  self->path = strdup(PN_STR_PTR(path));
   return (PN)self;
 }
 
-- 
2.43.0


From 0e405be95c7084cdbb9f2e759271b033302620cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 072/109] fix: write of a buffered file takes the number of
 characters for the number of bytes

---
 lib/buffile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 00958f2..b24e46b 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -165,16 +165,16 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
-  if (!size && (!nitems || PN_INT(nitems) == 1)) {
-    size = potion_send(buf, PN_STR("length"));
-    nitems = PN_NUM(1);
-  }
   switch (PN_TYPE(buf)) {
     case PN_TSTRING:
     case PN_TBYTES: break;
     case PN_NIL:    return PN_NIL;
     default: return potion_type_error(P, buf);
   }
+  if (!size && (!nitems || PN_INT(nitems) == 1)) {
+    size = PN_NUM(PN_STR_LEN(buf)); // in bytes
+    nitems = PN_NUM(1);
+  }
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
-- 
2.43.0


From 768dd712346ca15a8162bf2a4ef44981d1ef5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 073/109] fix: bytes which have grown have no length for a
 buffered file

---
 lib/buffile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index b24e46b..6b9ad10 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -114,6 +114,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
 PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  buf = potion_fwd(buf);
   if (!(file = fmemopen(PN_STR_PTR(buf), PN_STR_LEN(buf), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fmemopen");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -172,7 +173,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
     default: return potion_type_error(P, buf);
   }
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
-    size = PN_NUM(PN_STR_LEN(buf)); // in bytes
+    size = PN_NUM(PN_STR_LEN(potion_fwd(buf))); // in bytes
     nitems = PN_NUM(1);
   }
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
-- 
2.43.0


From 9f1eb009d83749081e43ee56675c7c03a889ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 074/109] fix: the query of exec is moved by collections in its
 callback

---
 lib/database.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index eb6f80b..16b2834 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -7,6 +7,8 @@
 #include "potion.h"
 #include <sqlite3.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #define PN_ALLOC(V,T)        (T * volatile)potion_gc_alloc(P, V, sizeof(T))
 
@@ -65,7 +67,7 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
   if (!PN_IS_STR(query)) {
     return PN_NIL;
   }
-  char *zErrMsg = 0;
+  char *zErrMsg = 0, *q;
   int rc;
   struct PNDatabase *db = (struct PNDatabase *)self;
   struct PNCallback cb = { P, callback };
@@ -73,8 +75,10 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
-  rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, &cb, &zErrMsg);
+  // the callback may move the query
+  q = strdup(PN_STR_PTR(query));
+  rc = sqlite3_exec(db->db, q, potion_database_callback, &cb, &zErrMsg);
+  free(q);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
-- 
2.43.0


From 4f0b0584fa2bc8006f02d7c647fb4178d061ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:54 +0000
Subject: [PATCH 075/109] fix: rand of a number is always 0

---
 core/mt19937ar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mt19937ar.c b/core/mt19937ar.c
index 516fa78..eb8bbb4 100644
--- a/core/mt19937ar.c
+++ b/core/mt19937ar.c
@@ -180,5 +180,5 @@ PN potion_rand(Potion *P, PN cl, PN self) {
  \return PNDouble in [0.0,0.1]-interval
  \sa potion_rand for long, potion_srand. */
 PN potion_num_rand(Potion *P, PN cl, PN self) {
-  return PN_NUM(potion_rand_double());
+  return potion_double(P, potion_rand_double());
 }
-- 
2.43.0


From 7ecfab6cd0114bcf92a730dbeac6e5c348a0bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 076/109] fix: srand repeats the identities of objects

---
 core/internal.c  | 2 +-
 core/mt19937ar.c | 8 ++++++++
 core/potion.h    | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index 8eca187..b59b7b9 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -120,7 +120,7 @@ static void potion_init(Potion *P) {
 Potion *potion_create(void *sp) {
   Potion *P = potion_gc_boot(sp); //zeros P
   P->vt = PN_TSTATE;
-  P->uniq = (PNUniq)potion_rand_int();
+  P->uniq = potion_uniq();
   PN_FLEX_NEW(P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
   PN_FLEX_SIZE(P->vts) = PN_TYPE_ID(PN_TUSER) + 1;
   P->prec = PN_PREC;
diff --git a/core/mt19937ar.c b/core/mt19937ar.c
index eb8bbb4..9993639 100644
--- a/core/mt19937ar.c
+++ b/core/mt19937ar.c
@@ -155,6 +155,14 @@ double potion_rand_double(void) {
   unsigned long a=potion_rand_int()>>5, b=potion_rand_int()>>6; 
   return(a*67108864.0+b)*(1.0/9007199254740992.0); 
 } 
+/** the identity of a new object: never 0, and not repeated by srand */
+PNUniq potion_uniq(void) {
+  static PNUniq uniq = 0;
+  uniq += 0x9e3779b9U;
+  if (uniq == 0) uniq += 0x9e3779b9U;
+  return uniq;
+}
+
 /**\memberof Lobby
   "srand" initialize random seed
  \param seed PNInteger
diff --git a/core/potion.h b/core/potion.h
index f062cca..e4bd181 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -696,6 +696,7 @@ void potion_garbagecollect(Potion *, int, int);
 PN_SIZE potion_type_size(Potion *, const struct PNObject *);
 unsigned long potion_rand_int();
 double potion_rand_double();
+PNUniq potion_uniq(void);
 
 #ifdef POTION_GC_SCHEDULE
 void potion_gc_scheduled(Potion *P, int siz);
@@ -723,7 +724,7 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
 #endif
   res = (struct PNObject *)M->birth_cur;
   res->vt = vt;
-  res->uniq = (PNUniq)potion_rand_int();
+  res->uniq = potion_uniq();
   M->birth_cur = (char *)res + siz;
   return (void *)res;
 }
-- 
2.43.0


From 2c6cafdf3b362e111561268fc30d6220cb70d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:06 +0000
Subject: [PATCH 077/109] fix: abs of the smallest integer is negative

---
 core/number.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/number.c b/core/number.c
index 702467d..3235b4d 100644
--- a/core/number.c
+++ b/core/number.c
@@ -385,6 +385,7 @@ static PN potion_num_abs(Potion *P, PN cl, PN self) {
     else
       return self;
   }
+  if (!PN_FITS_INT(labs(PN_INT(self)))) return potion_double(P, -(double)PN_INT(self));
   return PN_NUM(labs(PN_INT(self)));
 }
 /**\memberof PNInteger
@@ -392,6 +393,7 @@ static PN potion_num_abs(Potion *P, PN cl, PN self) {
  \return PNInteger */
 static PN potion_int_abs(Potion *P, PN cl, PN self) {
   PN_CHECK_INT(self);
+  if (!PN_FITS_INT(labs(PN_INT(self)))) return potion_double(P, -(double)PN_INT(self));
   return PN_NUM(labs(PN_INT(self)));
 }
 /**\memberof PNDouble
-- 
2.43.0


From ef381f936a1d40d696e8ff809b33bcad17f109ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 078/109] fix: the code after -e is also an argument and an
 option

---
 core/potion.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index c0150f7..c8be905 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -368,10 +368,10 @@ int main(int argc, char *argv[]) {
     if (argv[i][0] == '-') {
       if (argv[i][1] == 'e') {
         char *arg;
-        if (strlen(argv[i]) == 2) {
-          arg = argv[i+1];
-        } else if (i <= argc) {
+        if (argv[i][2]) {
           arg = argv[i]+2;
+        } else if (i + 1 < argc) {
+          arg = argv[++i];
         } else { // or go into interactive mode?
           potion_fatal("Missing argument for -e");
           goto END;
-- 
2.43.0


From 7e8ffe502bfd52d24b318940ab8f0ac8eff09e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 079/109] fix: only the last of several -M options loads its
 module

---
 core/potion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.c b/core/potion.c
index c8be905..fc34d01 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -252,7 +252,7 @@ done:
 
 char * addmodule(Potion *P, char *result, char *prefix, char *name) {
   char *args = strchr(name, '=');
-  PN out = potion_bytes(P, 0);
+  PN out = potion_byte_str(P, result ? result : "");
   if (args) *args++ = '\0';
   if (prefix) {
     pn_printf(P, out, "load \"%s/%s\"\n", prefix, name);
-- 
2.43.0


From e4ee85c417464827fbcb36241d9c7f2a1ed336e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 080/109] fix: an unknown compile target writes to a random
 file name

---
 core/potion.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/potion.c b/core/potion.c
index fc34d01..2359a0e 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -166,7 +166,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     potion_fatal("fatal: stack corruption (exec > MAX_EXEC)\n");
 
   if (exec == EXEC_COMPILE) { // needs an inputfile. TODO: -e"" -ofile
-    char outpath[strlen(filename) + 5];
+    char outpath[strlen(filename) + (compile ? strlen(compile) : 0) + 5];
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
@@ -184,6 +184,8 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
       sprintf(outpath, "%s.c", filename); // .pn.c
     else if (!strcmp(compile, "exe"))
       sprintf(outpath, "%s.out", filename); // TODO: strip ext
+    else
+      sprintf(outpath, "%s.%s", filename, compile);
     opts = c_opts
       ? pn_printf(P, potion_bytes(P,0), "%s,-o%s", c_opts, outpath)
       : potion_strcat(P, "-o", outpath);
-- 
2.43.0


From f62b45ccc5aa576bff8bb572c3824825fe4a8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 081/109] fix: greg writes past its buffer for a class with
 bytes above 127

---
 tools/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/compile.c b/tools/compile.c
index 5ade17a..732c62a 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -136,7 +136,7 @@ static char *yyqq(char* s) {
     } else if (*s == 92) { // '\'
       *d++ = '\\'; *d++ = *s++;
     } else if (*(signed char *)s<32) {
-      sprintf(d,"\\%03o", *s); // octal \000
+      sprintf(d,"\\%03o", (unsigned char)*s); // octal \000
       d += 4; s++;
     } else {
       *d++ = *s++;
-- 
2.43.0


From 5dcd8c630a56c116b26f1f5cc4d17d0d0f707904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 082/109] fix: escaped characters in greg's classes are taken
 for ranges or the end

---
 tools/compile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index 732c62a..4e5c0b6 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -89,7 +89,7 @@ static int readChar(unsigned char **cp)
                 {
                   c -= '0';
                   if (oigit(*cclass)) c= (c << 3) + *cclass++ - '0';
-                  if (oigit(*cclass)) c= (c << 3) + *cclass++ - '0';
+                  if (oigit(*cclass) && c < 32) c= (c << 3) + *cclass++ - '0';
                 }
               break;
             }
@@ -165,9 +165,11 @@ static char *makeCharClass(unsigned char *cclass)
       memset(bits, 0, 32);
       set= charClassSet;
     }
-  while (0 != (c= readChar(&cclass)))
+  while (*cclass)
     {
-      if ('-' == c && *cclass && prev >= 0)
+      int escaped= ('\\' == *cclass);
+      c= readChar(&cclass);
+      if ('-' == c && !escaped && *cclass && prev >= 0)
 	{
 	  for (c= readChar(&cclass); prev <= c; ++prev)
 	    set(bits, prev);
-- 
2.43.0


From 9f9337b4ce067faa625e246512cdb8c4e5be3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 083/109] fix: a variable of a greg rule without actions is
 stored past its frame

---
 tools/compile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/compile.c b/tools/compile.c
index 4e5c0b6..a88c257 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -436,7 +436,13 @@ static void Rule_compile_c2(Node *node)
       fprintf(output, "\nYY_RULE(int) yy_%s(GREG *G)\n{", node->rule.name);
       if (!safe) save(0);
       if (node->rule.variables)
-	fprintf(output, "  yyDo(G, yyPush, %d, 0, \"yyPush\");\n", countVariables(node->rule.variables));
+	{
+	  Node *n;
+	  int offset= 0;
+	  for (n= node->rule.variables;  n;  n= n->variable.next) /* as in defineVariables */
+	    n->variable.offset= --offset;
+	  fprintf(output, "  yyDo(G, yyPush, %d, 0, \"yyPush\");\n", countVariables(node->rule.variables));
+	}
       fprintf(output, "  yyprintfv((stderr, \"%%s\\n\", \"%s\"));\n", node->rule.name);
       Node_compile_c_ko(node->rule.expression, ko);
       if (!memcmp("utf",node->rule.name,3)
-- 
2.43.0


From 88df62957655f59cf9994d17aa3a2ec30fa6c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 084/109] fix: greg passes literals to the C compiler with
 other meanings or not at all

---
 tools/compile.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index a88c257..8d68dd7 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -146,6 +146,24 @@ static char *yyqq(char* s) {
   return dst;
 }
 
+/* the characters of a literal, as the contents of a C string */
+static char *makeCString(unsigned char *text, int *len)
+{
+  char *string= (char *)malloc(4 * strlen((char *)text) + 1);
+  char *ptr= string;
+
+  for (*len= 0;  *text;  ++*len)
+    {
+      int c= readChar(&text);
+      if (c < 32 || c > 126 || strchr("\"'?\\", c))
+	ptr += sprintf(ptr, "\\%03o", c);
+      else
+	*ptr++ = c;
+    }
+  *ptr= 0;
+  return string;
+}
+
 static char *makeCharClass(unsigned char *cclass)
 {
   unsigned char	 bits[32];
@@ -226,19 +244,13 @@ static void Node_compile_c_ko(Node *node, int ko)
     case String:
       {
 	pindent();
-	int len= strlen(node->string.value);
+	int len;
+	char *string= makeCString((unsigned char *)node->string.value, &len);
 	if (1 == len)
-	  {
-	    if ('\'' == node->string.value[0])
-	      fprintf(output, "  if (!yymatchChar(G, '\\'')) goto l%d;\n", ko);
-	    else
-	      fprintf(output, "  if (!yymatchChar(G, '%s')) goto l%d;\n", node->string.value, ko);
-	  }
+	  fprintf(output, "  if (!yymatchChar(G, (unsigned char)'%s')) goto l%d;\n", string, ko);
 	else
-	  if (2 == len && '\\' == node->string.value[0])
-	    fprintf(output, "  if (!yymatchChar(G, '%s')) goto l%d;\n", node->string.value, ko);
-	  else
-	    fprintf(output, "  if (!yymatchString(G, \"%s\")) goto l%d;\n", node->string.value, ko);
+	  fprintf(output, "  if (!yymatchString(G, \"%s\")) goto l%d;\n", string, ko);
+	free(string);
       }
       break;
 
-- 
2.43.0


From 41d60b55e4d713b4a05885cf48715ff56b5b5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 085/109] fix: interpreters in one process share their names,
 files and load path

---
 core/internal.c  |  9 +------
 core/load.c      |  2 +-
 core/mt19937ar.c |  9 +++----
 core/potion.h    | 70 +++++++++++++++++++++++++++++++++++++++---------
 core/vm-x86.c    |  2 +-
 core/vm.c        |  6 ++---
 6 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index b59b7b9..7d069db 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -11,16 +11,9 @@
 #include "table.h"
 #include "gc.h"
 
-PN PN_allocate, PN_break, PN_call, PN_class, PN_compile, PN_continue, PN_def,
-   PN_delegated, PN_else, PN_elsif, PN_if, PN_lookup, PN_loop, PN_print,
-   PN_return, PN_self, PN_string, PN_while;
-PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
-PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
-PN PN_extern, PN_integer;
 #ifdef P2
 PN PN_use, PN_no;
 #endif
-PN pn_filenames;
 
 PN potion_allocate(Potion *P, PN cl, PN self, PN len) {
   struct PNData *obj = PN_ALLOC_N(PN_TUSER, struct PNData, PN_INT(len));
@@ -120,7 +113,7 @@ static void potion_init(Potion *P) {
 Potion *potion_create(void *sp) {
   Potion *P = potion_gc_boot(sp); //zeros P
   P->vt = PN_TSTATE;
-  P->uniq = potion_uniq();
+  P->uniq = potion_uniq(P);
   PN_FLEX_NEW(P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
   PN_FLEX_SIZE(P->vts) = PN_TYPE_ID(PN_TUSER) + 1;
   P->prec = PN_PREC;
diff --git a/core/load.c b/core/load.c
index 5b3b915..19b3a08 100644
--- a/core/load.c
+++ b/core/load.c
@@ -85,7 +85,7 @@ static PN potion_load_dylib(Potion *P, const char *filename) {
   return PN_INT(handle);
 }
 
-static PN pn_loader_path;
+#define pn_loader_path (P->loader_path)
 static const char *pn_loader_extensions[] = {
   ".pnb"
   , ".pn"
diff --git a/core/mt19937ar.c b/core/mt19937ar.c
index 9993639..b3ca9e9 100644
--- a/core/mt19937ar.c
+++ b/core/mt19937ar.c
@@ -156,11 +156,10 @@ double potion_rand_double(void) {
   return(a*67108864.0+b)*(1.0/9007199254740992.0); 
 } 
 /** the identity of a new object: never 0, and not repeated by srand */
-PNUniq potion_uniq(void) {
-  static PNUniq uniq = 0;
-  uniq += 0x9e3779b9U;
-  if (uniq == 0) uniq += 0x9e3779b9U;
-  return uniq;
+PNUniq potion_uniq(Potion *P) {
+  P->lastuniq += 0x9e3779b9U;
+  if (P->lastuniq == 0) P->lastuniq += 0x9e3779b9U;
+  return P->lastuniq;
 }
 
 /**\memberof Lobby
diff --git a/core/potion.h b/core/potion.h
index e4bd181..4944ff0 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -649,7 +649,19 @@ typedef enum {
 #endif
 } Potion_Flags;
 
-/// the global interpreter state P. currently singleton (not threads yet)
+///
+/// the names of common methods and keywords, see PN_allocate and the others below
+///
+struct PNNames {
+  PN allocate_, break_, call_, class_, compile_, continue_,
+     def_, delegated_, else_, elsif_, if_, lookup_,
+     loop_, print_, return_, self_, string_, while_,
+     add_, sub_, mult_, div_, rem_, bitn_,
+     bitl_, bitr_, cmp_, number_, name_, length_,
+     size_, STR0_, extern_, integer_;
+};
+
+/// the interpreter state P. Everything which belongs to one interpreter is found from here
 struct Potion_State {
   PN_OBJECT_HEADER;        ///< PNType vt; PNUniq uniq
   PNTarget target;         ///< the jit
@@ -669,6 +681,11 @@ struct Potion_State {
   PN_SIZE fileno;          ///< currently parsed file
   PN unclosed;             ///< used by parser for named block endings
   void *parser;            ///< the running parser, its values are kept
+
+  PNUniq lastuniq;         ///< identity of the last object
+  struct PNNames names;    ///< in GC protected memory
+  PN filenames;            ///< in GC protected memory
+  PN loader_path;          ///< in GC protected memory
 };
 
 ///
@@ -696,7 +713,7 @@ void potion_garbagecollect(Potion *, int, int);
 PN_SIZE potion_type_size(Potion *, const struct PNObject *);
 unsigned long potion_rand_int();
 double potion_rand_double();
-PNUniq potion_uniq(void);
+PNUniq potion_uniq(Potion *);
 
 #ifdef POTION_GC_SCHEDULE
 void potion_gc_scheduled(Potion *P, int siz);
@@ -724,7 +741,7 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
 #endif
   res = (struct PNObject *)M->birth_cur;
   res->vt = vt;
-  res->uniq = potion_uniq();
+  res->uniq = potion_uniq(P);
   M->birth_cur = (char *)res + siz;
   return (void *)res;
 }
@@ -804,18 +821,45 @@ static inline struct PNData *potion_data_alloc(Potion *P, int siz) {
 #define potion_class_method(RCV, MSG, FN, SIG) \
   potion_send(((struct PNVtable *)(RCV))->meta, PN_def, potion_str(P, MSG), PN_FUNC(FN, SIG))
 
-/// common method names in GC protected area
-extern PN PN_allocate, PN_break, PN_call, PN_class, PN_compile,
-  PN_continue, PN_def, PN_delegated, PN_else, PN_elsif, PN_if,
-  PN_lookup, PN_loop, PN_print, PN_return, PN_self, PN_string,
-  PN_while;
-extern PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
-extern PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
-extern PN PN_extern, PN_integer;
-extern PN pn_filenames;
+/// common method names in GC protected area, and the names of the parsed files
+#define PN_allocate (P->names.allocate_)
+#define PN_break (P->names.break_)
+#define PN_call (P->names.call_)
+#define PN_class (P->names.class_)
+#define PN_compile (P->names.compile_)
+#define PN_continue (P->names.continue_)
+#define PN_def (P->names.def_)
+#define PN_delegated (P->names.delegated_)
+#define PN_else (P->names.else_)
+#define PN_elsif (P->names.elsif_)
+#define PN_if (P->names.if_)
+#define PN_lookup (P->names.lookup_)
+#define PN_loop (P->names.loop_)
+#define PN_print (P->names.print_)
+#define PN_return (P->names.return_)
+#define PN_self (P->names.self_)
+#define PN_string (P->names.string_)
+#define PN_while (P->names.while_)
+#define PN_add (P->names.add_)
+#define PN_sub (P->names.sub_)
+#define PN_mult (P->names.mult_)
+#define PN_div (P->names.div_)
+#define PN_rem (P->names.rem_)
+#define PN_bitn (P->names.bitn_)
+#define PN_bitl (P->names.bitl_)
+#define PN_bitr (P->names.bitr_)
+#define PN_cmp (P->names.cmp_)
+#define PN_number (P->names.number_)
+#define PN_name (P->names.name_)
+#define PN_length (P->names.length_)
+#define PN_size (P->names.size_)
+#define PN_STR0 (P->names.STR0_)
+#define PN_extern (P->names.extern_)
+#define PN_integer (P->names.integer_)
+#define pn_filenames (P->filenames)
 
 /// zero values per type
-static inline PN potion_type_default(char type) {
+static inline PN potion_type_default(Potion *P, char type) {
   return type == 'N' ? PN_ZERO
        : type == 'I' ? PN_ZERO
        : type == 'S' ? PN_STR0
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 3ec9596..092cb3f 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1035,7 +1035,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	  DBG_t("|0 ");                                 // mov 0, i(%esp) - optional
 	  char type = (char)(PN_TUPLE_LEN(sig) > 1
 			     ? PN_INT(PN_TUPLE_AT(sig,1)) : 0);
-	  X86_ARGO_IMM(type ? potion_type_default(type) : 0, i+1);
+	  X86_ARGO_IMM(type ? potion_type_default(P, type) : 0, i+1);
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
diff --git a/core/vm.c b/core/vm.c
index 54b65ac..7f1bffd 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -185,7 +185,7 @@ PN potion_vm_proto(Potion *P, PN cl, PN self, ...) {
 	  || PN_IS_FFIPTR(arg)
 	  || (type && (potion_type_char(PN_TYPE(arg)) != type))) { //replace with default
           // default value or 0
-          ary = PN_PUSH(ary, PN_TUPLE_LEN(s) == 3 ? PN_TUPLE_AT(s,2) : potion_type_default(type));
+          ary = PN_PUSH(ary, PN_TUPLE_LEN(s) == 3 ? PN_TUPLE_AT(s,2) : potion_type_default(P, type));
         } else {
           ary = PN_PUSH(ary, arg);
         }
@@ -846,7 +846,7 @@ reentry:
                   if (s) // default or zero: && !filled by NAMED (?)
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
                       ? PN_TUPLE_AT(s, 2)
-                      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+                      : potion_type_default(P, PN_INT(PN_TUPLE_AT(s,1)));
                   op.b++;
                 }
               }
@@ -863,7 +863,7 @@ reentry:
                   if (s) // default or zero: && !filled by NAMED (?)
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
-		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+		      : potion_type_default(P, PN_INT(PN_TUPLE_AT(s,1)));
                   defs++;
                   op.b++;
                 }
-- 
2.43.0


From 8320bd1422c2781e530d28e5f86b142ca10638ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 086/109] fix: jitted calls with missing or too many arguments

The defaults of omitted arguments were taken from the first function of the caller, and passed over the register which held the address of the function; other omitted arguments were whatever the registers held. Calls whose number of arguments is not the arity of the closure now fill in the defaults at run time, or end the function with the error the bytecode VM gives.
---
 core/internal.h |  2 ++
 core/vm-x86.c   | 31 +++++++++++++++++++++++++++++--
 core/vm.c       | 42 ++++++++++++++++++++++++++++++++++++------
 3 files changed, 67 insertions(+), 8 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index 9a6e537..08a2234 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -139,5 +139,7 @@ __attribute__ ((noinline)) void potion_esp(void **);
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
 PN potion_vm_neq(Potion *, PN, PN);
+PN potion_jit_call(Potion *, PN, long, PN *);
+#define PN_WRONG_ARGS ((PN)4) ///< no value, see potion_jit_call()
 
 #endif
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 092cb3f..e5d936d 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -5,6 +5,7 @@ the x86 and x86_64 jit.
 (c) 2008 why the lucky stiff, the freelance professor
 (c) 2013-2015 perl11 org */
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 #include "potion.h"
@@ -960,6 +961,9 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   PN_OP op = PN_OP_AT(f->asmb, pos);
   int argc = op.b - op.a; // including self
   int i, tag_a1, tag_a2, tag_b, tag_c, tag_d;
+#if PN_SIZE_T == 8
+  int tag_e = 0, tag_f;
+#endif
 
   // check type of the closure
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)		// mov %rbp(A) %rax
@@ -1010,8 +1014,26 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)      // d: mov %rbp(A) %rax
   //[b]: got the method, call it (first special slot from PNClosure)
   TAG_LABEL(tag_b);
+#if PN_SIZE_T == 8
+  if (argc < 16) { // another number of arguments than parameters: defaults or an error
+    ASM(0x83); ASM(0x78); ASM(offsetof(struct PNClosure, arity));
+      ASM(argc - 1);					// b: cmpl argc-1, N(%rax)
+    TAG_JMPF(0x74, tag_f);				// je [f]
+    X86_PRE(); ASM(0x89); ASM(0xC6);			// mov %rax %rsi
+    X86_ARGO(start - 3, 0);
+    X86_PRE(); ASM(0xC7); ASM(0xC2); ASMI(argc);	// mov argc %rdx
+    X86_PRE(); ASM(0x8D); ASM(0x8D); ASMI(RBPN(op.a + 1)); // lea -A(%rbp) %rcx
+    X86_PRE(); ASM(0xB8); ASMN(potion_jit_call); 	// mov &potion_jit_call %rax
+    ASM(0xFF); ASM(0xD0); 				// callq *%rax
+    X86_PRE(); ASM(0x83); ASM(0xF8); ASM((int)PN_WRONG_ARGS); // cmp WRONG_ARGS %rax
+    TAG_JMPFW(0x85, tag_e);				// jne [e]
+    X86_MOV_RBP(0x8B, op.a + 1); 			// mov -A(%rbp) %rax
+    ASM(0xC9); ASM(0xC3);				// leave; ret
+    TAG_LABEL(tag_f);
+  }
+#endif
   X86_PRE(); ASM(0x8B); ASM(0x40);
-             ASM(sizeof(struct PNObject));	     // b: mov N(%rax) %rax
+             ASM(sizeof(struct PNObject));	     // f: mov N(%rax) %rax
 
   // (Potion *, CL) as the first arguments
   X86_ARGO(start - 3, 0);
@@ -1021,6 +1043,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
     DBG_t("%d[%d] ", op.a + i - 1, i);
     X86_ARGO(op.a + i - 1, i);				// mov regn, i(%esp)
   }
+#if PN_SIZE_T != 8
   // fill in defaults, arity from protos[0], not f
   if (!PN_IS_EMPTY(f->protos)) {
     vPN(Proto) c = (vPN(Proto)) PN_TUPLE_AT(f->protos, 0);
@@ -1037,9 +1060,13 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 			     ? PN_INT(PN_TUPLE_AT(sig,1)) : 0);
 	  X86_ARGO_IMM(type ? potion_type_default(P, type) : 0, i+1);
 	}}}}
+#endif
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
+#if PN_SIZE_T == 8
+  if (argc < 16) TAG_JMPTOW(tag_e);
+#endif
+  X86_MOV_RBP(0x89, op.a); 				// e: mov %rax -A(%rbp)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index 7f1bffd..9a06722 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -472,6 +472,40 @@ static PN potion_sig_check(Potion *P, struct PNClosure *cl, int arity, int numar
   return PN_NIL;
 }
 
+/// the value of a parameter for which no argument was passed
+static PN potion_sig_default(Potion *P, PN s) {
+  switch (PN_TUPLE_LEN(s)) {
+    case 3:  return PN_TUPLE_AT(s, 2);
+    case 2:  return potion_type_default(P, PN_INT(PN_TUPLE_AT(s, 1)));
+    default: return PN_NIL;
+  }
+}
+
+/// Calls from jitted code with another number of arguments than the closure has parameters.
+///\param method PNClosure to call
+///\param argc  number of args, with self
+///\param args  pointer to the register of self, the next ones lie below
+///\return the result, or PN_WRONG_ARGS with the error in place of self
+PN potion_jit_call(Potion *P, PN method, long argc, PN *args) {
+  vPN(Closure) c = PN_CLOSURE(method);
+  PN argv[15];
+  long i;
+  for (i = 0; i < argc; i++) argv[i] = args[-i];
+  if (PN_IS_TUPLE(c->sig)) {
+    int arity = c->arity;
+    PN err = potion_sig_check(P, (struct PNClosure *)c, arity, argc - 1);
+    if (err) {
+      *args = err;
+      return PN_WRONG_ARGS;
+    }
+    for (; argc <= arity && argc < 15; argc++) {
+      PN s = potion_sig_at(P, c->sig, argc - 1);
+      argv[argc] = s ? potion_sig_default(P, s) : PN_NIL;
+    }
+  }
+  return potion_call(P, method, argc, argv);
+}
+
 PN potion_debug(Potion *P, struct PNProto *f, PN self, PN_OP op, PN* reg, PN* stack) {
   if (P->flags & EXEC_DEBUG) {
     PN ast;
@@ -844,9 +878,7 @@ reentry:
                 for (i=numargs; i < arity; i++) { // fill in defaults
                   PN s = potion_sig_at(P, sig, i);
                   if (s) // default or zero: && !filled by NAMED (?)
-                    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
-                      ? PN_TUPLE_AT(s, 2)
-                      : potion_type_default(P, PN_INT(PN_TUPLE_AT(s,1)));
+                    reg[op.a + i + 2] = potion_sig_default(P, s);
                   op.b++;
                 }
               }
@@ -861,9 +893,7 @@ reentry:
                 for (i=numargs; i < arity; i++) { // fill in defaults. TODO compile-time
                   PN s = potion_sig_at(P, sig, i);
                   if (s) // default or zero: && !filled by NAMED (?)
-                    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
-		      ? PN_TUPLE_AT(s, 2)
-		      : potion_type_default(P, PN_INT(PN_TUPLE_AT(s,1)));
+                    reg[op.a + i + 2] = potion_sig_default(P, s);
                   defs++;
                   op.b++;
                 }
-- 
2.43.0


From 1d18f92ade963d72f876aaeec38488b968b21c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 087/109] fix: methods of small numbers and booleans called
 from C lose self in the bytecode VM

A self below 10 was taken for the number of arguments, also where there are no optional ones.
---
 core/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index 9a06722..e9167b2 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -167,7 +167,7 @@ PN potion_vm_proto(Potion *P, PN cl, PN self, ...) {
     va_list args;
     ary = PN_TUP0();
     va_start(args, self);
-    if (self < 10) {
+    if (minargs < arity && self < 10) { // otherwise it is a number, a boolean or nil
       numargs = self;
       self = 0;
     }
-- 
2.43.0


From cc121d4aa0e6f85809c37a61308e4aef625eca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 088/109] fix: conditional assignment of a variable skips the
 next instruction

?x = v overwrote the value with the variable's, never stored it, and jumped over the instruction behind it.
---
 core/compile.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index a3c0943..be446f8 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -530,30 +530,32 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         DBG_c("; call %d %d ASSIGN\n", reg, breg);
         PN_ASM2(OP_CALL, reg, breg);
       } else {
+        int jmp = -1;
+        if (opcode == OP_GETPATH ? lhs->part == AST_PATHQ
+            : lhs->part == AST_QUERY && (opcode == OP_GETUPVAL || opcode == OP_GETLOCAL)) {
+          // only if it is not set
+          if (opcode == OP_GETPATH) {
+            PN_ASM2(OP_MOVE, breg, reg);
+            PN_ASM2(OP_GETPATH, breg, breg - 1);
+          } else {
+            PN_ASM2(opcode, breg, num);
+          }
+          jmp = PN_OP_LEN(f->asmb);
+          PN_ASM2(OP_TESTJMP, breg, 0);
+        }
         potion_source_asmb(P, f, loop, 0, t->a[1], breg);
         if (opcode == OP_GETUPVAL) {
-          if (lhs->part == AST_QUERY) {
-            PN_ASM2(OP_GETUPVAL, breg, num);
-            PN_ASM2(OP_TESTJMP, breg, 1);
-          }
           PN_ASM2(OP_SETUPVAL, reg, num);
         } else if (opcode == OP_GETLOCAL) {
-          if (lhs->part == AST_QUERY) {
-            PN_ASM2(OP_GETLOCAL, breg, num);
-            PN_ASM2(OP_TESTJMP, breg, 1);
-          } else {
-            DBG_c("setlocal %d %d\n", reg, (int)num);
-            PN_ASM2(OP_SETLOCAL, reg, num);
-          }
+          DBG_c("setlocal %d %d\n", reg, (int)num);
+          PN_ASM2(OP_SETLOCAL, reg, num);
         } else if (opcode == OP_GETPATH) {
-          if (lhs->part == AST_PATHQ) {
-            PN_ASM2(OP_GETPATH, reg, num);
-            PN_ASM2(OP_TESTJMP, reg, 1);
-          }
           PN_ASM2(OP_SETPATH, reg, num);
         } else {
           PN_ASM2(opcode, reg, num);
         }
+        if (jmp >= 0)
+          PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       }
       PN_REG(f, breg);
     }
-- 
2.43.0


From 9afb804d93db4eaa653949bb09da264e60eda954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 089/109] fix: rebuild a full hash table in its own size when
 most of what fills it are removed entries

---
 core/khash.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/khash.h b/core/khash.h
index 0f6fb8e..3b9a955 100644
--- a/core/khash.h
+++ b/core/khash.h
@@ -78,7 +78,9 @@ static const double __kh_HASH_UPPER = 0.77;
     uint32_t *new_flags = 0;						\
     khint_t j = 1;							\
     {									\
-      new_n_buckets = h->n_buckets? h->n_buckets<<1 : 4;		\
+      if (!h->n_buckets) new_n_buckets = 4;				\
+      else if (new_n_buckets < h->n_buckets) new_n_buckets = h->n_buckets; /* clear deleted */ \
+      else new_n_buckets = h->n_buckets<<1;				\
       if (h->size >= (khint_t)(new_n_buckets * __kh_HASH_UPPER + 0.5)) j = 0; \
       else {								\
         nft = PN_DALLOC_N(uint32_t, __ac_fsize(new_n_buckets));		\
-- 
2.43.0


From efae7e166d0be41be4ac06f9816ac2713745fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 090/109] fix: functions of more than 2047 instructions,
 constants or jump distances were miscompiled silently (op fields of 12 bits)

---
 core/compile.c | 4 ++--
 core/opcodes.h | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index be446f8..4e748f9 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -297,7 +297,7 @@ void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop
                 lhs = SRC_TUPLE_AT(lhs, 0);
 		PN_ASM_DEBUG(sreg, lhs);
                 if (lhs->part == AST_MSG || lhs->part == AST_VALUE) {
-                  PN_OP op; op.a = PN_S(lhs,0); //12 bit!
+                  PN_OP op; op.a = PN_S(lhs,0); // 28 bit
                   if (!PN_IS_PTR(PN_S(lhs,0)) && PN_S(lhs,0) == op.a) {
                     PN_ASM2(OP_LOADPN, sreg, PN_S(lhs,0));
                   } else {
@@ -364,7 +364,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 
     case AST_VALUE: {
       vPN(Source) a = PN_S_(t,0);
-      PN_OP op; op.a = PN_S(t,0); // but 12bit only
+      PN_OP op; op.a = PN_S(t,0); // but 28bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
       } else if (PN_IS_PTR(a) && potion_ptr_type((PN)a) == PN_TSOURCE // not a string of 33 bytes
diff --git a/core/opcodes.h b/core/opcodes.h
index b029801..b798e8d 100644
--- a/core/opcodes.h
+++ b/core/opcodes.h
@@ -65,12 +65,11 @@ enum PN_OPCODE {
 #pragma pack(push, 1)
 #endif
 
-/// PN_OP - a compressed three-address op (as 32bit int bitfield)
-/// TODO: expand to 64bit, check jit then
+/// PN_OP - a compressed three-address op (as 64bit int bitfield)
 typedef struct {
   enum PN_OPCODE code:8; ///< the op. See vm.c http://www.lua.org/doc/jucs05.pdf
-  int a:12;  ///< the data (i.e the register)
-  int b:12;  ///< optional arg, the message
+  int a:28;  ///< the data (i.e the register)
+  int b:28;  ///< optional arg, the message
 } PN_OP;
 
 #if defined(__GNUC__)
-- 
2.43.0


From e81c38633cb031b6eb081f119b65bb5c40d0a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 091/109] fix: jitted calls with more than 14 arguments are
 checked against the parameters

---
 core/vm-x86.c | 4 ++--
 core/vm.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index e5d936d..87eef47 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1015,7 +1015,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   //[b]: got the method, call it (first special slot from PNClosure)
   TAG_LABEL(tag_b);
 #if PN_SIZE_T == 8
-  if (argc < 16) { // another number of arguments than parameters: defaults or an error
+  if (argc < 128) { // another number of arguments than parameters: defaults or an error
     ASM(0x83); ASM(0x78); ASM(offsetof(struct PNClosure, arity));
       ASM(argc - 1);					// b: cmpl argc-1, N(%rax)
     TAG_JMPF(0x74, tag_f);				// je [f]
@@ -1064,7 +1064,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
 #if PN_SIZE_T == 8
-  if (argc < 16) TAG_JMPTOW(tag_e);
+  if (argc < 128) TAG_JMPTOW(tag_e);
 #endif
   X86_MOV_RBP(0x89, op.a); 				// e: mov %rax -A(%rbp)
 }
diff --git a/core/vm.c b/core/vm.c
index e9167b2..d572453 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -490,7 +490,7 @@ PN potion_jit_call(Potion *P, PN method, long argc, PN *args) {
   vPN(Closure) c = PN_CLOSURE(method);
   PN argv[15];
   long i;
-  for (i = 0; i < argc; i++) argv[i] = args[-i];
+  for (i = 0; i < argc && i < 15; i++) argv[i] = args[-i];
   if (PN_IS_TUPLE(c->sig)) {
     int arity = c->arity;
     PN err = potion_sig_check(P, (struct PNClosure *)c, arity, argc - 1);
@@ -503,7 +503,7 @@ PN potion_jit_call(Potion *P, PN method, long argc, PN *args) {
       argv[argc] = s ? potion_sig_default(P, s) : PN_NIL;
     }
   }
-  return potion_call(P, method, argc, argv);
+  return potion_call(P, method, argc < 15 ? argc : 15, argv);
 }
 
 PN potion_debug(Potion *P, struct PNProto *f, PN self, PN_OP op, PN* reg, PN* stack) {
-- 
2.43.0


From dc95e723081d4e36454754984683d4041d1fed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 092/109] fix: default values in the text of a signature, and
 the default of (x=N|y:=1)

---
 core/compile.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 4e748f9..d54cbc2 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -73,7 +73,7 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
       PN_SIZE i, comma=0;
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
-	if (PN_IS_INT(v)) {
+	if (PN_IS_INT(v) && !nextdef) {
           // currently types are still encoded as NUM, TODO: support VTABLE also
 	  int c = PN_INT(v); comma=0;
 	  if (c == '.')      // is end
@@ -85,16 +85,12 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
 	  }
 	  else {
 	    if (comma++) pn_printf(P, out, ",");
-	    if (nextdef) { nextdef = 0;
-	      pn_printf(P, out, "=");
-	      potion_bytes_obj_string(P, out, v);
-	    } else
-	      pn_printf(P, out, "=%c", c);
+	    pn_printf(P, out, "=%c", c);
 	  }
 	} else {
-	  if (comma++) pn_printf(P, out, ",");
-	  if (nextdef)
-	    { nextdef = 0; pn_printf(P, out, "="); }
+	  if (nextdef) // a default value of any type
+	    { nextdef = 0; comma=1; pn_printf(P, out, "="); }
+	  else if (comma++) pn_printf(P, out, ",");
 	  potion_bytes_obj_string(P, out, v);
 	}}}}
   return PN_STR_B(out);
@@ -1059,6 +1055,8 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 	    v = PN_NUM(PN_STR_PTR(v)[0]); // = type. TODO: one-char => VTABLE
 	    DBG_c("%s)\n", AS_STR(v));
 	    sig = PN_PUSH(sig, v);
+          } else if (rhs->part == AST_VALUE) {  //x=N|y:=1
+	    sig = PN_PUSH(PN_PUSH(sig, PN_NUM(':')), PN_S(rhs,0));
           }
 	} else if (rhs->part == AST_VALUE) {    // :=default
 	  PN v = PN_S(rhs,0);
-- 
2.43.0


From ddcdcf270ea5c69dbc38e279bfeae2677789c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 093/109] fix: readline loads its history once, before the
 first prompt

It was read again from history.txt before each line was added, which doubled
the history with every line.
---
 lib/readline/readline.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 920d595..768684c 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -4,11 +4,17 @@
 #include "linenoise.h"
 
 PN pn_readline(Potion *P, PN cl, PN self, PN start) {
-  char *line = linenoise(PN_STR_PTR(start));
+  static int loaded = 0;
+  char *line;
   PN r;
+
+  if (!loaded) {
+    loaded = 1;
+    linenoiseHistoryLoad("history.txt");
+  }
+  line = linenoise(PN_STR_PTR(start));
   if (line == NULL) return PN_NIL;
 
-  linenoiseHistoryLoad("history.txt");
   linenoiseHistoryAdd(line);
   linenoiseHistorySave("history.txt");
   r = potion_str(P, line);
-- 
2.43.0


From 56dfef2d44a39c0767d7487c3b5e75f3494b1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 094/109] fix: readline on a terminal which does not know its
 width

With 0 columns refreshLine never ended.
---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f66f676..c7e5a7a 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -367,7 +367,7 @@ static int getColumns(void) {
 #else
     struct winsize ws;
 
-    if (ioctl(1, TIOCGWINSZ, &ws) == -1) return 80;
+    if (ioctl(1, TIOCGWINSZ, &ws) == -1 || ws.ws_col == 0) return 80;
     return ws.ws_col;
 #endif
 }
-- 
2.43.0


From fdf5620f184eba3da4dcd7e5c02e69ccc3e1aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 095/109] fix: ctrl-d deletes the last character too, the
 delete key takes no other key with it

The delete key is ESC [ 3 ~: one more byte follows the first three, two were read.
---
 lib/readline/linenoise.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index c7e5a7a..9acfa4c 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -575,7 +575,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             }
             break;
         case 4:     /* ctrl-d, remove char at right of cursor */
-            if (len > 1 && pos < (len-1)) {
+            if (len > 0 && pos < len) {
                 memmove(buf+pos,buf+pos+1,len-pos);
                 len--;
                 buf[len] = '\0';
@@ -646,7 +646,7 @@ up_down_arrow:
                 }
             } else if (seq[0] == 91 && seq[1] > 48 && seq[1] < 55) {
                 /* extended escape */
-                if (read(fd,seq2,2) == -1) break;
+                if (read(fd,seq2,1) == -1) break;
                 if (seq[1] == 51 && seq2[0] == 126) {
                     /* delete */
                     if (len > 0 && pos < len) {
-- 
2.43.0


From 3918125aeef9b2de882cbc04fd7693a657d6298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 096/109] fix: jitted comparisons with a value that is no
 number crash or make up an answer

---
 core/internal.h |  4 +++
 core/vm-x86.c   | 87 +++++++++++++------------------------------------
 core/vm.c       | 20 +++++++++---
 3 files changed, 43 insertions(+), 68 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index 08a2234..113d4f9 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -139,6 +139,10 @@ __attribute__ ((noinline)) void potion_esp(void **);
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
 PN potion_vm_neq(Potion *, PN, PN);
+PN potion_vm_lt(Potion *, PN, PN);
+PN potion_vm_lte(Potion *, PN, PN);
+PN potion_vm_gt(Potion *, PN, PN);
+PN potion_vm_gte(Potion *, PN, PN);
 PN potion_jit_call(Potion *, PN, long, PN *);
 #define PN_WRONG_ARGS ((PN)4) ///< no value, see potion_jit_call()
 
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 87eef47..4f2ceed 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -125,54 +125,21 @@ the x86 and x86_64 jit.
         TAG_LABEL(end_b); \
         X86_MOV_RBP(0x89, op.a) 				   /* [b]: mov -B(%rbp) %eax */ \
 	  })
-// cmp 2 numbers, int or double. eq/neq/gt/ge/lt/le, both inlined (requires SSE)
-// iop: jl, jg, jle, jge, je, jne for normal cmp comparisons
-// xop: jb, jbe", jae, ja, ... for SSE ucomisd comparisons.
-// TODO we also need to check jp for PF (parity) if one number is nan, to force false.
-// TODO optimize into seperate int and dbl variants
-// TODO probe cpu for sse2 at init, and fallback to math calls if not.
-//      maybe create seperate so's with and without sse. and load the best at init
-// TODO check num type for the dbl case
-// TODO optimize j? true, set false, jmp true, set true
-//   => movzbl %al,edx;lea 0x2(,%rdx,4),%rdx;mov %rdx,-A(%rbp)
-#define X86_NUMCMP(iop, xop, xmms)                                         \
-        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_;			\
-        X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.a)	/* mov -A(%rbp) %rdx */ \
-        X86_MOV_RBP(0x8B, op.b); 			/* mov -B(%rbp) %rax */ \
-        ASMS("\xA8\x01");		 		/* test $1, %al */ \
-        TAG_PREP(dbl_b); ASM(0x74);ASM(0); 		/* je [dbl_b] */ \
-        ASMS("\xF6\xC2\x01");				/* test $1, %dl */ \
-        TAG_PREP(dbl_a); ASM(0x74);ASM(0);		/* je [dbl_a] */ \
-	/* cmp both int */						\
-        X86_PRE(); ASM(0x39); ASM(0xC2);                /* both_int: cmp %rax, %rdx */ \
-        TAG_PREP(true_1); ASM(iop); ASM(0);		/* j? [true] */	\
-        TAG_PREP(false_); ASM(0xEB); ASM(0);		/* jmp [false] */ \
-                                                                        \
-	/* convert 1 or 2 to dbl, only with sse2. all amd64 have sse2 */ \
-	/* TODO: so if 32bit without sse2 call the math func instead */ \
-        TAG_LABEL(dbl_a);                               /* #dbl_a: b=int + a=dbl */ \
-	ASMS("\xf2\x0f\x10\x42");ASM(PN_SIZE_T);	/* movsd 8(%rdx), %xmm0 [a] */ \
-        ASMS("\x66\x0f\xef\xc9");			/* pxor %xmm1, %xmm1 */ \
-	X86_PRE(); ASMS("\xd1\xf8");	                /* sar %rax */ \
-	ASM(0xF2);X86_PRE();ASMS("\x0f\x2a\xc8");       /* cvtsi2sd %rax, %xmm1 [b] */ \
-        TAG_PREP(cmp_dbl); ASM(0xEB);ASM(0);		/* jmp [cmp_dbl] */ \
-                                                                        \
-        TAG_LABEL(dbl_b); 				/* #b dbl, a? */ \
-	ASMS("\xf2\x0f\x10\x48");ASM(PN_SIZE_T);	/* movsd 8(%rax), %xmm1 [b] */ \
-        ASMS("\xF6\xC2\x01");				/* test $1, %dl */ \
-        ASM(0x74);ASM(X86C(12,14, 0,0));                /* je +cvt */ \
-        ASMS("\x66\x0f\xef\xc0");			/* pxor %xmm0, %xmm0 */ \
-	X86_PRE(); ASMS("\xd1\xfa");	                /* sar %rdx */ \
-	ASM(0xF2);X86_PRE();ASMS("\x0f\x2a\xc2");	/* cvtsi2sd %rdx, %xmm0 [a] */ \
-        ASM(0xEB); ASM(X86C(5,5, 0,0));			/* jmp [cmp_dbl] */ \
-	ASMS("\xf2\x0f\x10\x42");ASM(PN_SIZE_T);	/* movsd 8(%rdx), %xmm0 [a] */ \
-        /* cmp dbl */							\
-	TAG_LABEL(cmp_dbl); ASMS(xmms);			/* ucomisd xmm0<=>xmm1; */ \
-        TAG_PREP(true_2); ASM(xop); ASM(0);        	/* j? [true] */   \
-        TAG_LABEL(false_); X86_MOVQ(op.a, PN_FALSE); 	/* false: -A(%rbp) = FALSE */ \
-        ASM(0xEB); ASM(X86C(7,14, 1,op.a));		/* jmp [+true] */ \
-        TAG_LABEL(true_1); TAG_LABEL(true_2); \
-        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */
+// cmp 2 numbers, int (inlined) or double (via call), gt/ge/lt/le
+// setcc: setl, setg, setle, setge
+// an operand of another kind ends the function with the error, as in the bytecode vm
+#define X86_NUMCMP(setcc, dbl_func) ({                                     \
+        X86_MATH(1, dbl_func, {                                            \
+          X86_PRE(); ASMS("\x39\xD0");                  /* cmp %rdx, %rax */ \
+          ASM(0x0F); ASM(setcc); ASM(0xC0);             /* set? %al */     \
+          ASMS("\x0F\xB6\xC0");                         /* movzbl %al, %eax */ \
+          X86_PRE(); ASMS("\x8D\x04\x85");              /* lea FALSE(,%rax,4), %rax */ \
+            ASMI(PN_FALSE);                                                \
+        });                                                                \
+        ASM(0xA8); ASM(0x07);                /* test $7, %al */ \
+        ASM(0x75); ASM(2);                              /* jnz +2 */       \
+        ASM(0xC9); ASM(0xC3);                           /* leave; ret */   \
+	  })
 
 #if 0
 // eq/neq: cmp 2 atoms. cmp the dbl value if both are double or the immediate words.
@@ -783,32 +750,24 @@ void potion_x86_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
   //X86_CMP(0x74, 0x84);		 // je
 }
 
-void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7C, 0x77,  		// jl, ja (false with nan)
-             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
-             );
+  X86_NUMCMP(0x9C, potion_vm_lt);		// setl
 }
 
-void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7E, 0x73,		// jle, jae (false with nan)
-             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
-             );
+  X86_NUMCMP(0x9E, potion_vm_lte);		// setle
 }
 
-void potion_x86_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7F, 0x77,		// jg, ja
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x9F, potion_vm_gt);		// setg
 }
 
-void potion_x86_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7D, 0x73, 		// jge, jae
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x9D, potion_vm_gte);		// setge
 }
 
 void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index d572453..8c96df9 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -335,10 +335,10 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(POW, (P, f, &asmb, pos, need))
       CASE_OP(NEQ, (P, f, &asmb, pos, need))
       CASE_OP(EQ, (P, f, &asmb, pos, need))	// if ((RK[b] == RK[c]) ~= a) then PC++
-      CASE_OP(LT, (P, f, &asmb, pos))		// if ((RK[b] <  RK[c]) ~= a) then PC++
-      CASE_OP(LTE, (P, f, &asmb, pos))		// if ((RK[b] <= RK[c]) ~= a) then PC++
-      CASE_OP(GT, (P, f, &asmb, pos))
-      CASE_OP(GTE, (P, f, &asmb, pos))
+      CASE_OP(LT, (P, f, &asmb, pos, need))		// if ((RK[b] <  RK[c]) ~= a) then PC++
+      CASE_OP(LTE, (P, f, &asmb, pos, need))		// if ((RK[b] <= RK[c]) ~= a) then PC++
+      CASE_OP(GT, (P, f, &asmb, pos, need))
+      CASE_OP(GTE, (P, f, &asmb, pos, need))
       CASE_OP(BITN, (P, f, &asmb, pos, need))
       CASE_OP(BITL, (P, f, &asmb, pos, need))
       CASE_OP(BITR, (P, f, &asmb, pos, need))
@@ -454,6 +454,18 @@ PN potion_vm_neq(Potion *P, PN a, PN b) {
   }
 }
 
+/* the jit inlines the comparison of two integers only */
+#define PN_VM_NUMCMP_F(name, cmp)                                 \
+PN potion_vm_##name(Potion *P, PN a, PN b) {                      \
+  PN_CHECK_NUM(a);                                                \
+  PN_CHECK_NUM(b);                                                \
+  return PN_BOOL(PN_DBL(a) cmp PN_DBL(b));                        \
+}
+PN_VM_NUMCMP_F(lt, <)
+PN_VM_NUMCMP_F(lte, <=)
+PN_VM_NUMCMP_F(gt, >)
+PN_VM_NUMCMP_F(gte, >=)
+
 static PN potion_sig_check(Potion *P, struct PNClosure *cl, int arity, int numargs) {
   if (numargs > 0) {  //allow fun() to return the closure
     if (numargs < cl->minargs)
-- 
2.43.0


From 414637950479a68e054ca039985588a0a58bc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 097/109] fix: <=> of doubles subtracts their addresses

---
 core/internal.h |  1 +
 core/vm-x86.c   | 12 +++++++-----
 core/vm.c       | 13 +++++++++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index 113d4f9..35e3d6c 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -139,6 +139,7 @@ __attribute__ ((noinline)) void potion_esp(void **);
 /* for the jit and bytecode, too large to be inlined into the jit */
 PN potion_vm_eq(Potion *, PN, PN);
 PN potion_vm_neq(Potion *, PN, PN);
+PN potion_vm_cmp(Potion *, PN, PN);
 PN potion_vm_lt(Potion *, PN, PN);
 PN potion_vm_lte(Potion *, PN, PN);
 PN potion_vm_gt(Potion *, PN, PN);
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 4f2ceed..4a2cccb 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -859,12 +859,14 @@ void potion_x86_not(Potion *P, struct PNProto * volatile f, PNAsm * volatile *as
   potion_x86_test_asm(P, f, asmp, pos, 1);
 }
 
-void potion_x86_cmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_cmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_MOV_RBP(0x8B, op.b); 				// mov -B(%rbp) %rax
-  X86_PRE(); ASM(0x2B); ASM_MOV_EBP(0x45, op.a) 	// sub -A(%rbp) %rax
-  X86_PRE(); ASMS("\xFF\xC0"); 			// inc %rax
-  X86_MOV_RBP(0x89, op.a); 				// mov %rax -A(%rbp)
+  X86_ARGO(start - 3, 0); 			// mov &P 0(%esp)
+  X86_ARGO(op.a, 1); 	  			// mov A  1(%esp)
+  X86_ARGO(op.b, 2); 	  			// mov B  2(%esp)
+  X86_PRE(); ASM(0xB8); ASMN(potion_vm_cmp); 	// mov &potion_vm_cmp %rax
+  ASM(0xFF); ASM(0xD0); 			// callq %rax
+  X86_MOV_RBP(0x89, op.a); 			// mov %rax local
 }
 
 void potion_x86_testjmp(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, PNJumps *jmps, size_t *offs, int *jmpc) {
diff --git a/core/vm.c b/core/vm.c
index 8c96df9..e92c37d 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -349,7 +349,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(JMP, (P, f, &asmb, pos, jmps, offs, &jmpc)) // PC += sBx
       CASE_OP(TEST, (P, f, &asmb, pos))		// if not (R[a] <=> C) then PC++
       CASE_OP(NOT, (P, f, &asmb, pos))		// a = not b
-      CASE_OP(CMP, (P, f, &asmb, pos))
+      CASE_OP(CMP, (P, f, &asmb, pos, need))
       CASE_OP(TESTJMP, (P, f, &asmb, pos, jmps, offs, &jmpc))
       CASE_OP(NOTJMP, (P, f, &asmb, pos, jmps, offs, &jmpc))
       CASE_OP(NAMED, (P, f, &asmb, pos, need))	// assign named args before a CALL
@@ -466,6 +466,12 @@ PN_VM_NUMCMP_F(lte, <=)
 PN_VM_NUMCMP_F(gt, >)
 PN_VM_NUMCMP_F(gte, >=)
 
+PN potion_vm_cmp(Potion *P, PN a, PN b) {
+  PN_CHECK_NUM(a);
+  PN_CHECK_NUM(b);
+  return potion_obj_sub(P, b, a);
+}
+
 static PN potion_sig_check(Potion *P, struct PNClosure *cl, int arity, int numargs) {
   if (numargs > 0) {  //allow fun() to return the closure
     if (numargs < cl->minargs)
@@ -826,7 +832,10 @@ reentry:
 #else
       CASE(NOT, reg[op.a] = PN_BOOL(!PN_TEST(reg[op.a])))
 #endif
-      CASE(CMP, reg[op.a] = PN_NUM(PN_INT(reg[op.b]) - PN_INT(reg[op.a])))
+      CASE(CMP,
+	   PN_CHECK_NUM(reg[op.a]);
+	   PN_CHECK_NUM(reg[op.b]);
+	   reg[op.a] = potion_vm_cmp(P, reg[op.a], reg[op.b]))
       CASE(NEQ,
            DBG_t("\t; %s!=%s", STRINGIFY(reg[op.a]), STRINGIFY(reg[op.b]));
 	   PN_VM_CMP(0))
-- 
2.43.0


From 018f08e848b3d18e77ccf7e0ad2a1dbea5bcf7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 098/109] fix: builtins given a value of the wrong kind crash

---
 core/load.c   |  1 +
 core/number.c |  4 +++-
 core/potion.h |  4 ++--
 core/string.c |  6 ++++--
 core/table.c  | 18 +++++++++++++++---
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/core/load.c b/core/load.c
index 19b3a08..8269538 100644
--- a/core/load.c
+++ b/core/load.c
@@ -152,6 +152,7 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
 PN potion_load(Potion *P, PN cl, PN self, PN file) {
   if (!file && PN_IS_STR(self))
     file = self;
+  PN_CHECK_STR(file);
   char *filename = potion_find_file(P, PN_STR_PTR(file), PN_STR_LEN(file));
   char *file_ext;
   PN result = PN_NIL;
diff --git a/core/number.c b/core/number.c
index 3235b4d..c00b4bf 100644
--- a/core/number.c
+++ b/core/number.c
@@ -416,8 +416,10 @@ static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
  \return PNInteger -1, 0 or 1
  \sa potion_tuple_sort. */
 static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
-  if (!PN_IS_NUM(n))
+  if (!PN_IS_NUM(n)) {
     n = potion_send(n, PN_number);
+    if (!PN_IS_NUM(n)) n = PN_ZERO; // nor a number, as nil
+  }
   if (PN_IS_DBL(self)) {
     double d1 = ((struct PNDouble *)self)->value;
     double d2 = PN_DBL(n);
diff --git a/core/potion.h b/core/potion.h
index 4944ff0..2fbc51d 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -167,7 +167,7 @@ struct PNVtable;
 #define PN_BOOL(v)      ((v) ? PN_TRUE : PN_FALSE)
 #define PN_IS_PTR(v)    (!PN_IS_INT(v) && ((PN)(v) & PN_REF_MASK))
 #define PN_IS_NIL(v)    ((PN)(v) == PN_NIL)
-#define PN_IS_BOOL(v)   ((PN)(v) & PN_FBOOLEAN)
+#define PN_IS_BOOL(v)   (!PN_IS_INT(v) && ((PN)(v) & PN_FBOOLEAN))
 #define PN_IS_INT(v)    ((PN)(v) & PN_FINTEGER)
 #define PN_IS_DBL(v)    (PN_IS_PTR(v) && ({PNType _t = potion_qptr_type((PN)v); _t == PN_TNUMBER || _t == PN_TDOUBLE;}))
 #define PN_IS_NUM(v)    (PN_IS_INT(v) || PN_IS_DBL(v))
@@ -182,7 +182,7 @@ struct PNVtable;
 			  || (!PN_IS_PTR(p) && p > (_PN)P->mem->birth_hi))
 
 #define PN_CHECK_STR(obj)  if (!PN_IS_STR(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "String")
-#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) || (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
+#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) && (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
 #define PN_CHECK_NUM(obj)  if (!PN_IS_NUM(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Number")
 #define PN_CHECK_INT(obj)  if (!PN_IS_INT(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Integer")
 #define PN_CHECK_DBL(obj)  if (!PN_IS_DBL(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Double")
diff --git a/core/string.c b/core/string.c
index a50fd1e..964ccc9 100644
--- a/core/string.c
+++ b/core/string.c
@@ -283,14 +283,14 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
   if (!start)
     return self;
   else {
-    DBG_CHECK_TYPE(start, PN_TNUMBER);
+    PN_CHECK_INT(start);
   }
   size_t startoffset = potion_utf8char_offset(str,
                          PN_INT(potion_str_slice_index(start, len, 0)));
   if (!end)
     end = PN_NUM(len);
   else {
-    DBG_CHECK_INT(end);
+    PN_CHECK_INT(end);
   }
   if ((long)start >= 0 && end < start) {
     endoffset = potion_utf8char_offset(str,
@@ -437,6 +437,7 @@ void potion_bytes_obj_string(Potion *P, PN bytes, PN obj) {
 ///\return PNBytes
 PN potion_bytes_append(Potion *P, PN cl, PN self, PN str) {
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
+  PN_CHECK_STRB(str);
   volatile PN fstr = potion_fwd(str);
   PN_SIZE len = PN_STR_LEN(fstr);
 
@@ -486,6 +487,7 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
   PN_SIZE i;
+  PN_CHECK_CLOSURE(block);
   for (i = 0; i < s->len; i++) {
     char c = s->chars[i]; // making the byte may move s, and the block may change it
     PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
diff --git a/core/table.c b/core/table.c
index 90c4b6e..ea651a2 100644
--- a/core/table.c
+++ b/core/table.c
@@ -85,6 +85,7 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
   unsigned k;
   DBG_CHECK_TYPE(t,PN_TTABLE);
+  PN_CHECK_CLOSURE(block);
   for (k = kh_begin(t); k != kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
       PN_CLOSURE(block)->method(P, block, P->lobby, kh_key(PN, t, k), kh_val(PN, t, k));
@@ -101,8 +102,10 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
 PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
   unsigned i = 0, k;
-  int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
+  int with_val;
   DBG_CHECK_TYPE(t,PN_TTABLE);
+  PN_CHECK_CLOSURE(block);
+  with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   NEW_TUPLE(t2, kh_size(t));
   for (k = kh_begin(t); k != kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
@@ -201,7 +204,7 @@ PN potion_table_slice(Potion *P, PN cl, PN self, PN keys) {
   if (!keys)
     return potion_table_clone(P, cl, self);
   else {
-    DBG_CHECK_TYPE(keys,PN_TTUPLE);
+    PN_CHECK_TUPLE(keys);
   }
   vPN(Table) t2 = PN_ALLOC(PN_TTABLE, struct PNTable);
   t2 = kh_resize_PN(P, t2, PN_TUPLE_LEN(keys)); //ca, could overshoot for dupl and outliers
@@ -267,6 +270,7 @@ PN potion_table_values(Potion *P, PN cl, PN self) {
 PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
   vPN(Table) t =  (vPN(Table))potion_fwd(self);
   DBG_CHECK_TYPE(t,PN_TTABLE);
+  PN_CHECK_CLOSURE(block);
   int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   PN ret;
   vPN(Table) t2 = (vPN(Table))potion_table_clone(P, cl, self);
@@ -443,8 +447,10 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
 ///\param block PNClosure with one or an optional second index argument.
 ///\return self PNTuple
 PN potion_tuple_each(Potion *P, PN cl, PN self, PN block) {
-  int with_index = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
+  int with_index;
   DBG_CHECK_TUPLE(self);
+  PN_CHECK_CLOSURE(block);
+  with_index = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   PN_TUPLE_EACH(self, i, v, {
     if (with_index)
       PN_CLOSURE(block)->method(P, block, P->lobby, v, PN_NUM(i));
@@ -461,6 +467,7 @@ PN potion_tuple_each(Potion *P, PN cl, PN self, PN block) {
 ///\return new PNTuple with the same size.
 PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_SIZE len = PN_TUPLE_LEN(self);
+  PN_CHECK_CLOSURE(block);
   NEW_TUPLE(t, len);
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
@@ -478,6 +485,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
 ///\return initial PN the value of the accumulator at the end of the iterations
 PN potion_tuple_reduce(Potion *P, PN cl, PN self, PN block, PN initial) {
   DBG_CHECK_TUPLE(self);
+  PN_CHECK_CLOSURE(block);
   PN_TUPLE_EACH(self, i, v, {
     if(i == 0 && initial == PN_NIL)
       initial = v;
@@ -495,6 +503,7 @@ PN potion_tuple_reduce(Potion *P, PN cl, PN self, PN block, PN initial) {
 /// test implemented by the provided function.
 PN potion_tuple_filter(Potion *P, PN cl, PN self, PN block) {
   DBG_CHECK_TUPLE(self);
+  PN_CHECK_CLOSURE(block);
   int with_index = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   PN ret;
   PN tuple = potion_tuple_empty(P);
@@ -936,6 +945,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
 ///\param size PNInteger
 ///\return PNTuple
 PN potion_lobby_list(Potion *P, PN cl, PN self, PN size) {
+  PN_CHECK_INT(size);
+  if (PN_INT(size) < 0)
+    return potion_type_error_want(P, "size", size, "positive Integer");
   return potion_tuple_with_size(P, PN_INT(size));
 }
 
-- 
2.43.0


From b52f3b23fdede21bd681990219822e16343296df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 099/109] fix: << and >> of a number and another kind of value
 give 0.0 in the JIT

---
 core/number.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/number.c b/core/number.c
index c00b4bf..d0d3635 100644
--- a/core/number.c
+++ b/core/number.c
@@ -137,6 +137,7 @@ static PN potion_num_bitn(Potion *P, PN cl, PN self) {
  \param num PN_INT or PNDouble
  \return PNInteger or 0.0 for a PNDouble argument */
 static PN potion_num_bitl(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_NUM(num);
   if (PN_IS_INT(self) && PN_IS_INT(num))
     return PN_NUM(PN_INT(self) << PN_INT(num));
   return (PN)potion_double(P, 0.0);
@@ -147,6 +148,7 @@ static PN potion_num_bitl(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger or 0.0 for a PNDouble argument */
 static PN potion_num_bitr(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_NUM(num);
   if (PN_IS_INT(self) && PN_IS_INT(num))
     return PN_NUM(PN_INT(self) >> PN_INT(num));
   return (PN)potion_double(P, 0.0);
-- 
2.43.0


From ebdade848e04642b6f01218def67ddc2acf6c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 100/109] fix: buffered streams crash when closed, with too
 small a buffer or values of the wrong kind

---
 lib/buffile.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 6b9ad10..b34b620 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -10,7 +10,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
-//#include <errno.h>
+#include <errno.h>
 #include "potion.h"
 
 #ifndef SANDBOX
@@ -33,6 +33,15 @@ struct PNBufFile {
   char * path; ///< malloced copy of the name or NULL. The GC does not look into data
 };
 typedef vPN(BufFile) pn_ffile;
+/// a closed stream has no FILE anymore
+#define CHECK_OPEN(name) if (!self->file) { errno = EBADF; return potion_io_error(P, name); }
+/// size * nitems bytes must fit into the buffer
+#define CHECK_SIZES(buf, size, nitems)                          \
+  PN_CHECK_INT(size);                                           \
+  PN_CHECK_INT(nitems);                                         \
+  if (PN_INT(size) < 0 || PN_INT(nitems) < 0                    \
+      || (PN_INT(size) && PN_INT(nitems) > (long)PN_STR_LEN(potion_fwd(buf)) / PN_INT(size))) \
+    return potion_type_error_want(P, "size", size, "Integer within the buffer")
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 
 /**\memberof PNBufFile
@@ -43,6 +52,8 @@ const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
   if (!(file = fopen(PN_STR_PTR(path), PN_STR_PTR(modestr))))
     return potion_io_error(P, "open");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -73,6 +84,8 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   \returns PNBufFile or PNError */
 PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   FILE *file;
+  PN_CHECK_INT(fd);
+  PN_CHECK_STRB(modestr);
   if (!(file = fdopen(PN_INT(fd), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fdopen");
   self->siz = BufFileSize;
@@ -92,7 +105,9 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) ||
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
+  if ((PN_TYPE(stream) != PN_TUSER) || !stream->file ||
      !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
     return potion_io_error(P, "freopen");
   }
@@ -114,6 +129,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
 PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  PN_CHECK_STRB(modestr);
   buf = potion_fwd(buf);
   if (!(file = fmemopen(PN_STR_PTR(buf), PN_STR_LEN(buf), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fmemopen");
@@ -129,12 +145,16 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   \c flush and \c close a PNBufFile.
   \return PNInteger (0 or EOF) */
 PN potion_buffile_fclose(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fclose(self->file));
+  FILE *file = self->file;
+  CHECK_OPEN("close");
+  self->file = NULL;
+  return PN_NUM(fclose(file));
 }
 /**\memberof PNBufFile
   \c read the next character from a PNBufFile
   \return PNInteger */
 PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgetc");
   return PN_NUM(fgetc(self->file));
 }
 /**\memberof PNBufFile
@@ -142,6 +162,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgets");
   char line[1024] = "";
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
@@ -154,6 +175,9 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN("fread");
+  PN_CHECK_STRB(buf);
+  CHECK_SIZES(buf, size, nitems);
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -166,6 +190,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN("fwrite");
   switch (PN_TYPE(buf)) {
     case PN_TSTRING:
     case PN_TBYTES: break;
@@ -176,6 +201,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
     size = PN_NUM(PN_STR_LEN(potion_fwd(buf))); // in bytes
     nitems = PN_NUM(1);
   }
+  CHECK_SIZES(buf, size, nitems);
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
@@ -186,6 +212,8 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
   \param byte PNInteger
   \return PNInteger */
 PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
+  CHECK_OPEN("fputc");
+  PN_CHECK_INT(byte);
   return PN_NUM(fputc(PN_INT(byte), self->file));
 }
 /**\memberof PNBufFile
@@ -194,6 +222,8 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
   \return PNInteger or PNError */
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   int r;
+  CHECK_OPEN("fputs");
+  PN_CHECK_STRB(str);
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
@@ -202,6 +232,7 @@ PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
    \c "fflush"
    \return true or PNError */
 PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fflush");
   if (fflush(self->file))
     return potion_io_error(P, "fflush");
   return PN_TRUE;
@@ -212,6 +243,9 @@ PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
   \param whence PNInteger
   \return true or PNError */
 PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
+  CHECK_OPEN("fseek");
+  PN_CHECK_INT(offset);
+  PN_CHECK_INT(whence);
   if (fseek(self->file, PN_INT(offset), PN_INT(whence)))
     return potion_io_error(P, "fseek");
   return PN_TRUE;
@@ -221,6 +255,7 @@ PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
    beginning of the file.
   \return PNInteger */
 PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftell");
   long r = ftell(self->file);
   if (r == -1)
     return potion_io_error(P, "ftell");
@@ -230,19 +265,22 @@ PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
    \c "feof" tests the end-of-file indicator for the stream.
    \return true or false */
 PN potion_buffile_feof(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("feof");
   int r = feof(self->file);
   return r ? PN_TRUE : PN_FALSE;
 }
 /**\memberof PNBufFile
    \c "fileno" \returns its integer file descriptor. */
 PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fileno");
   return PN_NUM(fileno(self->file));
 }
 /**\memberof PNBufFile
    \c "unlink" the PNBufFile. close it if open.
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
-  if (fileno(self->file) != -1) fclose(self->file);
+  if (self->file) fclose(self->file);
+  self->file = NULL;
   if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
@@ -252,17 +290,20 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
 /**\memberof PNBufFile
    acquire for a thread ownership of a PNBufFile object */
 PN potion_buffile_flockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("flockfile");
   flockfile(self->file); return PN_TRUE;
 }
 /**\memberof PNBufFile
    non-blocking version of \see potion_buffile_flockfile().
   \returns 0 for success */
 PN potion_buffile_ftrylockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftrylockfile");
   return PN_NUM(ftrylockfile(self->file));
 }
 /**\memberof PNBufFile
    relinquish the ownership granted to the thread of a PNBufFile object */
 PN potion_buffile_funlockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("funlockfile");
   funlockfile(self->file); return PN_TRUE;
 }
 #endif
@@ -278,7 +319,7 @@ PN potion_buffile_fprintf(Potion *P, PN cl, pn_ffile self, PN fmt, ...) {
 /**\memberof PNBufFile
   \c "string" method. some internal descr */
 PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
-  int fd = fileno(self->file), rv;
+  int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
   if (self->path && fd != -1) {
-- 
2.43.0


From 3679417237af2e0ceed288992662d17adbf3d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 101/109] fix: File, def and readline crash with values of the
 wrong kind, and File read of many bytes

---
 core/file.c             | 27 +++++++++++++++------------
 core/objmodel.c         |  1 +
 lib/readline/readline.c |  1 +
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/core/file.c b/core/file.c
index 866277d..393e2d6 100644
--- a/core/file.c
+++ b/core/file.c
@@ -40,6 +40,8 @@ PN potion_file_new(Potion *P, PN cl, PN self, PN path, PN modestr) {
   struct PNFile * file = PN_ALLOC(PN_TFILE, struct PNFile);
   int fd;
   mode_t mode;
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
   if (strcmp(PN_STR_PTR(modestr), "r") == 0) {
     mode = O_RDONLY;
   } else if (strcmp(PN_STR_PTR(modestr), "r+") == 0) {
@@ -97,19 +99,20 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
  \param n PNInteger
  \return n PNBytes or nil or PNError */
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
+  PN str = PN_NIL;
+  PN_CHECK_INT(n);
+  if (PN_INT(n) < 0)
+    return potion_type_error_want(P, "n", n, "positive Integer");
   n = PN_INT(n);
-  char buf[n];
-  memset(buf, 0, n); // the collector takes words on the stack for pointers
-  int r = read(self->fd, buf, n);
-  if (r == -1) {
-    return potion_io_error(P, "read");
-    //perror("read");
-    // TODO: error
-    //return PN_NUM(-1);
-  } else if (r == 0) {
-    return PN_NIL;
-  }
-  return potion_byte_str2(P, buf, r);
+  char *buf = malloc(n + 1); // any size, the stack is small
+  if (!buf) return potion_io_error(P, "read");
+  ssize_t r = read(self->fd, buf, n);
+  if (r == -1)
+    str = potion_io_error(P, "read");
+  else if (r > 0)
+    str = potion_byte_str2(P, buf, r);
+  free(buf);
+  return str;
 }
 
 /**\memberof PNFile
diff --git a/core/objmodel.c b/core/objmodel.c
index bad6914..15e4522 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -360,6 +360,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   PN cl;
   vPN(Vtable) vt = (struct PNVtable *)self;
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
+  PN_CHECK_STR(key);
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 768684c..3f32232 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -8,6 +8,7 @@ PN pn_readline(Potion *P, PN cl, PN self, PN start) {
   char *line;
   PN r;
 
+  PN_CHECK_STRB(start);
   if (!loaded) {
     loaded = 1;
     linenoiseHistoryLoad("history.txt");
-- 
2.43.0


From 75529b272eeeae0168e1bbecadd7c2e93224b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:31 +0000
Subject: [PATCH 102/109] fix: nil? of a name is a syntax error

---
 core/syntax.y | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index d8b472d..503811b 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -259,9 +259,9 @@ or = ("||" | "or" !utfw) --
 not = ("!" | "not" !utfw) --
 keyword = ("and" | "or" | "not") !utfw
 
-nil = "nil" !utfw
-true = "true" !utfw
-false = "false" !utfw
+nil = "nil" !(utfw | "?")
+true = "true" !(utfw | "?")
+false = "false" !(utfw | "?")
 hexl = [0-9A-Fa-f]
 hex = '0x' < hexl+ >
 # wrong x-1 parsing precedence, whitespace #75
-- 
2.43.0


From 186a23d02340b7eaa2c8ac30e6dd09c77bdbaf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 103/109] fix: the code of a function crashes when called with
 missing or captured variables, and when cloned

---
 core/compile.c | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index d54cbc2..ece280d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -60,7 +60,29 @@ PN potion_proto_tree(Potion *P, PN cl, PN self) {
 /// call method of PNProto. i.e. apply - bind args to a closure.
 ///\param args
 PN potion_proto_call(Potion *P, PN cl, PN self, PN args) {
-  return potion_vm(P, self, P->lobby, args, 0, NULL);
+  vPN(Proto) f = PN_PROTO(self);
+  PN_SIZE i, upc = f->upvalsize;
+  int arity = potion_sig_arity(P, f->sig);
+  PN upargs[upc + 1];
+  vPN(Tuple) all = (vPN(Tuple))potion_tuple_with_size(P, arity);
+  if (args != PN_NIL) PN_CHECK_TUPLE(args);
+  // missing arguments have their defaults, the others are dropped
+  for (i = 0; i < arity; i++) {
+    PN v = PN_NIL;
+    if (args != PN_NIL && i < PN_TUPLE_LEN(args))
+      v = PN_TUPLE_AT(args, i);
+    else if (args != PN_NIL) {
+      PN s = potion_sig_at(P, f->sig, i);
+      if (PN_TUPLE_LEN(s) == 3) v = PN_TUPLE_AT(s, 2);
+    }
+    all->set[i] = v;
+    PN_TOUCH(all); // sig_at may run the collector
+  }
+  // the code alone knows none of the variables it captures
+  memset((void*)upargs, 0, sizeof(upargs));
+  for (i = 0; i < upc; i++)
+    upargs[i] = (PN)potion_ref(P, PN_NIL);
+  return potion_vm(P, (PN)f, P->lobby, (PN)all, upc, upargs);
 }
 
 ///\return string of the sig tuple. "arg1=o,arg2=o"
@@ -1119,7 +1141,7 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
 /// shares name, tree. copies the rest
 PN potion_proto_clone(Potion *P, PN cl, PN self) {
   vPN(Proto) f = (struct PNProto *)self;
-  vPN(Proto) n = PN_ALLOC(PN_TPROTO, struct PNProto);
+  vPN(Proto) n = PN_CALLOC_N(PN_TPROTO, struct PNProto, 0);
   PN PN_clone = PN_STR("clone");
   PNAsm * volatile asmb;
   PN len;
@@ -1128,23 +1150,24 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   n->name = f->name;
   n->source = f->source;
   n->stack = f->stack;
-  n->protos = potion_send(PN_clone, f->protos);
-  n->paths  = potion_send(PN_clone, f->paths);
-  n->locals = potion_send(PN_clone, f->locals);
-  n->upvals = potion_send(PN_clone, f->upvals);
-  n->values = potion_send(PN_clone, f->values);
-  n->debugs = potion_send(PN_clone, f->debugs);
+  n->protos = potion_send(f->protos, PN_clone);
+  n->paths  = potion_send(f->paths, PN_clone);
+  n->locals = potion_send(f->locals, PN_clone);
+  n->upvals = potion_send(f->upvals, PN_clone);
+  n->values = potion_send(f->values, PN_clone);
+  n->debugs = potion_send(f->debugs, PN_clone);
   n->tree   = f->tree;
   n->localsize = f->localsize;
   n->upvalsize = f->upvalsize;
   n->pathsize = f->pathsize;
-  n->sig = PN_IS_TUPLE(f->sig) ? potion_send(PN_clone, f->sig) : f->sig;
+  n->sig = PN_IS_TUPLE(f->sig) ? potion_send(f->sig, PN_clone) : f->sig;
 
   len = ((PNAsm *)f->asmb)->len;
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
   PN_MEMCPY_N(asmb->ptr, ((PNAsm *)f->asmb)->ptr, u8, len);
   asmb->len = len;
   n->asmb = (PN)asmb;
+  n->arity = f->arity;
   PN_TOUCH(n);
 
   return (PN)n;
-- 
2.43.0


From 757b5b8377f1ac404b48beed0feb2ba569edd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:03 +0000
Subject: [PATCH 104/109] fix: bsearch of an empty tuple crashes

---
 core/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index ea651a2..ed3f309 100644
--- a/core/table.c
+++ b/core/table.c
@@ -744,7 +744,7 @@ PN potion_tuple_bsearch(Potion *P, PN cl, PN self, PN x) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   PNUniq xu = PN_UNIQ(x);
-  long i = 0, j = t->len - 1;
+  long i = 0, j = (long)t->len - 1;
   while (i <= j) {
     long m = j + ((i - j) / 2);
     PNUniq u = PN_UNIQ(t->set[m]);
-- 
2.43.0


From ba9b596ce60a6bd30fa2ff7b486138bd3e89f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:08 +0000
Subject: [PATCH 105/109] fix: a step of zero is refused: it ended the process
 with SIGFPE or never came to an end

---
 core/number.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/number.c b/core/number.c
index d0d3635..4f37ac2 100644
--- a/core/number.c
+++ b/core/number.c
@@ -343,6 +343,8 @@ static PN potion_int_step(Potion *P, PN cl, PN self, PN end, PN step, PN block)
   PN_CHECK_INT(step);
   if (PN_TYPE(block) != PN_TCLOSURE)
     potion_fatal("block argument for step is not a closure");
+  if (k == 0)
+    return potion_type_error_want(P, "step", step, "non-zero Integer");
   for (i = PN_INT(self); i <= j; i += k) {
     PN_CLOSURE(block)->method(P, block, P->lobby, PN_NUM(i));
   }
-- 
2.43.0


From b34102a79027c291f1b20261fb3ef6ff01b436e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:43 +0000
Subject: [PATCH 106/109] fix: cmp of a value without an own cmp, as a table or
 a function, recursed until the stack was full

---
 core/primitive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/primitive.c b/core/primitive.c
index 4403407..5884d16 100644
--- a/core/primitive.c
+++ b/core/primitive.c
@@ -26,7 +26,7 @@ static PN potion_any_is_nil(Potion *P, PN closure, PN self) {
 PN potion_any_cmp(Potion *P, PN cl, PN self, PN value) {
   return (self == P->lobby)
     ? ((value == P->lobby) ? PN_NUM(0) : PN_NUM(1)) // Lobby is greater than anything
-    : potion_send(self, PN_cmp, value);
+    : self == value ? PN_ZERO : potion_type_error(P, self); // no own cmp
 }
 /** memberof NilKind
  "cmp" method. nil is 0 or "" or FALSE as cmp context
-- 
2.43.0


From 0e51350b4c002df658c67fbfa82d863e82c23c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:43 +0000
Subject: [PATCH 107/109] fix: size of a number, boolean or nil reads memory at
 the value

---
 core/objmodel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 15e4522..4de4022 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -556,10 +556,10 @@ PN potion_object_new(Potion *P, PN cl, PN self) {
    Note that older versions just returned a raw integer, which made it unusable as method. */
 PN potion_object_size(Potion *P, PN cl, PN self) {
   vPN(Object) obj = (struct PNObject *)self;
-  if (!PN_TYPECHECK(PN_VTYPE(obj)))
-    return PN_ZERO;
   if (!PN_IS_PTR(obj))
     return PN_NUM(sizeof(PN));
+  if (!PN_TYPECHECK(PN_VTYPE(obj)))
+    return PN_ZERO;
   return PN_NUM(sizeof(struct PNObject)
                 + (((struct PNVtable *)PN_VTABLE(obj->vt))->ivlen * sizeof(PN)));
 }
-- 
2.43.0


From e33e23231137cb1b9b2150c24010c9c5786feea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:48 +0000
Subject: [PATCH 108/109] fix: calling the kind of code made code of nothing,
 which crashes when it is shown, cloned or called

---
 core/objmodel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 4de4022..b303ebd 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -546,7 +546,7 @@ PN potion_object_new(Potion *P, PN cl, PN self) {
   vPN(Vtable) vt = (struct PNVtable *)self;
   if (PN_IS_METACLASS(vt)) // TODO: error
     return PN_NIL;
-  if (vt->type == PN_TVTABLE) // TODO: error
+  if (vt->type == PN_TVTABLE || vt->type == PN_TPROTO) // TODO: error
     return PN_NIL;
   return (PN)PN_ALLOC_N(vt->type, struct PNObject,
     potion_type_size(P, (struct PNObject *)self) - sizeof(struct PNObject) + vt->ivlen * sizeof(PN));
-- 
2.43.0


From 7ab011c32696ca0b7016079ef82263624cf93bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:58 +0000
Subject: [PATCH 109/109] fix: an argument stated by its number was replaced by
 its default if it was negative or old

---
 core/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index e92c37d..ecbaae0 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -181,8 +181,8 @@ PN potion_vm_proto(Potion *P, PN cl, PN self, ...) {
 			   ? potion_type_char(PN_TYPE(PN_TUPLE_AT(s,2)))
 			   : PN_TUPLE_LEN(s) > 1
 			     ? PN_INT(PN_TUPLE_AT(s,1)) : 0);
-        if ((numargs && (i >= numargs)) //numargs provided via self
-	  || PN_IS_FFIPTR(arg)
+        if (numargs ? i >= numargs //numargs provided via self
+	  : PN_IS_FFIPTR(arg)
 	  || (type && (potion_type_char(PN_TYPE(arg)) != type))) { //replace with default
           // default value or 0
           ary = PN_PUSH(ary, PN_TUPLE_LEN(s) == 3 ? PN_TUPLE_AT(s,2) : potion_type_default(P, type));
-- 
2.43.0

