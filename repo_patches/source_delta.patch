From ef55ace068d3e1da9ecbeb3dbef0c155f21149e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 01/54] fix: int multiplication whose exact result is minInt no
 longer raises Overflow

---
 src/runtime/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 5c61ffb..b10235d 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1448,7 +1448,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if( x < 0 ) { x = -x; isNegative = 1; }
         if( y < 0 ) { y = -y; isNegative = !isNegative; }
         if( y > x ) { tmp = y; y = x; x = tmp; }
-        if( y > MaxChunk ) 
+        if( y > MaxChunk + 1 ) /* the largest chunk product may be minInt */
 	  goto raise_overflow;
         if( x <= MaxChunk )
           { accu = Val_long(isNegative?(-(x * y)):(x * y)); }
-- 
2.43.0


From 29bb174b698abe6e78322323629db58348515bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 02/54] fix: Word.~ of the word with only the top bit set no
 longer raises Overflow

---
 src/mosmllib/Word.mlp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 04959af..b21a3bb 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -54,7 +54,7 @@ in
     fun xorb (x, y) = xorb_ x y;
     fun notb x      = xorb_ x (fromInt ~1); 
 
-    val ~ = fn w => fromInt(~(toInt w)) 
+    val ~ = fn w => fromInt 0 - w
 
     fun << (w, k) = 
 	if toInt k >= WORDSIZE orelse toInt k < 0 then fromInt 0
-- 
2.43.0


From 4f6ff68f3577440346e703211ba5ef8e467885a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:04 +0000
Subject: [PATCH 03/54] fix: array copy with a huge destination index raises
 Subscript, not Overflow

---
 src/mosmllib/Array.mlp           | 4 ++--
 src/mosmllib/ArraySlice.sml      | 4 ++--
 src/mosmllib/Word8Array.mlp      | 4 ++--
 src/mosmllib/Word8ArraySlice.sml | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mosmllib/Array.mlp b/src/mosmllib/Array.mlp
index 50d7678..7ec22c9 100644
--- a/src/mosmllib/Array.mlp
+++ b/src/mosmllib/Array.mlp
@@ -95,7 +95,7 @@ fun copy {src=a1: 'a array, dst=a2: 'a array, di=i2} =
 	and a2 = from_array a2
 	val n = length_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse n > length_ a2 - i2 then 
 	    raise Subscript
 	else		(* copy from high to low *)
 	    let fun hi2lo j = 
@@ -109,7 +109,7 @@ fun copyVec {src=a1: 'a vector, dst=a2: 'a array, di=i2} =
     let val a2 = from_array a2
 	val n = lengthv_ a1
     in
-	if i2<0 orelse i2+n > length_ a2 then 
+	if i2<0 orelse n > length_ a2 - i2 then 
 	    raise Subscript
 	else 
 	    let fun lo2hi j = 
diff --git a/src/mosmllib/ArraySlice.sml b/src/mosmllib/ArraySlice.sml
index 71b4782..14a8c96 100644
--- a/src/mosmllib/ArraySlice.sml
+++ b/src/mosmllib/ArraySlice.sml
@@ -72,7 +72,7 @@ fun copy {src=(a1,i1,n) : 'a slice, dst=a2: 'a array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse n > length_ a2 - i2 then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -91,7 +91,7 @@ fun copyVec {src : 'a VectorSlice.slice, dst=a2: 'a array, di=i2} =
     let val (a1, i1, n) = VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse n > length_ a2 - i2 then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
diff --git a/src/mosmllib/Word8Array.mlp b/src/mosmllib/Word8Array.mlp
index f77a0a2..33e9b9d 100644
--- a/src/mosmllib/Word8Array.mlp
+++ b/src/mosmllib/Word8Array.mlp
@@ -74,14 +74,14 @@ fun vector (ref a) =
 fun copy {src = ref a1: array, dst = ref a2: array, di=i2} =
     let val n = length_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2 < 0 orelse n > length_ a2 - i2 then raise Subscript
 	else blitaa_ a1 0 a2 i2 n
     end
 
 fun copyVec {src = a1: vector, dst = ref a2: array, di=i2} =
     let val n = lengthv_ a1
     in
-	if i2 < 0 orelse i2+n > length_ a2 then raise Subscript
+	if i2 < 0 orelse n > length_ a2 - i2 then raise Subscript
 	else blitva_ a1 0 a2 i2 n
     end
 
diff --git a/src/mosmllib/Word8ArraySlice.sml b/src/mosmllib/Word8ArraySlice.sml
index bc7deb9..181edef 100644
--- a/src/mosmllib/Word8ArraySlice.sml
+++ b/src/mosmllib/Word8ArraySlice.sml
@@ -73,7 +73,7 @@ fun copy {src=(a1,i1,n) : slice, dst=a2: array, di=i2} =
     let val a1 = from_array a1
 	and a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse n > length_ a2 - i2 then raise Subscript
 	else if i1 < i2 then		(* copy from high to low *)
 	         let fun hi2lo j = 
 		     if j >= 0 then
@@ -92,7 +92,7 @@ fun copyVec {src : vector_slice, dst=a2: array, di=i2} =
     let val (a1, i1, n) = Word8VectorSlice.base src
 	val a2 = from_array a2
     in
-	if i2<0 orelse i2+n > length_ a2 then raise Subscript
+	if i2<0 orelse n > length_ a2 - i2 then raise Subscript
 	else 
 	    let fun lo2hi j = if j < n then
 		(update_ a2 (i2+j) (subv_ a1 (i1+j)); lo2hi (j+1))
-- 
2.43.0


From d13b026497795ea6fc3a1cbc72a70e3a6af4d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:44 +0000
Subject: [PATCH 04/54] fix: Array2 checks sizes and regions also when there
 are no rows, without overflow

---
 src/mosmllib/Array2.sml | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/mosmllib/Array2.sml b/src/mosmllib/Array2.sml
index 7a087d2..670b0bd 100644
--- a/src/mosmllib/Array2.sml
+++ b/src/mosmllib/Array2.sml
@@ -28,9 +28,11 @@ fun fromList [] = ref (Vector.fromList [], 0, 0)
     end
 
 fun array (m, n, x) = 
+    if n < 0 then raise Size else
     ref (Vector.tabulate(m, fn _ => Array.array(n, x)), m, n);
 
 fun tabulate RowMajor (m, n, f) = 
+    if n < 0 then raise Size else
     ref (Vector.tabulate(m, fn i => Array.tabulate(n, fn j => f(i,j))), m, n)
   | tabulate ColMajor (m, n, f) = 
     if m > 0 andalso n > 0 then 
@@ -82,15 +84,20 @@ fun stop len i NONE =
     if i<0 orelse i>len then raise Subscript
     else len
   | stop len i (SOME n) = 
-    if i<0 orelse n<0 orelse i+n>len then raise Subscript
+    if i<0 orelse n<0 orelse n>len-i then raise Subscript
     else i+n;
 
+(* Check the columns of a region also when it has no rows: *)
+
+fun checkcols n col ncols = (stop n col ncols; ());
+
 fun foldi RowMajor f b { base = ref (a, m, n), row, col, nrows, ncols } = 
-    VectorSlice.foldli 
+    (checkcols n col ncols;
+     VectorSlice.foldli 
            (fn (i, xs, res) => 
 	       ArraySlice.foldli 
 	       (fn (j,x,res) => f(i,j,x,res)) res (ArraySlice.slice(xs,col,ncols)))
-	   b (VectorSlice.slice(a, row, nrows))
+	   b (VectorSlice.slice(a, row, nrows)))
   | foldi ColMajor f b { base = ref (a, m, n), row, col, nrows, ncols } = 
     let val stoprow = stop m row nrows
 	val stopcol = stop n col ncols
@@ -107,11 +114,12 @@ fun app RowMajor f (ref (a, _, _)) =
   | app ColMajor f arr  =
     fold ColMajor (fn (a, _) => f a) () arr
 
-fun appi RowMajor f { base = ref (a, _, _), row, col, nrows, ncols } =
-    VectorSlice.appi 
+fun appi RowMajor f { base = ref (a, _, n), row, col, nrows, ncols } =
+    (checkcols n col ncols;
+     VectorSlice.appi 
           (fn (i, xs) => ArraySlice.appi 
 	   (fn (j, x) => f(i, j, x)) (ArraySlice.slice(xs, col, ncols)))
-	  (VectorSlice.slice(a, row, nrows))
+	  (VectorSlice.slice(a, row, nrows)))
   | appi ColMajor f reg =
     foldi ColMajor (fn (i, j, a, _) => f (i, j, a)) () reg
 
@@ -121,11 +129,12 @@ fun modify RowMajor f (ref (a, _, _)) =
     foldi ColMajor (fn (i, j, a, _) => update(arr, i, j, f a)) ()
           {base=arr, row=0, col=0, nrows=NONE, ncols=NONE}
 
-fun modifyi RowMajor f { base = ref (a, _, _), row, col, nrows, ncols } =
-    VectorSlice.appi 
+fun modifyi RowMajor f { base = ref (a, _, n), row, col, nrows, ncols } =
+    (checkcols n col ncols;
+     VectorSlice.appi 
           (fn (i, xs) => ArraySlice.modifyi (fn (j, x) => f(i, j, x)) 
 	                               (ArraySlice.slice(xs, col, ncols)))
-	  (VectorSlice.slice(a, row, nrows))
+	  (VectorSlice.slice(a, row, nrows)))
   | modifyi ColMajor f (reg as {base, ...}) =
     foldi ColMajor (fn (i, j, a, _) => update(base, i, j, f (i, j, a))) () reg
 
@@ -133,6 +142,10 @@ fun copy { src = { base = ref (sa, sm, sn), row = src_row, col = src_col,
 		   nrows, ncols }, 
 	   dst = ref (da, dm, dn), dst_row, dst_col } =
     let val stoprow = stop sm src_row nrows
+	val stopcol = stop sn src_col ncols
+	(* The destination region must be valid, too: *)
+	val _ = stop dm dst_row (SOME (stoprow - src_row))
+	val _ = stop dn dst_col (SOME (stopcol - src_col))
 	fun bottomUp from_row to_row = 
 	    if from_row < src_row then ()
 	    else
-- 
2.43.0


From a236572f5e9fa05ec5515a0a736ed8c87b91fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:36 +0000
Subject: [PATCH 05/54] fix: Substring.slice with a huge length raises
 Subscript, not Overflow

---
 src/mosmllib/Substring.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Substring.sml b/src/mosmllib/Substring.sml
index bf50639..b72f572 100644
--- a/src/mosmllib/Substring.sml
+++ b/src/mosmllib/Substring.sml
@@ -62,7 +62,7 @@ fun slice ((s', i', n'), i, NONE) =
      *  0 <= i' <= i'+i <= i'+i + (n'-i) = i'+n' <= size s' *)
     else raise Subscript
   | slice ((s', i', n'), i, SOME n) =    
-    if 0 <= i andalso 0 <= n andalso i+n <= n' then (s', i'+i, n)
+    if 0 <= i andalso 0 <= n andalso n <= n'-i then (s', i'+i, n)
     (* If the argument is valid, then so is the result:
      *  0 <= i' <= i'+i <= i'+i + n <= i'+n' <= size s' *)
     else raise Subscript
-- 
2.43.0


From d4fff8d27c635ded9b4d6aa96be2f70d3d7b722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:36 +0000
Subject: [PATCH 06/54] fix: String.fromString accepts a formatting sequence at
 the end of the string

---
 src/mosmllib/String.sml | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mosmllib/String.sml b/src/mosmllib/String.sml
index 590a6c6..3a05287 100644
--- a/src/mosmllib/String.sml
+++ b/src/mosmllib/String.sml
@@ -176,13 +176,27 @@ fun find p s =
 
 fun fromString s =
     let fun getc i = if i < size s then SOME (sub_ s i, i+1) else NONE
+	(* Skip the rest f...f\ of a formatting sequence, if there is one *)
+	fun skipgap nonempty src = 
+	    case getc src of
+		SOME(#" ",  rest) => skipgap true rest
+	      | SOME(#"\t", rest) => skipgap true rest
+	      | SOME(#"\n", rest) => skipgap true rest
+	      | SOME(#"\r", rest) => skipgap true rest
+	      | SOME(#"\f", rest) => skipgap true rest
+	      | SOME(#"\v", rest) => skipgap true rest
+	      | SOME(#"\\", rest) => if nonempty then SOME rest else NONE
+	      | _                 => NONE
 	fun h src res = 
 	    case getc src of
 		NONE              => SOME (implode(List.rev res))
 	      | SOME(#"\\", src1) => 
-		    (case Strbase.fromMLescape getc src1 of
-			 NONE          => NONE
-		       | SOME(c, src2) => h src2 (c :: res))
+		    (case skipgap false src1 of
+			 SOME src2 => h src2 res
+		       | NONE      => 
+			 case Strbase.fromMLescape getc src1 of
+			     NONE          => NONE
+			   | SOME(c, src2) => h src2 (c :: res))
 	      | SOME(c, src1)     => h src1 (c :: res)
     in h 0 [] end;
 	
-- 
2.43.0


From 3792d12b8820c449aa393c1ee91bfcfebe7ce572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:28 +0000
Subject: [PATCH 07/54] fix: String.extract(s, minInt, NONE) raises Subscript,
 not Overflow

---
 src/mosmllib/String.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/String.sml b/src/mosmllib/String.sml
index 3a05287..43c326a 100644
--- a/src/mosmllib/String.sml
+++ b/src/mosmllib/String.sml
@@ -67,8 +67,9 @@ fun implode cs =
   in (init cs 0; newstr) end;
 
 fun extract (s, i, slicelen) =
-    let val n = case slicelen of NONE => size s - i | SOME n => n
-	val newstr = if i<0 orelse n<0 orelse n>size s-i then raise Subscript
+    let val n = if i<0 then raise Subscript
+		else case slicelen of NONE => size s - i | SOME n => n
+	val newstr = if n<0 orelse n>size s-i then raise Subscript
 		     else mkstring_ n
     in blit_ s i newstr 0 n; newstr end;
 
-- 
2.43.0


From 0867acd2486a34e9d824466399771ab25bc3b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:54 +0000
Subject: [PATCH 08/54] verification hooks (MOSML_VERIFY): collections and
 interrupts at chosen points

---
 src/runtime/interp.c   |  4 +--
 src/runtime/major_gc.c | 18 ++++++++++
 src/runtime/memory.h   |  2 +-
 src/runtime/minor_gc.c | 81 ++++++++++++++++++++++++++++++++++++++++++
 src/runtime/minor_gc.h | 13 +++++++
 5 files changed, 115 insertions(+), 3 deletions(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index b10235d..166487a 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -593,7 +593,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         env = sp[1];
         extra_args = Long_val(sp[2]);
 	sp += 3;
-	if (something_to_do) goto process_signal; 
+	if (something_to_do VERIFY_POLL_POINT) goto process_signal; 
       }
       Next;
 
@@ -743,7 +743,7 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
         if (--poll_count == 0) { poll_count = 500; poll_break(); }
       }
 #endif
-      if (something_to_do) goto process_signal;
+      if (something_to_do VERIFY_POLL_POINT) goto process_signal;
       Next;
 
     Instruct(PUSH_GETGLOBAL_APPLY2): 
diff --git a/src/runtime/major_gc.c b/src/runtime/major_gc.c
index b189588..d34ee75 100644
--- a/src/runtime/major_gc.c
+++ b/src/runtime/major_gc.c
@@ -608,6 +608,9 @@ static void sweep_slice (long work)
 	if (Tag_hd (hd) == Final_tag){
 	  Final_fun (Val_hp (hp)) (Val_hp (hp));
 	}
+#ifdef MOSML_VERIFY
+	verify_poison (Bp_hp (hp), gc_sweep_hp);
+#endif
 	gc_sweep_hp = fl_merge_block (Bp_hp (hp));
 	break;
       case Gray:
@@ -665,6 +668,21 @@ void major_collection_slice (void)
 
 #define Margin 100  /* Make it a little faster to be on the safe side. */
 
+#ifdef MOSML_VERIFY
+  if (verify_major_slice () > 0){
+    long work = verify_major_slice ();
+    if (gc_phase == Phase_mark) mark_slice (work);
+    else if (gc_phase == Phase_weak) weak_phase ();
+    else sweep_slice (work);
+    stat_major_words += allocated_words;
+    allocated_words = 0;
+    extra_heap_memory = 0;
+    return;
+  }else if (verify_major_slice () < 0){
+    finish_major_cycle ();
+    return;
+  }
+#endif
   if (gc_phase == Phase_mark){
     mark_slice (2 * (100 - percent_free)
 		* (allocated_words * 3 / percent_free / 2
diff --git a/src/runtime/memory.h b/src/runtime/memory.h
index 97945e4..6361dcf 100644
--- a/src/runtime/memory.h
+++ b/src/runtime/memory.h
@@ -26,7 +26,7 @@ EXTERN char * stat_resize (char *, asize_t);     /* Size in bytes. */
 #define Alloc_small(result, wosize, tag) {				      \
   char *_res_ = young_ptr;						      \
   young_ptr += Bhsize_wosize (wosize);					      \
-  if (young_ptr > young_end){						      \
+  if (young_ptr > young_end VERIFY_GC_POINT){				      \
     Setup_for_gc;							      \
     minor_collection ();						      \
     Restore_after_gc;							      \
diff --git a/src/runtime/minor_gc.c b/src/runtime/minor_gc.c
index 6b96154..f0611fd 100644
--- a/src/runtime/minor_gc.c
+++ b/src/runtime/minor_gc.c
@@ -135,6 +135,9 @@ void minor_collection(void)
   local_roots (oldify);
   for (r = ref_table; r < ref_table_ptr; r++) oldify (*r, **r);
   stat_minor_words += Wsize_bsize (young_ptr - young_start);
+#ifdef MOSML_VERIFY
+  verify_poison (young_start, young_ptr < young_end ? young_ptr : young_end);
+#endif
   young_ptr = young_start;
   ref_table_ptr = ref_table;
   ref_table_limit = ref_table_threshold;
@@ -179,3 +182,81 @@ void realloc_ref_table (void)
     ref_table_limit = ref_table_end;
   }
 }
+
+#ifdef MOSML_VERIFY
+/* Verification hooks, configured by environment variables:
+     MOSML_VERIFY_GC_AT=k      minor collection at the k'th allocation
+     MOSML_VERIFY_GC_EVERY=n   minor collection at every n'th allocation
+     MOSML_VERIFY_SLICE=w      each major slice does w words of work
+                               (w < 0: a whole major cycle)
+     MOSML_VERIFY_INTR_AT=k    an interrupt arrives at the k'th poll
+     MOSML_VERIFY_POISON=0     do not overwrite freed memory
+     MOSML_VERIFY_STATS=file   at exit, write the numbers of points passed */
+
+#include <stdio.h>
+#include "signals.h"
+
+extern CODE raise_break_exn;
+static int verify_ready = 0, verify_poisoning = 1;
+static long verify_allocs = 0, verify_polls = 0;
+static long verify_gc_at = 0, verify_gc_every = 0, verify_intr_at = 0;
+static int verify_slice = 0;
+
+static long verify_getenv (char *name, long dflt)
+{
+  char *s = getenv (name);
+  return s == NULL ? dflt : atol (s);
+}
+
+static void verify_report (void)
+{
+  FILE *f = fopen (getenv ("MOSML_VERIFY_STATS"), "w");
+  if (f != NULL){
+    fprintf (f, "allocs %ld polls %ld minors %ld majors %ld\n", verify_allocs,
+	     verify_polls, stat_minor_collections, stat_major_collections);
+    fclose (f);
+  }
+}
+
+static void verify_init (void)
+{
+  verify_ready = 1;
+  verify_gc_at = verify_getenv ("MOSML_VERIFY_GC_AT", 0);
+  verify_gc_every = verify_getenv ("MOSML_VERIFY_GC_EVERY", 0);
+  verify_intr_at = verify_getenv ("MOSML_VERIFY_INTR_AT", 0);
+  verify_slice = verify_getenv ("MOSML_VERIFY_SLICE", 0);
+  verify_poisoning = verify_getenv ("MOSML_VERIFY_POISON", 1);
+  if (getenv ("MOSML_VERIFY_STATS") != NULL) atexit (verify_report);
+}
+
+int verify_gc_point (void)
+{
+  if (verify_polls == 0) return 0;	/* the program does not run yet */
+  ++ verify_allocs;
+  return verify_allocs == verify_gc_at
+    || (verify_gc_every > 0 && verify_allocs % verify_gc_every == 0);
+}
+
+int verify_poll_point (void)
+{
+  if (! verify_ready) verify_init ();
+  if (++ verify_polls == verify_intr_at){
+    signal_handler = raise_break_exn;
+    signal_number = 0;
+    execute_signal ();
+  }
+  return something_to_do;
+}
+
+int verify_major_slice (void)
+{
+  if (! verify_ready) verify_init ();
+  return verify_slice;
+}
+
+void verify_poison (char *from, char *to)
+{
+  if (verify_poisoning)
+    for (; from < to; from += sizeof (value)) *(value *) from = 0x5a5a5a5a5a5a5a58;
+}
+#endif
diff --git a/src/runtime/minor_gc.h b/src/runtime/minor_gc.h
index 0d75265..0c966d1 100644
--- a/src/runtime/minor_gc.h
+++ b/src/runtime/minor_gc.h
@@ -16,4 +16,17 @@ extern void minor_collection (void);
 extern void realloc_ref_table (void);
 
 
+#ifdef MOSML_VERIFY
+/* Verification hooks: collections and interrupts at chosen points. */
+extern int verify_gc_point (void);
+extern int verify_poll_point (void);
+extern int verify_major_slice (void);
+extern void verify_poison (char *, char *);
+#define VERIFY_GC_POINT || verify_gc_point ()
+#define VERIFY_POLL_POINT || verify_poll_point ()
+#else
+#define VERIFY_GC_POINT
+#define VERIFY_POLL_POINT
+#endif
+
 #endif /* _minor_gc_ */
-- 
2.43.0


From ad1dd3804bf343597fdec9a1da861d3112975856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:53 +0000
Subject: [PATCH 09/54] Revert "fix: String.fromString accepts a formatting
 sequence at the end of the string"

This reverts commit d4fff8d27c635ded9b4d6aa96be2f70d3d7b722a.
---
 src/mosmllib/String.sml | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/mosmllib/String.sml b/src/mosmllib/String.sml
index 43c326a..85d77b1 100644
--- a/src/mosmllib/String.sml
+++ b/src/mosmllib/String.sml
@@ -177,27 +177,13 @@ fun find p s =
 
 fun fromString s =
     let fun getc i = if i < size s then SOME (sub_ s i, i+1) else NONE
-	(* Skip the rest f...f\ of a formatting sequence, if there is one *)
-	fun skipgap nonempty src = 
-	    case getc src of
-		SOME(#" ",  rest) => skipgap true rest
-	      | SOME(#"\t", rest) => skipgap true rest
-	      | SOME(#"\n", rest) => skipgap true rest
-	      | SOME(#"\r", rest) => skipgap true rest
-	      | SOME(#"\f", rest) => skipgap true rest
-	      | SOME(#"\v", rest) => skipgap true rest
-	      | SOME(#"\\", rest) => if nonempty then SOME rest else NONE
-	      | _                 => NONE
 	fun h src res = 
 	    case getc src of
 		NONE              => SOME (implode(List.rev res))
 	      | SOME(#"\\", src1) => 
-		    (case skipgap false src1 of
-			 SOME src2 => h src2 res
-		       | NONE      => 
-			 case Strbase.fromMLescape getc src1 of
-			     NONE          => NONE
-			   | SOME(c, src2) => h src2 (c :: res))
+		    (case Strbase.fromMLescape getc src1 of
+			 NONE          => NONE
+		       | SOME(c, src2) => h src2 (c :: res))
 	      | SOME(c, src1)     => h src1 (c :: res)
     in h 0 [] end;
 	
-- 
2.43.0


From e72969cd33c157be5b0c358b832883acd02f14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 10/54] fix: Polygdbm keys and data survive marshalling on
 64-bit machines

---
 src/runtime/mosml.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index a84c682..d98ff44 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1359,15 +1359,15 @@ value string_mlval(value val)	/* ML */
      not used from now on. */
   if (extern_pos == 0)
     {
-      s = alloc_string(8);
+      s = alloc_string(2 * sizeof(asize_t));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
       ((asize_t *)s)[1] = (asize_t)res;    
     }
   else
     {
-      s = alloc_string(4 + extern_pos * sizeof(unsigned long));
+      s = alloc_string(sizeof(asize_t) + extern_pos * sizeof(unsigned long));
       ((asize_t *)s)[0] = (asize_t)extern_pos; 
-      bcopy((char *) extern_block, &Byte(s, 4), 
+      bcopy((char *) extern_block, &Byte(s, sizeof(asize_t)), 
 	    extern_pos * sizeof(unsigned long));
     }
   stat_free((char *) extern_block);
@@ -1402,11 +1402,11 @@ value mlval_string(value s)	/* ML */
   hd = Hd_val (res);
   color = Color_hd (hd);
   Assert (color == White || color == Black);
-  if (bhsize + 4 > string_length(s)) {
+  if (bhsize + sizeof(asize_t) > string_length(s)) {
     Hd_val (res) = hd;                      /* Avoid confusing the GC. */
     failwith ("mlval_string: truncated object");
   }
-  bcopy(&Byte(s, 4), Hp_val(res), bhsize);
+  bcopy(&Byte(s, sizeof(asize_t)), Hp_val(res), bhsize);
   adjust_pointers((value*)(Hp_val (res)), whsize, color);
 
   return res;
-- 
2.43.0


From 7689ce17ec55b13ca9530005ee1d3d32cf585e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 11/54] fix: Regex matching survives a garbage collection while
 its result is built

---
 src/dynlibs/mregex/mregex.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index d5484cb..4dda106 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -141,6 +141,8 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
     /* Find actual number of named substrings */
     value res;
     int strlen = len_susval(susval);
+    /* The allocations below may move susval, so get its start offset now */
+    long start = start_susval(susval);
     int last = 0;
     int i = 0;
     // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
@@ -180,7 +182,7 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
 	if (pmatch[i].rm_so != -1) { /* Substring took part in the match */
 	  /* Component 1: the substring start byte offset  */
 	  modify(&Field(substr, 1), 
-		 Val_long(start_susval(susval) + pmatch[i].rm_so));
+		 Val_long(start + pmatch[i].rm_so));
 	  /* Component 2: the substring length in bytes    */
 	  modify(&Field(substr, 2), 
 		 Val_long(pmatch[i].rm_eo - pmatch[i].rm_so));
@@ -221,7 +223,13 @@ EXTERNML value mregex_regexec_sus(value regex, value eflagsval,
   int nmatch = nmatch_val(regex);
   regmatch_t* pmatch = pmatch_val(regex);
   int eflags = Long_val(eflagsval);
-  return regmatch_sus(preg, nmatch, pmatch, eflags, susval);
+  value res;
+  /* Keep regex alive: its finalization would free pmatch */
+  Push_roots(r, 1);
+  r[0] = regex;
+  res = regmatch_sus(preg, nmatch, pmatch, eflags, susval);
+  Pop_roots();
+  return res;
 }
 
 /* ML type: regex -> word -> substring -> bool */
-- 
2.43.0


From 85a10d7c343ccb39671275ff65bde0d1fdbd522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:18 +0000
Subject: [PATCH 12/54] fix: compiling a match on integer constants far apart
 does not raise Overflow

---
 src/compiler/Back.sml | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/Back.sml b/src/compiler/Back.sml
index e5d86df..20a7874 100644
--- a/src/compiler/Back.sml
+++ b/src/compiler/Back.sml
@@ -183,6 +183,9 @@ fun compileNBranch int_of_key clauses =
       val keyv = Array.fromList (map fst clauses_s)
       val actv = Array.fromList (map snd clauses_s)
       val n    = length keyv
+      (* The distance between two keys, large if not representable: *)
+      fun span start stop =
+        (keyv sub stop) - (keyv sub start) handle Overflow => 255
       fun extractAct start stop =
         let val a =
               array((keyv sub stop) - (keyv sub start) + 1, Lstaticfail)
@@ -199,8 +202,8 @@ fun compileNBranch int_of_key clauses =
       fun partition start =
         if start >= n then [] else
         let val stop = ref (n-1) in
-          while (keyv sub !stop) - (keyv sub start) >= 255 orelse
-                (keyv sub !stop) - (keyv sub start) > 4 * (!stop - start)
+          while span start (!stop) >= 255 orelse
+                span start (!stop) > 4 * (!stop - start)
           do decr stop;
           (* We've found a segment that is dense enough.
              In the worst case, !stop = start and the segment is
-- 
2.43.0


From f65b99ffa39ba5ac527b55efc543324c61281e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 13/54] fix: ceil and trunc of the least representable integer
 raised Overflow

On 64-bit machines (double)(Min_long-1) equals (double)Min_long.
---
 src/runtime/mosml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index d98ff44..9a95faf 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -168,7 +168,7 @@ value sml_ceil(value f)              /* ML */
       if( r > ((double) i) ) i += 1;
     }
   else
-    { if( r <= ((double) (Min_long-1)) ) goto raise_ceil;
+    { if( r <= ((double) Min_long) - 1 && r < ((double) Min_long) ) goto raise_ceil;
       i = (long) r;
     }
   v = Val_long(i);
@@ -224,7 +224,8 @@ value sml_trunc(value f)              /* ML */
   long i;
   value v;
   r = Double_val(f);
-  if ((r >= (double) (Max_long+1)) || (r <= (double)(Min_long-1))) 
+  if ((r >= (double) (Max_long+1)) 
+      || (r <= ((double) Min_long) - 1 && r < (double) Min_long)) 
     goto raise_trunc;
   i = (long) r;
   v = Val_long(i);
-- 
2.43.0


From 094a28aa05cf1fb4f6deddd83226d6e004d54f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 14/54] fix: round returned minInt for a real one above maxInt

On 64-bit machines (double)Max_long rounds up to Max_long+1.
---
 src/runtime/mosml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 9a95faf..f6fbc3c 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -207,7 +207,7 @@ value sml_round(value f)              /* ML */
   if( Long_val(v) != i )  goto raise_round; 
 #else
   r = rint(Double_val(f));
-  if ((r > (double) (Max_long)) || (r < (double)(Min_long))) goto raise_round;
+  if ((r >= (double) (Max_long+1)) || (r < (double)(Min_long))) goto raise_round;
   i = (long) r;
   v = Val_long(i);
 #endif
-- 
2.43.0


From 014175ae30e031ff0135adc4830f837621b3944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 15/54] fix: Real.fmt overflowed its buffer when formatting
 large numbers in fixed-point format

---
 src/runtime/mosml.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index f6fbc3c..76fcb79 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1166,13 +1166,12 @@ value sml_strftime (value fmt, value v) /* ML */
 
 value sml_general_string_of_float(value fmt, value arg)    /* ML */
 {
-#define BUFSIZE 512
+#define BUFSIZE 1024
   char format_buffer[BUFSIZE];
 
-  /* Unfortunately there seems to be no way to ensure that this does not
-   * crash by overflowing the format_buffer (e.g. when specifying a huge 
-   * number of decimal digits in the fixed-point format).  Well, we might
-   * use snprintf if universally supported?
+  /* Real.fmt allows at most 400 decimal digits after the decimal point.
+   * In the fixed-point format there may be another 309 digits before it,
+   * and a sign, so the format_buffer must hold more than 711 characters.
    */
 
   double x = Double_val(arg);
-- 
2.43.0


From e67c706b35ea745ffe41c2c41cfca713263660d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 16/54] fix: Word.scan and Word.fromString wrapped around
 instead of raising Overflow

---
 src/mosmllib/Word.mlp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index b21a3bb..9cd8b92 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -112,6 +112,11 @@ in
 		    | OCT => (fn c => (#"0" <= c andalso c <= #"7"),  8)
 		    | DEC => (Char.isDigit,                          10)
 		    | HEX => (Char.isHexDigit,                       16)
+	      (* factor * res + d, unless that exceeds the largest word *)
+	      fun addDigit (res, d) = 
+		  if res > (fromInt ~1 - d) div fromInt factor then 
+		      raise Overflow
+		  else fromInt factor * res + d
 	      fun dig1 NONE              = NONE
 		| dig1 (SOME (c1, src1)) = 
 		  let fun digr res src = 
@@ -119,8 +124,7 @@ in
 			      NONE           => SOME (res, src)
 			    | SOME (c, rest) => 
 				  if isDigit c then 
-				      digr (fromInt factor * res + hexval c) 
-				      rest
+				      digr (addDigit (res, hexval c)) rest
 				  else SOME (res, src)
 		  in 
 		      if isDigit c1 then digr (hexval c1) src1 
-- 
2.43.0


From ad705ef3762969e78055595fe972ae10e251c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 17/54] fix: Word.toLargeInt returned a negative number for a
 large word instead of raising Overflow

---
 src/mosmllib/Word.mlp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Word.mlp b/src/mosmllib/Word.mlp
index 9cd8b92..b9d9f11 100644
--- a/src/mosmllib/Word.mlp
+++ b/src/mosmllib/Word.mlp
@@ -36,7 +36,6 @@ in
     prim_val toIntX  : word -> int = 1 "identity";
     prim_val fromInt : int -> word = 1 "identity";
 
-    prim_val toLargeInt   : word -> int = 1 "identity";
     prim_val toLargeIntX  : word -> int = 1 "identity";
     prim_val fromLargeInt : int -> word = 1 "identity";
 
@@ -175,4 +174,6 @@ in
 	if w > MAXPOS then raise Overflow
 	else toIntX w
 
+    val toLargeInt = toInt
+
 end
-- 
2.43.0


From 2838e1da39b94e776797bc7541dfe6ea84cf42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:58 +0000
Subject: [PATCH 18/54] fix: Real.scan accepts a numeral followed by a sign and
 a digit

---
 src/mosmllib/Real.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Real.sml b/src/mosmllib/Real.sml
index 8662be3..d9e76d2 100644
--- a/src/mosmllib/Real.sml
+++ b/src/mosmllib/Real.sml
@@ -132,7 +132,7 @@ fun scan getc source =
 		  | (true,  SOME exp) => 
 			if exppos then mkres (manval * pow10 exp) rest
 			else mkres (manval / pow10 exp) rest
-		  | _                 => NONE
+		  | (false, SOME _)   => mkres manval src
 	    end
     in 
 	case (intg,     decpt, frac) of
-- 
2.43.0


From 16fab8636bed04383511b6b53c6688de77779704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:39 +0000
Subject: [PATCH 19/54] fix: seek_out inside the buffer lost the position at
 the next flush, and data at the next long output

---
 src/runtime/io.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index f14e531..0be3a48 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -179,10 +179,7 @@ value seek_out(struct channel * channel, value pos)    /* ML */
   long dest;
 
   dest = Long_val(pos);
-  if (dest >= channel->offset &&
-      dest <= channel->offset + channel->max - channel->buff) {
-    channel->curr = channel->buff + dest - channel->offset;
-  } else {
+  if (dest != channel->offset + (channel->curr - channel->buff)) {
     flush(channel);
     if (lseek(channel->fd, dest, 0) != dest) sys_error(NULL);
     channel->offset = dest;
-- 
2.43.0


From 69f80589d538c6e61e82a5d72b735ed2fc90838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:39 +0000
Subject: [PATCH 20/54] fix: a program whose standard output cannot be flushed
 at exit looped for ever

---
 src/runtime/io.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 0be3a48..6b71882 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -110,10 +110,21 @@ value flush(struct channel * channel)            /* ML */
   return Atom(0);
 }
 
+/* The contents are dropped before they are written, so that a failing write
+   raises SysErr once only, and not again on the way out of the program. */
+
+static void flush_last(struct channel * channel)
+{
+  int n = channel->max - channel->buff;
+  channel->curr = channel->max = channel->buff;
+  channel->offset += n;
+  really_write(channel->fd, channel->buff, n);
+}
+
 void flush_stdouterr(void)
 {
-  if (std_channel[1]) flush(std_channel[1]);
-  if (std_channel[2]) flush(std_channel[2]);
+  if (std_channel[1]) flush_last(std_channel[1]);
+  if (std_channel[2]) flush_last(std_channel[2]);
 }
 
 value output_char(struct channel * channel, value ch)  /* ML */
-- 
2.43.0


From 861f6e3dabaab5b6bede4e9fa86fb53c528bd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:39 +0000
Subject: [PATCH 21/54] fix: after closeIn stdIn the next opened file shared
 the freed channel of stdIn

---
 src/runtime/io.c  | 7 ++++++-
 src/runtime/sys.c | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 6b71882..59c0665 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -466,7 +466,12 @@ value pos_in(struct channel * channel)           /* ML */
 value close_in(struct channel * channel)     /* ML */
 {
   close(channel->fd);
-  stat_free((char *) channel);
+  if ((unsigned)(channel->fd) < 3) {
+    /* std_channel still refers to the channel */
+    channel->offset = 0;
+    channel->curr = channel->max = channel->buff;
+  } else
+    stat_free((char *) channel);
   return Atom(0);
 }
 
diff --git a/src/runtime/sys.c b/src/runtime/sys.c
index 363ecc6..73bd64d 100644
--- a/src/runtime/sys.c
+++ b/src/runtime/sys.c
@@ -133,6 +133,15 @@ value sys_open(value path, value flags, value perm) /* ML */
 #else
   ret = open(String_val(path), convert_flag_list(flags, sys_open_flags),
              Int_val(perm));
+#endif
+#ifdef F_DUPFD
+  if (ret >= 0 && ret < 3) {
+    /* The standard descriptors may be closed, but their channels are kept
+       (see io.c), and must not be shared with those of other files. */
+    int fd = fcntl(ret, F_DUPFD, 3);
+    close(ret);
+    ret = fd;
+  }
 #endif
   if (ret == -1) sys_error(String_val(path));
   return Val_long(ret);
-- 
2.43.0


From d19b2bf8fb05c9c011fcf366f0526cf0eeb5bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:28 +0000
Subject: [PATCH 22/54] fix: input_value of negative and of large integers
 written by output_value

---
 src/runtime/extern.c | 9 +++++++++
 src/runtime/intern.c | 8 +++++++-
 src/runtime/intext.h | 4 ++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 4970291..106871e 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -142,6 +142,15 @@ value extern_val(chan, v)       /* ML */
   res = emit_all(v);
   stat_free((char *) extern_table);
   putword(chan, Extern_magic_number);
+#ifdef SIXTYFOUR
+  if (extern_pos == 0 && (byteoffset_t)(int32) res != res) {
+    putword(chan, Long_immediate_size);
+    putword(chan, (unsigned long) res >> 32);
+    putword(chan, res);
+    stat_free((char *) extern_block);
+    return Val_unit;
+  }
+#endif
   putword(chan, extern_pos);
   if (extern_pos == 0)
     putword(chan, res);
diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index af7f408..e283de5 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -443,8 +443,14 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
   header_t hd;
 
   whsize = getword(chan);
-  if (whsize == 0) {
+#ifdef SIXTYFOUR
+  if (whsize == Long_immediate_size) {
     res = (value) getword(chan);
+    return (res << 32) | (value) getword(chan);
+  }
+#endif
+  if (whsize == 0) {
+    res = (value) (int32) getword(chan);        /* Sign extension */
     if (Is_long(res))
       return res;
     else
diff --git a/src/runtime/intext.h b/src/runtime/intext.h
index 9fb24e8..1ec7251 100644
--- a/src/runtime/intext.h
+++ b/src/runtime/intext.h
@@ -32,6 +32,10 @@
 # endif
 #endif
 
+/* In place of the size: an immediate value of 64 bits follows, high word first */
+
+#define Long_immediate_size 0xFFFFFFFF
+
 /* Codes for the compact format */
 
 #define PREFIX_SMALL_BLOCK 0x80
-- 
2.43.0


From e1198e150a4a2806cb671f55d6c31dccab064fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:12 +0000
Subject: [PATCH 23/54] fix: a failed read inside input_value left an
 inconsistent block in the heap

---
 src/runtime/intern.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/runtime/intern.c b/src/runtime/intern.c
index e283de5..f5668c4 100644
--- a/src/runtime/intern.c
+++ b/src/runtime/intern.c
@@ -487,10 +487,11 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* Keep the header of res until all has been read: reading may raise. */
+    if (really_getblock(chan, (char *) &hd, sizeof(hd)) == 0 ||
+        really_getblock(chan, (char *) res, bhsize - sizeof(hd)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_64_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
@@ -542,10 +543,11 @@ static value intern_fast_val(struct channel * chan, unsigned long magic)
     hd = Hd_val (res);
     color = Color_hd (hd);
     Assert (color == White || color == Black);
-    if (really_getblock(chan, Hp_val(res), bhsize) == 0) {
-      Hd_val (res) = hd;                      /* Avoid confusing the GC. */
+    /* Keep the header of res until all has been read: reading may raise. */
+    if (really_getblock(chan, (char *) &hd, sizeof(hd)) == 0 ||
+        really_getblock(chan, (char *) res, bhsize - sizeof(hd)) == 0)
       failwith ("intern : truncated object");
-    }
+    Hd_val (res) = hd;
     if (magic == Wrong_endian_32_magic_number)
       rev_pointers((value*)(Hp_val (res)), whsize);
     adjust_pointers((value*)(Hp_val (res)), whsize, color);
-- 
2.43.0


From d755f5ed449527e6fad72ff56f850a54890a953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:50 +0000
Subject: [PATCH 24/54] fix: output_value of weak arrays and of streams crashed
 instead of raising

---
 src/runtime/extern.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/extern.c b/src/runtime/extern.c
index 106871e..e64cdc5 100644
--- a/src/runtime/extern.c
+++ b/src/runtime/extern.c
@@ -5,7 +5,9 @@
 #include "gc.h"
 #include "intext.h"
 #include "io.h"
+#include "major_gc.h"
 #include "memory.h"
+#include "minor_gc.h"
 #include "mlvalues.h"
 
 struct extern_obj * extern_table;
@@ -64,6 +66,8 @@ static byteoffset_t emit(v)
   asize_t end_pos;
 
   if (Is_long(v)) return (byteoffset_t) v;
+  if (!Is_young(v) && !Is_in_heap(v) && !Is_atom(v)) /* such as a channel */
+    invalid_argument("output_value: abstract value");
   size = Wosize_val(v);
   if (size == 0) return (Tag_val(v) << 2) + 2;
   if (2 * extern_table_used >= extern_table_size) resize_extern_table();
@@ -108,6 +112,7 @@ byteoffset_t emit_all(value root)
       break;
     case Abstract_tag:
     case Final_tag:
+    case Weak_tag:
       invalid_argument("output_value: abstract value");
       break;
     case Closure_tag:
-- 
2.43.0


From ef4ff0a774cdfd45876696f6e76cf3b76178592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 25/54] fix: a declaration whose pattern fails, or a loop, was
 left out of the linked program

---
 src/compiler/Front.sml | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/compiler/Front.sml b/src/compiler/Front.sml
index a823814..fe63004 100644
--- a/src/compiler/Front.sml
+++ b/src/compiler/Front.sml
@@ -216,6 +216,23 @@ fun splitFirstArg (arg :: args) =
   | splitFirstArg _ = fatalError "splitFirstArg"
 ;
 
+(* A pattern is irrefutable, if it matches any value (of its type). *)
+(* The following is a crude approximation... *)
+
+fun isIrrefutable (_, pat') =
+  case pat' of
+    VARpat _ => true
+  | WILDCARDpat => true
+  | RECpat(ref (RECrp(fs, _))) =>
+      all (fn (_, p) => isIrrefutable p) fs
+  | RECpat(ref (TUPLErp ps)) =>
+      all isIrrefutable ps
+  | PARpat p => isIrrefutable p
+  | TYPEDpat(p,ty) => isIrrefutable p
+  | LAYEREDpat(p1,p2) => isIrrefutable p1 andalso isIrrefutable p2
+  | _ => false
+;
+
 (* An expression is "safe", if evaluating it can't produce *)
 (* side-effects, i.e. I/O, exceptions, etc. *)
 (* The following is a crude approximation... *)
@@ -246,8 +263,7 @@ fun isSafe (_, exp') =
   | RAISEexp e => false
   | IFexp(e0,e1,e2) =>
       isSafe e0 andalso isSafe e1 andalso isSafe e2
-  | WHILEexp(e1,e2) =>
-      isSafe e1 andalso isSafe e2
+  | WHILEexp(e1,e2) => false (* may loop forever *)
   | SEQexp(e1,e2) =>
       isSafe e1 andalso isSafe e2
   | STRUCTUREexp (modexp,_,_) => isSafeModExp modexp
@@ -1238,7 +1254,8 @@ fun trToplevelDec rho (dec as (_, dec')) =
         in
           (mkHashEnv n renrho,
            LAMtlam(
-             all (fn ValBind(_, e) => isSafe e) pvbs,
+             all (fn ValBind(ref p, e) => isIrrefutable p andalso isSafe e)
+                 pvbs,
              envelope (makeSeq (storeGlobal ValId renEnv (rho'', depth'))
                                (revWithoutDuplicates vars []))))
         end
-- 
2.43.0


From 444553d59b60211a99d659af67e1d2d63554bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 26/54] fix: mosmllex on a rule that matches only the empty
 string generated a call of an undefined function

---
 src/lex/Output.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Output.sml b/src/lex/Output.sml
index 13d485b..2cacfe1 100644
--- a/src/lex/Output.sml
+++ b/src/lex/Output.sml
@@ -194,8 +194,9 @@ fun output_entries [] =
          "  (setLexLastAction lexbuf (magic dummyAction);\n");
        output(!os,
          "   setLexStartPos lexbuf (getLexCurrPos lexbuf);\n");
-       output(!os,
-         "   state_" ^ makestring state_num ^ " lexbuf)\n");
+       output(!os, "   ");
+       output_move (Goto state_num);
+       output(!os, ")\n");
        case rest of
          [] => output(!os, "\n")
        | _  => (output(!os, "\nand "); output_entries rest))
-- 
2.43.0


From fd60b7b138c52cb7980e8ab236c93bcf6e0f5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 27/54] fix: an interrupted compilation could leave an
 incomplete .ui file

---
 src/compiler/Compiler.sml | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/Compiler.sml b/src/compiler/Compiler.sml
index b9c2844..0a05943 100644
--- a/src/compiler/Compiler.sml
+++ b/src/compiler/Compiler.sml
@@ -210,7 +210,7 @@ fun writeCompiledSignature filename_ui =
   let val sigStamp = ref dummySigStamp
       val sigLen = ref 0
   in
-    let val os = open_out_bin filename_ui in
+   (let val os = open_out_bin filename_ui in
       (output_value os (!currentSig);
        sigLen := pos_out os;
        close_out os)
@@ -242,7 +242,9 @@ fun writeCompiledSignature filename_ui =
          remove_file filename_ui;
          raise x)
     end;
-    !sigStamp
+    !sigStamp)
+    handle x => (* also when interrupted while no file is open *)
+      (remove_file filename_ui; raise x)
   end;
 
 (* Checks and error messages for compiling units *)
-- 
2.43.0


From 36c52d34f214f0e0a60f780449c9f97ccdc59fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 28/54] verification hooks (MOSML_VERIFY): interrupts as real
 signals, series of interrupts

---
 src/runtime/minor_gc.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/runtime/minor_gc.c b/src/runtime/minor_gc.c
index f0611fd..bad4275 100644
--- a/src/runtime/minor_gc.c
+++ b/src/runtime/minor_gc.c
@@ -189,17 +189,19 @@ void realloc_ref_table (void)
      MOSML_VERIFY_GC_EVERY=n   minor collection at every n'th allocation
      MOSML_VERIFY_SLICE=w      each major slice does w words of work
                                (w < 0: a whole major cycle)
-     MOSML_VERIFY_INTR_AT=k    an interrupt arrives at the k'th poll
+     MOSML_VERIFY_INTR_AT=k    a SIGINT arrives at the k'th poll
+     MOSML_VERIFY_INTR_GROW=k  SIGINTs arrive while caught: after k polls, k+1
+                               polls later, then k+2, and so on
      MOSML_VERIFY_POISON=0     do not overwrite freed memory
      MOSML_VERIFY_STATS=file   at exit, write the numbers of points passed */
 
 #include <stdio.h>
-#include "signals.h"
+#include <signal.h>
 
-extern CODE raise_break_exn;
 static int verify_ready = 0, verify_poisoning = 1;
 static long verify_allocs = 0, verify_polls = 0;
 static long verify_gc_at = 0, verify_gc_every = 0, verify_intr_at = 0;
+static long verify_intr_grow = 0;
 static int verify_slice = 0;
 
 static long verify_getenv (char *name, long dflt)
@@ -224,6 +226,8 @@ static void verify_init (void)
   verify_gc_at = verify_getenv ("MOSML_VERIFY_GC_AT", 0);
   verify_gc_every = verify_getenv ("MOSML_VERIFY_GC_EVERY", 0);
   verify_intr_at = verify_getenv ("MOSML_VERIFY_INTR_AT", 0);
+  verify_intr_grow = verify_getenv ("MOSML_VERIFY_INTR_GROW", 0);
+  if (verify_intr_grow > 0) verify_intr_at = verify_intr_grow;
   verify_slice = verify_getenv ("MOSML_VERIFY_SLICE", 0);
   verify_poisoning = verify_getenv ("MOSML_VERIFY_POISON", 1);
   if (getenv ("MOSML_VERIFY_STATS") != NULL) atexit (verify_report);
@@ -241,9 +245,17 @@ int verify_poll_point (void)
 {
   if (! verify_ready) verify_init ();
   if (++ verify_polls == verify_intr_at){
-    signal_handler = raise_break_exn;
-    signal_number = 0;
-    execute_signal ();
+    struct sigaction act;
+    if (verify_intr_grow == 0) raise (SIGINT);
+    else {
+      verify_intr_at = verify_polls + verify_intr_grow;
+      sigaction (SIGINT, NULL, &act);
+      if (act.sa_handler != SIG_DFL){
+	++ verify_intr_at;
+	++ verify_intr_grow;
+	raise (SIGINT);
+      }
+    }
   }
   return something_to_do;
 }
-- 
2.43.0


From 0c3f0ba69b408c1d727163aa136c6f68fef616b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:48 +0000
Subject: [PATCH 29/54] fix: an interrupt while the toplevel prints or between
 two phrases ended the session

---
 src/compiler/Mainc.sml |  3 ++-
 src/compiler/Mainl.sml |  3 ++-
 src/compiler/Maint.sml | 12 ++++++++----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/Mainc.sml b/src/compiler/Mainc.sml
index dfefc94..7e34485 100644
--- a/src/compiler/Mainc.sml
+++ b/src/compiler/Mainc.sml
@@ -169,7 +169,8 @@ handle
       (msgFlush();
        BasicIO.exit 2)
   | Interrupt =>
-      (msgIBlock 0;
+      (msgClear(); (* may have been interrupted while printing *)
+       msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
        msgFlush();
diff --git a/src/compiler/Mainl.sml b/src/compiler/Mainl.sml
index fbc074d..be055fc 100644
--- a/src/compiler/Mainl.sml
+++ b/src/compiler/Mainl.sml
@@ -119,7 +119,8 @@ fun main() =
     Toplevel =>
       (msgFlush(); BasicIO.exit 2)
   | Interrupt =>
-      (msgIBlock 0;
+      (msgClear(); (* may have been interrupted while printing *)
+       msgIBlock 0;
        errPrompt "Interrupted."; msgEOL();
        msgEBlock();
        msgFlush();
diff --git a/src/compiler/Maint.sml b/src/compiler/Maint.sml
index 90868b1..1557ec4 100644
--- a/src/compiler/Maint.sml
+++ b/src/compiler/Maint.sml
@@ -22,7 +22,8 @@ fun initial_loop () =
             (msgFlush();
              raise EndOfFile)
         | Interrupt =>
-            (msgIBlock 0;
+            (msgClear(); (* may have been interrupted while printing *)
+             msgIBlock 0;
              msgPrompt "Interrupted."; msgEOL();
              msgEBlock();
              msgFlush();
@@ -36,7 +37,7 @@ fun initial_loop () =
 (* Main loop *)
 
 fun main_loop () =
-  while true do
+ (while true do
     let in
       msgFlush();
       if !Exec_phr.quietdec then () else outputc std_out toplevel_input_prompt;
@@ -51,13 +52,16 @@ fun main_loop () =
         | Toplevel =>
             msgFlush()
         | Interrupt =>
-            (msgIBlock 0;
+            (msgClear(); (* may have been interrupted while printing *)
+             msgIBlock 0;
              msgPrompt "Interrupted.";
              msgEOL(); msgEBlock(); msgFlush())
         | x =>
             (msgFlush();
              raise x)
-    end
+    end)
+  handle Interrupt => (* interrupted between two phrases *)
+    (msgClear(); main_loop())
 ;
 
 fun anonymous s =
-- 
2.43.0


From b87874be8408fb98957c81e8131afd5a7f7dcd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 30/54] fix: Polyhash and Dynarray swallowed any exception,
 such as Interrupt, and lost items

---
 src/mosmllib/Dynarray.sml | 3 ++-
 src/mosmllib/Polyhash.sml | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mosmllib/Dynarray.sml b/src/mosmllib/Dynarray.sml
index 3b0bd6f..a9150e7 100644
--- a/src/mosmllib/Dynarray.sml
+++ b/src/mosmllib/Dynarray.sml
@@ -13,7 +13,8 @@ fun array (sz, dflt) = BLOCK(ref (Array.array (sz,dflt)),dflt)
 
 fun subArray (BLOCK(arr,dflt),lo,hi) = let
       val arrval = !arr
-      fun copy i = (Array.sub(arrval,i+lo)) handle _ => dflt
+      fun copy i = (Array.sub(arrval,i+lo)) 
+                   handle Subscript => dflt | Overflow => dflt
       in
         BLOCK(ref(Array.tabulate(hi-lo,copy)),dflt)
       end
diff --git a/src/mosmllib/Polyhash.sml b/src/mosmllib/Polyhash.sml
index 97de2bf..8a10b23 100644
--- a/src/mosmllib/Polyhash.sml
+++ b/src/mosmllib/Polyhash.sml
@@ -59,7 +59,7 @@ end;
 			end
 		  fun bucket n = (copy (Array.sub(arr, n)); bucket (n+1))
 		  in
-		    (bucket 0) handle _ => ();
+		    (bucket 0) handle Subscript => ();
 		    table := newArr
 		  end
 		else ()
@@ -264,7 +264,7 @@ end;
 		Array.update (newArr, i, Array.sub(arr, i));
 		mapTbl (i+1))
 	  in
-	    (mapTbl 0) handle _ => ();
+	    (mapTbl 0) handle Subscript => ();
 	    HT{hashVal=hashVal, 
 	       sameKey=sameKey,
 	       table = ref newArr, 
-- 
2.43.0


From 6bfb23b6fcc375ed87ad7cc1838e5be28c47b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 31/54] fix: a function with more than 255 free variables was
 compiled to wrong code

---
 src/compiler/Emitcode.sml | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/Emitcode.sml b/src/compiler/Emitcode.sml
index 9251b80..5b4e65a 100644
--- a/src/compiler/Emitcode.sml
+++ b/src/compiler/Emitcode.sml
@@ -22,6 +22,9 @@ fun tooManyError kind =
 fun checkArguments n =
     if n > maxint_byte then tooManyError "arguments" else ()
 
+fun checkFreeVars n =
+    if n > maxint_byte then tooManyError "free variables in a function" else ()
+
 (* This won't happen unless there's a bug in the switch compilation: *)
 fun checkBranches n =
     if n > maxint_byte then tooManyError "switch branches" else ()
@@ -154,8 +157,10 @@ fun emit_zam zam =
     | Klabel lbl =>
         if lbl = Nolabel then fatalError "emit_zam: undefined label"
         else (define_label lbl)
-    | Kclosure (lbl,sz) => (out CLOSURE; out sz; out_label lbl)
-    | Kclosurerec (lbl,sz) => (out CLOSREC; out (sz - 1); out_label lbl)
+    | Kclosure (lbl,sz) => 
+        (checkFreeVars sz; out CLOSURE; out sz; out_label lbl)
+    | Kclosurerec (lbl,sz) => 
+        (checkFreeVars (sz - 1); out CLOSREC; out (sz - 1); out_label lbl)
     | Kpushtrap lbl => (out PUSHTRAP; out_label lbl)
     | Kpush_retaddr lbl => (out PUSH_RETADDR; out_label lbl)
     | Kbranch lbl => (out BRANCH; out_label lbl)
-- 
2.43.0


From da10ef58ae8bf169cf8f91afe39214546130be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 32/54] fix: an interrupt after an interrupted read was handled
 as if still reading, and crashed

---
 src/runtime/signals.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/signals.c b/src/runtime/signals.c
index 8c9cd1e..c800a73 100644
--- a/src/runtime/signals.c
+++ b/src/runtime/signals.c
@@ -20,10 +20,15 @@ void execute_signal(void)
 {
   if (in_blocking_section) {
     value clos;
+    /* The handler runs ML code and usually does not return here, so the
+       blocking section ends now, and the signal has been dealt with. */
+    in_blocking_section = 0;
+    signal_is_pending = 0;
     clos = alloc(Closure_wosize, Closure_tag);
     Code_val(clos) = signal_handler;
     Env_val(clos) = Atom(0);
     callback(clos, Val_int(signal_number));
+    in_blocking_section = 1;
   } else {
     signal_is_pending = 1;
     something_to_do = 1;
-- 
2.43.0


From e8fe6cca2ba0fe31ade648fa5a317ebd8c6cf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 33/54] fix: a signal could be lost when it arrived while a
 collection was carried out

---
 src/runtime/interp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/interp.c b/src/runtime/interp.c
index 166487a..698c47a 100644
--- a/src/runtime/interp.c
+++ b/src/runtime/interp.c
@@ -1104,11 +1104,11 @@ EXTERN value interprete(int mode, bytecode_t bprog, int code_size, CODE* rprog)
 	minor_collection ();
 	Restore_after_gc;
       }
-      /* If a signal arrives between the following two instructions,
-         it will be lost. */
+      /* The flag is cleared only after it was seen set: a signal that
+         arrives after the test is dealt with at the next poll. */
       { int signal_number = signal_is_pending;
-        signal_is_pending = 0;
         if (signal_number) {
+          signal_is_pending = 0;
           /* Push a return frame to the current code location */
           sp -= 4;
           sp[0] = Val_int(signal_number);
-- 
2.43.0


From 108b3e667224e21a59709df20f20e2eaa2aa12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 34/54] fix: an interrupt just after a read threw away the
 input that had been read

---
 src/runtime/io.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/runtime/io.c b/src/runtime/io.c
index 59c0665..e0afcf2 100644
--- a/src/runtime/io.c
+++ b/src/runtime/io.c
@@ -10,6 +10,7 @@
 #include <io.h>
 #include <windows.h>
 #else
+#include <poll.h>
 #include <unistd.h>
 #endif
 
@@ -260,6 +261,22 @@ static int really_read(int fd, char * p, unsigned n, int nonblocking)
   if (nonblocking)
     nonblocking_mode(fd, nonblocking);	   /* set non-blocking */
 
+#if defined(EINTR) && !defined(WIN32) && !defined(MSDOS) && !defined(HAS_UI)
+  /* A signal that arrives while we wait for input is handled at once.  The
+     read itself is outside of the blocking section: a signal that arrived
+     just after it would throw away the input that has been read. */
+  do {
+    enter_blocking_section();
+    if (!nonblocking) {
+      struct pollfd pfd;
+      pfd.fd = fd;
+      pfd.events = POLLIN;
+      poll(&pfd, 1, -1);
+    }
+    leave_blocking_section();
+    retcode = read(fd, p, n);
+  } while (retcode == -1 && errno == EINTR);
+#else
   enter_blocking_section();
 #ifdef HAS_UI
   retcode = ui_read(fd, p, n);
@@ -267,9 +284,6 @@ static int really_read(int fd, char * p, unsigned n, int nonblocking)
 #ifdef MSDOS
   retcode = msdos_read(fd, p, n);
 #else
-#if defined(EINTR) && !defined(WIN32)
-  do { retcode = read(fd, p, n); } while (retcode == -1 && errno == EINTR);
-#else
 #ifdef WIN32
   /* Under Win32 the SIGINT handler runs as a separate thread. */
   /* Sleep (0L) causes the current thread to relinquish  */
@@ -314,9 +328,9 @@ static int really_read(int fd, char * p, unsigned n, int nonblocking)
   retcode = read(fd, p, n);
 #endif
 #endif
-#endif
 #endif
   leave_blocking_section();
+#endif
 
   if (nonblocking) {
     nonblocking_mode(fd, 0);			/* unset non-blocking */
-- 
2.43.0


From a60f9a7d2c0ae63ca579d28e5b1e8bd9ec7df6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 35/54] fix: Regex left out groups of a match vector that start
 before an earlier group

---
 src/dynlibs/mregex/mregex.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynlibs/mregex/mregex.c b/src/dynlibs/mregex/mregex.c
index 4dda106..a9299f2 100644
--- a/src/dynlibs/mregex/mregex.c
+++ b/src/dynlibs/mregex/mregex.c
@@ -143,7 +143,6 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
     int strlen = len_susval(susval);
     /* The allocations below may move susval, so get its start offset now */
     long start = start_susval(susval);
-    int last = 0;
     int i = 0;
     // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
     /* In a pattern such as "(ab)|(cb)", at most one of the
@@ -152,15 +151,15 @@ value regmatch_sus(regex_t* preg, int nmatch, regmatch_t pmatch[],
        substrings.  In other cases (e.g. when pmatch has room for
        excess substrings, various kinds of garbage is stored instead.
        Hence we need to explicitly check for wellformedness of
-       substrings.  
+       substrings.  The start positions need not be increasing: in a
+       repeated group, an earlier subexpression may have matched in a
+       later repetition.
     */
     while (i < nmatch 
 	   && (pmatch[i].rm_so == -1 ||
-	       (last <= pmatch[i].rm_so
+	       (0 <= pmatch[i].rm_so
 		&& pmatch[i].rm_so <= pmatch[i].rm_eo
 		&& pmatch[i].rm_eo <= strlen))) {
-      if (pmatch[i].rm_so != -1) 
-	last = pmatch[i].rm_so;
       i++;
       // printf("pmatch[%d].rm_so = %d\n", i, pmatch[i].rm_so);
     }
-- 
2.43.0


From 1bfed28b4aafa092e7621aeb2098dbf4556965f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 36/54] fix: IntInf.log2 was one too large

---
 src/dynlibs/intinf/IntInf.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index d81bfd4..e407263 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -160,7 +160,7 @@ fun quotRem(li1, li2) =
 
 fun log2 li = 
     if Int.<=(sign li, 0) then raise Domain
-    else largeint_sizeinbase li 2;
+    else Int.-(largeint_sizeinbase li 2, 1);
 
 fun pow(li, exp) = 
     if Int.<(exp, 0) then 
-- 
2.43.0


From 1c9c1b309c576158e0ee8e90b800110f0baaf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 37/54] fix: IntInf.log2 raised an exception of its own and not
 the Basis exception Domain

---
 src/dynlibs/intinf/IntInf.sml | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index e407263..a6b7b07 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -1,7 +1,5 @@
 (* LargeInt -- interface to the GNU Multiple-Precision Library GMP *)
 
-exception Domain
-
 prim_type int;
 type largeint = int;
 
-- 
2.43.0


From f14be86eec03faadf836ed9436baaa1e974d1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 38/54] fix: IntInf.pow(~1, n) was ~1 for negative even n

---
 src/dynlibs/intinf/IntInf.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index a6b7b07..3b2b50e 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -164,7 +164,8 @@ fun pow(li, exp) =
     if Int.<(exp, 0) then 
 	if sign li = 0 then raise Div 
 	else if largeint_cmp li onepos = 0 then onepos
-        else if largeint_cmp li oneneg = 0 then oneneg
+        else if largeint_cmp li oneneg = 0 then 
+	    if Int.mod(exp, 2) = 0 then onepos else oneneg
 	else zero
     else if exp = 0 then onepos
     else
-- 
2.43.0


From b68218f130a9beae1cb837c1992248a078a2f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 39/54] fix: IntInf.fmt HEX used lower case digits

---
 src/dynlibs/intinf/IntInf.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynlibs/intinf/IntInf.sml b/src/dynlibs/intinf/IntInf.sml
index 3b2b50e..4b8ceef 100644
--- a/src/dynlibs/intinf/IntInf.sml
+++ b/src/dynlibs/intinf/IntInf.sml
@@ -178,7 +178,7 @@ fun fmt radix li =
 	BIN => largeint_get_str li  2
       | OCT => largeint_get_str li  8
       | DEC => largeint_get_str li 10
-      | HEX => largeint_get_str li 16
+      | HEX => String.map Char.toUpper (largeint_get_str li 16)
     end;
     
 fun toString li = largeint_get_str li 10;
-- 
2.43.0


From 64817bd8bb43a7513923f93a19b652d8c2e63eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 40/54] fix: Date.scan and fromString did not skip initial
 whitespace

---
 src/mosmllib/Date.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index dd807a7..5c1ebb3 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -255,7 +255,7 @@ in
 		     | "Sat" => Sat 
 		     | _ => raise BadFormat
 
-	val (wday, src1)  = getstring src
+	val (wday, src1)  = getstring (drop Char.isSpace src)
 	val (month, src2) = getstring (drop Char.isSpace src1)
 	val (day, src3)   = getint src2
 	val (hour, src4)  = getint src3
-- 
2.43.0


From 17a8364058572c6231c5a55f4ff67e6e93ca7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 41/54] fix: Date.date took an offset of exactly 12 hours to be
 west of UTC

---
 src/mosmllib/Date.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index 5c1ebb3..4014029 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -301,7 +301,7 @@ in
 		  | SOME time => 
 			let val secs      = Time.toSeconds time
 			    val secoffset = 
-				if secs <= 43200 then ~secs else 86400 - secs
+				if secs < 43200 then ~secs else 86400 - secs
 			in (Int.quot(secs, 86400), SOME secoffset) end
 		val day' = day + dayoffset
 	    in
-- 
2.43.0


From bdc1638da909ddb6a3c95428854c1717ca784190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 42/54] fix: Date.date did not reduce an offset of more than a
 day

---
 src/mosmllib/Date.sml | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mosmllib/Date.sml b/src/mosmllib/Date.sml
index 4014029..29fff64 100644
--- a/src/mosmllib/Date.sml
+++ b/src/mosmllib/Date.sml
@@ -299,10 +299,11 @@ in
 	        case offset of
 		    NONE      => (0, NONE)
 		  | SOME time => 
-			let val secs      = Time.toSeconds time
+			let val allsecs   = Time.toSeconds time
+			    val secs      = Int.rem(allsecs, 86400)
 			    val secoffset = 
 				if secs < 43200 then ~secs else 86400 - secs
-			in (Int.quot(secs, 86400), SOME secoffset) end
+			in (Int.quot(allsecs, 86400), SOME secoffset) end
 		val day' = day + dayoffset
 	    in
 		normalizedate year month day' hour minute second offset'
-- 
2.43.0


From a34b5cda19b8bd872e5b7708dac8d7e098838e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 43/54] fix: Date.fmt raised Date when the result was empty or
 longer than 255 characters

---
 src/runtime/mosml.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index 76fcb79..faffd96 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -1143,9 +1143,11 @@ value sml_asctime (value v) /* ML */
 value sml_strftime (value fmt, value v) /* ML */
 {
   struct tm tmr = {0};
-#define BUFSIZE 256      
-  char buf[BUFSIZE];
+  long fmtlen = strlen(String_val(fmt));
+  long bufsize = 256;
+  char *fmtbuf, *buf;
   long ressize;
+  value res;
 
   tmr.tm_hour  = Long_val(Field (v, 0));
   tmr.tm_isdst = Long_val(Field (v, 1));
@@ -1157,11 +1159,27 @@ value sml_strftime (value fmt, value v) /* ML */
   tmr.tm_yday  = Long_val(Field (v, 7));
   tmr.tm_year  = Long_val(Field (v, 8));
 
-  ressize = strftime(buf, BUFSIZE, String_val(fmt), &tmr);
-  if (ressize == 0 || ressize == BUFSIZE) 
+  /* The result 0 of strftime means that the buffer is too small or that
+     the formatted date is empty.  A character added to the format tells
+     the two apart. */
+  fmtbuf = (char*)stat_alloc(fmtlen + 2);
+  memcpy(fmtbuf, String_val(fmt), fmtlen);
+  strcpy(fmtbuf + fmtlen, ".");
+  buf = (char*)stat_alloc(bufsize);
+  while (0 == (ressize = strftime(buf, bufsize, fmtbuf, &tmr))
+	 && bufsize < 1024 * (fmtlen + 1)) {
+    bufsize *= 2;
+    buf = (char*)stat_resize(buf, bufsize);
+  }
+  stat_free(fmtbuf);
+  if (ressize == 0) {
+    stat_free(buf);
     failwith("strftime");
-  return copy_string(buf);
-#undef BUFSIZE
+  }
+  buf[ressize - 1] = '\0';
+  res = copy_string(buf);
+  stat_free(buf);
+  return res;
 }
 
 value sml_general_string_of_float(value fmt, value arg)    /* ML */
-- 
2.43.0


From 0cb1faceda6bfbc38e53ed799a8c341a696d18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 44/54] fix: Time.scan consumed a point that no digit follows

---
 src/mosmllib/Time.sml | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Time.sml b/src/mosmllib/Time.sml
index 6a13264..b03b64c 100644
--- a/src/mosmllib/Time.sml
+++ b/src/mosmllib/Time.sml
@@ -68,7 +68,12 @@ fun scan getc source =
 	fun intg neg intgv src = 
 	    case getc src of
 		NONE              => SOME(mktime neg intgv 6 0, src)
-	      | SOME (#".", rest) => frac neg intgv 0 0 rest
+	      | SOME (#".", rest) => 
+		    (case getc rest of 
+			 NONE        => SOME(mktime neg intgv 6 0, src)
+		       | SOME (c, _) => 
+			     if Char.isDigit c then frac neg intgv 0 0 rest
+			     else SOME(mktime neg intgv 6 0, src))
 	      | SOME (c, rest)    => 
 		    if Char.isDigit c then 
 			intg neg (10.0 * intgv + real(decval c)) rest 
-- 
2.43.0


From 10d4f9a57993c4f81be52f3d748d82d9ddb05129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:03 +0000
Subject: [PATCH 45/54] fix: FileSys.fileId could give two files the same
 identity

---
 src/mosmllib/FileSys.mlp |  9 +++------
 src/runtime/unix.c       | 10 ++++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mosmllib/FileSys.mlp b/src/mosmllib/FileSys.mlp
index e2719ed..c07d10e 100644
--- a/src/mosmllib/FileSys.mlp
+++ b/src/mosmllib/FileSys.mlp
@@ -117,10 +117,10 @@ in
 	let prim_val readlink_ : string -> string = 1 "sml_readlink"
 	in (readlink_ p) handle Fail s => raiseSys "readLink" (SOME p) s end;
 
-    type file_id = real;  (* Namely, 2^17 * device id  + inode number *)
+    type file_id = string;  (* Namely, device id and inode number *)
 
     fun fileId p : file_id =
-	let prim_val devinode_ : string -> real = 1 "sml_devinode"
+	let prim_val devinode_ : string -> string = 1 "sml_devinode"
 	in (devinode_ p) handle Fail s => raiseSys "fileId" (SOME p) s end;
 
     fun hash (fid : file_id) = 
@@ -128,10 +128,7 @@ in
 						= 3 "hash_univ_param";
 	in hash_param 50 500 fid end;
 
-    fun compare (fid1 : file_id, fid2) =
-	if fid1 < fid2 then LESS
-	else if fid1 > fid2 then GREATER
-	else EQUAL    
+    fun compare (fid1 : file_id, fid2) = String.compare(fid1, fid2)
 #endif
 #if defined(msdos) || defined(win32)
     fun chDir p =
diff --git a/src/runtime/unix.c b/src/runtime/unix.c
index 81fae08..636d7e5 100644
--- a/src/runtime/unix.c
+++ b/src/runtime/unix.c
@@ -1,6 +1,7 @@
 /* unix.c -- Moscow ML C primitives available only under Unix */
 
 #include <stdlib.h>
+#include <stdio.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 
@@ -95,13 +96,14 @@ value sml_devinode(value path)          /* ML */
   return Val_unit;
 #else
   struct stat buf;
-  double dev_inode;
+  char dev_inode[64];
 
   if (stat(String_val(path), &buf) == -1)
       failwith("stat");
-  /* Combine the device and inode into a real number */
-  dev_inode = ((double)buf.st_dev * (1 << 17)) + (double)buf.st_ino;
-  return copy_double(dev_inode);
+  /* A device id and an inode number are too large to combine into a number */
+  sprintf(dev_inode, "%lx:%lx", 
+	  (unsigned long)buf.st_dev, (unsigned long)buf.st_ino);
+  return copy_string(dev_inode);
 #endif
 }
 
-- 
2.43.0


From 48dfb10672fdb150d6d42bb7d0041d325bec35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 46/54] fix: exit with the status that Process.system returned
 for a failed command meant success

---
 src/runtime/mosml.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mosml.c b/src/runtime/mosml.c
index faffd96..32e0991 100644
--- a/src/runtime/mosml.c
+++ b/src/runtime/mosml.c
@@ -19,6 +19,7 @@
 #include <sys/time.h>
 #include <sys/times.h>
 #include <sys/resource.h>
+#include <sys/wait.h>
 #include <dirent.h>
 #include <sys/param.h> 
 #include <unistd.h>
@@ -119,8 +120,14 @@ value sml_system(value cmd)        /* ML */
   res = system(String_val(cmd));
   if (errno == ENOENT)
     return -1;
-  else
-    return Val_int(res);
+#ifdef WIFEXITED
+  /* Return the command's own status, as suits exit: not the encoded one,
+     whose low bits are zero whenever the command exited. */
+  if (!WIFEXITED(res))
+    return Val_int(-1);
+  res = WEXITSTATUS(res);
+#endif
+  return Val_int(res);
 }
 
 value sml_abs_int(value x)          /* ML */
-- 
2.43.0


From 3eb621843366c9f4938840abc4a8775add286d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 47/54] fix: Unix.reap waited for the process before closing
 its streams, forever if it reads its input to the end

---
 src/mosmllib/Unix.sml | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mosmllib/Unix.sml b/src/mosmllib/Unix.sml
index 144b317..4ae5a74 100644
--- a/src/mosmllib/Unix.sml
+++ b/src/mosmllib/Unix.sml
@@ -102,12 +102,10 @@ fun binOutstreamOf ({syspid, ins, outs} : ('a, BinIO.outstream) proc)
 val waitpid_ : int -> int = app1 "waitpid"
 
 fun reap ({syspid, ins, outs} : ('a,'b) proc) : OS.Process.status = 
-    let val status_ = waitpid_ syspid : int
-    in 
-	TextIO.closeIn (Obj.magic ins); 
-	TextIO.closeOut (Obj.magic outs); 
-	Obj.magic status_ 
-    end
+    (* Close first: the process may be waiting for the end of its input *)
+    (TextIO.closeIn (Obj.magic ins); 
+     TextIO.closeOut (Obj.magic outs); 
+     Obj.magic (waitpid_ syspid : int))
     handle Fail s => raise Fail ("Unix.reap: " ^ s)
 end
 end
-- 
2.43.0


From 3da73fa9e91f7386493abea498824c25c8b50ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 48/54] fix: a process started by Unix.execute kept the pipes
 of those started before it open

---
 src/dynlibs/munix/munix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynlibs/munix/munix.c b/src/dynlibs/munix/munix.c
index 28fcf32..757fe47 100644
--- a/src/dynlibs/munix/munix.c
+++ b/src/dynlibs/munix/munix.c
@@ -6,6 +6,7 @@
 
 #include <errno.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -98,6 +99,10 @@ EXTERNML value unix_execute(value cmd, value args, value envopt) {
 
   if (pipe(p2c) < 0 || pipe(c2p) < 0)
     failure();
+  /* Other children must not inherit the parent's ends of the pipes: the
+     child would not see the end of its input while they live */
+  fcntl(p2c[1], F_SETFD, FD_CLOEXEC);
+  fcntl(c2p[0], F_SETFD, FD_CLOEXEC);
   pid = fork();
   if (pid < 0) 
     // In the parent process; fork failed
-- 
2.43.0


From 67c9023de5b74a1fba95dfcad408bb40acc89a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:41 +0000
Subject: [PATCH 49/54] fix: Socket.select returns the ready sockets of wrs and
 exs, not those of rds

---
 src/dynlibs/msocket/msocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index b515aa0..bd03e1d 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -723,8 +723,8 @@ EXTERNML value msocket_select(value rsocks, value wsocks, value esocks,
   {
     Push_roots(ls, 6);
     ls[3] = rsocks;
-    ls[4] = rsocks;
-    ls[5] = rsocks;
+    ls[4] = wsocks;
+    ls[5] = esocks;
     ls[0] = fdset_to_list(ls[3], &rfd);
     ls[1] = fdset_to_list(ls[4], &wfd);
     ls[2] = fdset_to_list(ls[5], &efd);
-- 
2.43.0


From a2c2ad3354fbc68cac010d16964413feb37cdca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 50/54] fix: Socket copied a Unix socket address past its end,
 and lost a datagram from an unnamed socket

---
 src/dynlibs/msocket/msocket.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index bd03e1d..1ad4867 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -132,7 +132,9 @@ static void make_saddr(union saddr *s, value a) {
   case AF_UNIX:
 #ifndef WIN32
     s->sockaddr_unix.sun_family = AF_UNIX;
-    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, size + 1);
+    /* size covers sun_family, the name, and its terminating zero byte: */
+    bcopy(String_val(Data_addrval(a)), s->sockaddr_unix.sun_path, 
+          size - offsetof (struct sockaddr_un, sun_path));
 #else
     failwith("AF_UNIX not implemented");
 #endif
@@ -183,10 +185,21 @@ value newsinaddrport(s_addr_t sa, value port) {
 /* Warning: allocates in the heap, may cause a GC */
 /* ML result type: addr */
 static value from_saddr(union saddr *s, int len) {
+#ifndef WIN32
+  /* An unnamed Unix socket has an address without sun_path, and the
+     address of an unnamed sender of datagrams is even empty: */
+  if (len <= (int)offsetof (struct sockaddr_un, sun_path)) {
+    return newaddr(offsetof (struct sockaddr_un, sun_path), AF_UNIX, 
+                   copy_string(""));
+  }
+#endif
   switch(s->sockaddr_gen.sa_family) {
   case AF_UNIX: { 
 #ifndef WIN32
-    value name = copy_string(s->sockaddr_unix.sun_path);
+    /* The kernel need not end sun_path by a zero byte: */
+    int namelen = len - offsetof (struct sockaddr_un, sun_path);
+    value name = alloc_string(namelen);
+    bcopy(s->sockaddr_unix.sun_path, String_val(name), namelen);
     return newaddr(len, AF_UNIX, name);
 #else
     failwith("AF_UNIX not implemented for Win32");
-- 
2.43.0


From db824fa891bbb7d261a3f5fb43fa6b6ed8080c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 51/54] fix: Socket.select wrote outside its sets for
 descriptors from FD_SETSIZE up

---
 src/dynlibs/msocket/msocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynlibs/msocket/msocket.c b/src/dynlibs/msocket/msocket.c
index 1ad4867..a4f52f3 100644
--- a/src/dynlibs/msocket/msocket.c
+++ b/src/dynlibs/msocket/msocket.c
@@ -660,6 +660,11 @@ static void vec_to_fdset(value sockv, fd_set *fds) {
 
   FD_ZERO(fds);
   for(i = 0; i < vlen; i++) {
+#ifndef WIN32
+    /* An fd_set has room for no more than this: */
+    if (Sock_val(Field(sockv, i)) >= FD_SETSIZE)
+      failwith("EINVAL");
+#endif
     FD_SET(Sock_val(Field(sockv, i)), fds);
   } 
 }
-- 
2.43.0


From 0e221e2d9ed25c63d2241b16618444bd5d4c1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:11 +0000
Subject: [PATCH 52/54] fix: Socket raised Overflow for a buffer out of range,
 and recvVec crashed on a negative count

---
 src/mosmllib/Socket.sml | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/mosmllib/Socket.sml b/src/mosmllib/Socket.sml
index 72ffdd0..3e96e02 100644
--- a/src/mosmllib/Socket.sml
+++ b/src/mosmllib/Socket.sml
@@ -93,6 +93,10 @@ struct
 
 	prim_val vector_ : int -> Word8Vector.vector = 1 "create_string"
 
+	fun newvec len = 
+	    if len < 0 orelse len > Word8Vector.maxLen then raise Size
+	    else vector_ len
+
 	fun extract vec len = 
 	    Word8VectorSlice.vector(Word8VectorSlice.slice(vec, 0, SOME len))
     in
@@ -134,17 +138,19 @@ struct
 
 	fun chkvbuf {buf : Word8Vector.vector, ofs : int, size : int option} = 
 	    let val len = Word8Vector.length buf
-		val sz  = case size of NONE => len - ofs | SOME n => n
+		val sz  = case size of NONE => if ofs<0 then ~1 else len - ofs | SOME n => n
 	    in
-		if ofs<0 orelse sz<0 orelse ofs+sz>len then raise Subscript
+		if ofs<0 orelse sz<0 orelse ofs>len orelse sz>len-ofs 
+		then raise Subscript
 		else (ofs, sz) 
 	    end		
 
 	fun chkabuf {buf : Word8Array.array, ofs : int, size : int option} = 
 	    let val len = Word8Array.length buf
-		val sz  = case size of NONE => len - ofs | SOME n => n
+		val sz  = case size of NONE => if ofs<0 then ~1 else len - ofs | SOME n => n
 	    in
-		if ofs<0 orelse sz<0 orelse ofs+sz>len then raise Subscript
+		if ofs<0 orelse sz<0 orelse ofs>len orelse sz>len-ofs 
+		then raise Subscript
 		else (ofs, sz) 
 	    end		
 
@@ -209,7 +215,7 @@ struct
 				if oob  then MSG_OOB  else 0w0))
 
 	fun recvVec (SOCK sock, len) =
-	    let val vec  = vector_ len 
+	    let val vec  = newvec len 
 		val size = recv_ sock vec 0 len 0; 
 	    in extract vec size end
 
@@ -218,7 +224,7 @@ struct
 	    in recv_ sock (a2v (#buf abuf)) ofs sz 0 end
 
 	fun recvVec' (SOCK sock, len, iflags) =
-	    let val vec  = vector_ len 
+	    let val vec  = newvec len 
 		val size = recv_ sock vec 0 len (getiflags iflags) 
 	    in extract vec size end
 
@@ -227,7 +233,7 @@ struct
 	    in recv_ sock (a2v (#buf abuf)) ofs sz (getiflags iflags) end
 
 	fun recvVecFrom (SOCK sock, len) =
-	    let val vec  = vector_ len 
+	    let val vec  = newvec len 
 		val (size, addr) = recvfrom_ sock vec 0 len 0; 
 	    in (extract vec size, ADDR addr) end
 
@@ -237,7 +243,7 @@ struct
 	    in (size, ADDR addr) end
 
 	fun recvVecFrom' (SOCK sock, len, iflags) =
-	    let val vec  = vector_ len
+	    let val vec  = newvec len
 		val (size, addr) = recvfrom_ sock vec 0 len (getiflags iflags)
 	    in (extract vec size, ADDR addr) end
 
-- 
2.43.0


From 165019be2d3cdcd48cc8e57a024937c1b6625f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:48 +0000
Subject: [PATCH 53/54] fix: Rbset.mapMono rejected increasing functions and
 accepted decreasing ones

---
 src/mosmllib/Rbset.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mosmllib/Rbset.sml b/src/mosmllib/Rbset.sml
index 4954dc5..00016ac 100644
--- a/src/mosmllib/Rbset.sml
+++ b/src/mosmllib/Rbset.sml
@@ -348,7 +348,7 @@ struct
   exception NonMonotonic
 
   fun mapMono (f, compare) s =
-      let val fxs = foldl (fn (x, res) => f x :: res) [] s
+      let val fxs = List.rev (foldl (fn (x, res) => f x :: res) [] s)
 	  fun sorted []         = true
 	    | sorted (y1 :: yr) = 
 	      let fun h x0 []       = true
-- 
2.43.0


From fab09415ed727a52eaa5328eee1e26adfcbc4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 54/54] fix: Dynarray.subArray left out the last element of the
 range

---
 src/mosmllib/Dynarray.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mosmllib/Dynarray.sml b/src/mosmllib/Dynarray.sml
index a9150e7..3913baa 100644
--- a/src/mosmllib/Dynarray.sml
+++ b/src/mosmllib/Dynarray.sml
@@ -16,7 +16,8 @@ fun subArray (BLOCK(arr,dflt),lo,hi) = let
       fun copy i = (Array.sub(arrval,i+lo)) 
                    handle Subscript => dflt | Overflow => dflt
       in
-        BLOCK(ref(Array.tabulate(hi-lo,copy)),dflt)
+        if hi < lo then raise Size else
+        BLOCK(ref(Array.tabulate(hi-lo+1,copy)),dflt)
       end
 
 fun fromList (initlist, dflt) = BLOCK(ref (Array.fromList initlist),dflt)
-- 
2.43.0

