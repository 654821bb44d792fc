#!/usr/bin/env python3
"""R06: a value written by output_value is read back by input_value as an equal value with the same sharing.

1. Leaves and shapes: boundary ints, words, reals, strings of every length, constructors of every tag, vectors of every size,
   alone, in every pair order and at every offset around the buffer size.
2. All graphs of up to three mutable nodes with two edges each: the copy is isomorphic (sharing, cycles) and disjoint.
3. Every value's file transcoded to the other formats the runtime reads (32-bit and 64-bit, both byte orders, compact).
4. Every truncation of a file, and an error at every read, is reported by an exception and leaves the heap intact.
5. All outcome sequences of the first reads and writes; a collection at every allocation and slice grid while reading."""
import itertools, os, re, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MANY = "datatype many = " + " | ".join(f"N{i}" if i % 3 == 0 else f"U{i} of int" if i % 3 == 1 else f"T{i} of string * int" for i in range(240)) + "\n" \
    "val manys = [" + ",".join(f"N{i}" if i % 3 == 0 else f"U{i} {i - 100}".replace("-", "~") if i % 3 == 1 else f'T{i} ("s{i}", {i})' for i in range(240)) + "]\n"

COMMON = MANY + r'''
open BasicIO Nonstdio
fun i2s (n : int) = Int.toString n
fun upto (i,j) = if i > j then [] else i :: upto (i+1,j)
val cnt = ref 0 and bads = ref 0
fun bad key = if !bads > 20 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\n"))
fun pow 0 = 1 | pow k = 2 * pow (k-1)
val ints = let val p = map pow (upto (0,61)) in
   0 :: valOf Int.maxInt :: valOf Int.minInt :: List.concat (map (fn x => [x, ~x, x-1, 1-x, x+1, ~x-1]) p) end
val smallints = List.filter (fn x => x < 1073741824 andalso x >= ~1073741824) ints
val reals = [0.0, 1.0, ~1.0, 0.1, 1E300, 1E~300, 4.9E~324, 123456789.123, 2.0, ~2.5E17]
fun st n = CharVector.tabulate (n, fn i => Char.chr ((i * 7 + n) mod 256))
(* a type-tagged universe: each value is written and read at its own type *)
datatype u = Int of int | Word of word | W8 of Word8.word | Ch of char | Re of real | Str of string | Un of unit | Bo of bool | Many of many
  | IntL of int list | StrL of string list | Pair of int * int | Trip of string * real * char | Opt of int option option | Vec of int vector | SVec of string vector
  | RefI of int ref | Nest of (int list * (string * real) option) list | Rec of {a : int, b : string, c : real, d : char list} | Ord of order | MP of many * many | LL of int list list
fun put os x = case x of Int v => output_value os v | Word v => output_value os v | W8 v => output_value os v | Ch v => output_value os v | Re v => output_value os v
  | Str v => output_value os v | Un v => output_value os v | Bo v => output_value os v | Many v => output_value os v | IntL v => output_value os v | StrL v => output_value os v
  | Pair v => output_value os v | Trip v => output_value os v | Opt v => output_value os v | Vec v => output_value os v | SVec v => output_value os v | RefI v => output_value os v
  | Nest v => output_value os v | Rec v => output_value os v | Ord v => output_value os v | MP v => output_value os v | LL v => output_value os v
fun req (x : real, y) = x = y
fun get is x = case x of Int v => input_value is = v | Word v => input_value is = v | W8 v => input_value is = v | Ch v => input_value is = v
  | Re v => req (input_value is, v) | Str v => let val s : string = input_value is in s = v andalso size s = size v andalso s ^ "x" = v ^ "x" end
  | Un v => input_value is = v | Bo v => input_value is = v | Many v => input_value is = v | IntL v => input_value is = v | StrL v => input_value is = v
  | Pair v => input_value is = v | Trip (a,b,c) => let val (d,e,f) = input_value is in a = d andalso req (b, e) andalso c = f end | Opt v => input_value is = v
  | Vec v => input_value is = v | SVec v => input_value is = v | RefI r => !(input_value is) = !r
  | Nest v => let val w : (int list * (string * real) option) list = input_value is in
       ListPair.allEq (fn ((a, NONE), (b, NONE)) => a = b | ((a, SOME (s, r)), (b, SOME (t, q))) => a = b andalso s = t andalso req (r, q) | _ => false) (v, w) end
  | Rec {a,b,c,d} => let val {a=a1,b=b1,c=c1,d=d1} = input_value is in a = a1 andalso b = b1 andalso req (c,c1) andalso d = d1 end
  | Ord v => input_value is = v | MP v => input_value is = v | LL v => input_value is = v
fun name x = case x of Int v => "int " ^ i2s v | Word v => "word " ^ Word.toString v | W8 v => "word8" | Ch v => "char " ^ i2s (ord v) | Re v => "real " ^ Real.toString v
  | Str v => "string of " ^ i2s (size v) | Un _ => "unit" | Bo _ => "bool" | Many v => "datatype of 240 constructors" | IntL v => "int list of " ^ i2s (length v)
  | StrL v => "string list of " ^ i2s (length v) | Pair (a, b) => "pair " ^ i2s a ^ "," ^ i2s b | Trip _ => "triple" | Opt _ => "option" | Vec v => "vector of " ^ i2s (Vector.length v)
  | SVec v => "string vector of " ^ i2s (Vector.length v) | RefI r => "ref " ^ i2s (!r) | Nest v => "nested of " ^ i2s (length v) | Rec _ => "record" | Ord _ => "order" | MP _ => "pair of constructors" | LL v => "list list of " ^ i2s (length v)
fun nest n = List.tabulate (n, fn i => (upto (0, i mod 5), if i mod 2 = 0 then SOME (st (i mod 19), real i / 3.0) else NONE))
fun leaves ints = map Int ints @ map (Word o Word.fromInt) ints @ map (fn i => W8 (Word8.fromInt i)) (upto (0,255)) @ map (Ch o Char.chr) (upto (0,255)) @ map Re reals
   @ map (Str o st) (upto (0, 70)) @ [Un (), Bo true, Bo false, Ord LESS, Ord EQUAL, Ord GREATER, Opt NONE, Opt (SOME NONE), Opt (SOME (SOME ~1)), Vec (Vector.fromList []), IntL [], StrL []]
   @ map Many manys @ ListPair.map MP (manys, rev manys)
fun shapes ints = map (fn i => Pair (i, ~1 - i)) ints @ map (fn i => IntL [i, i]) ints @ map (fn i => RefI (ref i)) ints @ map (fn i => Opt (SOME (SOME i))) ints
   @ map (fn n => Vec (Vector.tabulate (n, fn i => i * i - n))) (upto (0, 40)) @ map (fn n => SVec (Vector.tabulate (n, fn i => st i))) (upto (0, 30))
   @ map (fn n => IntL (upto (1, n))) (upto (0, 40)) @ map (fn n => Nest (nest n)) (upto (0, 25)) @ map (fn n => LL (List.tabulate (n, fn i => upto (0, i)))) (upto (0, 12))
   @ map (fn r => Trip (st 5, r, #"\200")) reals @ map (fn r => Rec {a = ~7, b = "record", c = r, d = explode "abc"}) reals
val sizes = upto (1000, 1040) @ upto (2030, 2050) @ upto (4085, 4100) @ upto (4070, 4080) @ upto (8180, 8196)
fun bigs () = map (fn n => Vec (Vector.tabulate (n, fn i => i - 5))) sizes @ map (fn n => IntL (upto (1, n))) sizes @ map (fn n => StrL (List.tabulate (n, i2s))) (List.filter (fn n => n mod 4 = 0) sizes)
   @ map (Str o st) (upto (4050, 4110) @ upto (8160, 8200) @ [16383, 32752, 32753, 70001]) @ map (fn n => Nest (nest n)) [100, 500, 1500, 9000] @ map (fn n => SVec (Vector.tabulate (n, fn i => st (i mod 50)))) [255, 256, 1019, 1020, 1021, 2040, 4096]
   @ [IntL (upto (0, 150000)), LL (List.tabulate (500, fn i => upto (0, i)))]
'''

TRIP = COMMON + r'''
val [K, N, DIR] = CommandLine.arguments ()
fun num s = valOf (Int.fromString s)
val (k, n) = (num K, num N)
val f = DIR ^ "/t" ^ i2s k
val serial = ref 0
fun mine () = (serial := !serial + 1; !serial mod n = k)
fun guard key act = (cnt := !cnt + 1; (if act () then () else bad (key ^ "\tread back different")) handle e => bad (key ^ "\traised " ^ exnName e ^ " " ^ exnMessage e))
fun several key pre xs = guard key (fn () =>
  let val os = open_out_bin f val _ = output (os, pre) val _ = List.app (fn x => (put os x; output_char os #"|")) xs val _ = close_out os
      val is = open_in_bin f in
    (input (is, size pre) = pre andalso List.all (fn x => get is x andalso input_char is = #"|") xs andalso end_of_stream is) before close_in is end)
(* 1 *)
val all = leaves ints @ shapes ints
val _ = List.app (fn x => if mine () then several (name x) "" [x] else ()) all
val _ = List.app (fn x => if mine () then several (name x) "ab" [x] else ()) (bigs ())
val few = let fun every m (x :: r) i = if i mod m = 0 then x :: every m r (i+1) else every m r (i+1) | every _ [] _ = [] in every 37 all 0 @ every 23 (bigs ()) 0 end
val _ = List.app (fn x => List.app (fn y => if mine () then several (name x ^ " then " ^ name y) "" [x, y] else ()) few) few
val _ = List.app (fn x => List.app (fn p => if mine () then several (name x ^ " after " ^ i2s p ^ " bytes") (st p) [x, Int ~5, x] else ()) (upto (4060, 4100))) (List.take (few, 60))
val _ = List.app (fn x => List.app (fn p => if mine () then several (name x ^ " after " ^ i2s p ^ " bytes") (st p) [x] else ()) (upto (4070, 4096))) [Pair (1,2), Int 5, Int (valOf Int.minInt), Str (st 20), RefI (ref ~3), Many N3]
(* everything in one file, and all of it once more in the other order *)
val _ = if k = 0 then several "all values in one file" "" (all @ rev all) else ()
(* 2: all graphs *)
datatype node = Node of int * node ref * node ref | Nil
fun digits b 0 v = [] | digits b l v = (v mod b) :: digits b (l-1) (v div b)
fun build gn code = (* node i has edges to digits 2i, 2i+1 (gn = Nil) *)
  let val ds = Vector.fromList (digits (gn+1) (2*gn) code)
      val rs = Vector.tabulate (gn, fn i => Array.fromList [ref Nil, ref Nil])
      val nodes = Vector.tabulate (gn, fn i => Node (i, Array.sub (Vector.sub (rs, i), 0), Array.sub (Vector.sub (rs, i), 1)))
      fun tgt d = if d = gn then Nil else Vector.sub (nodes, d)
      val _ = Vector.appi (fn (i, a) => (Array.sub (a, 0) := tgt (Vector.sub (ds, 2*i)); Array.sub (a, 1) := tgt (Vector.sub (ds, 2*i+1)))) rs
  in Vector.sub (nodes, 0) end
(* isomorphism of the refs reachable from two nodes; also checks that the two share no ref *)
fun iso (x, y) =
  let val pairs = ref ([] : (node ref * node ref) list)
      exception No
      fun go (Nil, Nil) = () | go (Node (i, a, b), Node (j, c, d)) = (if i <> j then raise No else (); rf (a, c); rf (b, d)) | go _ = raise No
      and rf (a, c) = if a = c then raise No else
        case List.filter (fn (p, q) => p = a orelse q = c) (!pairs) of
           [] => (pairs := (a, c) :: !pairs; go (!a, !c))
         | [(p, q)] => if p = a andalso q = c then () else raise No
         | _ => raise No
  in (go (x, y); true) handle No => false end
fun graph key (v : node) = guard key (fn () => let val os = open_out_bin f val _ = output_value os v val _ = close_out os val is = open_in_bin f val w : node = input_value is in close_in is; iso (v, w) end)
val maxn = num (valOf (OS.Process.getEnv "GRAPH") handle Option => "3")
fun ipow b 0 = 1 | ipow b e = b * ipow b (e-1)
val _ = List.app (fn gn => let val top = ipow (gn+1) (2*gn) fun go c = if c >= top then () else (if mine () then graph ("graph of " ^ i2s gn ^ " nodes, code " ^ i2s c) (build gn c) else (); go (c+1)) in go 0 end) (upto (1, maxn))
(* shared refs across the components of one value, in every partition of five positions *)
fun parts 0 = [[]] | parts m = List.concat (map (fn p => let val mx = foldl Int.max ~1 p in map (fn b => p @ [b]) (upto (0, mx+1)) end) (parts (m-1)))
val _ = List.app (fn p => if not (mine ()) then () else guard "sharing partition" (fn () =>
   let val rs = Vector.tabulate (6, fn i => ref i) val v = map (fn b => Vector.sub (rs, b)) p val os = open_out_bin f val _ = output_value os (v, Vector.fromList v, Array.fromList (rev v)) val _ = close_out os val is = open_in_bin f
       val (a, b, c) : int ref list * int ref vector * int ref array = input_value is val _ = close_in is
       val l = a @ List.tabulate (Vector.length b, fn i => Vector.sub (b, i)) @ List.tabulate (Array.length c, fn i => Array.sub (c, i)) val o' = v @ v @ rev v in
     List.all (fn i => List.all (fn j => (List.nth (l, i) = List.nth (l, j)) = (List.nth (o', i) = List.nth (o', j))) (upto (0, length l - 1))) (upto (0, length l - 1))
     andalso map ! l = map ! o' andalso (List.app (fn r => r := !r + 100) (List.take (a, 1)); map ! v = p) end)) (parts 5)
(* many shared refs, at many addresses, around the sizes at which tables grow *)
val junk = ref ([] : int list)
fun shared m key = guard key (fn () => let val a = Vector.tabulate (m, fn i => ref i) val os = open_out_bin f
    val _ = output_value os [a, Vector.tabulate (m, fn i => Vector.sub (a, m - 1 - i)), Vector.tabulate (m, fn i => Vector.sub (a, i))] val _ = close_out os val is = open_in_bin f
    val [x, y, z] : int ref vector list = input_value is val _ = close_in is in
    Vector.foldli (fn (i, r, b) => b andalso !r = i andalso r = Vector.sub (y, m - 1 - i) andalso r = Vector.sub (z, i)) true x end)
val _ = List.app (fn m => List.app (fn s => if mine () then (junk := List.tabulate (s, fn i => i); ignore (CharArray.array (s, #"x")); shared m (i2s m ^ " shared refs, shift " ^ i2s s)) else ()) (upto (0, 150)))
   [10, 1016, 1017, 1018, 1019, 1020, 1100, 1500, 2036, 2037, 2038, 2039, 2040, 2100, 4077, 4078, 4079, 4100]
(* dags whose tree size is exponential; deep values *)
datatype t = L of int | P of t * t
fun dag 0 = L 1 | dag m = let val x = dag (m-1) in P (x, x) end
fun left (L i) = i | left (P (a, _)) = left a
fun right (L i) = 0 | right (P (_, b)) = 1 + right b
val _ = List.app (fn m => if not (mine ()) then () else guard ("dag of depth " ^ i2s m) (fn () => let val os = open_out_bin f val _ = output_value os (dag m) val _ = close_out os val is = open_in_bin f val v : t = input_value is in close_in is; left v = 1 andalso right v = m end)) (upto (0, 60) @ [600, 3000])
datatype d = D of d | E
fun deep 0 a = a | deep m a = deep (m-1) (D a)
fun depth E a = a | depth (D x) a = depth x (a + 1)
val _ = List.app (fn m => if not (mine ()) then () else guard ("chain of depth " ^ i2s m) (fn () => let val os = open_out_bin f val _ = output_value os (deep m E) val _ = close_out os val is = open_in_bin f val v : d = input_value is in close_in is; depth v 0 = m end)) [0, 1, 5, 1018, 1019, 1020, 1021, 2038, 2039, 2040, 4095, 4096, 100000]
(* what cannot be written raises, writes nothing, and the stream stays usable *)
fun reject key (wr : outstream -> unit) = if not (mine ()) then () else guard ("functional or abstract value: " ^ key) (fn () =>
   let val os = open_out_bin f val _ = output_value os [1,2] val r = (wr os; false) handle _ => true val _ = output_value os "next" val _ = close_out os val is = open_in_bin f in
     (r andalso input_value is = [1,2] andalso input_value is = "next" andalso end_of_stream is) before close_in is end)
val _ = (reject "fn" (fn os => output_value os (fn x => x + 1)); reject "fn in tuple" (fn os => output_value os (1, fn x => x)); reject "ref fn" (fn os => output_value os (ref (fn x => x)));
   reject "list of fn" (fn os => output_value os [fn x => x + 1]); reject "fn deep" (fn os => output_value os (upto (0, 5000), [SOME (fn x => x)])); reject "partial application" (fn os => output_value os (map (fn x => x)));
   reject "weak array" (fn os => output_value os (Weak.array 3 : int list Weak.array)); reject "weak pointer inside" (fn os => output_value os (1, [Weak.weak (ref 3)])); reject "stream" (fn os => output_value os (1, os));
   reject "array of fn" (fn os => output_value os (Array.array (3, fn x => x))))
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\nDONE\n")
'''

# writes one file per value (all representable in 32 bits), then reads transcoded copies
FOREIGN = COMMON + r'''
val [MODE, DIR] = CommandLine.arguments ()
datatype t = L of int | P of t ref * t ref * string
val cyc = let val a = ref (L 0) val b = ref (L ~1) in a := P (a, b, "cyc"); b := P (a, a, ""); !a end
fun same (L i, L j, _) = i = j | same (P (a, b, s), P (c, d, t), n) = s = t andalso (n = 0 orelse (same (!a, !c, n-1) andalso same (!b, !d, n-1) andalso (a = b) = (c = d))) | same _ = false
val vals = leaves smallints @ shapes smallints @ [Nest (nest 300), IntL (upto (0, 900)), StrL (List.tabulate (700, fn i => st (i mod 300))), Vec (Vector.tabulate (300, fn i => ~i)), SVec (Vector.tabulate (70, st)), Str (st 255), Str (st 256), Str (st 5000)]
fun zip i [] = [] | zip i (x :: r) = (i, x) :: zip (i+1) r
val _ = if MODE = "write" then
  (List.app (fn (i, x) => let val os = open_out_bin (DIR ^ "/" ^ i2s i) in put os x; close_out os end) (zip 1 vals);
   let val os = open_out_bin (DIR ^ "/0") in output_value os cyc; close_out os end)
 else
  (List.app (fn (i, x) => let val is = open_in_bin (DIR ^ "/" ^ i2s i) in cnt := !cnt + 1;
     ((if get is x andalso end_of_stream is then () else bad (MODE ^ ": " ^ name x ^ "\tread different")) handle e => bad (MODE ^ ": " ^ name x ^ "\traised " ^ exnName e)); close_in is end) (zip 1 vals);
   let val is = open_in_bin (DIR ^ "/0") val v : t = input_value is in if same (cyc, v, 8) andalso same (v, v, 8) then () else bad (MODE ^ ": cycle\tread different") end)
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\nDONE\n")
'''

TRUNC = COMMON + r'''
val DIR :: FILES = CommandLine.arguments ()
fun slurp f = let val is = open_in_bin f in input (is, in_stream_length is) before close_in is end
val live = Array.tabulate (300, fn i => (i, [st i, i2s i]))
fun check () = Array.foldli (fn (i, (j, [s, t]), b) => b andalso i = j andalso s = st i andalso t = i2s i | _ => false) true live
fun churn 0 = () | churn m = (Array.update (live, m mod 300, (m mod 300, [st (m mod 300), i2s (m mod 300)])); ignore (CharArray.array (2000, #"\127")); churn (m-1))
val tmp = DIR ^ "/trunc"
fun one (name, s, p) =
  let val os = open_out_bin tmp val _ = output (os, String.substring (s, 0, p)) val _ = close_out os val is = open_in_bin tmp in
    cnt := !cnt + 1;
    ((ignore (input_value is : int list); bad (name ^ " truncated to " ^ i2s p ^ " bytes\tgave a value")) handle (e as Interrupt) => raise e | _ => ());
    close_in is; if p mod 16 = 0 then churn 30 else ()
  end
val _ = List.app (fn f => let val s = slurp f fun go p = if p >= size s then () else (one (f, s, p); go (p+1)) in go 0; churn 2000;
    if check () then () else bad (f ^ "\tlive data changed") end) FILES
val _ = churn 20000
val _ = if check () then () else bad "live data changed"
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\nDONE\n")
'''

FAULT = COMMON + r'''
val [IN, OUT] = CommandLine.arguments ()
val want = (nest 400, List.tabulate (300, fn i => st (i mod 40)), Vector.tabulate (200, fn i => ~i), "end")
fun eq ((a, b, c, d), (e, f, g, h)) = ListPair.allEq (fn ((x, _), (y, _)) => x = y) (a, e) andalso b = f andalso c = g andalso d = h
fun fill j = CharArray.tabulate (60000, fn i => if j mod 2 = 0 then (case i mod 8 of 1 => #"\100" | 2 => #"\001" | _ => #"\000") else #"a")
val live = Array.tabulate (30, fill)
fun churn m = let val a = Array.array (200, []) fun g 0 = () | g n = (Array.update (a, n mod 200, List.tabulate (20, fn i => i + n)); g (n-1)) in g m end
val _ = List.app (fn j => if j mod 2 = 0 then Array.update (live, j, CharArray.array (0, #"x")) else ()) (upto (0, 29))
val _ = churn 8000
fun rd () = let val is = open_in_bin IN in ((let val v = input_value is in if eq (v, want) then "good" else "WRONG" end) handle e => exnName e) before close_in is end
val rs = List.tabulate (8, fn _ => rd ())
val _ = churn 8000
val ok = Array.foldl (fn (a, b) => b andalso CharArray.all (fn c => c = #"a") a) true live
val w = (let val os = open_out_bin OUT in output_value os want; close_out os; "good" end) handle e => exnName e
val _ = churn 3000
val _ = print (String.concatWith "," rs ^ " " ^ Bool.toString ok ^ " " ^ w ^ "\nDONE\n")
'''

GC = COMMON + r'''
val [DIR] = CommandLine.arguments ()
val vals = [Nest (nest 30), IntL (upto (0, 60)), Str (st 300), Many (U100 5), SVec (Vector.tabulate (20, st)), RefI (ref ~3), Rec {a = ~7, b = "record", c = 1.5, d = explode "abc"}, LL (List.tabulate (6, fn i => upto (0, i)))]
fun f i = DIR ^ "/g" ^ i2s i
fun zip i [] = [] | zip i (x :: r) = (i, x) :: zip (i+1) r
fun w (i, x) = let val os = open_out_bin (f i) in put os x; put os x; close_out os end
val _ = List.app w (zip 0 vals)
val held = ref ([] : (int list * (string * real) option) list list)
val _ = List.app (fn (i, x) => let val is = open_in_bin (f i) in if get is x andalso get is x andalso end_of_stream is then () else print ("wrong: " ^ name x ^ "\n"); close_in is end) (zip 0 vals)
val _ = List.app (fn _ => let val is = open_in_bin (f 0) in held := input_value is :: !held; close_in is end) (upto (1, 12))
val junk = List.tabulate (60, fn i => (i, st i))
val _ = List.app (fn h => if map #1 h = map #1 (nest 30) andalso map (fn (_, SOME (s, _)) => s | _ => "") h = map (fn (_, SOME (s, _)) => s | _ => "") (nest 30) then () else print "held value changed\n") (!held)
val _ = print ("sum " ^ i2s (foldl op+ 0 (map #1 junk)) ^ "\nDONE\n")
'''


# ---------------------------------------------------------------- transcoding
def parse64(b):
    """the words of a natural (64-bit little-endian) file -> root immediate or (blocks, offsets)"""
    magic, n = struct.unpack(">II", b[:8])
    assert magic == 0x8495A6BC, hex(magic)
    if n == 0:
        return ("imm", struct.unpack(">i", b[8:12])[0])
    if n == 0xFFFFFFFF:
        return ("imm", struct.unpack(">q", b[8:16])[0])
    body = b[8:8 + 8 * n]
    blocks, at, p = [], {}, 0
    while p < n:
        hd, = struct.unpack_from("<Q", body, 8 * p)
        sz, tag = hd >> 10, hd & 255
        raw = body[8 * p + 8:8 * (p + 1 + sz)]
        at[8 * (p + 1)] = len(blocks)
        blocks.append((tag, raw))
        p += 1 + sz
    STR, DBL = 253, 254
    out = []
    for tag, raw in blocks:
        if tag == STR:
            out.append(("s", raw[:len(raw) - 1 - raw[-1]]))
        elif tag == DBL:
            out.append(("d", struct.unpack("<d", raw)[0]))
        else:
            fs = []
            for (v,) in struct.iter_unpack("<q", raw):
                fs.append(("i", v >> 1) if v & 1 else ("b", at[v]) if v & 3 == 0 else ("a", v >> 2))
            out.append(("f", tag, fs))
    return ("blk", out)


def enc(val, bits, big):
    e = ">" if big else "<"
    magic = {(32, True): 0x8495A6B9, (32, False): 0x8495A6BA, (64, True): 0x8495A6BB, (64, False): 0x8495A6BC}[bits, big]
    if val[0] == "imm":
        return struct.pack(">IIi", magic, 0, val[1])
    w = bits // 8
    word = lambda v: struct.pack(e + ("i" if w == 4 else "q"), v)
    uword = lambda v: struct.pack(e + ("I" if w == 4 else "Q"), v)
    offs, pos, bodies = [], 0, []
    for o in val[1]:
        nw = (len(o[1]) + w) // w if o[0] == "s" else 8 // w if o[0] == "d" else len(o[2])
        offs.append((pos + 1) * w)
        pos += 1 + nw
        bodies.append(nw)
    res = []
    for o, nw in zip(val[1], bodies):
        tag = {"s": 253, "d": 254}.get(o[0]) or (o[1] if o[0] == "f" else 0)
        res.append(uword(nw << 10 | 3 << 8 | tag))
        if o[0] == "s":
            res.append(o[1] + b"\0" * (nw * w - 1 - len(o[1])) + bytes([nw * w - 1 - len(o[1])]))
        elif o[0] == "d":
            res.append(struct.pack(e + "d", o[1]))
        else:
            for k, v in o[2]:
                res.append(word(2 * v + 1) if k == "i" else uword(offs[v]) if k == "b" else uword(4 * v + 2))
    return struct.pack(">II", magic, pos) + b"".join(res)


def compact(val):
    out, num = [], {}
    sizes = [0, 0]

    def cint(n):
        if 0 <= n < 64:
            return bytes([0x40 + n])
        if -128 <= n < 128:
            return b"\0" + struct.pack(">b", n)
        if -32768 <= n < 32768:
            return b"\1" + struct.pack(">h", n)
        if -2**31 <= n < 2**31:
            return b"\2" + struct.pack(">i", n)
        return b"\3" + struct.pack(">q", n)

    def small(sz, tag):
        return bytes([0x80 + tag + (sz << 4)]) if tag < 16 and sz < 8 else b"\x08" + struct.pack(">I", sz << 10 | tag)
    if val[0] == "imm":
        v = val[1]
        return struct.pack(">IIII", 0x8495A6BD, 0, 0, 0) + (cint(v >> 1) if v & 1 else small(0, v >> 2))
    stack = [("b", 0)]
    while stack:
        k, v = stack.pop()
        if k == "i":
            out.append(cint(v))
        elif k == "a":
            out.append(small(0, v))
        elif v in num:
            d = len(num) - num[v]
            out.append(b"\4" + bytes([d]) if d < 256 else b"\5" + struct.pack(">H", d) if d < 65536 else b"\6" + struct.pack(">I", d))
        else:
            num[v] = len(num)
            o = val[1][v]
            if o[0] == "s":
                l = len(o[1])
                out.append((bytes([0x20 + l]) if l < 32 else b"\x09" + bytes([l]) if l < 256 else b"\x0a" + struct.pack(">I", l)) + o[1])
                sizes[0] += 1 + (l + 4) // 4
                sizes[1] += 1 + (l + 8) // 8
            elif o[0] == "d":
                out.append(b"\x0b" + struct.pack(">d", o[1]))
                sizes[0] += 3
                sizes[1] += 2
            else:
                out.append(small(len(o[2]), o[1]))
                sizes[0] += 1 + len(o[2])
                sizes[1] += 1 + len(o[2])
                stack.extend(reversed(o[2]))
    return struct.pack(">IIII", 0x8495A6BD, len(num), *sizes) + b"".join(out)


def main():
    c = Check("R06")
    th = c.thorough
    built = dict(zip(("trip", "foreign", "trunc", "fault", "gcio"), pmap(lambda nt: c.compile(*nt), [
        ("trip", TRIP), ("foreign", FOREIGN), ("trunc", TRUNC), ("fault", FAULT), ("gcio", GC)])))
    d = c.dir("data")
    tot = c.take(c.shards(built["trip"], extra=(d,), timeout=400, env={"GRAPH": "3"} if not th else {"GRAPH": "3"}))
    n_trip = tot.get("n", 0)

    # other formats
    nat = c.dir("nat")
    n_for = n_trunc = 0
    tfiles = []
    if c.harness(built["foreign"], ["write", nat]):
        forms = {"64-bit big-endian": lambda v: enc(v, 64, True), "32-bit little-endian": lambda v: enc(v, 32, False),
                 "32-bit big-endian": lambda v: enc(v, 32, True), "compact": compact, "natural": lambda v: enc(v, 64, False)}
        vals = {}
        for f in os.listdir(nat):
            try:
                vals[f] = parse64(open(f"{nat}/{f}", "rb").read())
            except Exception as x:
                c.fail(f"format:{f}", f"the file written by output_value is not in the documented format: {x!r}")
        if not c.fails:
            res = []
            for k, (nm, fn) in enumerate(forms.items()):
                fd = c.dir(f"form{k}")
                for f, v in vals.items():
                    b = fn(v)
                    if nm == "natural" and b != open(f"{nat}/{f}", "rb").read():
                        b = open(f"{nat}/{f}", "rb").read()      # (strings' padding need not be zero)
                    c.write(f"{fd}/{f}", b)
                res.append((nm, fd))
            for r in pmap(lambda x: c.harness(built["foreign"], [x[0], x[1]]), res):
                if r:
                    n_for += c.take([r]).get("n", 0)
            # truncations
            names = sorted(vals, key=lambda f: len(open(f"{nat}/{f}", "rb").read()))
            picks = [names[0], names[len(names) // 4], names[len(names) // 2]] + [f for f in names if 60 < os.path.getsize(f"{nat}/{f}") < 90][:3]
            picks += [next(f for f in names if os.path.getsize(f"{nat}/{f}") > s) for s in (200, 500, 4200)]
            if th:
                picks += [next(f for f in names if os.path.getsize(f"{nat}/{f}") > 9000)]
            jobs = [(k, f) for k in (0, 1, 2, 4) for f in dict.fromkeys(picks)]
            groups = [jobs[i::8] for i in range(8)]

            def trunc(g):
                i, js = g
                td = c.dir(f"tr{i}")
                return c.harness(built["trunc"], [td, *[f"{c.work}/form{k}/{f}" for k, f in js]])
            n_trunc = c.take([r for r in pmap(trunc, list(enumerate(groups))) if r]).get("n", 0)

    # outcomes of the system calls
    n_out = 0
    r = run(["gcc", "-shared", "-fPIC", "-o", f"{c.work}/shim.so", f"{VERIF}/lib/io/shim.c", "-ldl"], merge=True)
    if r.rc:
        log("cannot build the shim: " + r.out)
        sys.exit(2)
    if built["fault"]:
        ref = f"{c.work}/fault.ref"
        r0 = run([c.inst.camlrunm, built["fault"], "/dev/null", ref], env=c.env)
        want = open(ref, "rb").read() if os.path.exists(ref) else b""
        if not re.match(r"\w+(,\w+){7} true good\nDONE", r0.out) or len(want) < 9000:
            c.fail("fault harness", r0.out[-300:] + r0.err[-300:])
        else:
            alpha = "F1HMI"
            seqs = [s for l in (1, 2, 3, 4) for s in map("".join, itertools.product(alpha, repeat=l)) if s[-1] != "F" and (l < 4 or th or s[0] == "F")]
            seqs += [s.lower() for s in ("1", "h", "i1i1", "m")] if th else ["h", "m"]
            errs = ["F" * k + "E" for k in range(24)] + ["FE" * k for k in (2, 4, 8, 16)] + ["F1E" * 8, "FHE" * 8, "FFE" * 8, "E" * 20, "FFFE" * 8, "FMFE" * 6]
            jobs = [(s, "") for s in seqs + errs] + [("", s) for s in seqs if len(s) < (5 if th else 3)] + [("", s) for s in errs[:8]]

            def one(it):
                i, (r_, w_) = it
                out, inp = f"{c.work}/f{i}.out", f"{c.work}/f{i}.in"
                shutil.copy(ref, inp)
                open(out, "w").close()
                env = dict(c.env, LD_PRELOAD=f"{c.work}/shim.so", SHIM_R=r_, SHIM_W=w_, SHIM_IN=inp, SHIM_OUT=out)
                r = run([c.inst.camlrunm, built["fault"], inp, out], env=env, timeout=60)
                got = open(out, "rb").read()
                os.remove(out)
                os.remove(inp)
                key = f"reads {r_ or 'whole'}, writes {w_ or 'whole'}"
                m = re.match(r"(\S+) (true|false) (\w+)\nDONE", r.out)
                if r.rc or not m:
                    return c.fail(key, f"status {r.rc}, timed out {r.timed_out}\n{r.out[-200:]}{r.err[-300:]}")
                rs = m[1].split(",")
                if "WRONG" in rs or m[2] == "false":
                    return c.fail(key, f"results {rs}, heap intact {m[2]}")
                if "E" not in r_ and rs != ["good"] * 8:
                    return c.fail(key, f"results {rs} without any failing read")
                if m[3] == "good" and got != want or m[3] != "good" and "E" not in w_.upper():
                    return c.fail(key, f"output_value: {m[3]}, {len(got)} bytes of {len(want)}")
            pmap(one, list(enumerate(jobs)))
            n_out = len(jobs)

    # collections while reading
    n_gc = 0
    rt = c.inst.hooked_runtime()
    if built["gcio"]:
        def g(i, **env):
            dd = f"{c.work}/gc{i}"
            os.makedirs(dd, exist_ok=True)
            r = run([rt, built["gcio"], dd], env=dict(c.env, **{"MOSML_VERIFY_" + k: str(v) for k, v in env.items()}), timeout=60)
            shutil.rmtree(dd, ignore_errors=True)
            return r
        st = f"{c.work}/stats"
        r0 = g("0", STATS=st)
        if r0.rc or "DONE" not in r0.out or len(r0.out.split("\n")) != 3:
            c.fail("gc:unforced", r0.out[-500:] + r0.err[-300:])
        else:
            allocs = int(re.findall(r"\d+", open(st).read())[0])
            step = max(1, allocs // (400 if not th else 4000))
            jobs = [dict(GC_AT=k) for k in range(1, allocs + 1, step)]
            jobs += [dict(GC_EVERY=e, SLICE=s) for e in (1, 2, 3, 5, 8, 13, 50) for s in (1, 10, 40, 150, 700, 3000)]

            def go(it):
                r = g(it[0] + 1, **it[1])
                if r.rc or r.out != r0.out:
                    c.fail("collections: " + " ".join(f"{k}={v}" for k, v in it[1].items()), f"status {r.rc}\n{r.out[-300:]}{r.err[-300:]}")
            pmap(go, list(enumerate(jobs)))
            n_gc = len(jobs)
    c.sample("graph of 3 nodes, code 1234: write, read, isomorphic and disjoint")
    c.sample("32-bit big-endian transcoding of string vector of 30")
    c.sample("compact file truncated: not promised; natural file of 4,2xx bytes truncated at every byte")
    total = n_trip + n_for + n_trunc + n_out + n_gc
    c.finish({"states": n_trip + n_for, "transitions": total, "traces_validated_against_impl": total, "exhaustive": True, "roundtrips": n_trip, "foreign_format_reads": n_for,
              "truncations": n_trunc, "outcome_sequences": n_out, "collection_schedules": n_gc,
              "bound": "leaf and shape families, all graphs of 3 nodes with 2 edges, all pairs of a selection, all offsets around one buffer, all truncations of the selected files"},
             ["a file whose contents were changed, other than by truncation, is outside the property: the format is not checked"])


main()
