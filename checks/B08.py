#!/usr/bin/env python3
"""B08: the mutable containers are what they stand for, after every sequence of operations up to a depth.

Polyhash and Hashset (with hash functions that collide always, often, and hardly ever, and the polymorphic ones), Dynarray, Buffer, Susp, and
Byte and Random exhaustively over their small domains.  Against lists and functions; the containers are built anew for every sequence,
observed after every operation; growth is covered by regular histories of hundreds of operations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

HEAD = r'''
val i2s = Int.toString
fun num s = valOf (Int.fromString s)
val bads = ref 0 val cnt = ref 0
fun bad key det = if !bads > 25 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\t" ^ det ^ "\n"))
val K :: N :: REST = CommandLine.arguments ()
val (k, n, D) = (num K, num N, num (hd REST))
fun il xs = String.concatWith "," (map i2s xs)
fun pl xs = String.concatWith "," (map (fn (a, b) => i2s a ^ "=" ^ i2s b) xs)
fun upto (i, j) = if i > j then [] else i :: upto (i + 1, j)
fun sort c l = Listsort.sort c l
fun sorti l = sort Int.compare l
fun sortp l = sort (fn ((a, _), (b, _)) => Int.compare (a, b)) l
exception NF
exception Bad of string
fun need what b = if b then () else raise Bad what
(* every sequence of ops operations of a depth; the first operations are divided among the processes *)
fun sequences what names depth mk = let
   val ops = Vector.length names
   fun text h = String.concatWith ", " (rev (map (fn x => Vector.sub (names, x)) h))
   fun run seq = let val step = mk () fun go [] _ = () | go (x :: xs) h = (cnt := !cnt + 1;
         (step x handle Bad m => bad (what ^ ": " ^ text (x :: h)) m | e => bad (what ^ ": " ^ text (x :: h)) ("raised " ^ exnName e)); go xs (x :: h)) in go seq [] end
   fun all 0 acc = run (rev acc) | all d acc = let fun each x = if x = ops then () else (all (d - 1) (x :: acc); each (x + 1)) in each 0 end
   in List.app (fn i => List.app (fn j => if (i * ops + j) mod n = k then all (depth - 2) [j, i] else ()) (upto (0, ops - 1))) (upto (0, ops - 1)) end
'''

HASH = HEAD + r'''
(* an association list, sorted by key *)
fun put ([], k : int, v : int) = [(k, v)] | put ((a, b) :: r, k, v) = if k < a then (k, v) :: (a, b) :: r else if k = a then (k, v) :: r else (a, b) :: put (r, k, v)
fun get ([], _ : int) = NONE | get ((a, b : int) :: r, k) = if a = k then SOME b else get (r, k)
fun del (l, k : int) = List.filter (fn (a, _) => a <> k) l
val names = Vector.fromList ["insert 0", "insert 1", "insert 2", "remove 0", "remove 1", "remove 2", "peekInsert 0", "peekInsert 1", "filter even values", "filter keys > 0", "copy and change the copy", "swap with the copy", "map", "transform"]
fun obs t l = (
   need "listItems" (sortp (Polyhash.listItems t) = l); need "numItems" (Polyhash.numItems t = length l);
   List.app (fn k => (need "peek" (Polyhash.peek t k = get (l, k));
      need "find" ((SOME (Polyhash.find t k) handle NF => NONE) = get (l, k)))) [0, 1, 2, 99];
   let val log = ref [] in Polyhash.apply (fn x => log := x :: !log) t; need "apply" (sortp (!log) = l) end;
   need "bucketSizes" (List.foldl op + 0 (Polyhash.bucketSizes t) = length l))
fun table what mkt depth = sequences what names depth (fn () => let
   val t = ref (mkt ()) val l = ref [] val c = ref (mkt ()) val lc = ref [] val fresh = ref 0
   fun ins t l k = (fresh := !fresh + 1; Polyhash.insert (!t) (k, !fresh); l := put (!l, k, !fresh))
   fun rem k = let val r = SOME (Polyhash.remove (!t) k) handle NF => NONE in need "remove" (r = get (!l, k)); l := del (!l, k) end
   fun pin k = (fresh := !fresh + 1; let val r = Polyhash.peekInsert (!t) (k, !fresh) in need "peekInsert" (r = get (!l, k)); if r = NONE then l := put (!l, k, !fresh) else () end)
   fun filt p = (Polyhash.filter p (!t); l := List.filter p (!l))
   in fn x => ((case x of 0 => ins t l 0 | 1 => ins t l 1 | 2 => ins t l 2 | 3 => rem 0 | 4 => rem 1 | 5 => rem 2 | 6 => pin 0 | 7 => pin 1
        | 8 => filt (fn (_, v) => v mod 2 = 0) | 9 => filt (fn (k, _) => k > 0)
        | 10 => (c := Polyhash.copy (!t); lc := !l; ins c lc 1; ins c lc 2)
        | 11 => let val t' = !t val l' = !l in t := !c; l := !lc; c := t'; lc := l' end
        | 12 => let val t' = Polyhash.map (fn (k, v) => k * 1000 + v + 1) (!t) in c := !t; lc := !l; t := t'; l := map (fn (k, v) => (k, k * 1000 + v + 1)) (!l) end
        | _ => let val t' = Polyhash.transform (fn v => v + 3) (!t) in c := !t; lc := !l; t := t'; l := map (fn (k, v) => (k, v + 3)) (!l) end);
      obs (!t) (!l); obs (!c) (!lc)) end)
fun eq (a : int, b) = a = b
val mixes = [("all collide", fn _ => 0), ("two buckets", fn k => k mod 2), ("spread", fn k => k * 7919 mod 1009), ("huge hashes", fn k => valOf Int.maxInt - Int.abs k), ("negative hashes", fn k => ~k - 1)]
val _ = List.app (fn (nm, h) => List.app (fn sz => table ("Polyhash " ^ nm ^ " size " ^ i2s sz) (fn () => Polyhash.mkTable (h, eq) (sz, NF)) (if sz = 1 then D else D - 1)) [1, 16]) (List.take (mixes, 3))
val _ = table "Polyhash polymorphic" (fn () => Polyhash.mkPolyTable (1, NF)) D
val _ = List.app (fn (nm, h) => table ("Polyhash " ^ nm) (fn () => Polyhash.mkTable (h, eq) (4, NF)) 3) mixes
(* growth *)
fun grow what mk sz f = let val t = mk () val l = ref [] val w = fn s => what ^ " " ^ i2s sz ^ ": " ^ s
   fun same m = (cnt := !cnt + 1; if Polyhash.numItems t = length (!l) andalso sortp (Polyhash.listItems t) = !l andalso List.all (fn (a, b) => Polyhash.find t a = b) (!l) then () else bad (w m) "")
   val _ = List.app (fn i => (Polyhash.insert t (f i, i); l := put (!l, f i, i); if i mod 16 = 0 then same ("after inserting " ^ i2s i) else ())) (upto (1, sz))
   val _ = same "all inserted"
   val u = Polyhash.map (fn (a, b) => a + b) t
   val _ = if sortp (Polyhash.listItems u) = map (fn (a, b) => (a, a + b)) (!l) then () else bad (w "map") ""
   val _ = List.app (fn i => if i mod 3 = 0 then () else (ignore (Polyhash.remove t (f i)); l := del (!l, f i); if i mod 16 = 0 then same ("after removing " ^ i2s i) else ())) (upto (1, sz))
   val _ = List.app (fn i => (Polyhash.insert t (f i, ~i); l := put (!l, f i, ~i))) (upto (1, sz))
   in same "inserted again"; if Polyhash.numItems u = sz then () else bad (w "the mapped table") "changed" end
val _ = List.app (fn (i, (sz, f)) => if i mod n <> k then () else List.app (fn (nm, h) => grow ("Polyhash growing, " ^ nm) (fn () => Polyhash.mkTable (h, eq) (1, NF)) sz f) mixes)
   (ListPair.zip (upto (0, 100), List.concat (map (fn sz => [(sz, fn i => i), (sz, fn i => i * 64), (sz, fn i => ~i * 1000003)]) [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 130, 260])))
(* keys of any equality type *)
val pt : (string * int list, int) Polyhash.hash_table = Polyhash.mkPolyTable (10, NF)
fun key i = (i2s (i mod 10) ^ "k", [i, i mod 7])
val _ = List.app (fn i => Polyhash.insert pt (key i, i)) (upto (0, 400))
val _ = List.app (fn i => if Polyhash.find pt (i2s (i mod 10) ^ "k", [i] @ [i mod 7]) = i then () else bad "Polyhash with structured keys" (i2s i)) (upto (0, 400))

(* sets *)
val names = Vector.fromList ["add 0", "add 1", "add 2", "add 3", "delete 0", "delete 1", "delete 2", "addList 1 2 1", "copy and change the copy", "swap with the copy"]
fun insl (l, x) = if List.exists (fn y => x = y) l then l else sorti (x :: l)
fun sobs s l hf = (need "listItems" (sorti (Hashset.listItems s) = l); need "numItems" (Hashset.numItems s = length l); need "isEmpty" (Hashset.isEmpty s = null l);
   List.app (fn x => let val e = List.exists (fn y => x = y) l in need "member" (Hashset.member (s, x) = e); need "peek" (Hashset.peek (s, x) = (if e then SOME x else NONE));
       need "retrieve" ((SOME (Hashset.retrieve (s, x)) handle Hashset.NotFound => NONE) = (if e then SOME x else NONE)) end) [0, 1, 2, 3, 77];
   let val log = ref [] in Hashset.app (fn x => log := x :: !log) s; need "app" (sorti (!log) = l) end;
   need "fold" (sorti (Hashset.fold (op ::) [] s) = l);
   need "all" (Hashset.all (fn x => x < 2) s = List.all (fn x => x < 2) l); need "exists" (Hashset.exists (fn x => x = 2) s = List.exists (fn x => x = 2) l);
   need "find" (case Hashset.find (fn x => x > 0) s of NONE => not (List.exists (fn x => x > 0) l) | SOME x => x > 0 andalso List.exists (fn y => x = y) l);
   need "hash" (Hashset.hash s = List.foldl (fn (x, a) => a + hf x) 0w0 l))
fun sub (a, b) = List.all (fn x => List.exists (fn y => x = y) b) a
fun set what hf depth = sequences what names depth (fn () => let
   val mk = fn () => Hashset.empty (hf, eq) val s = ref (mk ()) val l = ref [] val c = ref (mk ()) val lc = ref []
   fun add s l x = (Hashset.add (!s, x); l := insl (!l, x))
   fun dele x = let val r = (Hashset.delete (!s, x); true) handle Hashset.NotFound => false in need "delete" (r = List.exists (fn y => x = y) (!l)); l := List.filter (fn y => x <> y) (!l) end
   in fn x => ((case x of 0 => add s l 0 | 1 => add s l 1 | 2 => add s l 2 | 3 => add s l 3 | 4 => dele 0 | 5 => dele 1 | 6 => dele 2 | 7 => (Hashset.addList (!s, [1, 2, 1]); l := insl (insl (!l, 1), 2))
        | 8 => (c := Hashset.copy (!s); lc := !l; add c lc 3) | _ => let val s' = !s val l' = !l in s := !c; l := !lc; c := s'; lc := l' end);
      sobs (!s) (!l) hf; sobs (!c) (!lc) hf; need "equal" (Hashset.equal (!s, !c) = (!l = !lc)); need "isSubset" (Hashset.isSubset (!s, !c) = sub (!l, !lc)); need "isSubset" (Hashset.isSubset (!c, !s) = sub (!lc, !l))) end)
val smix = [("all collide", fn _ => 0w5), ("two buckets", fn x => Word.fromInt (x mod 2)), ("spread", fn x => Word.fromInt x * 0w2654435769), ("polymorphic", fn x => Hashset.polyHash x), ("huge", fn x => 0w0 - Word.fromInt x)]
val _ = List.app (fn (nm, h) => set ("Hashset " ^ nm) h D) smix
val _ = List.app (fn (i, (sz, f)) => if i mod n <> k then () else List.app (fn (nm, h) => let
    val s = Hashset.singleton (h, eq) (f 0) val l = ref [f 0] fun same m = (cnt := !cnt + 1; if Hashset.numItems s = length (!l) andalso sorti (Hashset.listItems s) = sorti (!l) andalso List.all (fn x => Hashset.member (s, x)) (!l) then () else bad ("Hashset " ^ nm ^ " " ^ i2s sz ^ " " ^ m) "")
    val _ = List.app (fn i => (Hashset.add (s, f i); Hashset.add (s, f i); l := f i :: !l; if i mod 16 = 0 then same ("after " ^ i2s i) else ())) (upto (1, sz)) val _ = same "all"
    val c = Hashset.copy s
    val _ = List.app (fn i => if i mod 3 = 0 then () else (Hashset.delete (s, f i); l := List.filter (fn y => y <> f i) (!l); if i mod 16 = 0 then same ("without " ^ i2s i) else ())) (upto (1, sz))
    in same "two thirds deleted"; if Hashset.numItems c = sz + 1 andalso Hashset.isSubset (s, c) andalso (sz = 0 orelse Hashset.isSubset (c, s) = (sz < 1)) then () else bad ("Hashset " ^ nm ^ " " ^ i2s sz) "the copy changed" end) smix)
   (ListPair.zip (upto (0, 100), List.concat (map (fn sz => [(sz, fn i => i), (sz, fn i => i * 64), (sz, fn i => ~i * 1000003)]) [1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 130, 260])))
val _ = print ("COUNT hash_states " ^ i2s (!cnt) ^ "\nDONE\n")
'''

DYN = HEAD + r'''
(* a dynamic array is a function with finitely many values that are not the default *)
fun mget ([], _ : int, d : int) = d | mget ((i, v) :: r, j, d) = if i = j then v else mget (r, j, d)
val R = upto (0, 12) @ [30, 100, 1000]
val names = Vector.fromList ["update 0", "update 1", "update 4", "update 9", "update ~1", "sub ~1", "subArray 0 3", "subArray 1 1", "subArray 2 20", "subArray 1 0", "another update 3"]
fun dyn what mk0 l0 d depth = sequences what names depth (fn () => let
   val a = ref (mk0 ()) val l = ref l0 val old = ref (mk0 ()) val lo = ref l0 val fresh = ref 100
   fun obs a l = (List.app (fn i => need ("sub " ^ i2s i) (Dynarray.sub (a, i) = mget (l, i, d))) R; need "default" (Dynarray.default a = d); need "bound" (List.all (fn (i, v) => v = d orelse i <= Dynarray.bound a) l))
   fun upd i = (fresh := !fresh + 1; Dynarray.update (!a, i, !fresh); l := (i, !fresh) :: !l)
   fun subA (m, n) = (old := !a; lo := !l; a := Dynarray.subArray (!a, m, n); l := List.concat (List.tabulate (n - m + 1, fn i => [(i, mget (!lo, i + m, d))])))
   in fn x => ((case x of 0 => upd 0 | 1 => upd 1 | 2 => upd 4 | 3 => upd 9 | 4 => ((Dynarray.update (!a, ~1, 5); raise Bad "update ~1 did not raise") handle Subscript => ())
       | 5 => ((ignore (Dynarray.sub (!a, ~1)); raise Bad "sub ~1 did not raise") handle Subscript => ())
       | 6 => subA (0, 3) | 7 => subA (1, 1) | 8 => subA (2, 20) | 9 => ((ignore (Dynarray.subArray (!a, 1, 0)); raise Bad "subArray 1 0 did not raise") handle Size => ())
       | _ => (fresh := !fresh + 1; Dynarray.update (!old, 3, !fresh); lo := (3, !fresh) :: !lo));
     if x = 10 andalso false then () else (); obs (!a) (if x = 10 then !l else !l); obs (!old) (!lo)) end)
(* !old and !a start as two arrays *)
val _ = dyn "Dynarray 0" (fn () => Dynarray.array (0, 7)) [] 7 D
val _ = dyn "Dynarray 4" (fn () => Dynarray.array (4, 7)) [] 7 (D - 1)
val _ = dyn "Dynarray fromList" (fn () => Dynarray.fromList ([1, 2, 7], 7)) [(0, 1), (1, 2)] 7 (D - 1)
val _ = dyn "Dynarray empty list" (fn () => Dynarray.fromList ([], 7)) [] 7 (D - 1)
val _ = dyn "Dynarray tabulate" (fn () => let val log = ref [] val a = Dynarray.tabulate (5, fn i => (log := i :: !log; i * i), 7) in need "tabulate's order" (!log = [4, 3, 2, 1, 0]); a end) (List.tabulate (5, fn i => (i, i * i))) 7 (D - 1)
val _ = (ignore (Dynarray.array (~1, 0)); bad "Dynarray.array ~1" "did not raise") handle Size => ()
val _ = (ignore (Dynarray.tabulate (~1, fn i => i, 0)); bad "Dynarray.tabulate ~1" "did not raise") handle Size => ()
val _ = List.app (fn st => let val a = Dynarray.array (1, ~1) in List.app (fn i => Dynarray.update (a, i * st, i)) (upto (0, 300)); List.app (fn i => (cnt := !cnt + 1; if Dynarray.sub (a, i) = (if i mod st = 0 andalso i div st <= 300 then i div st else ~1) then () else bad ("Dynarray by " ^ i2s st) (i2s i))) (upto (0, 301 * st)) end) [1, 2, 3, 5, 17]

(* buffers *)
val names = Vector.fromList ["addChar", "addString 0", "addString 1", "addString 2", "addString 7", "addString 40", "addSubString 3", "addSubString 0", "clear", "reset"]
fun buf hint depth = sequences ("Buffer " ^ i2s hint) names depth (fn () => let
   val b = Buffer.new hint val other = Buffer.new hint val s = ref "" val c = ref 0
   fun chars m = CharVector.tabulate (m, fn i => (c := !c + 1; Char.chr (!c mod 256)))
   fun str m = let val t = chars m in Buffer.addString b t; s := !s ^ t end
   fun subs m = let val t = chars (m + 9) in Buffer.addSubString b (Substring.substring (t, 4, m)); s := !s ^ String.substring (t, 4, m) end
   in fn x => ((case x of 0 => let val t = chars 1 in Buffer.addChar b (String.sub (t, 0)); s := !s ^ t end | 1 => str 0 | 2 => str 1 | 3 => str 2 | 4 => str 7 | 5 => str 40 | 6 => subs 3 | 7 => subs 0
      | 8 => (Buffer.clear b; s := "") | _ => (Buffer.reset b; s := ""));
      let val t = Buffer.contents b in need "contents" (t = !s); Buffer.addChar other #"x"; need "size" (Buffer.size b = size (!s)); need "contents again" (Buffer.contents b = t) end) end)
val _ = List.app (fn h => buf h (if h < 4 then D else D - 1)) [1, 2, 3, 8, 64]
val _ = List.app (fn h => (ignore (Buffer.new h); bad ("Buffer.new " ^ i2s h) "did not raise") handle Size => ()) [0, ~1, String.maxSize + 1]
val _ = List.app (fn m => if m mod n <> k then () else let val b = Buffer.new 1 val parts = List.tabulate (40, fn i => CharVector.tabulate ((i * m) mod 97, fn j => Char.chr ((i + j) mod 256)))
    in List.app (fn (i, p) => if i mod 3 = 0 then Buffer.addString b p else if i mod 3 = 1 then Buffer.addSubString b (Substring.full p) else CharVector.app (Buffer.addChar b) p) (ListPair.zip (upto (0, 39), parts));
    cnt := !cnt + 1; if Buffer.contents b = String.concat parts then () else bad ("Buffer of parts by " ^ i2s m) "" end) (upto (1, 200))

(* suspensions *)
exception E
val _ = List.app (fn m => let val c = ref 0 val s = Susp.delay (fn () => (c := !c + 1; [!c])) val shared = [s, s]
    val _ = if !c = 0 then () else bad "delay" "evaluated" val rs = List.tabulate (m, fn i => Susp.force (List.nth (shared, i mod 2)))
    in cnt := !cnt + 1; if !c = (if m = 0 then 0 else 1) andalso List.all (fn r => r = [1]) rs then () else bad ("force " ^ i2s m) "" end) (upto (0, 20))
val rec nest = fn 0 => Susp.delay (fn () => 0) | m => let val s = nest (m - 1) in Susp.delay (fn () => Susp.force s + Susp.force s) end
val _ = let val c = ref 0 val s = Susp.delay (fn () => (c := !c + 1; 1)) fun go 0 s = s | go m s = go (m - 1) (Susp.delay (fn () => Susp.force s + Susp.force s)) in if Susp.force (go 40 s) = 1099511627776 andalso !c = 1 then () else bad "nested suspensions" "" end
(* bytes: everything *)
structure W = Word8
val _ = List.app (fn i => (cnt := !cnt + 1; if Char.ord (Byte.byteToChar (W.fromInt i)) = i andalso W.toInt (Byte.charToByte (Char.chr i)) = i then () else bad "Byte" (i2s i))) (upto (0, 255))
val allb = CharVector.tabulate (256, Char.chr)
val _ = List.app (fn m => let val s = String.substring (allb, 256 - m, m) val v = Byte.stringToBytes s in
     if Byte.bytesToString v = s andalso Word8Vector.length v = m andalso Word8Vector.foldr (fn (w, l) => W.toInt w :: l) [] v = upto (256 - m, 255) then () else bad ("bytes " ^ i2s m) "";
     if m > 20 then () else let val a = Word8Array.tabulate (m, fn i => Word8Vector.sub (v, i)) in List.app (fn i => List.app (fn j => (cnt := !cnt + 1; let val e = String.substring (s, i, j) in
        if Byte.unpackStringVec (Word8VectorSlice.slice (v, i, SOME j)) = e andalso Byte.unpackString (Word8ArraySlice.slice (a, i, SOME j)) = e then () else bad "unpackString" (i2s i ^ " " ^ i2s j) end)) (upto (0, m - i))) (upto (0, m));
        List.app (fn i => List.app (fn j => let val a = Word8Array.tabulate (m, fn i => W.fromInt i) val ss = Substring.substring ("abcdefghijklmnopqrstuvwxyz", 2, j)
            val ok = 0 <= i andalso i + j <= m val r = (Byte.packString (a, i, ss); true) handle Subscript => false val got = Word8Array.foldr (fn (w, l) => W.toInt w :: l) [] a
            val e = List.tabulate (m, fn x => if ok andalso x >= i andalso x < i + j then 97 + 2 + x - i else x) in cnt := !cnt + 1; if r = ok andalso got = e then () else bad "packString" (i2s m ^ " " ^ i2s i ^ " " ^ i2s j) end) (upto (0, m + 1))) (upto (~1, m + 1)) end end) (upto (0, 256))
(* random numbers: in range, the same for the same seed, of the number asked for *)
val _ = List.app (fn seed => let val g = Random.newgenseed seed and h = Random.newgenseed seed val x = Random.randomlist (50, g) val y = Random.randomlist (50, h) val z = List.tabulate (50, fn _ => Random.random g) val z' = List.tabulate (50, fn _ => Random.random h)
    in cnt := !cnt + 1; if ListPair.allEq Real.== (x @ z, y @ z') andalso List.all (fn r => 0.0 <= r andalso r < 1.0) (x @ z) andalso length x = 50 then () else bad "random" (Real.toString seed);
    List.app (fn (a, b) => let val xs = Random.rangelist (a, b) (60, g) and ys = Random.rangelist (a, b) (60, h) val zs = List.tabulate (60, fn _ => Random.range (a, b) g) and zs' = List.tabulate (60, fn _ => Random.range (a, b) h) in
        (if List.all (fn r => a <= r andalso r < b) (xs @ zs) andalso length xs = 60 andalso xs = ys andalso zs = zs' then () else bad ("range " ^ i2s a ^ " " ^ i2s b) (il xs)) end) [(0, 1), (0, 2), (~3, 4), (5, 6), (~10, ~9), (0, 1000000)];
    List.app (fn (a, b) => ((ignore (Random.range (a, b) g); bad "range of nothing" "did not raise") handle Fail _ => (); (ignore (Random.rangelist (a, b) (3, g)); bad "rangelist of nothing" "did not raise") handle Fail _ => ())) [(0, 0), (1, 0), (~1, ~2)] end)
    [1.0, 2.0, 0.5, ~7.0, 123456789.0, 1E20, 2147483646.0]
val _ = (ignore (Random.newgenseed 0.0); bad "seed 0.0" "did not raise") handle Fail _ => ()
val _ = print ("COUNT container_states " ^ i2s (!cnt) ^ "\nDONE\n")
'''


def main():
    c = Check("B08")
    th = c.thorough
    h, d = pmap(lambda a: c.compile(*a), [("hash", HASH), ("dyn", DYN)])
    counts = {}
    for rs in (c.shards(h, extra=[5 if th else 4], timeout=140 if not th else 2000), c.shards(d, extra=[6 if th else 5], timeout=140 if not th else 2000)):
        for k, v in c.take([r for r in rs if r]).items():
            counts[k] = counts.get(k, 0) + v
    c.finish({"executions": sum(counts.values()), "histories": sum(counts.values()), "counts": counts,
              "bound": "all sequences of %d (hash tables, sets) and %d (arrays, buffers) operations" % ((5, 6) if th else (4, 5))},
             ["the order in which hash tables and hash sets present their elements is left open"])


main()
