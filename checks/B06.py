#!/usr/bin/env python3
"""B06: the finite maps and sets of the library are finite maps and sets, and persistent.

1. Maps: the tree of all sequences of insertions and removals up to a depth over five keys, for every implementation and two
   orderings; all observations at every node, and again after the subtrees below were explored (an old version is unchanged).
2. Trees: all orders of inserting seven keys, each followed by removal of every key and of all keys in two orders; then regular
   insertion orders of up to 300 keys with every removal order of the same family.
3. Sets: every pair of subsets of seven items, each built in three ways, under every binary operation; all observations.
Against sorted lists."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

HEAD = r'''
val i2s = Int.toString
fun num s = valOf (Int.fromString s)
val bads = ref 0 val cnt = ref 0
fun bad key det = if !bads > 25 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\t" ^ det ^ "\n"))
val K :: N :: REST = CommandLine.arguments ()
val (k, n) = (num K, num N)
fun il xs = String.concatWith "," (map i2s xs)
fun pl xs = String.concatWith "," (map (fn (a, b) => i2s a ^ "=" ^ i2s b) xs)
val minI = valOf Int.minInt and maxI = valOf Int.maxInt
(* key number i, so that the order of numbers and of keys differ, and the extremes occur *)
val keyv = Vector.fromList [3, minI, 1000000, ~1, 0, maxI, ~77, 4611686018427387000, 12]
fun rev_compare (a, b) = Int.compare (b, a)
fun tab n f = List.tabulate (n, f)
exception Stop of int
fun upto (i, j) = if i > j then [] else i :: upto (i + 1, j)
(* regular orders of 0..n-1 *)
fun zig n = List.filter (fn i => i >= 0 andalso i < n) (List.concat (tab ((n + 1) div 2) (fn i => if i = n - 1 - i then [i] else [i, n - 1 - i])))
fun inout n = rev (zig n)
fun stride s n = let fun gcd (a, 0) = a | gcd (a, b) = gcd (b, a mod b) in if n > 0 andalso gcd (s, n) = 1 then tab n (fn i => i * s mod n) else tab n (fn i => i) end
fun evens n = List.filter (fn i => i mod 2 = 0) (upto (0, n - 1)) @ List.filter (fn i => i mod 2 = 1) (upto (0, n - 1))
val orders = [("up", fn n => upto (0, n - 1)), ("down", fn n => rev (upto (0, n - 1))), ("zigzag", zig), ("inside out", inout), ("by 7", stride 7), ("by 11", stride 11), ("evens first", evens)]
val _ = print ""
'''

MAPS = HEAD + r'''
type 'm ops = {empty : (int * int -> order) -> 'm, insert : 'm * int * int -> 'm, find : 'm * int -> int, peek : 'm * int -> int option, remove : 'm * int -> 'm * int,
  num : 'm -> int, list : 'm -> (int * int) list, app : (int * int -> unit) -> 'm -> unit, revapp : (int * int -> unit) -> 'm -> unit,
  foldl : (int * int * int list -> int list) -> int list -> 'm -> int list, foldr : (int * int * int list -> int list) -> int list -> 'm -> int list,
  map : (int * int -> int) -> 'm -> 'm, transform : (int -> int) -> 'm -> 'm, nf : exn -> bool}
val D = num (List.nth (REST, 0)) val PERM = num (List.nth (REST, 1))
fun mins ord ([], k, v) = [(k, v)] | mins ord ((k', v') :: r, k, v) = case ord (k, k') of LESS => (k, v) :: (k', v') :: r | EQUAL => (k, v) :: r | GREATER => (k', v') :: mins ord (r, k, v)
fun mrem ([], k : int) = NONE | mrem ((k', v) :: r, k) = if k = k' then SOME (r, v : int) else case mrem (r, k) of NONE => NONE | SOME (r, v') => SOME ((k', v) :: r, v')
fun mget ([], k : int) = NONE | mget ((k', v : int) :: r, k) = if k = k' then SOME v else mget (r, k)
fun suite (name, ord, keyfn, universe, depth, o_ : 'm ops) = let
  val {empty, insert, find, peek, remove, num, list, app, revapp, foldl, foldr, map, transform, nf} = o_
  fun quick what m l = (cnt := !cnt + 1;
    if list m = l then () else bad (name ^ " " ^ what () ^ ": listItems") (pl (list m) ^ " instead of " ^ pl l);
    if num m = length l then () else bad (name ^ " " ^ what () ^ ": numItems") (i2s (num m)))
  fun keys what m l u = List.app (fn k => let val e = mget (l, k) in
       if peek (m, k) = e then () else bad (name ^ " " ^ what () ^ ": peek " ^ i2s k) "";
       let val r = SOME (find (m, k)) handle x => if nf x then NONE else (bad (name ^ " " ^ what () ^ ": find " ^ i2s k) (exnName x); NONE) in if r = e then () else bad (name ^ " " ^ what () ^ ": find " ^ i2s k) "" end;
       (let val (m', v) = remove (m, k) in case mrem (l, k) of SOME (l', v') => if v = v' andalso list m' = l' andalso num m' = length l' then () else bad (name ^ " " ^ what () ^ ": remove " ^ i2s k) (i2s v ^ "; " ^ pl (list m'))
           | NONE => bad (name ^ " " ^ what () ^ ": remove " ^ i2s k) "removed what is not there" end
        handle x => if nf x andalso e = NONE then () else bad (name ^ " " ^ what () ^ ": remove " ^ i2s k) (exnName x)) end
       ) u
  fun full what m l = let
     val w = fn s => name ^ " " ^ what () ^ ": " ^ s
     fun tr f = let val log = ref [] in (f (fn x => log := x :: !log); rev (!log)) end
     fun eq s a b = if a = b then () else bad (w s) (pl a ^ " instead of " ^ pl b)
     val _ = eq "app" (tr (fn f => app f m)) l
     val _ = eq "revapp" (tr (fn f => revapp f m)) (rev l)
     val kl = List.concat (List.map (fn (k, v) => [k, v]) l)
     val _ = if rev (foldl (fn (k, v, a) => v :: k :: a) [] m) = kl then () else bad (w "foldl") ""
     val _ = if foldr (fn (k, v, a) => k :: v :: a) [] m = kl then () else bad (w "foldr") ""
     val mlog = ref [] val m2 = map (fn (k, v) => (mlog := (k, v) :: !mlog; v * 10 + 1)) m
     val _ = eq "map" (list m2) (List.map (fn (k, v) => (k, v * 10 + 1)) l)
     val _ = if length (!mlog) = length l then () else bad (w "map") "the function was not applied once to each entry"
     val m3 = transform (fn v => v * 5 - 2) m
     val _ = eq "transform" (list m3) (List.map (fn (k, v) => (k, v * 5 - 2)) l)
     val _ = List.app (fn (k, v) => if peek (m2, k) = SOME (v * 10 + 1) andalso peek (m3, k) = SOME (v * 5 - 2) then () else bad (w "peek after map") "") l
     val _ = if num m2 = length l andalso num m3 = length l then () else bad (w "numItems after map") ""
     (* a callback that raises at the i-th *)
     val _ = List.foldl (fn ((k, v), i) => (
        let val c = ref 0 val r = (app (fn (k', v') => if !c = i then raise Stop k' else c := !c + 1) m; NONE) handle Stop x => SOME x in if r = SOME k then () else bad (w "app raising") "" end; i + 1)) 0 l
     in quick what m l end
  fun text h = String.concatWith " " (rev (List.map (fn x => if x < universe then "+" ^ i2s x else "-" ^ i2s (x - universe)) h))
  val U = List.map keyfn (upto (0, universe - 1)) @ [12345, ~12345]
  (* 1. all sequences *)
  fun node d (m, l, h) = let val what = fn () => "after " ^ text h in
      quick what m l; keys what m l U; if d mod 2 = 0 then full what m l else ();
      if d = 0 then () else (each d (m, l, h) 0; quick (fn () => what () ^ ", then other operations on it") m l) end
  and each d (m, l, h) x = if x = 2 * universe then () else (
      (if x < universe then let val ky = keyfn x val v = length h * 10 + x in if d = depth - 1 andalso false then () else node (d - 1) (insert (m, ky, v), mins ord (l, ky, v), x :: h) end
       else case mrem (l, keyfn (x - universe)) of NONE => () | SOME (l', _) => node (d - 1) (#1 (remove (m, keyfn (x - universe))), l', x :: h)); each d (m, l, h) (x + 1))
  val e = empty ord
  val _ = if depth < 1 then () else List.app (fn x => if x mod n = k then let val ky = keyfn x in node (depth - 1) (insert (e, ky, x), [(ky, x)], [x]) end else ()) (upto (0, universe - 1))
  val _ = full (fn () => "empty") e [] val _ = keys (fn () => "empty") e [] U
  (* 2. all insertion orders *)
  fun build ks = (List.foldl (fn (x, m) => insert (m, x, x * 2)) e ks)
  fun mbuild ks = List.foldl (fn (x, l) => mins ord (l, x, x * 2)) [] ks
  fun remAll what (m, l) [] = () | remAll what (m, l) (x :: r) = (case mrem (l, x) of NONE => () | SOME (l', v) =>
       let val (m', v') = remove (m, x) in if v = v' then () else bad (name ^ " " ^ what () ^ ": remove " ^ i2s x) "another value"; quick (fn () => what () ^ ", removing up to " ^ i2s x) m' l'; remAll what (m', l') r end)
  fun perms what P = let
    val cc = ref 0
    fun go [] acc = (cc := !cc + 1; if !cc mod n <> k then () else let val ks = rev acc val m = build ks val l = mbuild ks val what = fn () => "insertion of " ^ il ks in
           quick what m l; keys what m l (upto (~1, P)); remAll what (m, l) ks; remAll what (m, l) (upto (0, P - 1)) end)
      | go xs acc = List.app (fn x => go (List.filter (fn y => y <> x) xs) (x :: acc)) xs
    in go (upto (0, P - 1)) [] end
  val _ = perms "perm" PERM
  (* 3. larger maps *)
  val cc = ref 0
  val _ = List.app (fn sz => List.app (fn (on, f) => (cc := !cc + 1; if !cc mod n <> k then () else let
        val what = fn () => i2s sz ^ " keys " ^ on
        val cmps = ref 0 fun cord p = (cmps := !cmps + 1; ord p)
        val m = List.foldl (fn (x, m) => insert (m, x, x * 2)) (empty cord) (f sz) val l = mbuild (f sz)
        val _ = full what m l
        val _ = List.app (fn x => if peek (m, x) = SOME (x * 2) then () else bad (name ^ " " ^ what () ^ ": peek " ^ i2s x) "") (upto (0, sz - 1))
        val _ = List.app (fn x => if peek (m, x) = NONE then () else bad (name ^ " " ^ what () ^ ": peek " ^ i2s x) "") [~1, sz, sz + 1]
        in if sz <= 70 then List.app (fn (_, g) => remAll what (m, l) (g sz)) orders else let val m' = List.foldl (fn (x, m) => #1 (remove (m, x))) m (List.filter (fn x => x mod 3 <> 1) (f sz)) in
             quick (fn () => what () ^ ", two thirds removed") m' (List.filter (fn (x, _) => x mod 3 = 1) l) end end)) orders) [1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, 70, 200, 300]
  in () end

fun bm ord : (int, int) Binarymap.dict ops = {empty = Binarymap.mkDict, insert = Binarymap.insert, find = Binarymap.find, peek = Binarymap.peek, remove = Binarymap.remove, num = Binarymap.numItems, list = Binarymap.listItems,
  app = Binarymap.app, revapp = Binarymap.revapp, foldl = Binarymap.foldl, foldr = Binarymap.foldr, map = Binarymap.map, transform = Binarymap.transform, nf = fn Binarymap.NotFound => true | _ => false}
fun rb ord : (int, int) Redblackmap.dict ops = {empty = Redblackmap.mkDict, insert = Redblackmap.insert, find = Redblackmap.find, peek = Redblackmap.peek, remove = Redblackmap.remove, num = Redblackmap.numItems, list = Redblackmap.listItems,
  app = Redblackmap.app, revapp = Redblackmap.revapp, foldl = Redblackmap.foldl, foldr = Redblackmap.foldr, map = Redblackmap.map, transform = Redblackmap.transform, nf = fn Redblackmap.NotFound => true | _ => false}
fun sp ord : (int, int) Splaymap.dict ops = {empty = Splaymap.mkDict, insert = Splaymap.insert, find = Splaymap.find, peek = Splaymap.peek, remove = Splaymap.remove, num = Splaymap.numItems, list = Splaymap.listItems,
  app = Splaymap.app, revapp = Splaymap.revapp, foldl = Splaymap.foldl, foldr = Splaymap.foldr, map = Splaymap.map, transform = Splaymap.transform, nf = fn Splaymap.NotFound => true | _ => false}
fun im ord : int Intmap.intmap ops = {empty = fn _ => Intmap.empty (), insert = Intmap.insert, find = Intmap.retrieve, peek = Intmap.peek, remove = Intmap.remove, num = Intmap.numItems, list = Intmap.listItems,
  app = Intmap.app, revapp = Intmap.revapp, foldl = Intmap.foldl, foldr = Intmap.foldr, map = Intmap.map, transform = Intmap.transform, nf = fn Intmap.NotFound => true | _ => false}
fun kf i = Vector.sub (keyv, i)
fun ev i = i * 2 - 5
val _ = suite ("Binarymap", Int.compare, kf, 5, D, bm ()) val _ = suite ("Binarymap reversed", rev_compare, kf, 5, D - 1, bm ())
val _ = suite ("Redblackmap", Int.compare, kf, 5, D, rb ()) val _ = suite ("Redblackmap reversed", rev_compare, kf, 5, D - 1, rb ())
val _ = suite ("Splaymap", Int.compare, kf, 5, D, sp ()) val _ = suite ("Splaymap reversed", rev_compare, kf, 5, D - 1, sp ())
val _ = suite ("Intmap", Int.compare, kf, 5, D, im ()) val _ = suite ("Intmap near keys", Int.compare, ev, 5, D - 1, im ())
val _ = print ("COUNT map_states " ^ i2s (!cnt) ^ "\nDONE\n")
'''

SETS = HEAD + r'''
type 's ops = {empty : (int * int -> order) -> 's, singleton : (int * int -> order) -> int -> 's, add : 's * int -> 's, addList : 's * int list -> 's, isEmpty : 's -> bool, equal : 's * 's -> bool, isSubset : 's * 's -> bool,
  member : 's * int -> bool, delete : 's * int -> 's, num : 's -> int, union : 's * 's -> 's, inter : 's * 's -> 's, diff : 's * 's -> 's, list : 's -> int list, app : (int -> unit) -> 's -> unit, revapp : (int -> unit) -> 's -> unit,
  foldr : (int * int list -> int list) -> int list -> 's -> int list, foldl : (int * int list -> int list) -> int list -> 's -> int list, find : (int -> bool) -> 's -> int option, nf : exn -> bool,
  peek : 's * int -> int option, retrieve : 's * int -> int, extra : (unit -> string) * 's * int list -> unit, extra2 : (unit -> string) * 's * 's * int list * int list -> unit}
fun mem (x : int) l = List.exists (fn y => x = y) l
fun sins ord ([], x) = [x] | sins ord (y :: r, x) = case ord (x, y) of LESS => x :: y :: r | EQUAL => y :: r | GREATER => y :: sins ord (r, x)
fun suite (name, ord, keyfn : int -> int, U, o_ : 's ops) = let
  val {empty, singleton, add, addList, isEmpty, equal, isSubset, member, delete, num, union, inter, diff, list, app, revapp, foldr, foldl, find, nf, peek, retrieve, extra, extra2} = o_
  fun sort l = List.foldl (fn (x, l) => sins ord (l, x)) [] l
  fun quick what s l = (cnt := !cnt + 1;
    if list s = l then () else bad (name ^ " " ^ what () ^ ": listItems") (il (list s) ^ " instead of " ^ il l);
    if num s = length l then () else bad (name ^ " " ^ what () ^ ": numItems") (i2s (num s));
    if isEmpty s = null l then () else bad (name ^ " " ^ what () ^ ": isEmpty") "")
  fun full what s l u = let val w = fn t => name ^ " " ^ what () ^ ": " ^ t in quick what s l;
    List.app (fn x => let val e = mem x l in
      if member (s, x) = e andalso peek (s, x) = (if e then SOME x else NONE) then () else bad (w ("member " ^ i2s x)) "";
      (if retrieve (s, x) = x andalso e then () else bad (w ("retrieve " ^ i2s x)) "") handle y => if nf y andalso not e then () else bad (w ("retrieve " ^ i2s x)) (exnName y);
      (let val s' = delete (s, x) in if e then quick (fn () => what () ^ " without " ^ i2s x) s' (List.filter (fn y => y <> x) l) else bad (w ("delete " ^ i2s x)) "deleted what is not there" end)
         handle y => if nf y andalso not e then () else bad (w ("delete " ^ i2s x)) (exnName y);
      quick (fn () => what () ^ " with " ^ i2s x) (add (s, x)) (if e then l else sins ord (l, x));
      (case (find (fn y => ord (y, x) <> LESS) s, List.find (fn y => ord (y, x) <> LESS) l) of (NONE, NONE) => () | (SOME y, SOME _) => if ord (y, x) <> LESS andalso mem y l then () else bad (w "find") "another item" | _ => bad (w "find") "") end) u;
    (let val log = ref [] in app (fn x => log := x :: !log) s; if rev (!log) = l then () else bad (w "app") "" end);
    (let val log = ref [] in revapp (fn x => log := x :: !log) s; if !log = l then () else bad (w "revapp") "" end);
    if foldl (op ::) [] s = rev l andalso foldr (op ::) [] s = l then () else bad (w "fold") "";
    if find (fn _ => false) s = NONE then () else bad (w "find") "found";
    extra (what, s, l); quick what s l end
  val all = Vector.tabulate (Word.toInt (Word.<< (0w1, Word.fromInt U)), fn b => List.filter (fn i => Word.andb (Word.>> (Word.fromInt b, Word.fromInt i), 0w1) = 0w1) (upto (0, U - 1)))
  val ms = Vector.map (fn is => sort (map keyfn is)) all
  val e = empty ord
  (* three ways of building a set *)
  fun up is = List.foldl (fn (i, s) => add (s, keyfn i)) e is
  fun down is = addList (e, map keyfn (rev is))
  fun tree [] = e | tree [i] = singleton ord (keyfn i) | tree is = let val h = length is div 2 in union (tree (List.drop (is, h)), tree (List.take (is, h))) end
  fun cut is = List.foldl (fn (i, s) => if mem i is then s else delete (s, keyfn i)) (up (upto (0, U - 1))) (upto (0, U - 1))
  val sets = map (fn b => (b, Vector.map b all)) [up, down, tree, cut]
  val [vu, vd, vt, vc] = map #2 sets
  val UN = map keyfn (upto (0, U - 1)) @ [424242]
  val bn = ["up", "down", "tree", "cut"]
  val _ = ListPair.app (fn (bname, (_, v)) => Vector.appi (fn (b, s) => if b mod n <> k then () else full (fn () => "{" ^ il (Vector.sub (ms, b)) ^ "} " ^ bname) s (Vector.sub (ms, b)) UN) v) (bn, sets)
  fun sub a b = List.all (fn x => mem x b) a
  fun pair what s t a b = let val w = fn x => name ^ " " ^ what () ^ ": " ^ x
     val un = sort (a @ b) val it = List.filter (fn x => mem x b) a val df = List.filter (fn x => not (mem x b)) a
     val u = union (s, t) val i = inter (s, t) val d = diff (s, t) in
     quick (fn () => what () ^ " union") u un; quick (fn () => what () ^ " intersection") i it; quick (fn () => what () ^ " difference") d df;
     if equal (s, t) = (a = b) then () else bad (w "equal") ""; if isSubset (s, t) = sub a b then () else bad (w "isSubset") "";
     if equal (u, union (t, s)) andalso equal (i, inter (t, s)) then () else bad (w "commutes") "";
     (case un of [] => () | x :: _ => (quick (fn () => what () ^ " union without its first") (delete (u, x)) (tl un)));
     extra2 (what, s, t, a, b) end
  val _ = Vector.appi (fn (x, a) => if x mod n <> k then () else Vector.appi (fn (y, b) => let
       val (s, t) = case (x + 3 * y) mod 4 of 0 => (Vector.sub (vu, x), Vector.sub (vd, y)) | 1 => (Vector.sub (vt, x), Vector.sub (vu, y)) | 2 => (Vector.sub (vd, x), Vector.sub (vc, y)) | _ => (Vector.sub (vc, x), Vector.sub (vt, y))
       in pair (fn () => "{" ^ il a ^ "} {" ^ il b ^ "}") s t a b end) ms) ms
  (* larger: arithmetic progressions *)
  val progs = List.concat (map (fn len => List.concat (map (fn st => map (fn from => (from, st, len)) [0, 1, 30, 100]) [1, 2, 7])) [1, 2, 10, 33, 64])
  val pv = Vector.fromList (map (fn (f, s, l) => let val xs = tab l (fn i => f + i * s) in (sort xs, List.foldl (fn (x, s) => add (s, x)) e (map (fn i => f + i * s) (stride 7 l))) end) progs)
  val pn = Vector.fromList (map (fn (f, s, l) => i2s l ^ " from " ^ i2s f ^ " by " ^ i2s s) progs)
  val _ = Vector.appi (fn (x, (a, s)) => if x mod n <> k then () else Vector.appi (fn (y, (b, t)) => if (x + y) mod 3 <> 0 andalso REST <> ["all"] then () else pair (fn () => Vector.sub (pn, x) ^ " and " ^ Vector.sub (pn, y)) s t a b) pv) pv
  in () end
fun nox _ = () fun nox2 _ = ()
val bs : int Binaryset.set ops = let open Binaryset in {empty = empty, singleton = singleton, add = add, addList = addList, isEmpty = isEmpty, equal = equal, isSubset = isSubset, member = member, delete = delete, num = numItems, union = union, inter = intersection,
  diff = difference, list = listItems, app = app, revapp = revapp, foldr = foldr, foldl = foldl, find = find, nf = fn NotFound => true | _ => false, peek = peek, retrieve = retrieve, extra = nox, extra2 = nox2} end
val ss : int Splayset.set ops = let open Splayset in {empty = empty, singleton = singleton, add = add, addList = addList, isEmpty = isEmpty, equal = equal, isSubset = isSubset, member = member, delete = delete, num = numItems, union = union, inter = intersection,
  diff = difference, list = listItems, app = app, revapp = revapp, foldr = foldr, foldl = foldl, find = find, nf = fn NotFound => true | _ => false, peek = peek, retrieve = retrieve, extra = nox, extra2 = nox2} end
exception IntNF
val is : Intset.intset ops = let open Intset in {empty = fn _ => empty, singleton = fn _ => singleton, add = add, addList = addList, isEmpty = isEmpty, equal = equal, isSubset = isSubset, member = member, delete = delete, num = numItems, union = union, inter = intersection,
  diff = difference, list = listItems, app = app, revapp = revapp, foldr = foldr, foldl = foldl, find = find, nf = fn NotFound => true | IntNF => true | _ => false, peek = fn (s, x) => if member (s, x) then SOME x else NONE,
  retrieve = fn (s, x) => if member (s, x) then x else raise IntNF, extra = nox, extra2 = nox2} end
exception RbNF
fun rbs ord : int Rbset.set ops = let open Rbset
  fun extra (what, s, l) = let val w = fn x => "Rbset " ^ what () ^ ": " ^ x
     fun ends [] = (NONE, NONE) | ends l = (SOME (hd l), SOME (List.last l))
     val _ = if (min s, max s) = ends l then () else bad (w "min, max") ""
     val _ = if hash (fn x => Word.fromInt x * 0w3) s = List.foldl (fn (x, a) => a + Word.fromInt x * 0w3) 0w0 l then () else bad (w "hash") ""
     val pts = l @ [~3, 424242] @ List.map (fn x => x + 1 handle Overflow => x) l
     fun iv (t, i, p) = let val e = List.filter p l in if sublist (s, i) = e then () else bad (w ("sublist " ^ t)) (il (sublist (s, i))); let val s' = subset (s, i) in if listItems s' = e andalso numItems s' = length e then () else bad (w ("subset " ^ t)) (il (listItems s')) end end
     val _ = iv ("All", All, fn _ => true)
     val _ = List.app (fn a => (iv ("From " ^ i2s a, From a, fn x => ord (a, x) <> GREATER); iv ("To " ^ i2s a, To a, fn x => ord (x, a) = LESS);
        List.app (fn b => iv ("FromTo " ^ i2s a ^ " " ^ i2s b, FromTo (a, b), fn x => ord (a, x) <> GREATER andalso ord (x, b) = LESS)) (if length l < 8 then pts else []))) pts
     val _ = List.app (fn x => if find (fn y => ord (y, x) <> LESS) s = List.find (fn y => ord (y, x) <> LESS) l then () else bad (w "find") "not the first") pts
     val m = map (fn x => x div 2, Int.compare) s val em = List.foldl (fn (x, l) => sins Int.compare (l, x)) [] (List.map (fn x => x div 2) l)
     val _ = if listItems m = em andalso numItems m = length em then () else bad (w "map") (il (listItems m))
     val mm = mapMono (fn x => x div 2 * 2 + x mod 2, ord) s val _ = if listItems mm = l then () else bad (w "mapMono") ""
     val _ = if length l < 2 then () else ((ignore (mapMono (fn x => ~ (x div 2), ord) s); bad (w "mapMono of a decreasing function") "did not raise") handle NonMonotonic => ())
     val _ = if length l < 2 then () else ((ignore (mapMono (fn x => 7, ord) s); bad (w "mapMono of a constant") "did not raise") handle NonMonotonic => ())
     fun log2 0 = 0 | log2 n = 1 + log2 (n div 2)
     val _ = if depth s <= 2 * log2 (length l + 1) then () else bad (w "depth") (i2s (depth s))
     in () end
  fun cmp ([], []) = EQUAL | cmp ([], _) = LESS | cmp (_, []) = GREATER | cmp (x :: r, y :: t) = case ord (x, y) of EQUAL => cmp (r, t) | o' => o'
  fun extra2 (what, s, t, a, b) = (if compare (s, t) = cmp (a, b) then () else bad ("Rbset " ^ what () ^ ": compare") "";
     if getOrder (union (s, t)) (1, 2) = ord (1, 2) then () else bad ("Rbset " ^ what () ^ ": getOrder") ""; let fun lg 0 = 0 | lg n = 1 + lg (n div 2) val u = union (s, t) in if depth u <= 2 * lg (numItems u + 1) then () else bad ("Rbset " ^ what () ^ ": depth of the union") "" end)
  in {empty = empty, singleton = singleton, add = fn (s, x) => add' (x, s), addList = addList, isEmpty = isEmpty, equal = equal, isSubset = isSubset, member = member, delete = delete, num = numItems, union = union, inter = intersection,
  diff = difference, list = listItems, app = app, revapp = revapp, foldr = foldr, foldl = foldl, find = find, nf = fn NotFound => true | RbNF => true | _ => false, peek = fn (s, x) => if member (s, x) then SOME x else NONE,
  retrieve = fn (s, x) => if member (s, x) then x else raise RbNF, extra = extra, extra2 = extra2} end
fun id (x : int) = x
fun spread i = Vector.sub (keyv, i)
val U = if REST = ["all"] then 8 else 7
val _ = suite ("Binaryset", Int.compare, id, U, bs) val _ = suite ("Binaryset reversed", rev_compare, spread, 5, bs)
val _ = suite ("Splayset", Int.compare, id, U, ss) val _ = suite ("Splayset reversed", rev_compare, spread, 5, ss)
val _ = suite ("Intset", Int.compare, id, U, is) val _ = suite ("Intset wide", Int.compare, spread, 5, is)
val _ = suite ("Rbset", Int.compare, id, U, rbs Int.compare) val _ = suite ("Rbset reversed", rev_compare, spread, 5, rbs rev_compare)
val _ = print ("COUNT set_states " ^ i2s (!cnt) ^ "\nDONE\n")
'''


def main():
    c = Check("B06")
    th = c.thorough
    m, s = pmap(lambda a: c.compile(*a), [("maps", MAPS), ("sets", SETS)])
    counts = {}
    for rs in (c.shards(m, extra=[7, 8] if th else [6, 7], timeout=140 if not th else 2000), c.shards(s, extra=["all"] if th else [], timeout=140 if not th else 2000)):
        for k, v in c.take([r for r in rs if r]).items():
            counts[k] = counts.get(k, 0) + v
    c.finish({"executions": sum(counts.values()), "histories": counts.get("map_states", 0), "counts": counts,
              "bound": "maps: %d operations over five keys, all insertion orders of %d keys; sets: all pairs of subsets of %d items" % ((7, 8, 8) if th else (6, 7, 7))},
             ["which of several equal items a set keeps is left open"])


main()
