#!/usr/bin/env python3
"""B16: Gdbm and Polygdbm tables are persistent finite maps.

All operation histories to a depth (add, insert, remove, reorganize, reopening in each mode, transactions that raise), each with
a full observation of the table after every step, against an association list; sizes and numbers of pairs around block and bucket
limits; all pairs of open modes; withtables failing at each position; typed keys and values of Polygdbm; a second process; and
garbage collections at every allocation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = r'''
fun i2s (n : int) = Int.toString n
val bads = ref 0 and cnt = ref 0 and hist = ref 0
fun bad key det = if !bads > 8 then () else (bads := !bads + 1; print ("MISMATCH " ^ String.toString key ^ "\t" ^ String.toString det ^ "\n"))
fun q s = if size s > 20 then "<" ^ i2s (size s) ^ " chars>" else "\"" ^ String.toString s ^ "\""
fun isort le xs = let fun ins (x, []) = [x] | ins (x, y :: r) = if le (x, y) then x :: y :: r else y :: ins (x, r) in List.foldl ins [] xs end
fun try f = "value " ^ f () handle Gdbm.NotFound => "NotFound" | Gdbm.AlreadyThere => "AlreadyThere" | Gdbm.NotWriter => "NotWriter" | Gdbm.Closed => "Closed"
                                 | Gdbm.GdbmError _ => "GdbmError" | e => "exception " ^ exnName e
exception Abort
fun ms Gdbm.READER = "READER" | ms Gdbm.WRITER = "WRITER" | ms Gdbm.WRCREAT = "WRCREAT" | ms Gdbm.NEWDB = "NEWDB"
val modes = [Gdbm.READER, Gdbm.WRITER, Gdbm.WRCREAT, Gdbm.NEWDB]
fun rm f = FileSys.remove f handle OS.SysErr _ => ()
(* the model: an association list without repeated keys *)
fun mfind m k = case List.find (fn (k', _) => k = k') m of SOME (_, v) => SOME v | NONE => NONE
fun mdel m k = List.filter (fn (k', _) => k <> k') m
fun mput m (k, v) = (k, v) :: mdel m k
fun expect key what want got = (cnt := !cnt + 1; if want = got then () else bad key (what ^ ": expected " ^ want ^ ", got " ^ got))
fun le ((a : string, _), (b, _)) = a <= b
fun show m = String.concat (List.map (fn (k, v) => q k ^ "=" ^ q v ^ ";") m)
fun observe key db m ks =
  let open Gdbm
      val items = isort le m
      val _ = List.app (fn k => (expect key ("find " ^ q k) (case mfind m k of SOME v => "value " ^ v | NONE => "NotFound") (try (fn () => find db k));
                expect key ("peek " ^ q k) (case mfind m k of SOME v => "value S" ^ v | NONE => "value N") (try (fn () => case peek db k of SOME v => "S" ^ v | NONE => "N"));
                expect key ("hasKey " ^ q k) ("value " ^ Bool.toString (isSome (mfind m k))) (try (fn () => Bool.toString (hasKey db k))))) ks
      val _ = expect key "numItems" ("value " ^ i2s (length m)) (try (fn () => i2s (numItems db)))
      val its = listItems db
      val _ = expect key "listItems" (show items) (show (isort le its))
      val _ = if listKeys db = List.map #1 its then () else bad key "listKeys differs from the keys of listItems"
      val _ = if Gdbm.map (fn x => x) db = its then () else bad key "map differs from listItems"
      val _ = if Gdbm.map (fn (k, v) => size k + 3 * size v) db = List.map (fn (k, v) => size k + 3 * size v) its then () else bad key "map f differs from List.map f"
      val _ = if Gdbm.fold (fn (k, v, r) => (k, v) :: r) [] db = its then () else bad key "fold differs from List.foldr"
      val seen = ref [] val _ = Gdbm.app (fn p => seen := p :: !seen) db
      val _ = expect key "app" (show items) (show (isort le (!seen)))
  in cnt := !cnt + 4 end
fun closedAll key db =
  List.app (fn (nm, f) => expect key ("after the table was closed: " ^ nm) "Closed" (try (fn () => (ignore (f ()); ""))))
   [("add", fn () => Gdbm.add db ("a", "1")), ("insert", fn () => Gdbm.insert db ("a", "1")), ("find", fn () => ignore (Gdbm.find db "a")),
    ("peek", fn () => ignore (Gdbm.peek db "a")), ("hasKey", fn () => ignore (Gdbm.hasKey db "a")), ("remove", fn () => Gdbm.remove db "a"),
    ("listKeys", fn () => ignore (Gdbm.listKeys db)), ("numItems", fn () => ignore (Gdbm.numItems db)), ("listItems", fn () => ignore (Gdbm.listItems db)),
    ("app", fn () => Gdbm.app ignore db), ("map", fn () => ignore (Gdbm.map ignore db)), ("fold", fn () => ignore (Gdbm.fold ignore () db)), ("reorganize", fn () => Gdbm.reorganize db)]
val shard = case CommandLine.arguments () of k :: n :: _ => (valOf (Int.fromString k), valOf (Int.fromString n)) | _ => (0, 1)
fun mine i = i mod #2 shard = #1 shard
fun finish () = print ("COUNT n " ^ i2s (!cnt) ^ "\nCOUNT hist " ^ i2s (!hist) ^ "\nDONE\n")
'''

HIST = PRE + r'''
datatype oper = A of string * string | I of string * string | R of string | Reorg | Open of Gdbm.openmode | Raise
fun os (A (k, v)) = "add " ^ q k ^ " " ^ q v | os (I (k, v)) = "insert " ^ q k ^ " " ^ q v | os (R k) = "remove " ^ q k | os Reorg = "reorganize"
  | os (Open m) = "reopen " ^ ms m | os Raise = "raise, reopen WRITER"
val keys = ["a", "b\000c"]
val ks = keys @ ["", "a\000"]
val vals = ["", "x\000y"]
val ops = List.concat (List.map (fn k => List.concat (List.map (fn v => [A (k, v), I (k, v)]) vals) @ [R k]) keys) @ [Reorg, Raise] @ List.map Open modes
val name = "h" ^ i2s (#1 shard) ^ ".db"
val leaked = ref ([] : Gdbm.table list)
fun history (m0, opl) =
  let val _ = hist := !hist + 1
      val key = "history: open " ^ ms m0 ^ String.concat (List.map (fn opn => "; " ^ os opn) opl)
      val stash = ref ([] : (string * string) list, [] : oper list)
      fun play db wr m [] = (m, NONE)
        | play db wr m (Open m' :: r) = (m, SOME (m', r))
        | play db wr m (Raise :: r) = (stash := (m, r); raise Abort)
        | play db wr m (opn :: r) =
          let val (want, m') = case opn of
                  A (k, v) => if not wr then ("NotWriter", m) else if isSome (mfind m k) then ("AlreadyThere", m) else ("value ", mput m (k, v))
                | I (k, v) => if not wr then ("NotWriter", m) else ("value ", mput m (k, v))
                | R k => if not wr then ("NotWriter", m) else if isSome (mfind m k) then ("value ", mdel m k) else ("NotFound", m)
                | _ => (if wr then "value " else "GdbmError", m)
              val got = try (fn () => (case opn of A kv => Gdbm.add db kv | I kv => Gdbm.insert db kv | R k => Gdbm.remove db k | _ => Gdbm.reorganize db; ""))
              val _ = expect key (os opn) want got
              val _ = observe key db m' ks
          in play db wr m' r end
      fun session mode m opl =
        let val tab = ref NONE
            val (m, rest) = Gdbm.withtable (name, mode) (fn db => (tab := SOME db; play db (mode <> Gdbm.READER) (if mode = Gdbm.NEWDB then [] else m) opl))
                            handle Abort => (#1 (!stash), SOME (Gdbm.WRITER, #2 (!stash)))
            val _ = if !hist mod 64 = 0 then closedAll key (valOf (!tab)) else expect key "after the table was closed: hasKey" "Closed" (try (fn () => Bool.toString (Gdbm.hasKey (valOf (!tab)) "a")))
        in case rest of NONE => m | SOME (mode', r) => session mode' m r end
      val _ = rm name
      val m = session m0 [] opl
  in Gdbm.withtable (name, Gdbm.READER) (fn db => observe (key ^ "; reopen READER") db m ks) end
  handle e => bad ("history: open " ^ ms m0 ^ String.concat (List.map (fn opn => "; " ^ os opn) opl)) ("ended with " ^ exnName e)
val depth = valOf (Int.fromString (List.nth (CommandLine.arguments (), 2)))
fun seqs 0 acc = history (Gdbm.WRCREAT, rev acc)
  | seqs d acc = List.app (fn opn => seqs (d-1) (opn :: acc)) ops
val n = ref 0
val _ = List.app (fn a => List.app (fn b => (n := !n + 1; if mine (!n) then (Gdbm.fastwrite := (!n mod 3 <> 0); seqs (depth - 2) [b, a]) else ())) ops) ops
val _ = rm name
val _ = finish ()
'''

SIZES = PRE + r'''
val szs = [0, 1, 2, 3, 7, 8, 9, 15, 16, 255, 256, 257, 1000, 4080, 4096, 4097, 8192, 65535, 65536, 65537, 200000]
fun mk (n, s) = CharVector.tabulate (n, fn i => Char.chr ((i * 7 + i div 251 + s) mod 256))
val name = "s" ^ i2s (#1 shard) ^ ".db"
val n = ref 0
fun pass db key m ks = observe key db m ks
val _ = Gdbm.fastwrite := true
val _ = List.app (fn ksz => List.app (fn vsz => (n := !n + 1; if not (mine (!n)) then () else
   let val key = "a key of " ^ i2s ksz ^ " and a value of " ^ i2s vsz ^ " characters"
       val _ = hist := !hist + 1
       val k = mk (ksz, 1) and v = mk (vsz, 2) and k2 = mk (ksz, 3) and v2 = mk (vsz + 1, 4)
       val k2 = if ksz = 0 then "z" else k2
   in Gdbm.withtable (name, Gdbm.NEWDB) (fn db =>
        (Gdbm.add db (k, v); observe key db [(k, v)] [k, k2]; Gdbm.add db (k2, v2); observe key db [(k, v), (k2, v2)] [k, k2];
         Gdbm.insert db (k, v2); observe key db [(k, v2), (k2, v2)] [k, k2]; Gdbm.remove db k2; observe key db [(k, v2)] [k, k2]; Gdbm.insert db (k2, v)));
      Gdbm.withtable (name, Gdbm.WRITER) (fn db => (observe (key ^ ", reopened") db [(k, v2), (k2, v)] [k, k2]; Gdbm.reorganize db; observe (key ^ ", reorganized") db [(k, v2), (k2, v)] [k, k2]))
   end handle e => bad ("a key of " ^ i2s ksz ^ " and a value of " ^ i2s vsz ^ " characters") ("ended with " ^ exnName e))) szs) szs
(* many pairs: the directory and the buckets split *)
fun kk i = "key" ^ i2s i
val _ = List.app (fn (count, step) => (n := !n + 1; if not (mine (!n)) then () else
   let val key = i2s count ^ " pairs, removing every " ^ i2s step ^ "th"
       val _ = hist := !hist + 1
       fun up (a, b) f = if a > b then () else (f a; up (a + 1, b) f)
       fun check db key (want : int -> string option) =
         let val c = ref 0
             val seen = Array.array (count + 1, 0)
         in up (0, count) (fn i => (if isSome (want i) then c := !c + 1 else (); expect key ("find " ^ kk i) (case want i of SOME v => "value " ^ v | NONE => "NotFound") (try (fn () => Gdbm.find db (kk i)))));
            expect key "numItems" (i2s (!c)) (i2s (Gdbm.numItems db));
            Gdbm.app (fn (k, v) => let val i = valOf (Int.fromString (String.extract (k, 3, NONE))) in Array.update (seen, i, Array.sub (seen, i) + 1); if want i = SOME v then () else bad key ("app gives " ^ k) end) db;
            up (0, count) (fn i => if Array.sub (seen, i) = (if isSome (want i) then 1 else 0) then () else bad key (kk i ^ " visited " ^ i2s (Array.sub (seen, i)) ^ " times by app"));
            if length (Gdbm.listKeys db) = !c then () else bad key "length of listKeys" end
       fun w1 i = if i = 0 then NONE else SOME (i2s (i * i))
       fun w2 i = if i mod step = 0 then NONE else w1 i
   in Gdbm.withtable (name, Gdbm.NEWDB) (fn db => (up (1, count) (fn i => Gdbm.add db (kk i, i2s (i * i))); check db key w1;
          up (1, count) (fn i => if i mod step = 0 then Gdbm.remove db (kk i) else ()); check db key w2));
      Gdbm.withtable (name, Gdbm.WRITER) (fn db => (check db (key ^ ", reopened") w2; Gdbm.reorganize db; check db (key ^ ", reorganized") w2))
   end)) (List.concat (List.map (fn c => List.map (fn s => (c, s)) [1, 2, 3]) [1, 2, 10, 50, 100, 127, 128, 129, 200, 255, 256, 257, 400, 700, 1500, 3000]))
val _ = rm name
val _ = finish ()
'''

MODES = PRE + r'''
fun prep f cont = (rm f; Gdbm.withtable (f, Gdbm.NEWDB) (fn db => List.app (Gdbm.add db) cont))
val c1 = [("a", "1"), ("b", "2")] and c2 = [("c", "3")]
fun content key f m = Gdbm.withtable (f, Gdbm.READER) (fn db => observe key db m ["a", "b", "c", "d"]) handle e => bad key ("the table cannot be opened afterwards: " ^ exnName e)
fun contentW key f m = (Gdbm.withtable (f, Gdbm.WRITER) (fn db => observe key db m ["a", "b", "c", "d"]) handle e => bad key ("the table cannot be written afterwards: " ^ exnName e))
fun after mode m = if mode = Gdbm.NEWDB then [] else m
(* one table *)
val _ = List.app (fn (st, f) => List.app (fn m =>
   let val key = "opening " ^ st ^ " with " ^ ms m
       val _ = hist := !hist + 1
       val _ = rm "m.db" val _ = f ()
       val rd = m = Gdbm.READER orelse m = Gdbm.WRITER
       val want = case st of "a missing file" => if rd then "GdbmError" else "value " | "a table" => "value " | "a file in a missing directory" => "GdbmError" | "a directory" => "GdbmError"
                           | "a file that is no table" => if m = Gdbm.NEWDB then "value " else "GdbmError" | _ => "?"
       val nm = case st of "a file in a missing directory" => "nodir/m.db" | "a directory" => "." | _ => "m.db"
       val got = try (fn () => Gdbm.withtable (nm, m) (fn db => (observe key db (if st = "a table" then after m c1 else []) ["a", "b"]; "")))
   in expect key "result" want got end) modes)
   [("a missing file", fn () => ()), ("a table", fn () => prep "m.db" c1), ("a file in a missing directory", fn () => ()), ("a directory", fn () => ()),
    ("a file that is no table", fn () => let val os = TextIO.openOut "m.db" in TextIO.output (os, "This is no table at all. " ^ CharVector.tabulate (5000, fn i => Char.chr (i mod 96 + 32))); TextIO.closeOut os end)]
(* the same table twice, different tables *)
val _ = List.app (fn same => List.app (fn m1 => List.app (fn m2 =>
   let val key = (if same then "the same table" else "two tables") ^ " opened " ^ ms m1 ^ " and inside " ^ ms m2
       val _ = hist := !hist + 1
       val _ = prep "m.db" c1 val _ = prep "n.db" c2
       val ok = not same orelse (m1 = Gdbm.READER andalso m2 = Gdbm.READER)
       val inner = ref "none"
       val _ = Gdbm.withtable ("m.db", m1) (fn d1 => (observe key d1 (after m1 c1) ["a"];
                 inner := try (fn () => Gdbm.withtable (if same then "m.db" else "n.db", m2) (fn d2 => (observe key d2 (if same then c1 else after m2 c2) ["a", "c"]; "")));
                 observe key d1 (after m1 c1) ["a", "b"]))
   in expect key "the inner opening" (if ok then "value " else "GdbmError") (!inner);
      contentW key "m.db" (after m1 c1); contentW key "n.db" (if same then c2 else after m2 c2) end) modes) modes) [true, false]
(* withtables: every list of up to three openings, one possibly failing; the body may raise *)
datatype slot = Good of Gdbm.openmode | Missing | Again
fun ss (Good m) = ms m | ss Missing = "missing file" | ss Again = "first table again"
val slots = List.map Good modes @ [Missing, Again]
fun lists 0 = [[]] | lists n = List.concat (List.map (fn s => List.map (fn r => s :: r) (lists (n-1))) slots)
val _ = List.app (fn sl => List.app (fn raises =>
   let val key = "withtables [" ^ String.concat (List.map (fn s => ss s ^ ",") sl) ^ "]" ^ (if raises then " raising" else "")
       val _ = hist := !hist + 1
       val nt = length sl
       fun nm i = "w" ^ i2s i ^ ".db"
       fun cont i = [("a", i2s i), ("b", "x")]
       val ids = List.tabulate (nt, fn i => i)
       val _ = List.app (fn i => prep (nm i) (cont i)) ids
       fun arg i = case List.nth (sl, i) of Good m => (nm i, m) | Missing => ("absent.db", Gdbm.READER) | Again => (if i = 0 then "absent.db" else nm 0, Gdbm.WRITER)
       val bad0 = List.find (fn i => case List.nth (sl, i) of Good _ => false | _ => true) ids
       val opened = List.filter (fn i => case bad0 of NONE => true | SOME b => i < b) ids
       val ran = ref 0 val tabs = ref []
       fun body dbs = (ran := !ran + 1; tabs := dbs; if length dbs <> nt then bad key "number of tables" else ();
              ListPair.app (fn (i, db) => observe key db (after (#2 (arg i)) (cont i)) ["a", "c"]) (ids, dbs); if raises then raise Abort else "")
       val got = try (fn () => Gdbm.withtables (List.map arg ids) body)
       val want = if isSome bad0 then "GdbmError" else if raises then "exception Abort" else "value "
       val _ = expect key "result" want got
       val _ = expect key "times the body ran" (if isSome bad0 then "0" else "1") (i2s (!ran))
       val _ = List.app (closedAll key) (!tabs)
   in List.app (fn i => contentW key (nm i) (if List.exists (fn j => i = j) opened then after (#2 (arg i)) (cont i) else cont i)) ids end) [false, true])
   (List.concat (List.map lists [0, 1, 2, 3]))
val _ = closedAll "a table after withtable" (let val r = ref NONE in Gdbm.withtable ("m.db", Gdbm.WRITER) (fn db => r := SOME db); valOf (!r) end)
val _ = closedAll "a table after withtable raised" (let val r = ref NONE in Gdbm.withtable ("m.db", Gdbm.WRITER) (fn db => (r := SOME db; raise Abort)) handle Abort => (); valOf (!r) end)
val _ = finish ()
'''

POLY = PRE + r'''
datatype t = L | N of t * int * t | S of string | O of t option | U of {a : int, b : real}
val name = "p.db"
val mode = List.nth (CommandLine.arguments () @ ["", "", ""], 2)
(* every pair (key, value) of a family of values, as a table; `mode` write: make the tables; read: another process reads them *)
fun family nm (ks : ''k list) (vs : ''d list) =
  let val key = "Polygdbm keys and values of type " ^ nm
      fun at n = List.nth (vs, n mod length vs)
      fun index k = let fun f i [] = ~1 | f i (x :: r) = if x = k then i else f (i+1) r in f 0 ks end
      fun check db what (want : int -> ''d option) =
        let open Polygdbm
            val n = ref 0
            fun each i [] = () | each i (k :: r) =
              (cnt := !cnt + 3; (case want i of SOME v => (n := !n + 1; if find db k = v andalso peek db k = SOME v andalso hasKey db k then () else bad key (what ^ ": key number " ^ i2s i ^ " has another value"))
                                     | NONE => if isSome (peek db k) orelse hasKey db k orelse (ignore (find db k); true) handle NotFound => false then bad key (what ^ ": key number " ^ i2s i ^ " is there") else ()) handle NotFound => bad key (what ^ ": key number " ^ i2s i ^ " is missing");
               each (i+1) r)
            val _ = each 0 ks
            val its = listItems db
            val _ = if length its = !n andalso numItems db = !n then () else bad key (what ^ ": number of items")
            val _ = List.app (fn (k, v) => if index k >= 0 andalso want (index k) = SOME v then () else bad key (what ^ ": listItems")) its
            val _ = if listKeys db = List.map #1 its andalso Polygdbm.map (fn p => p) db = its andalso Polygdbm.fold (fn (k, v, r) => (k, v) :: r) [] db = its then () else bad key (what ^ ": listKeys, map or fold")
            val c = ref 0 val _ = Polygdbm.app (fn (k, v) => (c := !c + 1; if want (index k) = SOME v then () else bad key (what ^ ": app"))) db
        in if !c = !n then () else bad key (what ^ ": app") end
      val f = nm ^ ".db"
      fun w0 i = SOME (at i) fun w1 i = if i mod 2 = 0 then NONE else SOME (at (i + 1))
      fun all f = let fun go i [] = () | go i (k :: r) = (f (i, k); go (i+1) r) in go 0 ks end
      val _ = hist := !hist + 1
  in if mode = "read" then Polygdbm.withtable (f, Gdbm.READER) (fn db => check db "another process" w1)
     else Polygdbm.withtable (f, Gdbm.NEWDB) (fn db =>
       (all (fn (i, k) => Polygdbm.add db (k, at i)); check db "added" w0;
        all (fn (i, k) => (Polygdbm.add db (k, at i); bad key "add of a present key does not raise") handle Polygdbm.AlreadyThere => ());
        check db "added again" w0;
        all (fn (i, k) => Polygdbm.insert db (k, at (i + 1))); check db "replaced" (fn i => SOME (at (i + 1)));
        all (fn (i, k) => if i mod 2 = 0 then Polygdbm.remove db k else ()); check db "removed" w1;
        all (fn (i, k) => if i mod 2 = 0 then (Polygdbm.remove db k; bad key "remove of an absent key does not raise") handle Polygdbm.NotFound => () else ());
        Polygdbm.reorganize db; check db "reorganized" w1))
  end handle e => bad ("Polygdbm keys and values of type " ^ nm) ("ended with " ^ exnName e)
val big = mode <> "gc"
fun str i = CharVector.tabulate (i mod 97, fn j => Char.chr ((i * 31 + j * j) mod 256))
val ints = [0, 1, ~1, 2, 100, ~100, 255, 256, 65535, 65536, 1073741823, 1073741824, ~1073741824, ~1073741825, 2147483647, 2147483648, ~2147483648, ~2147483649, 4294967295, 4294967296, valOf Int.maxInt, valOf Int.minInt, valOf Int.maxInt - 1]
val strs = List.tabulate (if big then 97 else 20, str)
val reals = [0.0, 1.0, ~1.0, 0.5, 1E300, ~1E~300, 3.14159, 123456789.0]
fun tree 0 = L | tree n = N (tree ((n - 1) div 2), n, tree (n - 1 - (n - 1) div 2))
val trees = List.tabulate (if big then 40 else 8, tree) @ [S "", S "abc", S (str 90), O NONE, O (SOME L), O (SOME (O NONE)), U {a = 1, b = 2.5}, U {a = ~1, b = ~2.5}, N (S "x", 3, O (SOME (U {a = 0, b = 0.0})))]
val _ = family "int" ints ints
val _ = family "string" strs strs
val _ = family "int_string" ints strs
val _ = family "string_int" strs ints
val _ = family "real" reals reals
val _ = family "char" (List.tabulate (256, Char.chr)) [#"a", #"\000", #"\255"]
val _ = family "bool" [true, false] [true, false]
val _ = family "unit" [()] [(), ()]
val _ = family "option" (NONE :: List.map SOME ints) (NONE :: List.map SOME ints)
val _ = family "list" (List.tabulate (if big then 60 else 8, fn n => List.tabulate (n, fn i => i * n))) (List.tabulate (if big then 300 else 8, fn n => List.tabulate (n, fn i => n - i)))
val _ = family "pair" (List.concat (List.map (fn a => List.map (fn b => (a, b)) (List.take (ints, 8))) ints)) (List.map (fn s => (s, size s)) strs)
val _ = family "tree" trees trees
val _ = family "word" [0w0, 0w1, Word.~ 0w1, 0wx3fffffff, 0wx40000000, 0wx80000000] [0w0, Word.~ 0w1]
val _ = family "word8" (List.tabulate (256, Word8.fromInt)) (List.tabulate (256, Word8.fromInt))
val _ = family "vector" (List.tabulate (if big then 80 else 8, fn n => Vector.tabulate (n + 1, fn i => n * i))) (List.tabulate (8, fn n => Vector.tabulate (n, fn i => n * i)))
val _ = family "record" [{a = 1, b = "x", c = NONE}, {a = 1, b = "x", c = SOME 1.0}, {a = 2, b = "", c = NONE}] [{p = [1], q = "z"}, {p = [], q = ""}]
val _ = family "order" [LESS, EQUAL, GREATER] [GREATER, LESS]
(* references within one value keep their sharing; the copy is new *)
val _ = if mode = "read" then () else
  let val r = ref 1 val s = ref 2
      val key = "Polygdbm: references inside one value"
      datatype g = G of g list ref * int
      val cyc = ref [] val node = G (cyc, 7) val _ = cyc := [node, node]
  in Polygdbm.withtable ("refs.db", Gdbm.NEWDB) (fn db => (Polygdbm.insert db ("shared", (r, r)); Polygdbm.insert db ("apart", (r, s));
        let val (a, b) = Polygdbm.find db "shared" val (c, d) = Polygdbm.find db "apart"
        in if a = b andalso c <> d andalso a <> c andalso a <> r andalso !a = 1 andalso !d = 2 then () else bad key "identity"; a := 5; if !b = 5 andalso !c = 1 andalso !r = 1 then () else bad key "assignment" end));
     Polygdbm.withtable ("cyc.db", Gdbm.NEWDB) (fn db => (Polygdbm.insert db (1, node);
        case Polygdbm.find db 1 of G (c, 7) => (case !c of [G (c1, 7), G (c2, 7)] => if c1 = c andalso c2 = c andalso c <> cyc then () else bad key "cycle" | _ => bad key "cycle") | _ => bad key "cycle"));
     (Polygdbm.withtable ("fun.db", Gdbm.NEWDB) (fn db => (Polygdbm.insert db (1, SOME (fn x => x + !r)); bad key "a function was stored")) handle Invalid_argument _ => () | Fail _ => () | e => bad key ("storing a function: " ^ exnName e));
     Polygdbm.withtable ("fun.db", Gdbm.READER) (fn db => if Polygdbm.numItems db = 0 then () else bad key "after refusing a function the table has items") end
(* equal keys that share parts differently are the same key *)
val _ = if mode = "read" then () else
  Polygdbm.withtable ("share.db", Gdbm.NEWDB) (fn db => let val a = str 9 val b = String.concat [String.substring (a, 0, 4), String.extract (a, 4, NONE)]
     in Polygdbm.insert db ((a, a), 1); if Polygdbm.hasKey db (a, b) then () else bad "shared-key" "the key (a, a) is not found as (a, b) where a = b" end)
val _ = finish ()
'''


def main():
    c = Check("B16")
    hx, sx, mx, px = pmap(lambda a: c.compile(*a), [("hist", HIST), ("sizes", SIZES), ("modes", MODES), ("poly", POLY)])
    hr = c.inst.hooked_runtime()
    tot = {}

    def add(cov):
        for k, v in cov.items():
            tot[k] = tot.get(k, 0) + v
    add(c.take(c.shards(hx, 16 if c.thorough else 8, extra=[5 if c.thorough else 4], timeout=800)))
    add(c.take(c.shards(sx, 8)))

    def in_dir(exe, name, args, **kw):
        d = c.dir(name)
        return c.harness(exe, args, cwd=d, **kw)
    jobs = [lambda: [in_dir(mx, "d-modes", [0, 1])],
            lambda: [in_dir(px, "d-poly", [0, 1, "write"]), in_dir(px, "d-poly", [0, 1, "read"])],
            lambda: [in_dir(px, "d-polygc", [0, 1, "gc"], runtime=hr, env={"MOSML_VERIFY_GC_EVERY": "1"}), in_dir(px, "d-polygc2", [0, 1, "gc"], runtime=hr, env={"MOSML_VERIFY_GC_EVERY": "7", "MOSML_VERIFY_SLICE": "1"})],
            lambda: [in_dir(hx, "d-histgc", [k, 8, 2], runtime=hr, env={"MOSML_VERIFY_GC_EVERY": "3"}) for k in range(8)],
            lambda: [in_dir(mx, "d-modesgc", [0, 1], runtime=hr, env={"MOSML_VERIFY_GC_EVERY": "101"})]]
    for rs in pmap(lambda f: f(), jobs):
        add(c.take([r for r in rs if r]))
    c.finish({"histories": tot.get("hist", 0), "observations": tot.get("n", 0), "states": tot.get("hist", 0), "transitions": tot.get("n", 0),
              "explanation": "every history was run on the real library against an association list; every observation function after every step"},
             ["the system's libgdbm is trusted"])


main()
