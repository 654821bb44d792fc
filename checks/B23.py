#!/usr/bin/env python3
"""B23: Socket carries bytes and datagrams exactly, reports the end and every error, and select tells what is ready.

1. Streams: all sequences of sends (four kinds), receives (seven kinds), shutdowns and closes by both ends of a connection,
   Unix and Internet, against a model of two byte queues; after each step select must agree with the model.
2. Datagrams: all sequences of sends between two named and one unnamed socket, receives, truncated receives, peeks and replies
   to the address received.
3. select: three sockets in all states (readable, writable, urgent) with all ordered lists; timeouts; descriptors past 1024.
4. Buffers: all offsets and sizes, including those out of range; transfers of every size to 300 and around 2^12, 2^16.
5. Addresses: file names of every length and byte, all boundary Internet addresses, ports; against a Python peer.
6. Faults: every errno at every call; short transfers; everything again with a collection at each allocation and under
   AddressSanitizer."""
import os, re, shutil, socket, subprocess, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

COMMON = r'''
open Socket
val i2s = Int.toString
fun num s = valOf (Int.fromString s)
val bads = ref 0
fun bad key det = if !bads > 25 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\t" ^ det ^ "\n"))
val noflags = {peek = false, oob = false} and peekf = {peek = true, oob = false}
val nosflags = {don't_route = false, oob = false}
fun vec s = Byte.stringToBytes s
fun str v = Byte.bytesToString v
fun arr s = Word8Array.fromList (map Byte.charToByte (explode s))
fun astr a = String.implode (map Byte.byteToChar (Word8Array.foldr (op ::) [] a))
fun unlink f = OS.FileSys.remove f handle _ => ()
fun show s = String.toString s
fun exn e = case e of Fail s => "Fail " ^ s | _ => exnName e
(* inet listeners and bound datagram sockets: the first port free from p on *)
fun bindfree (s, host) p = if p > 65000 then raise Fail "no free port" else (bind (s, inetAddr host p); p) handle Fail "EADDRINUSE" => bindfree (s, host) (p + 1)
fun sel (r, w, e) t = let val {rds, wrs, exs} = select {rds = r, wrs = w, exs = e, timeout = t} in (rds, wrs, exs) end
fun names tbl ds = String.concat (map (fn d => case List.find (fn (x, _) => sameDesc (x, d)) tbl of SOME (_, n) => n | NONE => "?") ds)
fun names3 tbl (a, b, c) = names tbl a ^ "/" ^ names tbl b ^ "/" ^ names tbl c
val patience = ref 3
(* polls until select says `want' or (the first few times) five seconds have passed: data sent through the kernel may need a moment *)
fun settle tbl (r, w, e) want =
  let val dead = Time.+ (Time.now (), Time.fromSeconds 5)
      fun go () = let val got = names3 tbl (sel (r, w, e) (SOME Time.zeroTime)) in
        if got = want then got else if !patience <= 0 orelse Time.> (Time.now (), dead) then (patience := !patience - 1; got) else (Process.system "sleep 0.01"; go ()) end
  in go () end
val seqno = ref 0
fun bytes n = CharVector.tabulate (n, fn i => (seqno := (!seqno + 1) mod 251; Char.chr (!seqno)))
'''

PAIRS = r'''
fun filepair k = let
  val l : (pf_file, passive stream) sock = fileStream () val f = "L" ^ i2s k val _ = unlink f
  val _ = bind (l, fileAddr f) val _ = listen (l, 8)
  in fn () => let val c : (pf_file, active stream) sock = fileStream () val _ = connect (c, fileAddr f) val (s, _) = accept l in (c, s) end end
fun inetpair k = let
  val ls = Vector.tabulate (24, fn j => let val l : (pf_inet, passive stream) sock = inetStream () val h = "127." ^ i2s (10 + k) ^ ".0." ^ i2s (j + 1)
     val p = bindfree (l, h) 21000 val _ = listen (l, 8) in (l, h, p) end)
  val n = ref 0
  in fn () => let val (l, h, p) = Vector.sub (ls, (n := (!n + 1) mod 24; !n))
      val c : (pf_inet, active stream) sock = inetStream () val _ = connect (c, inetAddr h p) val (s, a) = accept l
      val _ = if getinetaddr a = "127.0.0.1" then () else bad "accept address" (getinetaddr a)
      in (c, s) end end
'''

STREAM = COMMON + PAIRS + r'''
val [K, N, FAM, DEPTH, SET] = CommandLine.arguments ()
val (k, n, depth) = (num K, num N, num DEPTH)
val NOPS = 15
val small = [0, 1, 4, 5, 7, 8, 10, 12, 13, 14]       (* for the deeper runs *)
val acts = Vector.fromList (if SET = "all" then List.tabulate (NOPS, fn i => i) else small)
val nacts = 2 * Vector.length acts
val steps = ref 0 and hist = ref 0
exception Prune and Bad of string
fun opname x = let val (w, a) = (x div Vector.length acts, Vector.sub (acts, x mod Vector.length acts)) in
  (if w = 0 then "c." else "s.") ^ Vector.sub (#["sendVec", "sendArr[2,4]", "sendVec'[1,1]", "sendArr'[3,-]", "send0", "recvVec2", "recvVec'9", "recvArr[1,3]", "recvArr'[2,-]",
     "peekVec4", "peekArr", "recv0", "NO_SENDS", "NO_RECVS", "close"], a) end
fun explore (mk : unit -> ('a, active stream) sock * ('a, active stream) sock) = let
  val q = Array.array (2, "") and nosend = Array.array (2, false) and norecv = Array.array (2, false) and closed = Array.array (2, false)
  fun sub a i = Array.sub (a, i) fun set a i v = Array.update (a, i, v)
  fun act (c, s) x = let
    val w = x div Vector.length acts val a = Vector.sub (acts, x mod Vector.length acts) val o' = 1 - w
    val me = if w = 0 then c else s
    val _ = if sub closed w then raise Prune else ()
    fun doSend f len b = (* f () sends the bytes b *)
      if sub closed o' orelse sub norecv o' then raise Prune
      else if sub nosend w then (f (); if len = 0 then () else raise Bad "send after NO_SENDS succeeded") handle Fail _ => ()
      else let val r = f () in if r <> len then raise Bad ("sent " ^ i2s r ^ " of " ^ i2s len) else set q w (sub q w ^ b) end
    fun doRecv f max peek = let
      val avail = sub q o'
      val _ = if avail = "" andalso not (sub nosend o' orelse sub closed o' orelse sub norecv w) then raise Prune else ()
      val _ = if avail <> "" andalso sub norecv w then raise Prune else ()
      val got = f () in
        if not (String.isPrefix got avail) orelse size got > max orelse (got = "" andalso avail <> "" andalso max > 0) then raise Bad ("received \"" ^ show got ^ "\" of \"" ^ show avail ^ "\"")
        else if peek then () else set q o' (String.extract (avail, size got, NONE)) end
    fun inArr (size0, ofs, sz) f = let
      val a = Word8Array.array (size0, 0wxEE) val r = f a
      val t = astr a val room = case sz of SOME n => n | NONE => size0 - ofs in
        if r < 0 orelse r > room then raise Bad ("received count " ^ i2s r)
        else if List.exists (fn i => (i < ofs orelse i >= ofs + r) andalso String.sub (t, i) <> #"\238") (List.tabulate (size0, fn i => i)) then raise Bad "bytes outside the buffer changed"
        else String.substring (t, ofs, r) end
    in case a of
      0 => let val b = bytes 3 in doSend (fn () => sendVec (me, {buf = vec b, ofs = 0, size = NONE})) 3 b end
    | 1 => let val b = bytes 8 in doSend (fn () => sendArr (me, {buf = arr b, ofs = 2, size = SOME 4})) 4 (String.substring (b, 2, 4)) end
    | 2 => let val b = bytes 3 in doSend (fn () => sendVec' (me, {buf = vec b, ofs = 1, size = SOME 1}, nosflags)) 1 (String.substring (b, 1, 1)) end
    | 3 => let val b = bytes 5 in doSend (fn () => sendArr' (me, {buf = arr b, ofs = 3, size = NONE}, nosflags)) 2 (String.substring (b, 3, 2)) end
    | 4 => let val b = bytes 3 in doSend (fn () => sendVec (me, {buf = vec b, ofs = 3, size = SOME 0})) 0 "" end
    | 5 => doRecv (fn () => str (recvVec (me, 2))) 2 false
    | 6 => doRecv (fn () => str (recvVec' (me, 9, noflags))) 9 false
    | 7 => doRecv (fn () => inArr (6, 1, SOME 3) (fn a => recvArr (me, {buf = a, ofs = 1, size = SOME 3}))) 3 false
    | 8 => doRecv (fn () => inArr (7, 2, NONE) (fn a => recvArr' (me, {buf = a, ofs = 2, size = NONE}, noflags))) 5 false
    | 9 => doRecv (fn () => str (recvVec' (me, 4, peekf))) 4 true
    | 10 => doRecv (fn () => inArr (4, 1, NONE) (fn a => recvArr' (me, {buf = a, ofs = 1, size = NONE}, peekf))) 3 true
    | 11 => if sub q o' = "" then raise Prune else doRecv (fn () => str (recvVec (me, 0))) 0 false
    | 12 => if sub nosend w orelse sub closed o' then raise Prune else (shutdown (me, NO_SENDS); set nosend w true)
    | 13 => if sub norecv w orelse sub closed o' orelse sub q o' <> "" orelse (sub nosend w andalso sub nosend o') then raise Prune else (shutdown (me, NO_RECVS); set norecv w true)
    | _ => (close me; set closed w true; if sub q o' <> "" then raise Prune else ())
    end
  fun ready (c, s) = let
    val ws = [(0, sockDesc c, "c"), (1, sockDesc s, "s")]
    val ws = List.filter (fn (w, _, _) => not (sub closed w)) ws
    val tbl = map (fn (_, d, n) => (d, n)) ws
    val canread = List.filter (fn (w, _, _) => sub q (1 - w) <> "" orelse sub nosend (1 - w) orelse sub closed (1 - w) orelse sub norecv w) ws
    val wr = rev (List.filter (fn (w, _, _) => not (sub nosend w) andalso not (sub closed (1 - w)) andalso not (sub norecv (1 - w))) ws)
    val want = String.concat (map #3 canread) ^ "/" ^ String.concat (map #3 wr) ^ "/"
    val got = settle tbl (map #2 ws, map #2 wr, map #2 ws) want
    in if got = want then () else raise Bad ("select says " ^ got ^ " instead of " ^ want) end
  val digits = Array.array (depth, 0)
  fun run () = let (* the position that was pruned, or depth *)
    val _ = (List.app (fn i => (set q i ""; set nosend i false; set norecv i false; set closed i false)) [0, 1]; seqno := 0)
    val (c, s) = mk ()
    fun go i = if i = depth then depth
      else let val x = Array.sub (digits, i)
               val ok = (act (c, s) x; ready (c, s); steps := !steps + 1; true) handle Prune => false
                  | Bad m => (bad ("stream " ^ FAM ^ " " ^ String.concat (List.tabulate (i + 1, fn j => opname (Array.sub (digits, j)) ^ " "))) m; false)
                  | e => (bad ("stream " ^ FAM ^ " " ^ String.concat (List.tabulate (i + 1, fn j => opname (Array.sub (digits, j)) ^ " "))) ("raised " ^ exn e); false)
           in if ok then go (i + 1) else i end
    val r = go 0
    in (if sub closed 0 then () else close c); (if sub closed 1 then () else close s); r end
  (* the first two digits are dealt out to the shards *)
  val top = nacts * nacts
  fun loop t = if t >= top then () else (
    Array.update (digits, 0, t div nacts); Array.update (digits, 1, t mod nacts);
    let fun inner () = let
          val r = run () val _ = if r = depth then hist := !hist + 1 else ()
          fun bump i = if i < 2 then false else if Array.sub (digits, i) + 1 < nacts then (Array.update (digits, i, Array.sub (digits, i) + 1); clear (i + 1); true) else bump (i - 1)
          and clear i = if i >= depth then () else (Array.update (digits, i, 0); clear (i + 1))
          val at = if r >= depth then depth - 1 else r
        in if bump at then inner () else () end
    in (let fun z i = if i >= depth then () else (Array.update (digits, i, 0); z (i + 1)) in z 2 end); inner () end;
    loop (t + n))
  in loop k end
val _ = if FAM = "file" then explore (filepair k) else explore (inetpair k)
val _ = print ("COUNT stream_steps " ^ i2s (!steps) ^ "\nCOUNT stream_histories " ^ i2s (!hist) ^ "\nDONE\n")
'''

DGRAM = COMMON + r'''
val [K, N, FAM, DEPTH] = CommandLine.arguments ()
val (k, n, depth) = (num K, num N, num DEPTH)
val steps = ref 0 and hist = ref 0
exception Prune and Bad of string
val OPS = 22
val opn = #["A->A", "A->B", "B->A", "B->B", "U->A", "U->B", "A->B empty", "U->A empty", "A->B arr", "B->A arr'",
  "A.recvVec3", "A.recvVec20", "A.recvArr", "A.peek", "A.peekArr", "A.reply", "B.recvVec3", "B.recvVec20", "B.recvArr", "B.peek", "B.peekArr", "B.reply"]
(* a named sender is 0 or 1; 2 is U, whose messages can be answered only on the Internet *)
fun explore ((a, b, u) : ('a, dgram) sock * ('a, dgram) sock * ('a, dgram) sock) (aa : 'a sock_addr, ab : 'a sock_addr) canReplyU checkAddr = let
  val q : (string * int) list array = Array.array (3, [])
  fun sock i = if i = 0 then a else if i = 1 then b else u
  fun addr i = if i = 0 then aa else ab
  fun push i m = Array.update (q, i, Array.sub (q, i) @ [m])
  fun inArr (size0, ofs, sz) f = let
      val a = Word8Array.array (size0, 0wxEE) val (r, from) = f a
      val t = astr a val room = case sz of SOME n => n | NONE => size0 - ofs in
        if r < 0 orelse r > room then raise Bad ("received count " ^ i2s r)
        else if List.exists (fn i => (i < ofs orelse i >= ofs + r) andalso String.sub (t, i) <> #"\238") (List.tabulate (size0, fn i => i)) then raise Bad "bytes outside the buffer changed"
        else (String.substring (t, ofs, r), from) end
  fun send i j f m = let val r = f () in if r <> size m then raise Bad ("sent " ^ i2s r) else push j (m, i) end
  fun recv i max peek f = case Array.sub (q, i) of [] => raise Prune
    | (m, from) :: rest => let val (g, ad) = f () val want = if size m > max then String.substring (m, 0, max) else m in
        if g <> want then raise Bad ("received \"" ^ show g ^ "\" instead of \"" ^ show want ^ "\"") else ();
        checkAddr ad;
        if peek then () else Array.update (q, i, rest); (ad, from) end
  fun rcv i v = case v of
      0 => ignore (recv i 3 false (fn () => let val (x, y) = recvVecFrom (sock i, 3) in (str x, y) end))
    | 1 => ignore (recv i 20 false (fn () => let val (x, y) = recvVecFrom' (sock i, 20, noflags) in (str x, y) end))
    | 2 => ignore (recv i 4 false (fn () => inArr (7, 1, SOME 4) (fn a => recvArrFrom (sock i, {buf = a, ofs = 1, size = SOME 4}))))
    | 3 => ignore (recv i 6 true (fn () => let val (x, y) = recvVecFrom' (sock i, 6, peekf) in (str x, y) end))
    | 4 => ignore (recv i 2 true (fn () => inArr (3, 1, NONE) (fn a => recvArrFrom' (sock i, {buf = a, ofs = 1, size = NONE}, peekf))))
    | _ => let val (ad, from) = recv i 20 false (fn () => let val (x, y) = recvVecFrom (sock i, 20) in (str x, y) end)
               val m = bytes 4 in
             if from = 2 andalso not canReplyU then () else send i from (fn () => sendVecTo' (sock i, ad, {buf = vec m, ofs = 0, size = NONE}, nosflags)) m end
  fun act x = if x < 6 then let val m = bytes 5 val i = x div 2 val j = x mod 2 in send i j (fn () => sendVecTo (sock i, addr j, {buf = vec m, ofs = 0, size = NONE})) m end
    else if x = 6 then send 0 1 (fn () => sendVecTo (a, ab, {buf = vec "abc", ofs = 1, size = SOME 0})) ""
    else if x = 7 then send 2 0 (fn () => sendArrTo (u, aa, {buf = arr "", ofs = 0, size = NONE})) ""
    else if x = 8 then let val m = bytes 9 in send 0 1 (fn () => sendArrTo (a, ab, {buf = arr m, ofs = 2, size = SOME 6})) (String.substring (m, 2, 6)) end
    else if x = 9 then let val m = bytes 5 in send 1 0 (fn () => sendArrTo' (b, aa, {buf = arr m, ofs = 4, size = NONE}, nosflags)) (String.substring (m, 4, 1)) end
    else rcv ((x - 10) div 6) ((x - 10) mod 6)
  val tbl = [(sockDesc a, "a"), (sockDesc b, "b"), (sockDesc u, "u")]
  fun ready () = let
    val want = String.concat (ListPair.map (fn (i, s) => if null (Array.sub (q, i)) then "" else s) ([2, 0, 1], ["u", "a", "b"])) ^ "/bua/"
    val got = settle tbl ([sockDesc u, sockDesc a, sockDesc b], [sockDesc b, sockDesc u, sockDesc a], [sockDesc a, sockDesc b]) want
    in if got = want then () else raise Bad ("select says " ^ got ^ " instead of " ^ want) end
  fun drain () = (List.app (fn i => Array.update (q, i, [])) [0, 1, 2];
     let fun go () = case sel (map sockDesc [a, b, u], [], []) (SOME Time.zeroTime) of ([], _, _) => ()
        | (ds, _, _) => (List.app (fn s => if List.exists (fn d => sameDesc (d, sockDesc s)) ds then ignore (recvVecFrom (s, 9)) else ()) [a, b, u]; go ()) in go () end)
  val digits = Array.array (depth, 0)
  fun what i = "datagram " ^ FAM ^ " " ^ String.concat (List.tabulate (i + 1, fn j => Vector.sub (opn, Array.sub (digits, j)) ^ ", "))
  fun run () = let
    val _ = (drain (); seqno := 0)
    fun go i = if i = depth then depth
      else let val ok = (act (Array.sub (digits, i)); ready (); steps := !steps + 1; true) handle Prune => false
                  | Bad m => (bad (what i) m; false) | e => (bad (what i) ("raised " ^ exn e); false)
           in if ok then go (i + 1) else i end
    in go 0 end
  val top = OPS * OPS
  fun clear i = if i >= depth then () else (Array.update (digits, i, 0); clear (i + 1))
  fun loop t = if t >= top then () else (
    Array.update (digits, 0, t div OPS); Array.update (digits, 1, t mod OPS); clear 2;
    let fun inner () = let
          val r = run () val _ = if r = depth then hist := !hist + 1 else ()
          fun bump i = if i < 2 then false else if Array.sub (digits, i) + 1 < OPS then (Array.update (digits, i, Array.sub (digits, i) + 1); clear (i + 1); true) else bump (i - 1)
        in if bump (if r >= depth then depth - 1 else r) then inner () else () end
    in inner () end; loop (t + n))
  in loop k end
fun file () = let val (a, b, u) : (pf_file, dgram) sock * (pf_file, dgram) sock * (pf_file, dgram) sock = (fileDgram (), fileDgram (), fileDgram ())
  val (fa, fb) = ("DA" ^ K, "DB" ^ K ^ "longername") val _ = (unlink fa; unlink fb; bind (a, fileAddr fa); bind (b, fileAddr fb))
  in explore (a, b, u) (fileAddr fa, fileAddr fb) false (fn _ => ()) end
fun inet () = let val (a, b, u) : (pf_inet, dgram) sock * (pf_inet, dgram) sock * (pf_inet, dgram) sock = (inetDgram (), inetDgram (), inetDgram ())
  val pa = bindfree (a, "127.0.0.1") 22000 val pb = bindfree (b, "127.0.0.1") 33000
  in explore (a, b, u) (inetAddr "127.0.0.1" pa, inetAddr "127.0.0.1" pb) true (fn ad => if getinetaddr ad = "127.0.0.1" then () else raise Bad ("sender " ^ getinetaddr ad)) end
val _ = if FAM = "file" then file () else inet ()
val _ = print ("COUNT datagram_steps " ^ i2s (!steps) ^ "\nCOUNT datagram_histories " ^ i2s (!hist) ^ "\nDONE\n")
'''

SELECT = COMMON + PAIRS + r'''
val [K, N, FAM] = CommandLine.arguments ()
val (k, n) = (num K, num N)
val cases = ref 0
(* all lists of distinct elements, in every order, and a few with an element twice *)
fun perms [] = [[]] | perms xs = [] :: List.concat (map (fn x => map (fn r => x :: r) (perms (List.filter (fn y => y <> x) xs))) xs)
fun uniq [] = [] | uniq (x :: xs) = x :: uniq (List.filter (fn y => y <> x) xs)
val lists = uniq (perms [0, 1, 2] @ [[0, 0], [1, 1, 0], [2, 1, 2]])
fun explore (mk : unit -> ('a, active stream) sock * ('a, active stream) sock) oobs = let
  fun fill s = let fun go i = if i > 20000 then raise Fail "never full" else case sel ([], [sockDesc s], []) (SOME Time.zeroTime) of (_, [], _) => () | _ => (sendVec (s, {buf = vec (CharVector.tabulate (1000, fn _ => #"x")), ofs = 0, size = NONE}); go (i + 1)) in go 0 end
  val patterns = List.tabulate (64, fn i => [i mod 4, i div 4 mod 4, i div 16])
  val patterns = if oobs then List.filter (List.all (fn st => st <> 2)) patterns else patterns (* an Internet socket's buffer may grow by itself *)
  (* state 0: idle; 1: readable; 2: full (file only); 3: readable and full (file) or urgent (inet) *)
  fun pattern p = let
    val ps = Vector.fromList (map (fn st => let val (c, s) = mk () in
        (if st mod 2 = 1 then ignore (sendVec (s, {buf = vec "r", ofs = 0, size = NONE})) else ());
        (if st = 3 andalso oobs then ignore (sendVec' (s, {buf = vec "!", ofs = 0, size = NONE}, {don't_route = false, oob = true})) else if st >= 2 then fill c else ());
        (c, s, st) end) p)
    fun d i = let val (c, _, _) = Vector.sub (ps, i) in sockDesc c end
    fun st i = let val (_, _, x) = Vector.sub (ps, i) in x end
    val tbl = List.tabulate (3, fn i => (d i, i2s i))
    fun canr i = st i mod 2 = 1 fun canw i = oobs orelse st i < 2 fun cane i = oobs andalso st i = 3
    fun nm f l = String.concat (map i2s (List.filter f l))
    val what = "select " ^ FAM ^ " state " ^ String.concat (map i2s p)
    fun one (r, w, e) = (cases := !cases + 1; let
      val want = nm canr r ^ "/" ^ nm canw w ^ "/" ^ nm cane e
      val got = settle tbl (map d r, map d w, map d e) want in
        if got = want then () else bad (what ^ " lists " ^ String.concat (map i2s r) ^ "/" ^ String.concat (map i2s w) ^ "/" ^ String.concat (map i2s e)) ("says " ^ got ^ " instead of " ^ want) end)
    val _ = List.app (fn r => List.app (fn w => (one (r, w, []); one (r, w, w); one ([], w, r))) lists) lists
    in Vector.app (fn (c, s, _) => (close c; close s)) ps end
  val _ = List.foldl (fn (p, i) => (if i mod n = k then pattern p else (); i + 1)) 0 patterns
  in () end
val _ = if FAM = "file" then explore (filepair k) false else explore (inetpair k) true
(* descriptors: a total order which agrees with sameDesc *)
val ss : (pf_file, dgram) sock list = List.tabulate (12, fn _ => fileDgram ())
val ds = map sockDesc ss
fun idx f l = List.foldl (fn (x, i) => (f (x, i); i + 1)) 0 l
val _ = idx (fn (x, i) => idx (fn (y, j) => idx (fn (z, _) => (cases := !cases + 1;
   if sameDesc (x, y) <> (i = j) orelse (compare (x, y) = EQUAL) <> (i = j) orelse (compare (x, y) = LESS) <> (compare (y, x) = GREATER)
      orelse (compare (x, y) = LESS andalso compare (y, z) = LESS andalso compare (x, z) <> LESS) then bad ("compare " ^ i2s i ^ " " ^ i2s j) "" else ())) ds) ds) ds
val _ = List.app close ss
(* timeouts: not early; and early when something is ready or becomes ready *)
fun timed f = let val t = Time.now () val r = f () in (r, Time.toMilliseconds (Time.- (Time.now (), t))) end
val (c, s) = filepair (k + 100) ()
val _ = if k > 0 then () else List.app (fn ms => (cases := !cases + 1; let
   val ((r, _, _), el) = timed (fn () => sel ([sockDesc s], [], []) (SOME (Time.fromMilliseconds ms))) in
     if not (null r) then bad ("timeout " ^ i2s ms) "idle socket reported ready" else ();
     if el < ms - 2 then bad ("timeout " ^ i2s ms) ("returned after " ^ i2s el ^ " ms") else if el > ms + 4000 then bad ("timeout " ^ i2s ms) ("returned only after " ^ i2s el ^ " ms") else () end)) [0, 1, 3, 20, 150, 999, 1000, 1001, 1100]
val _ = sendVec (c, {buf = vec "x", ofs = 0, size = NONE})
val _ = List.app (fn t => (cases := !cases + 1; let
   val ((r, _, _), el) = timed (fn () => sel ([sockDesc s], [], []) t) in
     if length r <> 1 then bad "timeout with a ready socket" "not reported ready" else if el > 4000 then bad "timeout with a ready socket" ("took " ^ i2s el ^ " ms") else () end))
   [NONE, SOME Time.zeroTime, SOME (Time.fromSeconds 5), SOME (Time.fromSeconds 1000000), SOME (Time.fromMilliseconds 999999)]
val _ = (close c; close s)
val _ = print ("COUNT select_cases " ^ i2s (!cases) ^ "\nDONE\n")
'''

MANY = COMMON + PAIRS + r'''
(* more descriptors than an fd_set has room for: an exception or the right answer, and nothing else is disturbed *)
val mk = filepair 900
val low = mk ()
val ss : (pf_file, dgram) sock list = List.tabulate (1400, fn _ => fileDgram ())
val high = List.tabulate (20, fn _ => mk ())
val _ = sendVec (#1 low, {buf = vec "y", ofs = 0, size = NONE})
val keep = List.tabulate (300, fn i => i2s i ^ "keep")
fun r1 ds = length (#1 (sel (ds, [], []) (SOME Time.zeroTime)))
val _ = List.app (fn (c, s) => (sendVec (c, {buf = vec "x", ofs = 0, size = NONE});
   (if r1 [sockDesc s] <> 1 then bad "select of a high descriptor" "not reported ready" else ()) handle Fail _ => ();
   (if r1 [sockDesc s, sockDesc (#2 low)] <> 2 then bad "select of a high and a low descriptor" "not both reported ready" else ()) handle Fail _ => ();
   (ignore (sel ([], [sockDesc s], [sockDesc s]) (SOME Time.zeroTime))) handle Fail _ => ();
   if r1 [sockDesc (#2 low)] <> 1 then bad "select of a low descriptor after a high one" "" else ();
   if str (recvVec (s, 5)) <> "x" then bad "receive on a high descriptor" "" else ())) high
val _ = if keep = List.tabulate (300, fn i => i2s i ^ "keep") then () else bad "heap after select" "changed"
val _ = print "COUNT high_descriptors 20\nDONE\n"
'''

BUF = COMMON + PAIRS + r'''
val [K, N] = CommandLine.arguments ()
val (k, n) = (num K, num N)
val cases = ref 0
val big = valOf Int.maxInt and least = valOf Int.minInt
val nums = [least, least + 1, ~9, ~1, 0, 1, 2, 3, 4, 5, 6, 9, 4294967296, 4294967298, big - 4, big - 1, big]
val (c, s) = filepair k ()
val (ic, is) = inetpair k ()
val d : (pf_file, dgram) sock = fileDgram () val _ = (unlink ("B" ^ K); bind (d, fileAddr ("B" ^ K)))
val da = fileAddr ("B" ^ K)
fun empty () = null (#1 (sel ([sockDesc s, sockDesc d, sockDesc c, sockDesc is], [], []) (SOME Time.zeroTime)))
fun inrange len ofs sz = case sz of NONE => ofs >= 0 andalso ofs <= len | SOME m => ofs >= 0 andalso ofs <= len andalso m >= 0 andalso m <= len - ofs
val text = "0123456789"
fun one len ofs sz = let
  val t = String.substring (text, 0, len) val ok = inrange len ofs sz
  val what = "buffer of " ^ i2s len ^ " from " ^ i2s ofs ^ " size " ^ (case sz of NONE => "NONE" | SOME m => i2s m)
  val body = if ok then (case sz of NONE => String.extract (t, ofs, NONE) | SOME m => String.substring (t, ofs, m)) else ""
  val a = arr t val v = vec t
  val vb = {buf = v, ofs = ofs, size = sz} val ab = {buf = a, ofs = ofs, size = sz}
  fun try nm f check = (cases := !cases + 1;
     let val r = (SOME (f ()) handle Subscript => NONE) in
       case (r, ok) of (NONE, false) => if empty () then () else bad (what ^ " " ^ nm) "raised Subscript but something was sent"
        | (NONE, true) => bad (what ^ " " ^ nm) "raised Subscript" | (SOME _, false) => bad (what ^ " " ^ nm) "accepted"
        | (SOME x, true) => (case check x of "" => () | m => bad (what ^ " " ^ nm) m) end handle e => bad (what ^ " " ^ nm) ("raised " ^ exn e))
  fun got x = if x <> size body then "sent " ^ i2s x else if body = "" then "" else let val r = str (recvVec (s, 20)) in if r = body then "" else "arrived as " ^ r end
  fun gotd x = if x <> size body then "sent " ^ i2s x else let val r = str (#1 (recvVecFrom (d, 20))) in if r = body then "" else "arrived as " ^ r end
  val _ = try "sendVec" (fn () => sendVec (c, vb)) got
  val _ = try "sendVec'" (fn () => sendVec' (c, vb, nosflags)) got
  val _ = try "sendArr" (fn () => sendArr (c, ab)) got
  val _ = try "sendArr'" (fn () => sendArr' (c, ab, nosflags)) got
  val _ = try "sendVecTo" (fn () => sendVecTo (d, da, vb)) gotd
  val _ = try "sendVecTo'" (fn () => sendVecTo' (d, da, vb, nosflags)) gotd
  val _ = try "sendArrTo" (fn () => sendArrTo (d, da, ab)) gotd
  val _ = try "sendArrTo'" (fn () => sendArrTo' (d, da, ab, nosflags)) gotd
  val _ = if astr a = t andalso str v = t then () else bad what "the buffer sent from changed"
  (* receive "abc" into it *)
  fun into nm f dg = let
    val a = arr t
    fun feed () = ignore (if dg then sendVecTo (d, da, {buf = vec "abc", ofs = 0, size = NONE}) else sendVec (c, {buf = vec "abc", ofs = 0, size = NONE}))
    fun flush () = if dg then () else if empty () then () else ignore (recvVec (s, 20))
    val _ = if ok then feed () else ()
    in try nm (fn () => f {buf = a, ofs = ofs, size = sz}) (fn r => let
         val w = Int.min (3, size body)
         val want = if w = 0 then t else String.substring (t, 0, ofs) ^ String.substring ("abc", 0, w) ^ String.extract (t, ofs + w, NONE) in
           if r <> w then "received " ^ i2s r else if astr a <> want then "array is " ^ astr a else "" end);
       (if ok then () else if astr a = t then () else bad (what ^ " " ^ nm) "array changed"); flush () end
  in into "recvArr" (fn b => recvArr (s, b)) false; into "recvArr'" (fn b => recvArr' (s, b, noflags)) false;
     into "recvArrFrom" (fn b => #1 (recvArrFrom (d, b))) true; into "recvArrFrom'" (fn b => #1 (recvArrFrom' (d, b, noflags))) true end
val lens = [0, 1, 3, 5]
val serial = ref 0
val _ = List.app (fn len => List.app (fn ofs => List.app (fn sz => (serial := !serial + 1; if !serial mod n = k then one len ofs sz else ())) (NONE :: map SOME nums)) nums) lens
(* counts that are no counts: an exception, no crash, nothing lost *)
val _ = sendVec (c, {buf = vec "keep", ofs = 0, size = NONE})
val _ = sendVecTo (d, da, {buf = vec "keep", ofs = 0, size = NONE})
val _ = List.app (fn m => (cases := !cases + 4; let
   fun t nm f = (f (); bad (nm ^ " " ^ i2s m) "accepted") handle _ => () in
     t "recvVec" (fn () => recvVec (s, m)); t "recvVec'" (fn () => recvVec' (s, m, noflags));
     t "recvVecFrom" (fn () => recvVecFrom (d, m)); t "recvVecFrom'" (fn () => recvVecFrom' (d, m, noflags)) end))
   [~1, ~2, ~3, ~7, ~8, ~9, ~16, ~100, ~4096, ~4294967296, least, least + 1, big, big - 1]
val _ = if str (recvVec (s, 9)) = "keep" andalso str (#1 (recvVecFrom (d, 9))) = "keep" then () else bad "data after a refused receive" "lost"
(* transfers: sizes *)
fun pump nm c s total = let
  val whole = CharVector.tabulate (total, fn i => Char.chr ((i * 31 + i div 256 * 7) mod 256)) val v = vec whole
  fun go (sent, got, acc) = if got >= total andalso sent >= total then String.concat (rev acc) else let
      val (r, w, _) = sel ([sockDesc s], if sent < total then [sockDesc c] else [], []) (SOME (Time.fromSeconds (if !patience <= 0 then 0 else 20)))
      val _ = if null r andalso null w then (patience := 0; raise Fail "stuck") else ()
      val sent = if null w then sent else sent + sendVec (c, {buf = v, ofs = sent, size = SOME (Int.min (4096, total - sent))})
      val x = if null r then "" else str (recvVec (s, 5000)) in go (sent, got + size x, x :: acc) end
  in cases := !cases + 1; if go (0, 0, []) = whole then () else bad (nm ^ " transfer of " ^ i2s total) "arrived different" end handle e => bad (nm ^ " transfer of " ^ i2s total) (exn e)
fun upto (i, j) = if i > j then [] else i :: upto (i + 1, j)
val sizes = upto (1, 300) @ upto (1020, 1030) @ upto (4090, 4100) @ upto (8190, 8194) @ upto (32766, 32770) @ upto (65530, 65540) @ [131072, 200001, 1000003]
val _ = List.app (fn z => if z mod n = k then (pump "file" c s z; pump "file back" s c z; pump "inet" ic is z; pump "inet back" is ic z) else ()) sizes
val _ = List.app (fn z => if z mod n = k andalso z < 66000 then (cases := !cases + 1; let
   val w = CharVector.tabulate (z, fn i => Char.chr ((i * 31 + i div 256 * 7) mod 256)) in
     if sendVecTo (d, da, {buf = vec w, ofs = 0, size = NONE}) = z andalso str (#1 (recvVecFrom (d, 70000))) = w then () else bad ("datagram of " ^ i2s z) "arrived different" end handle e => bad ("datagram of " ^ i2s z) (exn e)) else ()) sizes
(* urgent data *)
val _ = let val ur = {don't_route = false, oob = true} in
   sendVec (ic, {buf = vec "ab", ofs = 0, size = NONE}); sendVec' (ic, {buf = vec "!", ofs = 0, size = NONE}, ur);
   if settle [(sockDesc is, "s")] ([sockDesc is], [], [sockDesc is]) "s//s" <> "s//s" then bad "urgent data" "not reported by select" else ();
   if str (recvVec' (is, 5, {peek = false, oob = true})) <> "!" then bad "urgent data" "not received as such" else ();
   if str (recvVec (is, 5)) <> "ab" then bad "urgent data" "ordinary data different" else ();
   sendArr' (ic, {buf = arr "xyz", ofs = 1, size = SOME 1}, ur);
   settle [(sockDesc is, "s")] ([], [], [sockDesc is]) "//s";
   let val a = arr "...." in if recvArr' (is, {buf = a, ofs = 2, size = SOME 2}, {peek = false, oob = true}) <> 1 orelse astr a <> "..y." then bad "urgent data in an array" (astr a) else () end
   end handle e => bad "urgent data" (exn e)
val _ = print ("COUNT buffer_cases " ^ i2s (!cases) ^ "\nDONE\n")
'''

ADDR = COMMON + r'''
val [K, N, PORTS] = CommandLine.arguments ()
val (k, n) = (num K, num N)
val cases = ref 0
fun upto (i, j) = if i > j then [] else i :: upto (i + 1, j)
(* file names: bind creates exactly that file, connect and sendVecTo reach it *)
fun name f = (cases := !cases + 1; unlink f; let
  val l : (pf_file, passive stream) sock = fileStream () val a = fileAddr f
  val _ = (bind (l, a); listen (l, 2))
  val there = OS.FileSys.access (f, [])
  val c : (pf_file, active stream) sock = fileStream () val _ = connect (c, fileAddr f) val (s, _) = accept l
  val _ = sendVec (c, {buf = vec "hi", ofs = 0, size = NONE}) val r = str (recvVec (s, 9))
  val _ = (close s; close c; close l; unlink f)
  val d : (pf_file, dgram) sock = fileDgram () val e : (pf_file, dgram) sock = fileDgram ()
  val _ = (bind (d, a); sendVecTo (e, fileAddr f, {buf = vec "ho", ofs = 0, size = NONE}))
  val (m, _) = recvVecFrom (d, 9)
  (* the sender's address leads back to it *)
  val _ = sendVecTo (d, a, {buf = vec "own", ofs = 0, size = NONE}) val (_, back) = recvVecFrom (d, 9)
  val _ = sendVecTo (e, back, {buf = vec "again", ofs = 0, size = NONE}) val (m2, _) = recvVecFrom (d, 9)
  val _ = (close d; close e; unlink f)
  in if there andalso r = "hi" andalso str m = "ho" andalso str m2 = "again" then () else bad ("file name " ^ show f) "does not lead to the socket" end
  handle e => bad ("file name of " ^ i2s (size f) ^ " " ^ show f) (exn e))
val dir = "n" ^ K val _ = OS.FileSys.mkDir dir handle _ => ()
val _ = List.app (fn len => if len mod n = k then name (dir ^ "/" ^ CharVector.tabulate (len - size dir - 1, fn i => Char.chr (97 + i mod 26))) else ()) (upto (size dir + 2, 107))
val _ = List.app (fn b => if b mod n <> k orelse b = 47 then () else name (dir ^ "/x" ^ String.str (Char.chr b) ^ "y")) (upto (1, 255))
val _ = List.app (fn len => (cases := !cases + 1; ((fileAddr (CharVector.tabulate (len, fn _ => #"q")); ()) handle Fail _ => ();
   let val s : (pf_file, 'a stream) sock = fileStream () in ((connect (s, fileAddr (CharVector.tabulate (len, fn _ => #"q"))); bad ("file name of " ^ i2s len) "connected to nothing") handle Fail _ => ()); close s end))) (upto (1, 130) @ [200, 255, 256, 300, 1000, 4096, 70000])
(* the address of an unnamed client can be used like another, and reaches nobody *)
val _ = let val l : (pf_file, passive stream) sock = fileStream () val f = dir ^ "/acc" val _ = (unlink f; bind (l, fileAddr f); listen (l, 3)) in
  List.app (fn i => (cases := !cases + 1; let val c : (pf_file, active stream) sock = fileStream () val cn = dir ^ "/" ^ CharVector.tabulate (i, fn _ => #"c")
     val named = i > 0 val _ = if named then (unlink cn; bind (c, fileAddr cn)) else () val _ = connect (c, fileAddr f) val (s, a) = accept l
     val d : (pf_file, dgram) sock = fileDgram ()
     in ((sendVecTo (d, a, {buf = vec "zz", ofs = 0, size = NONE}); bad ("address of client " ^ i2s i) "accepts datagrams") handle Fail _ => ()); List.app close [c, s]; close d; if named then unlink cn else () end
     handle e => bad ("accept from a client named with " ^ i2s i) (exn e))) (if k = 0 then upto (0, 100) else []); close l end
(* internet addresses *)
val oct = [0, 1, 2, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255]
val _ = List.app (fn a => List.app (fn b => List.app (fn c => if (a + b + c) mod n <> k then () else List.app (fn d => (cases := !cases + 1; let
    val t = String.concatWith "." (map i2s [a, b, c, d]) val g = getinetaddr (inetAddr t (a * 256 + d)) in if g = t then () else bad ("getinetaddr " ^ t) g end)) oct) oct) oct) oct
val _ = List.app (fn t => (cases := !cases + 1; (inetAddr t 80; bad ("inetAddr \"" ^ t ^ "\"") "accepted") handle Fail _ => ())) ["", "x", "1.2.3.4.5", "256.1.1.1", "1.2.3.999", "localhost", "1.2.3.4x", "::1"]
(* ports: our connections arrive where a peer listens, and the peer's arrive here *)
fun line s = let fun go acc = case str (recvVec (s, 1)) of "" => acc | "\n" => acc | x => go (acc ^ x) in go "" end
fun connectTo (host, p) = let val c : (pf_inet, active stream) sock = inetStream () in connect (c, inetAddr host p); c end
val _ = List.app (fn hp => case String.fields (fn c => c = #":") hp of [host, p] => (cases := !cases + 1; let
   val c = connectTo (host, num p) val _ = sendVec (c, {buf = vec ("want " ^ hp ^ "\n"), ofs = 0, size = NONE}) val r = line c val _ = close c
   in if r = "here " ^ hp then () else bad ("connect to " ^ hp) r end handle e => bad ("connect to " ^ hp) (exn e)) | _ => ()) (String.tokens (fn c => c = #",") PORTS)
val _ = if k > 0 then () else List.app (fn p0 => (cases := !cases + 1; let
   val l : (pf_inet, passive stream) sock = inetStream () val p = bindfree (l, "127.0.0.5") p0 val _ = listen (l, 2)
   val _ = print ("LISTEN " ^ i2s p ^ "\n") val _ = TextIO.flushOut TextIO.stdOut
   val (s, a) = accept l val r = line s val _ = sendVec (s, {buf = vec "ok\n", ofs = 0, size = NONE}) val _ = line s
   val want = "peer 127.0.0." ^ i2s (p mod 200 + 1) in
     (if r <> want orelse getinetaddr a <> String.extract (want, 5, NONE) then bad ("accept on port " ^ i2s p) (r ^ " from " ^ getinetaddr a) else ()); close s; close l end
   handle e => bad ("listen on port " ^ i2s p0) (exn e))) [1025, 1280, 2048, 4096, 8193, 16384, 32767, 32768, 43690, 61441]
val _ = print ("COUNT address_cases " ^ i2s (!cases) ^ "\nDONE\n")
'''

FAULT = COMMON + PAIRS + r'''
(* odd calls of the function named fail with each errno in turn: an exception, and the next call works *)
val [K, FN, LOG] = CommandLine.arguments ()
val k = num K
val cases = ref 0
fun hits () = OS.FileSys.fileSize LOG handle _ => 0
val f = "F" ^ K val fd = "G" ^ K val _ = (unlink f; unlink fd)
val l : (pf_file, passive stream) sock = fileStream ()
val _ = if FN = "bind" orelse FN = "listen" orelse FN = "socket" then () else (bind (l, fileAddr f); listen (l, 100))
fun sock () : (pf_file, active stream) sock = fileStream ()
fun conn () = let val c = sock () in connect (c, fileAddr f); c end
fun pair () = let val c = conn () val (s, _) = accept l in (c, s) end
val d : (pf_file, dgram) sock = fileDgram ()
val P = if List.exists (fn x => x = FN) ["send", "recv", "select"] then SOME (pair ()) else NONE
val _ = if FN = "sendto" orelse FN = "recvfrom" then bind (d, fileAddr fd) else ()
fun one errno = let
  fun op1 () = case FN of
      "socket" => close (fileStream () : (pf_file, active stream) sock)
    | "bind" => let val s = sock () in (unlink f; bind (s, fileAddr f)) handle e => (close s; raise e); close s end
    | "listen" => let val s : (pf_file, passive stream) sock = fileStream () in (unlink f; bind (s, fileAddr f); listen (s, 3)) handle e => (close s; raise e); close s end
    | "connect" => let val s = sock () in connect (s, fileAddr f) handle e => (close s; raise e); close (#1 (accept l)); close s end
    | "accept" => let val c = conn () val (s, _) = accept l handle e => (close c; close (#1 (accept l)); raise e) in close c; close s end
    | "send" => if sendVec (#1 (valOf P), {buf = vec "hello", ofs = 0, size = NONE}) = 5 andalso str (recvVec (#2 (valOf P), 9)) = "hello" then () else bad ("send after errno " ^ i2s errno) "different"
    | "recv" => (sendVec (#1 (valOf P), {buf = vec "hello", ofs = 0, size = NONE});
         (if str (recvVec (#2 (valOf P), 9)) = "hello" then () else bad ("recv after errno " ^ i2s errno) "different")
           handle e => if str (recvVec (#2 (valOf P), 9)) = "hello" then raise e else bad ("recv after errno " ^ i2s errno) "data lost")
    | "sendto" => if sendVecTo (d, fileAddr fd, {buf = vec "hello", ofs = 0, size = NONE}) = 5 andalso str (#1 (recvVecFrom (d, 9))) = "hello" then () else bad ("sendto after errno " ^ i2s errno) "different"
    | "recvfrom" => (sendVecTo (d, fileAddr fd, {buf = vec "hello", ofs = 0, size = NONE});
         (if str (#1 (recvVecFrom (d, 9))) = "hello" then () else bad ("recvfrom after errno " ^ i2s errno) "different")
           handle e => if str (#1 (recvVecFrom (d, 9))) = "hello" then raise e else bad ("recvfrom after errno " ^ i2s errno) "data lost")
    | "shutdown" => let val (c, s) = pair () in (shutdown (c, NO_SENDS); if str (recvVec (s, 4)) = "" then () else bad "shutdown" "") handle e => (close c; close s; raise e); close c; close s end
    | _ => if length (#2 (sel ([], [sockDesc (#1 (valOf P))], []) (SOME Time.zeroTime))) = 1 then () else bad ("select after errno " ^ i2s errno) "different"
  val h0 = hits ()
  val r = (op1 (); "succeeded") handle Fail s => "raised" | OS.SysErr _ => "raised" | e => "raised " ^ exnName e
  val h1 = hits ()
  val _ = cases := !cases + 1
  in if h1 > h0 andalso r = "succeeded" andalso errno <> 4 andalso errno <> 11 then bad (FN ^ " failing with errno " ^ i2s errno) "no exception raised"
     else if h1 = h0 andalso r <> "succeeded" then bad (FN ^ " not failing") r else () end handle e => bad (FN ^ " with errno " ^ i2s errno) ("afterwards: " ^ exn e)
val _ = List.app one (List.tabulate (266, fn i => i + 1))
val _ = print ("COUNT faults " ^ i2s (hits ()) ^ "\nDONE\n")
'''


def serve(ports, hosts, stop):
    """listeners in Python; returns [(host, port)]"""
    out = []

    def one(s, hp):
        s.settimeout(1)
        while not stop.is_set():
            try:
                k, _ = s.accept()
            except OSError:
                continue
            with k:
                k.settimeout(20)
                try:
                    b = b""
                    while not b.endswith(b"\n"):
                        x = k.recv(100)
                        if not x:
                            break
                        b += x
                    k.sendall(b"here " + hp.encode() + b"\n")
                    k.recv(1)
                except OSError:
                    pass
        s.close()
    th = []
    for h in hosts:
        for p in ports:
            for q in range(p, p + 40):
                s = socket.socket()
                try:
                    s.bind((h, q))
                    s.listen(8)
                except OSError:
                    s.close()
                    continue
                out.append(f"{h}:{q}")
                t = threading.Thread(target=one, args=(s, f"{h}:{q}"), daemon=True)
                t.start()
                th.append(t)
                break
    return out


def peer(exe, c, k, n, ports, cwd, env, rt=None):
    """runs ADDR, connecting to each port it says it listens on"""
    p = subprocess.Popen([rt or c.inst.camlrunm, exe, str(k), str(n), ",".join(ports)], cwd=cwd, env=dict(c.env, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="latin-1")
    t = threading.Timer(150, p.kill)
    t.start()
    out = []
    for line in p.stdout:
        out.append(line)
        m = re.match(r"LISTEN (\d+)$", line)
        if m:
            port = int(m[1])
            s = socket.socket()
            s.settimeout(20)
            try:
                h = f"127.0.0.{port % 200 + 1}"
                s.bind((h, 0))
                s.connect(("127.0.0.5", port))
                s.sendall(f"peer {h}\n".encode())
                s.recv(10)
            except OSError as e:
                c.fail(f"nothing listens on port {port} of 127.0.0.5", str(e))
                p.kill()
            s.close()
    err = p.stderr.read()
    p.wait()
    t.cancel()
    if p.returncode or not re.search("^DONE", "".join(out), re.M):
        if not c.fails:
            c.fail(f"harness-died:addr {k}", f"status {p.returncode}\n{''.join(out)[-500:]}\n{err[-2000:]}")
    r = type("R", (), {})()
    r.out = "".join(out)
    return r


def main():
    c = Check("B23")
    counts = {}

    def add(rs):
        for k, v in c.take([r for r in rs if r]).items():
            counts[k] = counts.get(k, 0) + v
        if c.fails:      # what is broken may make the rest wait for ever
            c.finish({"executions": sum(counts.values()), "histories": 0})
    exes = dict(zip(("stream", "dgram", "select", "many", "buf", "addr", "fault"),
                    pmap(lambda a: c.compile(*a), [("stream", STREAM), ("dgram", DGRAM), ("select", SELECT), ("many", MANY), ("buf", BUF), ("addr", ADDR), ("fault", FAULT)])))
    if None in exes.values():
        c.finish({"executions": 0, "histories": 0})
    th = c.thorough
    home = {x: os.path.dirname(e) for x, e in exes.items()}
    add(c.shards(exes["stream"], extra=["file", 4, "all"], timeout=140 if not th else 800))
    add(c.shards(exes["stream"], extra=["file", 5, "small"], timeout=140 if not th else 800))
    if th:
        add(c.shards(exes["stream"], extra=["file", 5, "all"], timeout=2000))
    add(c.shards(exes["stream"], extra=["inet", 3, "all"] if not th else ["inet", 4, "small"], timeout=140 if not th else 800))
    add(c.shards(exes["dgram"], extra=["file", 4 if not th else 5], timeout=140 if not th else 800))
    add(c.shards(exes["dgram"], extra=["inet", 3 if not th else 4], timeout=140 if not th else 800))
    add(c.shards(exes["select"], extra=["file"], timeout=140))
    add(c.shards(exes["select"], extra=["inet"], timeout=140))
    add(c.shards(exes["buf"], timeout=140))
    # more descriptors than FD_SETSIZE
    r = run(["bash", "-c", f"ulimit -n 3000 && exec {c.inst.camlrunm} {exes['many']}"], cwd=home["many"], env=c.env, timeout=60)
    if r.rc or "DONE" not in r.out:
        c.fail("many descriptors", f"ended with status {r.rc}: {r.err[-600:]}")
    add([r])
    # addresses
    stop = threading.Event()
    ports = serve([1026, 1281, 2560, 5000, 8192, 16385, 32766, 32769, 40000, 65279, 65500], ["127.0.0.1", "127.0.0.77", "127.1.2.3"], stop)
    add(pmap(lambda k: peer(exes["addr"], c, k, NCPU, ports, home["addr"], {}), range(NCPU)))
    # faults and short transfers
    shim = f"{c.work}/shim.so"
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "sock", "shim.c")
    r = run(f"gcc -O1 -fPIC -shared -o {shim} {src} -ldl 2>&1", timeout=60)
    if r.rc:
        log("ERROR: shim does not compile: " + r.out)
        sys.exit(2)

    def fault(a):
        k, fn = a
        lg = f"{home['fault']}/log{k}"
        spec = ",".join(f"{fn}:{2 * i + (3 if fn == 'socket' else 1)}:{e}" for i, e in enumerate(range(1, 134)))
        return c.harness(exes["fault"], [k, fn, lg], env={"LD_PRELOAD": shim, "SOCKSHIM": spec, "SOCKSHIM_LOG": lg}, timeout=60)
    add(pmap(fault, list(enumerate(["bind", "listen", "connect", "accept", "send", "recv", "sendto", "recvfrom", "shutdown", "select", "socket"]))))
    # collections at every allocation, and AddressSanitizer with the library instrumented too
    hr, ha = c.inst.hooked_runtime(), c.inst.hooked_runtime(asan=True)
    lib = f"{c.work}/asanlib"
    os.makedirs(lib)
    r = run(f"gcc -fsanitize=address -fno-omit-frame-pointer -g -O1 -Dunix -w -fPIC -shared -I{c.inst.src}/runtime -I{c.inst.src}/config -o {lib}/libmsocket.so {c.inst.src}/dynlibs/msocket/msocket.c 2>&1", timeout=100)
    if r.rc:
        log("note: msocket.c does not build with AddressSanitizer on its own: " + r.out[-500:])
    gc = {"MOSML_VERIFY_GC_EVERY": "1"}
    asan = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "LD_LIBRARY_PATH": lib}
    before = dict(counts)
    add(c.shards(exes["stream"], extra=["file", 3 if th else 2, "all"], runtime=hr, env=gc, timeout=140))
    add(c.shards(exes["dgram"], extra=["file", 2], runtime=hr, env=gc, timeout=140))
    add(c.shards(exes["dgram"], extra=["inet", 2], runtime=hr, env=gc, timeout=140))
    add(c.shards(exes["stream"], extra=["inet", 2, "all"], runtime=ha, env=asan, timeout=140))
    add(c.shards(exes["dgram"], extra=["file", 2], runtime=ha, env=asan, timeout=140))
    add(pmap(lambda k: peer(exes["addr"], c, k, NCPU, ports, home["addr"], asan, ha), range(NCPU)))
    stop.set()
    cov = {"executions": sum(counts.values()), "histories": counts.get("stream_histories", 0) + counts.get("datagram_histories", 0), "counts": counts,
           "bound": "streams: all sequences of four (Unix) and three (Internet) operations of thirty; datagrams: four and three of 22; 91 states of three sockets with all ordered lists; every errno at every call"}
    c.finish(cov, ["loopback network and the kernel's sockets as the medium", "what the peer sees after a reset is left open"])


main()
