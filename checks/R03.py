#!/usr/bin/env python3
"""R03: streams deliver every byte exactly once and in order, however the system splits and interrupts the transfers.

1. All histories of stream operations to a depth, on files whose lengths straddle the buffer size, from positions that
   straddle it too: input (TextIO, BinIO, Nonstdio with seeking) against an index into the contents, output against a
   byte-array-and-position model.
2. All histories of opening, using and closing several streams, also with closed standard descriptors.
3. All outcome sequences (whole, one byte, half, all but one, EINTR, EAGAIN, error) of the first read and write calls,
   through an interposed read/write, for a set of copying programs, the compiler and the linker."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

COMMON = r'''
fun i2s (n : int) = Int.toString n
val [K, N, DIR, LO, HI] = CommandLine.arguments ()
fun num s = valOf (Int.fromString s)
val (k, n, lo, hi) = (num K, num N, num LO, num HI)
fun upto (i,j) = if i > j then [] else i :: upto (i+1,j)
val cnt = ref 0 and hist = ref 0
val bads = ref 0
fun bad key = if !bads > 20 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\n"))
fun pat nl i = if nl andalso (i mod 70 = 69 orelse i = 4095 orelse i = 4097 orelse i mod 2 = 0 andalso i < 5) then #"\n"
               else Char.chr (case (i * 7 + i div 253) mod 256 of 10 => 11 | c => c)
fun content (nl, l) = CharVector.tabulate (l, pat nl)
fun seqs d ops f = let fun go 0 acc = f (rev acc) | go d acc = List.app (fn x => go (d-1) (x :: acc)) ops in go d [] end
(* the s-th history is run by shard s mod n *)
val serial = ref 0
fun mine () = (serial := !serial + 1; !serial mod n = k)
'''

INPUT = COMMON + r'''
datatype opn = Input1 | Input | NoBlock | InputN of int | Line | Look | Eos | All | Scan of int
fun name Input1 = "input1" | name Input = "input" | name NoBlock = "inputNoBlock" | name (InputN m) = "inputN " ^ i2s m | name Line = "inputLine"
  | name Look = "lookahead" | name Eos = "endOfStream" | name All = "inputAll" | name (Scan m) = "scanStream " ^ i2s m
fun eqAt (s, p, r) = (* r occurs in s at p *)
  let val m = size r fun h i = i >= m orelse (String.sub (s, p+i) = String.sub (r, i) andalso h (i+1)) in p + m <= size s andalso h 0 end
exception Bad of string
fun want b s = if b then () else raise Bad s
fun lineEnd (s, p) = let fun h i = if i >= size s then i else if String.sub (s, i) = #"\n" then i + 1 else h (i+1) in h p end
fun takeN m getc src = let fun h 0 s acc = SOME (implode (rev acc), s) | h m s acc = case getc s of NONE => SOME (implode (rev acc), s) | SOME (c, s') => h (m-1) s' (c :: acc) in h m src [] end
fun step s is p opr = let val l = size s val left = l - p fun more r = (want (eqAt (s, p, r)) "wrong data"; p + size r) in
  cnt := !cnt + 1;
  case opr of
    Input1 => (case TextIO.input1 is of NONE => (want (left = 0) "NONE"; p) | SOME c => (want (left > 0 andalso c = String.sub (s, p)) "char"; p + 1))
  | Input => let val r = TextIO.input is in want ((r = "") = (left = 0)) "empty"; more r end
  | NoBlock => (case TextIO.inputNoBlock is of NONE => raise Bad "would block" | SOME r => (want ((r = "") = (left = 0)) "empty"; more r))
  | InputN m => let val r = TextIO.inputN (is, m) in want (size r = Int.min (m, left)) "length"; more r end
  | Line => (case TextIO.inputLine is of NONE => (want (left = 0) "NONE"; p)
       | SOME r => let val e = lineEnd (s, p) val whole = e > p andalso String.sub (s, e - 1) = #"\n" in
            want (left > 0) "SOME"; want (size r = e - p + (if whole then 0 else 1)) "length";
            want (eqAt (s ^ (if whole then "" else "\n"), p, r)) "line"; e end)
  | Look => (case TextIO.lookahead is of NONE => (want (left = 0) "NONE"; p) | SOME c => (want (left > 0 andalso c = String.sub (s, p)) "char"; p))
  | Eos => (want (TextIO.endOfStream is = (left = 0)) "eos"; p)
  | All => let val r = TextIO.inputAll is in want (size r = left) "length"; more r end
  | Scan m => (case TextIO.scanStream (takeN m) is of NONE => raise Bad "NONE" | SOME r => (want (size r = Int.min (m, left)) "length"; more r))
  end
val ops = [Input1, Input, NoBlock, InputN 0, InputN 2, InputN 61, InputN 4096, InputN 4500, Line, Look, Eos, All, Scan 3]
fun run (f, s, p0, os) = if not (mine ()) then () else
  let val is = TextIO.openIn f fun go p [] = p | go p (x :: r) = go (step s is p x) r in
    hist := !hist + 1;
    ((if p0 = 0 then () else ignore (TextIO.inputN (is, p0));
      let val p = go p0 os val left = size s - p in
        want (TextIO.inputAll is = String.extract (s, p, NONE)) "rest"; want (TextIO.endOfStream is) "end" end;
      TextIO.closeIn is; want (TextIO.input1 is = NONE andalso TextIO.input is = "" andalso TextIO.inputAll is = "" andalso TextIO.inputLine is = NONE andalso TextIO.endOfStream is) "closed")
     handle Bad e => bad ("TextIO input, file of " ^ i2s (size s) ^ " at " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\t" ^ e)
          | e => bad ("TextIO input, file of " ^ i2s (size s) ^ " at " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\traised " ^ exnName e));
    TextIO.closeIn is
  end
val _ = List.app (fn nl => List.app (fn l =>
  let val s = content (nl, l) val f = DIR ^ "/i" ^ i2s k ^ "_" ^ i2s l val os = TextIO.openOut f val _ = TextIO.output (os, s) val _ = TextIO.closeOut os in
    List.app (fn p0 => if p0 > l then () else seqs (if l > 4000 then hi else lo) ops (fn os => run (f, s, p0, os))) [0, 1, 4093, 4094, 4095, 4096, 4097, 8191, 8192]
  end) [0, 1, 3, 62, 4095, 4096, 4097, 8192, 8195]) [true, false]
val _ = print ("COUNT ops " ^ i2s (!cnt) ^ "\nCOUNT hist " ^ i2s (!hist) ^ "\nDONE\n")
'''

SEEK = COMMON + r'''
datatype opn = Ch | Int4 | Buff of int | Really of int | Bas of int | Line | Look | Seek of int | SeekRel of int | Pos | Len
fun name Ch = "input_char" | name Int4 = "input_binary_int" | name (Buff m) = "buff_input " ^ i2s m | name (Really m) = "fast_really_input " ^ i2s m | name (Bas m) = "input " ^ i2s m
  | name Line = "input_line" | name Look = "lookahead" | name (Seek q) = "seek_in " ^ i2s q | name (SeekRel q) = "seek_in here " ^ i2s q | name Pos = "pos_in" | name Len = "in_stream_length"
exception Bad of string
fun want b s = if b then () else raise Bad s
fun eqAt (s, p, r) = let val m = size r fun h i = i >= m orelse (String.sub (s, p+i) = String.sub (r, i) andalso h (i+1)) in p + m <= size s andalso h 0 end
open BasicIO Nonstdio
fun rd (s, p) = let fun b i = Char.ord (String.sub (s, p + i)) val u = ((b 0 * 256 + b 1) * 256 + b 2) * 256 + b 3 in if u >= 2147483648 then u - 4294967296 else u end
fun lineEnd (s, p) = let fun h i = if i >= size s then i else if String.sub (s, i) = #"\n" then i + 1 else h (i+1) in h p end
fun step s is p opr = let val l = size s val left = Int.max (0, l - p) fun more r = (want (eqAt (s, p, r) orelse r = "") "wrong data"; p + size r) in
  cnt := !cnt + 1;
  case opr of
    Ch => ((let val c = input_char is in want (left > 0 andalso c = String.sub (s, p)) "char"; p + 1 end) handle Size => (want (left = 0) "Size"; p))
  | Int4 => ((let val i = input_binary_int is in want (left >= 4 andalso i = rd (s, p)) "int"; p + 4 end) handle Size => (want (left < 4) "Size"; p + left))
  | Buff m => let val a = CharArray.array (m + 4, #"!") val r = buff_input is a 2 m val v = CharArray.vector a in
       want (if left = 0 orelse m = 0 then r = 0 else r > 0 andalso r <= Int.min (m, left)) "count";
       want (String.substring (v, 0, 2) = "!!" andalso List.all (fn c => c = #"!") (explode (String.extract (v, 2 + r, NONE)))) "outside";
       more (String.substring (v, 2, r)) end
  | Really m => let val b = String.map (fn c => c) (CharVector.tabulate (m, fn _ => #"!")) in
       ((fast_really_input is b 0 m; want (left >= m) "success"; more b) handle Fail _ => (want (left < m) "Fail"; p + left)) end
  | Bas m => let val r = input (is, m) in want (size r = Int.min (m, left)) "length"; more r end
  | Line => let val r = input_line is in want (size r = (if left = 0 then 0 else lineEnd (s, p) - p)) "length"; more r end
  | Look => (want (lookahead is = (if left = 0 then "" else str (String.sub (s, p)))) "lookahead"; p)
  | Seek q => (seek_in is q; q)
  | SeekRel d => if p + d < 0 then p else (seek_in is (p + d); p + d)
  | Pos => (want (pos_in is = p) ("pos_in " ^ i2s (pos_in is)); p)
  | Len => (want (in_stream_length is = l) "in_stream_length"; p)
  end
val ops = [Ch, Int4, Buff 3, Buff 4096, Buff 5000, Really 3, Bas 2, Bas 4097, Line, Look, Seek 0, Seek 1, Seek 4095, Seek 4096, Seek 4097, Seek 9000, SeekRel ~1, SeekRel 1, SeekRel ~4096, SeekRel 4096, Pos, Len]
fun run (f, s, p0, os) = if not (mine ()) then () else
  let val is = open_in_bin f fun go p [] = p | go p (x :: r) = go (step s is p x) r in
    hist := !hist + 1;
    ((if p0 = 0 then () else ignore (input (is, p0));
      let val p = go p0 os in want (pos_in is = p) "final position"; want (input (is, 20000) = (if p >= size s then "" else String.extract (s, p, NONE))) "rest" end)
     handle Bad e => bad ("Nonstdio input, file of " ^ i2s (size s) ^ " at " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\t" ^ e)
          | e => bad ("Nonstdio input, file of " ^ i2s (size s) ^ " at " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\traised " ^ exnName e));
    close_in is
  end
val _ = List.app (fn l =>
  let val s = content (true, l) val f = DIR ^ "/s" ^ i2s k ^ "_" ^ i2s l val os = open_out_bin f val _ = output (os, s) val _ = close_out os in
    List.app (fn p0 => if p0 > l then () else seqs (if l > 4000 then hi else lo) ops (fn os => run (f, s, p0, os))) [0, 4094, 4096, 4097]
  end) [0, 1, 4, 4096, 4098, 8195]
val _ = print ("COUNT ops " ^ i2s (!cnt) ^ "\nCOUNT hist " ^ i2s (!hist) ^ "\nDONE\n")
'''

OUTPUT = COMMON + r'''
(* the model: the bytes of the file and the position *)
datatype opn = Str of int | Ch | Byte of int | Int4 of int | Buff of int | Flush | Seek of int | SeekEnd | Pos
fun name (Str m) = "output " ^ i2s m | name Ch = "output_char" | name (Byte b) = "output_byte " ^ i2s b | name (Int4 v) = "output_binary_int " ^ i2s v | name (Buff m) = "buff_output " ^ i2s m
  | name Flush = "flush_out" | name (Seek q) = "seek_out " ^ i2s q | name SeekEnd = "seek_out end" | name Pos = "pos_out"
exception Bad of string
fun want b s = if b then () else raise Bad s
open BasicIO Nonstdio
val src = content (false, 9000)
val model = CharArray.array (30000, #"\000") val mlen = ref 0 and mpos = ref 0
fun put "" = () | put s = (CharArray.copyVec {src = s, dst = model, di = !mpos}; mpos := !mpos + size s; if !mpos > !mlen then mlen := !mpos else ())
fun reset () = let fun h i = if i >= !mlen then () else (CharArray.update (model, i, #"\000"); h (i+1)) in h 0; mlen := 0; mpos := 0 end
fun b i = str (Char.chr (i mod 256))
fun step os opr = (cnt := !cnt + 1; case opr of
    Str m => let val s = String.substring (src, (!cnt * 13) mod 500 mod (9001 - m), m) in output (os, s); put s end
  | Ch => (output_char os #"#"; put "#")
  | Byte v => (output_byte os v; put (b v))
  | Int4 v => (output_binary_int os v; let val u = if v < 0 then v + 4294967296 else v in put (b (u div 16777216) ^ b (u div 65536) ^ b (u div 256) ^ b u) end)
  | Buff m => let val a = CharArray.tabulate (m + 3, fn i => Char.chr (i mod 251)) in buff_output os a 2 m; put (String.substring (CharArray.vector a, 2, m)) end
  | Flush => flush_out os
  | Seek q => (seek_out os q; mpos := q)
  | SeekEnd => (seek_out os (!mlen); mpos := !mlen)
  | Pos => want (pos_out os = !mpos) ("pos_out " ^ i2s (pos_out os) ^ " expected " ^ i2s (!mpos)))
val ops = [Str 0, Str 1, Str 5, Str 4095, Str 4096, Str 4097, Str 8500, Ch, Byte 511, Int4 ~2, Int4 16909060, Buff 3, Buff 4096, Flush, Seek 0, Seek 1, Seek 4096, SeekEnd, Pos]
val f = DIR ^ "/o" ^ i2s k
fun run (p0, os) = if not (mine ()) then () else
  let val st = open_out_bin f in
    hist := !hist + 1; reset ();
    ((if p0 = 0 then () else step st (Str p0); List.app (step st) os; want (pos_out st = !mpos) "final position"; close_out st;
      let val is = open_in_bin f val r = input (is, 40000) in close_in is; want (size r = !mlen) ("file size " ^ i2s (size r) ^ " expected " ^ i2s (!mlen));
        want (CharVector.all (fn _ => true) r andalso let fun h i = i >= !mlen orelse (String.sub (r, i) = CharArray.sub (model, i) andalso h (i+1)) in h 0 end) "contents" end)
     handle Bad e => bad ("Nonstdio output after " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\t" ^ e)
          | e => bad ("Nonstdio output after " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map name os) ^ "\traised " ^ exnName e));
    close_out st
  end
val _ = List.app (fn p0 => seqs hi ops (fn os => run (p0, os))) [0, 1, 4094, 4095, 4096]
(* TextIO and BinIO output *)
datatype top = TStr of int | TCh | TSub of int * int | TFlush
fun tname (TStr m) = "output " ^ i2s m | tname TCh = "output1" | tname (TSub (i, m)) = "outputSubstr " ^ i2s i ^ "+" ^ i2s m | tname TFlush = "flushOut"
val tops = [TStr 0, TStr 1, TStr 70, TStr 4095, TStr 4096, TStr 4097, TStr 8500, TCh, TSub (3, 5), TSub (1, 4096), TSub (7, 0), TFlush]
fun tstep st (TStr m) = let val s = String.substring (src, (!cnt * 7) mod 400, m) in TextIO.output (st, s); put s end
  | tstep st TCh = (TextIO.output1 (st, #"\n"); put "\n")
  | tstep st (TSub (i, m)) = (TextIO.outputSubstr (st, Substring.substring (src, i, m)); put (String.substring (src, i, m)))
  | tstep st TFlush = (TextIO.flushOut st; let val is = TextIO.openIn f val s = TextIO.inputAll is in TextIO.closeIn is; want (size s = !mlen) "not all there after flushOut" end)
fun bstep st (TStr m) = let val s = String.substring (src, (!cnt * 7) mod 400, m) in BinIO.output (st, Byte.stringToBytes s); put s end
  | bstep st TCh = (BinIO.output1 (st, Word8.fromInt 10); put "\n")
  | bstep st (TSub (i, m)) = (BinIO.output (st, Word8Vector.tabulate (m, fn j => Word8.fromInt (Char.ord (String.sub (src, i + j))))); put (String.substring (src, i, m)))
  | bstep st TFlush = BinIO.flushOut st
fun trun (nm, app', p0, os) = if not (mine ()) then () else
  (hist := !hist + 1; reset ();
   ((let val st = TextIO.openOut f in TextIO.output (st, String.substring (src, 0, p0)); put (String.substring (src, 0, p0)); 
       if app' then TextIO.closeOut st else ();
       (if nm = "BinIO" then let val st' = (if app' then BinIO.openAppend f else (TextIO.closeOut st; BinIO.openAppend f)) in List.app (fn x => (cnt := !cnt + 1; bstep st' x)) os; BinIO.closeOut st' end
        else let val st' = if app' then TextIO.openAppend f else st in List.app (fn x => (cnt := !cnt + 1; tstep st' x)) os; TextIO.closeOut st'; 
               (TextIO.output (st', "x"); raise Bad "output on a closed stream") handle Io _ => () end) end;
     let val is = TextIO.openIn f val r = TextIO.inputAll is in TextIO.closeIn is; want (size r = !mlen) ("file size " ^ i2s (size r) ^ " expected " ^ i2s (!mlen));
        want (let fun h i = i >= !mlen orelse (String.sub (r, i) = CharArray.sub (model, i) andalso h (i+1)) in h 0 end) "contents" end)
    handle Bad e => bad (nm ^ (if app' then " append" else "") ^ " output after " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map tname os) ^ "\t" ^ e)
         | e => bad (nm ^ (if app' then " append" else "") ^ " output after " ^ i2s p0 ^ ": " ^ String.concatWith ", " (map tname os) ^ "\traised " ^ exnName e)))
val _ = List.app (fn p0 => seqs hi tops (fn os => (trun ("TextIO", false, p0, os); trun ("TextIO", true, p0, os); trun ("BinIO", true, p0, os)))) [0, 1, 4095, 4096]
val _ = print ("COUNT ops " ^ i2s (!cnt) ^ "\nCOUNT hist " ^ i2s (!hist) ^ "\nDONE\n")
'''

# several streams: slots 0,1 read files R0,R1; slots 2,3 write W2,W3
MULTI = COMMON.replace("[K, N, DIR, LO, HI]", "(K :: N :: DIR :: LO :: HI :: REP :: WHEN :: _)") + r'''
datatype opn = Open of int | Use of int | Close of int
fun name (Open i) = "open " ^ i2s i | name (Use i) = "use " ^ i2s i | name (Close i) = "close " ^ i2s i
val rep = TextIO.openOut REP
fun bad key = if !bads > 20 then () else (bads := !bads + 1; TextIO.output (rep, "MISMATCH " ^ key ^ "\n"))
exception Bad of string
fun want b s = if b then () else raise Bad s
val d = DIR ^ "/m" ^ i2s k ^ "_"
fun text i = CharVector.tabulate (5000, fn j => Char.chr (48 + (j * (i + 3)) mod 75))
val _ = List.app (fn i => let val os = TextIO.openOut (d ^ i2s i) in TextIO.output (os, text i); TextIO.closeOut os end) [0, 1]
val insS : TextIO.instream option vector ref = ref #[NONE, NONE]
val ins = Array.array (2, NONE : (TextIO.instream * int ref) option)
val outs = Array.array (4, NONE : TextIO.outstream option)
val exps = Array.array (4, NONE : string option)
fun step (Open i) = if i < 2 then (case Array.sub (ins, i) of NONE => Array.update (ins, i, SOME (TextIO.openIn (d ^ i2s i), ref 0)) | _ => ())
                    else (case Array.sub (outs, i) of NONE => (Array.update (outs, i, SOME (TextIO.openOut (d ^ i2s i))); Array.update (exps, i, SOME "")) | _ => ())
  | step (Use i) = if i < 2 then (case Array.sub (ins, i) of NONE => () | SOME (is, p) => let val r = TextIO.inputN (is, 3) in want (r = String.substring (text i, !p, 3)) "read"; p := !p + 3 end)
                   else (case Array.sub (outs, i) of NONE => () | SOME os => (TextIO.output (os, "<" ^ i2s i ^ i2s (!cnt mod 10) ^ ">"); Array.update (exps, i, SOME (valOf (Array.sub (exps, i)) ^ "<" ^ i2s i ^ i2s (!cnt mod 10) ^ ">"))))
  | step (Close i) = if i < 2 then (case Array.sub (ins, i) of NONE => () | SOME (is, _) => (TextIO.closeIn is; Array.update (ins, i, NONE)))
                     else (case Array.sub (outs, i) of NONE => () | SOME os => (TextIO.closeOut os; Array.update (outs, i, NONE);
                        let val is = TextIO.openIn (d ^ i2s i) val s = TextIO.inputAll is in TextIO.closeIn is; want (s = valOf (Array.sub (exps, i))) ("file is " ^ s ^ " after close") end))
val ops = List.concat (map (fn i => [Open i, Use i, Close i]) [0, 1, 2, 3])
fun run os = if not (mine ()) then () else
  (hist := !hist + 1;
   (List.app (fn x => (cnt := !cnt + 1; step x)) os; List.app (fn i => step (Use i)) [0,1,2,3]; List.app (fn i => step (Close i)) [0,1,2,3])
   handle Bad e => bad ("several streams (" ^ WHEN ^ "): " ^ String.concatWith ", " (map name os) ^ "\t" ^ e)
        | e => bad ("several streams (" ^ WHEN ^ "): " ^ String.concatWith ", " (map name os) ^ "\traised " ^ exnName e);
   List.app (fn i => (step (Close i) handle _ => (if i < 2 then Array.update (ins, i, NONE) else Array.update (outs, i, NONE)))) [0,1,2,3])
fun report s = (TextIO.output (rep, s); TextIO.flushOut rep)
val _ = if WHEN = "closeIn stdIn" then (ignore (TextIO.inputN (TextIO.stdIn, 3)); TextIO.closeIn TextIO.stdIn) else ()
val _ = seqs hi ops run
val _ = if WHEN = "closeIn stdIn" then (if TextIO.inputAll TextIO.stdIn = "" then () else bad "stdIn after closeIn") else ()
val _ = if WHEN = "closeIn BasicIO.std_in" then (BasicIO.close_in BasicIO.std_in; seqs 2 ops run) else ()
val _ = report ("COUNT ops " ^ i2s (!cnt) ^ "\nCOUNT hist " ^ i2s (!hist) ^ "\nDONE\n")
'''

COPY = r'''
val mode :: inf :: outf :: _ = CommandLine.arguments ()
open BasicIO Nonstdio
fun loop f = if f () then loop f else ()
fun say s = TextIO.output (TextIO.stdErr, s ^ "\n")
fun text (i, out, fin) = case mode of
    "char" => (loop (fn () => case TextIO.input1 i of NONE => false | SOME c => (TextIO.output1 (out, c); true)); fin ())
  | "line" => (loop (fn () => case TextIO.inputLine i of NONE => false | SOME c => (TextIO.output (out, c); true)); fin ())
  | "block" => (loop (fn () => case TextIO.input i of "" => false | c => (TextIO.output (out, c); true)); fin ())
  | "n" => (loop (fn () => case TextIO.inputN (i, 5000) of "" => false | c => (TextIO.output (out, c); true)); fin ())
  | "look" => (loop (fn () => case TextIO.lookahead i of NONE => false | SOME c => (if TextIO.input1 i = SOME c then TextIO.output1 (out, c) else say "LOOK"; true)); fin ())
  | "flush" => (loop (fn () => case TextIO.input i of "" => false | c => (TextIO.output (out, c); TextIO.flushOut out; true)); fin ())
  | "noblock" => (loop (fn () => case TextIO.inputNoBlock i of SOME "" => false | NONE => true | SOME c => (TextIO.output (out, c); true)); fin ())
  | _ => (TextIO.output (out, TextIO.inputAll i); fin ())
fun bin (i, out) = case mode of
    "buff" => let val a = CharArray.array (4500, #"!") in loop (fn () => case buff_input i a 1 4400 of 0 => false | r => (buff_output out a 1 r; true)); close_out out end
  | "int4" => (loop (fn () => (output_binary_int out (input_binary_int i); true) handle Size => false); close_out out)
  | "really" => let val b = CharVector.tabulate (900, fn _ => #"!") in loop (fn () => (fast_really_input i b 0 900; output (out, b); true) handle Fail _ => false); close_out out end
  | "bline" => (loop (fn () => case input_line i of "" => false | s => (output (out, s); true)); close_out out)
  | _ => (* value: the input file holds a list of strings written by output_value *)
      let val v : (int * string list) = input_value i in output_value out v; close_out out end
val _ = (if List.exists (fn m => m = mode) ["buff", "int4", "really", "bline", "value"] then bin (open_in_bin inf, open_out_bin outf)
  else let val out = if outf = "-" then TextIO.stdOut else TextIO.openOut outf in text (if inf = "-" then TextIO.stdIn else TextIO.openIn inf, out, fn () => if outf = "-" then () else TextIO.closeOut out) end; say "OK")
  handle Io {cause = SysErr _, ...} => (say "Io"; BasicIO.exit 3) | SysErr _ => (say "SysErr"; BasicIO.exit 3)
'''


def main():
    c = Check("R03")
    th = c.thorough
    tot = {}

    def add(d):
        for k, v in d.items():
            tot[k] = tot.get(k, 0) + v
    data = c.dir("data")
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "io", "shim.c")
    r = run(["gcc", "-O1", "-shared", "-fPIC", "-o", f"{c.work}/shim.so", src, "-ldl"])
    if r.rc:
        log("cannot build the interposition library: " + r.err)
        sys.exit(2)
    exes = dict(zip(("input", "seek", "output", "multi", "copy"), pmap(lambda x: c.compile(*x), [("input", INPUT), ("seek", SEEK), ("output", OUTPUT), ("multi", MULTI), ("copy", COPY)])))
    lo, hi = (4, 3) if th else (3, 2)
    add(c.take(c.shards(exes["input"], extra=(data, lo, hi), timeout=800)))
    add(c.take(c.shards(exes["seek"], extra=(data, lo, hi), timeout=800)))
    add(c.take(c.shards(exes["output"], extra=(data, 0, 3), timeout=800)))

    # several streams, with the standard descriptors in various states
    depth = 5 if th else 4
    whens = [("all open", ""), ("closeIn stdIn", ""), ("closeIn BasicIO.std_in", ""), ("fd 0 closed", "<&-"), ("fd 1 closed", ">&-"), ("fd 2 closed", "2>&-"), ("all closed", "<&- >&- 2>&-")]

    def multi(it):
        (when, redir), k = it
        d = c.dir(f"m{whens.index((when, redir))}_{k}")
        rep = f"{d}/report"
        r = run(f"printf 'some input\\n' | {c.inst.camlrunm} {exes['multi']} {k} {NCPU} {d} 0 {depth} {rep} '{when}' {redir}", cwd=d, env=c.env, timeout=600)
        t = open(rep, encoding="latin-1").read() if os.path.exists(rep) else ""
        if "DONE" not in t:
            c.fail(f"several streams ({when}): died", f"status {r.rc} {r.err[-300:]} report {t[-300:]}")
        return Res(0, t, "", False, [])
    if exes["multi"]:
        add(c.take(pmap(multi, [(w, k) for w in whens for k in range(NCPU)])))

    # outcome sequences
    n = 0
    body = bytes(10 if i % 61 == 60 else (i * 7 + i // 250) % 256 if (i * 7 + i // 250) % 256 != 10 else 11 for i in range(9000))
    body = body[:-1] + b"\n"
    c.write(f"{data}/in", body)
    mk = c.compile("mkval", 'val os = Nonstdio.open_out_bin (hd (CommandLine.arguments ()))\nval v = (17, List.tabulate (150, fn i => CharVector.tabulate (i, fn j => Char.chr ((i * j) mod 256))))\nval _ = (Nonstdio.output_value os v; BasicIO.close_out os)\nval _ = print "DONE\\n"\n')
    c.harness(mk, [f"{data}/val"])
    val = open(f"{data}/val", "rb").read() if os.path.exists(f"{data}/val") else b""
    # the smallest environment starts fastest; the runtime loads in a few ms
    jobs = []
    modes = ["char", "line", "block", "n", "look", "flush", "noblock", "all", "buff", "int4", "really", "bline", "value"]
    D = 5 if th else 4
    for m in modes:
        for r_ in itertools.product("F1HMI", repeat=D if m in ("char", "n", "all", "look", "buff") or th else D - 1):
            if r_[-1] != "F":
                jobs.append((m, "".join(r_), ""))
        for w_ in itertools.product("F1HMI", repeat=D - 1):
            if w_[-1] != "F":
                jobs.append((m, "", "".join(w_)))
        for r_ in itertools.product("F1HI", repeat=2):
            for w_ in itertools.product("F1HI", repeat=2):
                jobs.append((m, "".join(r_), "".join(w_)))
        for e in ("1", "h", "m", "I1", "IIIH", "1I1I1I1I", "HIM1"):
            jobs.append((m, e, ""))
            jobs.append((m, "", e))
            jobs.append((m, e, e))
        for k in range(0, 4):
            for pre in itertools.product("F1H", repeat=k):
                jobs.append((m, "".join(pre) + "E", ""))
                jobs.append((m, "", "".join(pre) + "E"))
                jobs.append((m, "".join(pre) + "e", ""))
                jobs.append((m, "", "".join(pre) + "e"))
        if m == "noblock":
            for r_ in itertools.product("F1A", repeat=D):
                jobs.append((m, "".join(r_), ""))
    jobs = list(dict.fromkeys(jobs))
    std = {"char", "line", "block", "n", "look", "flush", "noblock", "all"}
    full = []
    for j in jobs:
        full.append(j + ("file",))
        if j[0] in std and (th or j[0] in ("char", "n", "all", "look", "flush") and sum(map(len, j[1:])) <= 4):
            full.append(j + ("std",))

    def one(it):
        i, (m, r_, w_, kind) = it
        d = f"{c.work}/x{i % 64}_{i}"
        os.makedirs(d)
        inf = f"{data}/val" if m == "value" else f"{data}/in"
        want = val if m == "value" else body
        out = f"{d}/out"
        env = dict(c.env, LD_PRELOAD=f"{c.work}/shim.so", SHIM_R=r_, SHIM_W=w_)
        if kind == "file":
            env.update(SHIM_IN=inf, SHIM_OUT=out)
            r = run([c.inst.camlrunm, exes["copy"], m, inf, out], env=env, timeout=60)
        else:
            env.update(SHIM_IN="0", SHIM_OUT="1")
            r = run(f"cat {inf} | {c.inst.camlrunm} {exes['copy']} {m} - - >{out}", env=dict(env, LD_PRELOAD=""), timeout=60) if False else \
                run(f"LD_PRELOAD={c.work}/shim.so {c.inst.camlrunm} {exes['copy']} {m} - - <{inf} >{out}", env={k: v for k, v in env.items() if k != "LD_PRELOAD"}, timeout=60)
        got = open(out, "rb").read() if os.path.exists(out) else b""
        shutil.rmtree(d, ignore_errors=True)
        key = f"copy {m} ({kind}), reads {r_ or 'whole'}, writes {w_ or 'whole'}"
        if r.died or r.rc not in (0, 2, 3):
            c.fail(key, f"status {r.rc}, timed out {r.timed_out}: {r.err[-300:]}")
            return
        ok = r.rc == 0 and r.err == "OK\n"
        errs = "e" in (r_ + w_).lower()
        if ok:
            if got != want:
                k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                c.fail(key, f"the copy has {len(got)} bytes of {len(want)}, first difference at {k}; every operation succeeded")
        elif not errs:
            c.fail(key, f"reported an error, status {r.rc}: {r.err[-300:]}")
        elif kind == "file" and got != want[:len(got)]:
            c.fail(key, f"after a reported error the file is not a prefix of what was written ({len(got)} bytes)")
        elif "SysErr" not in r.err and "Io" not in r.err:
            c.fail(key, f"the error is not reported: status {r.rc}: {r.err[-300:]}")
    if exes["copy"]:
        pmap(one, list(enumerate(full)))
        n += len(full)

    # the compiler and the linker under split transfers produce the same files
    d = c.dir("cc")
    prog = "structure S = struct\n" + "\n".join(f'fun f{i} x = if x < {i} then "{"s" * (i % 40)}" else f{max(0, i - 1)} (x - 1) ^ Int.toString {i * 1000003}' if i else "fun f0 x = \"z\"" for i in range(160)) + "\nend\nval _ = print (S.f159 159)\n"
    c.write(f"{d}/prog.sml", prog)

    def cc(it):
        i, (r_, w_, what) = it
        b = f"{d}/b{i}"
        os.makedirs(b)
        shutil.copy(f"{d}/prog.sml", b)
        e = f"LD_PRELOAD={c.work}/shim.so SHIM_R={r_} SHIM_W={w_}"
        tin, tout = {"source": ("prog.sml", "prog.uo"), "interface": ("prog.ui", "prog.ui"), "link": ("prog.uo", "prog.exe")}[what]
        e += f" SHIM_IN={b}/{tin} SHIM_OUT={b}/{tout}"
        r = run((f"{e} mosmlc -c -toplevel prog.sml && mosmlc prog.uo -o prog.exe" if what != "link" else f"mosmlc -c -toplevel prog.sml && {e} mosmlc prog.uo -o prog.exe") + " 2>&1", cwd=b, env=c.env, timeout=100)
        res = tuple(open(f"{b}/{f}", "rb").read() if os.path.exists(f"{b}/{f}") else b"" for f in ("prog.uo", "prog.ui", "prog.exe"))
        shutil.rmtree(b, ignore_errors=True)
        return r.rc, res
    scheds = [s for l in (1, 2) for s in map("".join, itertools.product("1HMI", repeat=l))] + ["1", "h", "m", "I1", "IIh"]
    cjobs = [("", "", "source")] + [(s if q != "w" else "", s if q != "r" else "", w) for s in dict.fromkeys(scheds) for q in "rw" for w in ("source", "interface", "link")]
    if not th:
        cjobs = cjobs[:1] + cjobs[1::2]
    res = pmap(cc, list(enumerate(cjobs)))
    for j, r in zip(cjobs, res):
        if r != res[0]:
            c.fail(f"mosmlc with reads {j[0] or 'whole'}, writes {j[1] or 'whole'} of the {j[2]} file", f"status {r[0]}; result files differ from those of an undisturbed run: {[a == b for a, b in zip(r[1], res[0][1])]}")
    n += len(cjobs)

    # a program whose standard output cannot be written must end, with an error
    fl = c.compile("fullout", 'val _ = TextIO.output (TextIO.stdOut, CharVector.tabulate (valOf (Int.fromString (hd (CommandLine.arguments ()))), fn _ => #"x"))\n')
    fl2 = c.compile("fullout2", 'val _ = print (CharVector.tabulate (valOf (Int.fromString (hd (CommandLine.arguments ()))), fn _ => #"x")) handle SysErr _ => () | Io _ => ()\n')
    fl3 = c.compile("fullout3", 'val _ = TextIO.output (TextIO.stdOut, CharVector.tabulate (valOf (Int.fromString (hd (CommandLine.arguments ()))), fn _ => #"x"))\nval _ = OS.Process.exit OS.Process.success\n')
    for nm, ex in (("at the end", fl), ("handled, and again at the end", fl2), ("at exit", fl3)):
        for size in (1, 4095, 4096, 4097, 9000):
            for w_ in ("e", "1e", "hhe", "1E"):
                if ex is None:
                    continue
                n += 1
                r = run([c.inst.camlrunm, ex, str(size)], env=dict(c.env, LD_PRELOAD=f"{c.work}/shim.so", SHIM_OUT="1", SHIM_W=w_), timeout=30, mem=2000000)
                if r.died or r.rc not in ((2,) if w_ != "1E" else (0, 2)) and not (nm.startswith("handled") or size == 1 and w_ != "e"):
                    c.fail(f"standard output fails {nm}, {size} characters, writes {w_}", f"status {r.rc}, timed out {r.timed_out}, {r.err[-200:]}")
    c.sample("Nonstdio output after 4095: output 5, seek_out 1, output_char, ... -> model bytes")
    c.sample("copy char, reads 1HIM, writes whole")
    c.finish({"states": tot.get("hist", 0), "transitions": tot.get("ops", 0) + n, "traces_validated_against_impl": tot.get("hist", 0) + n, "exhaustive": True, "outcome_sequences": n,
              "bound": f"all histories of {hi} operations on long files ({lo} on short ones); all outcome sequences of the first {D} reads / {D - 1} writes over whole, 1, half, all but one, EINTR; one error after any 3"},
             ["after a reported error nothing is promised about what a retry of the same operation writes"])


main()
