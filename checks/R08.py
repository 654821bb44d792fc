#!/usr/bin/env python3
"""R08: ML and C exchange values, calls and exceptions faithfully (Dynlib, Callback).

1. Values: all types up to two levels over seven leaf types, boundary values: what C sees, and what C makes.
2. Registry: all sequences of registrations, removals, lookups and calls from both sides up to a depth, against a model.
3. Calls: all nestings up to four of ML and C frames (five kinds of call), with an exception raised at the bottom and handled at
   every level, with stack growth inside; every frame's values must survive.
4. Handles: all sequences of opening, binding, calling and closing two handles of a library, against a model.
5. Finalised blocks: each is finalised once, after it became unreachable.
Everything also with a collection at every allocation."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "ffi")

HEAD = r'''
val i2s = Int.toString
fun num s = valOf (Int.fromString s)
val bads = ref 0 val cnt = ref 0
fun bad key det = if !bads > 25 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\t" ^ det ^ "\n"))
fun exn e = case e of Fail s => "Fail " ^ s | _ => exnName e
open Dynlib
val L = dlopen {lib = "libffi.so", flag = RTLD_LAZY, global = false}
val sy = dlsym L
'''

TYPES = r'''
datatype t = Br of int * t * t | Brs of t list | Lf
datatype zoo = Zeta | alpha of int | Beta of string * real | gam_ma of char * int * unit | delta | Gamma of bool | Alpha of int list
datatype one = Only of int * string
datatype 'a poly = Two of 'a * 'a | None | Rec of 'a poly * 'a
'''

# a value: (SML text, type code, what C shows, program that makes it, SML type, equality)
def leaf():
    o = {}
    o["int"] = [(smlint(n), "i", str(n), f"i{n};") for n in (0, 1, -1, 255, -256, 65536, 2 ** 31, -2 ** 31 - 1, 2 ** 62 - 1, -2 ** 62)]
    o["word"] = [("0wx%x" % n, "w", "w%x" % n, f"i{n if n < 2 ** 62 else n - 2 ** 63};") for n in (0, 1, 2 ** 31, 2 ** 62, 2 ** 63 - 1)]
    o["char"] = [('#"\\%03d"' % n, "c", f"c{n}", f"c{n};") for n in (0, 65, 127, 128, 255)]
    o["real"] = [(t, "r", v, f"d{v};") for t, v in (("0.0", "0x0p+0"), ("1.5", "0x1.8p+0"), ("~2.25", "-0x1.2p+1"), ("4294967297.0", "0x1.00000001p+32"), ("0.0009765625", "0x1p-10"))]
    o["string"] = [('"%s"' % "".join("\\%03d" % b for b in s), "s", f"s{len(s)}:{s.hex()}", f"s{s.hex()};") for s in (b"", b"a", b"abcdefg", b"abcdefgh", b"x\0y", b"\xff\0", b"fifteen letters", b"sixteen letters.")]
    o["bool"] = [("true", "b", "true", "A1;"), ("false", "b", "false", "A0;")]
    o["unit"] = [("()", "u", "()", "A0;")]
    return o


def con(k, codes, args):
    """constructor k of the datatype whose constructors have the types codes"""
    return "<" + "".join(f"[{x}]" for x in codes) + ">", "#%d{%s}" % (k, ",".join(a[2] for a in args)), ("".join(a[3] for a in args) + f"B{k},{len(args)};") if args else f"A{k};"


def tup(args):
    return "(" + "".join(a[1] for a in args) + ")", "(" + ",".join(a[2] for a in args) + ")", "".join(a[3] for a in args) + f"T{len(args)};"


def values(thorough):
    lv = leaf()
    out = [v + (t,) for t, vs in lv.items() for v in vs]
    few = [(vs[-1] + (t,)) for t, vs in lv.items()] + [(vs[0] + (t,)) for t, vs in lv.items() if t != "unit"]

    def level(xs):
        for a in xs:
            yield (f"[{a[0]}]", "L" + a[1], f"[{a[2]}]", f"{a[3]}N;K;", f"({a[4]}) list")
            yield (f"ref ({a[0]})", "R" + a[1], "ref " + a[2], f"{a[3]}R;", f"({a[4]}) ref")
            c = con(1, ["", a[1]], [a])
            yield (f"SOME ({a[0]})", *c, f"({a[4]}) option")
            c = con(0, ["", a[1]], [])
            yield ("NONE", *c, f"({a[4]}) option")
            yield ("nil", "L" + a[1], "[]", "N;", f"({a[4]}) list")
            for b in xs:
                yield (f"({a[0]}, {b[0]})", *tup([a, b]), f"({a[4]}) * ({b[4]})")
                yield (f"{{zip = {a[0]}, age = {b[0]}}}", *tup([b, a]), f"{{zip : {a[4]}, age : {b[4]}}}")
                if a[1] == b[1]:
                    yield (f"[{a[0]}, {b[0]}, {a[0]}]", "L" + a[1], f"[{a[2]},{b[2]},{a[2]}]", f"{a[3]}{b[3]}{a[3]}N;K;K;K;", f"({a[4]}) list")
                    pc = ["", None, a[1] * 2]
                    if a[4] != "x":
                        yield (f"Two ({a[0]}, {b[0]})", *con(2, ["", "u" + a[1], a[1] * 2], [a, b]), f"({a[4]}) poly")
    l1 = list(level(few))
    out += l1
    for a, b, d in itertools.product(few, repeat=3):
        out.append((f"({a[0]}, {b[0]}, {d[0]})", *tup([a, b, d]), f"({a[4]}) * ({b[4]}) * ({d[4]})"))
        if thorough:
            out.append((f"{{b = {a[0]}, B = {b[0]}, a1 = {d[0]}}}", *tup([b, d, a]), f"{{b : {a[4]}, B : {b[4]}, a1 : {d[4]}}}"))
    step = 1 if thorough else 3
    out += list(level(l1[::29 if not thorough else 7]))
    # tuples wider than nine, numeric labels in numeric order
    for n in (4, 5, 9, 10, 11, 12, 30, 255, 256, 257):
        vs = [few[i % len(few)] for i in range(n)]
        out.append(("(" + ", ".join(v[0] for v in vs) + ")", *tup(vs), " * ".join(f"({v[4]})" for v in vs)))
    I = lambda n: (smlint(n), "i", str(n), f"i{n};")
    # the documented tree
    T = "<[itt][Lt][]>"

    def tree(d, k):
        if d == 0:
            return ("Lf", "#2{}", "A2;")
        if k % 3 == 2:
            xs = [tree(d - 1, k + j) for j in range(k % 4)]
            return ("Brs [" + ", ".join(x[0] for x in xs) + "]", "#1{[" + ",".join(x[1] for x in xs) + "]}", "".join(x[2] for x in xs) + "N;" + "K;" * len(xs) + "B1,1;")
        a, b = tree(d - 1, k + 1), tree(d - 1, k + 2)
        return (f"Br ({k}, {a[0]}, {b[0]})", f"#0{{{k},{a[1]},{b[1]}}}", f"i{k};{a[2]}{b[2]}B0,3;")
    for d in range(4):
        for k in range(12):
            s, sh, mk = tree(d, k)
            if d == 0 and k:
                continue
            out.append((s, "T" * 0 + "t", sh, mk, "t"))
    # constructors are numbered in the order of their names
    Z = "<[Li][sr][b][][i][][ciu]>"      # Alpha Beta Gamma Zeta alpha delta gam_ma
    for s, sh, mk in (("Zeta", "#3{}", "A3;"), ("delta", "#5{}", "A5;"), ("alpha 7", "#4{7}", "i7;B4,1;"), ("alpha ~9", "#4{-9}", "i-9;B4,1;"), ('Beta ("hi", 1.5)', "#1{s2:6869,0x1.8p+0}", "s6869;d1.5;B1,2;"),
                      ('gam_ma (#"z", 12, ())', "#6{c122,12,()}", "c122;i12;A0;B6,3;"), ("Gamma true", "#2{true}", "A1;B2,1;"), ("Gamma false", "#2{false}", "A0;B2,1;"), ("Alpha [1,2]", "#0{[1,2]}", "i1;i2;N;K;K;B0,1;"), ("Alpha []", "#0{[]}", "N;B0,1;")):
        out.append((s, Z, sh, mk, "zoo"))
    for s, sh, mk in (('Only (3, "x")', "#0{3,s1:78}", "i3;s78;B0,2;"),):
        out.append((s, "<[is]>", sh, mk, "one"))
    for k, s in enumerate(("EQUAL", "GREATER", "LESS")):
        out.append((s, "<[][][]>", f"#{k}{{}}", f"A{k};", "order"))
    return out


REG = HEAD + r'''
val reset : unit -> unit = app1 (sy "ffi_reset")
val lookup : int -> string -> int = app2 (sy "ffi_lookup")
fun get (i : int) = app1 (sy "ffi_get") i
val cp1 : int -> int -> int = app2 (sy "ffi_cp1")
val cp2 : int -> int -> int -> int = app3 (sy "ffi_cp2")
val cp3 : int -> int -> int -> int -> int = app4 (sy "ffi_cp3")
val reg : string -> (int -> int -> int -> int) -> unit = app2 (sy "ffi_reg")
val reg1 : string -> (int -> int) -> unit = app2 (sy "ffi_reg")
val unreg : string -> unit = app1 (sy "ffi_unreg")
val [K, N, DEPTH] = CommandLine.arguments ()
val (k, n, depth) = (num K, num N, num DEPTH)
exception Bad of string
datatype st = Never | Reg of int | Un
datatype sl = Null | To of int
val names = ["register A", "register B", "registervalue A", "registervalue B", "unregister A", "unregister B", "unregistervalue A", "unregistervalue B",
  "get_valueptr A", "get_valueptr B", "get_value", "callbackptr", "callbackptr 2", "callbackptr 3", "isRegistered"]
val OPS = length names
val serial = ref 0
fun run ops = let
  val _ = (reset (); serial := !serial + 1)
  val nm = Vector.fromList [K ^ "A" ^ i2s (!serial), K ^ "B" ^ i2s (!serial)]
  val st = Array.array (2, Never) val sl = ref Null val fresh = ref 0
  fun name i = Vector.sub (nm, i)
  fun fails f = ((f (); false) handle Fail _ => true)
  fun need what b = if b then () else raise Bad what
  (* the function registered as c: one, two or three arguments, a closure made now *)
  fun mk c = fn x => fn y => fn z => c * 1000 + x * 100 + y * 10 + z
  fun mk1 c = fn x => c * 1000 + x
  val arity = Array.array (2, 1)
  fun doReg f i three = (fresh := !fresh + 1; let val c = !fresh in
      case Array.sub (st, i) of Reg _ => need "registering twice did not fail" (fails (fn () => f i c))
       | _ => (f i c; Array.update (st, i, Reg c)) end)
  fun doUn f i = case Array.sub (st, i) of Never => need "removing what never was registered did not fail" (fails (fn () => f i))
       | _ => (f i; Array.update (st, i, Un))
  fun op1 x = case x of
      0 => doReg (fn i => fn c => Callback.register (name i) (mk1 c)) 0 false
    | 1 => doReg (fn i => fn c => Callback.register (name i) (mk c)) 1 true
    | 2 => doReg (fn i => fn c => reg1 (name i) (mk1 c)) 0 false
    | 3 => doReg (fn i => fn c => reg (name i) (mk c)) 1 true
    | 4 => doUn (fn i => Callback.unregister (name i)) 0
    | 5 => doUn (fn i => Callback.unregister (name i)) 1
    | 6 => doUn (fn i => unreg (name i)) 0
    | 7 => doUn (fn i => unreg (name i)) 1
    | 8 => look 0 | 9 => look 1
    | 10 => (case !sl of Null => need "get_value of a null pointer did not fail" (fails (fn () => ignore (get 0 : string)))
        | To i => (case Array.sub (st, i) of Reg c => let val v = if i = 0 then (get 0 : int -> int) 5 else (get 0 : int -> int -> int -> int) 5 6 7 in
                       need ("get_value gave another value: " ^ i2s v) (v = (if i = 0 then c * 1000 + 5 else c * 1000 + 567)) end
             | _ => need "get_value after removal" ((get 0 : string) = "none")))
    | 11 => call 1 | 12 => call 2 | 13 => call 3
    | _ => List.app (fn i => need "isRegistered" (Callback.isRegistered (name i) = (case Array.sub (st, i) of Reg _ => true | _ => false))) [0, 1]
  and look i = let val r = lookup 0 (name i) in case Array.sub (st, i) of
        Reg _ => (need "get_valueptr found nothing" (r = 1); sl := To i) | _ => (need "get_valueptr found something" (r = 0); sl := Null) end
  and call n = let fun go () = case n of 1 => cp1 0 3 | 2 => cp2 0 3 4 | _ => cp3 0 3 4 5 in
      case !sl of Null => need "callbackptr of a null pointer did not fail" (fails (fn () => ignore (go ())))
       | To i => (case Array.sub (st, i) of Reg c => if i = 0 andalso n > 1 orelse i = 1 andalso n < 3 then () else
              let val r = go () in need ("callbackptr gave " ^ i2s r) (r = (if i = 0 then c * 1000 + 3 else c * 1000 + 345)) end
           | _ => need "callbackptr after removal did not fail" (fails (fn () => ignore (go ())))) end
  fun go [] _ = () | go (x :: xs) hist = (cnt := !cnt + 1;
     (op1 x handle Bad m => bad ("registry " ^ String.concatWith ", " (rev (map (fn x => List.nth (names, x)) (x :: hist)))) m
        | e => bad ("registry " ^ String.concatWith ", " (rev (map (fn x => List.nth (names, x)) (x :: hist)))) ("raised " ^ exn e));
     go xs (x :: hist))
  in go ops [] end
fun all 0 acc = run (rev acc) | all d acc = let fun each x = if x = OPS then () else (all (d - 1) (x :: acc); each (x + 1)) in each 0 end
(* a first operation that changes nothing adds nothing: sequences start with a registration *)
val first = List.concat (List.tabulate (4, fn i => List.tabulate (OPS, fn j => [i, j])))
val _ = List.foldl (fn (p, i) => (if i mod n = k then all (depth - 2) (rev p) else (); i + 1)) 0 first
val _ = List.app (fn i => if i = k mod OPS then all 1 [i] else ()) (List.tabulate (OPS, fn i => i))
(* C functions and variables registered by name *)
val _ = (app1 (sy "ffi_regcptrs") : unit -> unit) ()
val a1 : int -> int = Callback.app1 (Callback.getcptr "ffi a1")
val a2 : int -> int -> string = Callback.app2 (Callback.getcptr "ffi a2")
val a3 : int -> int -> int -> string = Callback.app3 (Callback.getcptr "ffi a3")
val a4 : int -> int -> int -> int -> string = Callback.app4 (Callback.getcptr "ffi a4")
val a5 : int -> int -> int -> int -> int -> string = Callback.app5 (Callback.getcptr "ffi a5")
val _ = if (a1 41, a2 1 2, a3 1 2 3, a4 1 2 3 4, a5 1 2 3 4 5, Callback.var (Callback.getcptr "ffi var")) = (42, "1 2", "1 2 3", "1 2 3 4", "1 2 3 4 5", 4711) then () else bad "registered C functions" "wrong result"
val _ = (Callback.getcptr "ffi none"; bad "getcptr of an unregistered name" "did not fail") handle Fail _ => ()
val _ = ((app1 (sy "ffi_regcptr") : string -> unit) "ffi a1"; bad "registercptr twice" "did not fail") handle Fail _ => ()
val _ = (app1 (sy "ffi_regcptr") : string -> unit) "ffi again"
val _ = if (Callback.app1 (Callback.getcptr "ffi again") : int -> int) 1 = 2 then () else bad "registercptr after a failure" "wrong"
val _ = print ("COUNT registry_steps " ^ i2s (!cnt) ^ "\nDONE\n")
'''

NEST = HEAD + r'''
val call0 : int -> (int -> int) -> int -> int = app3 (sy "ffi_call")
val call2 : int -> (int -> int -> int) -> int -> int = app3 (sy "ffi_call")
val call3 : int -> (int -> int -> int -> int) -> int -> int = app3 (sy "ffi_call")
val cfail : string -> int = app1 (sy "ffi_fail")
val craise : exn -> int = app1 (sy "ffi_raise")
val rep : (int -> int) -> int -> int = app2 (sy "ffi_callrep")
val [K, N, DEPTH] = CommandLine.arguments ()
val (k, n, depth) = (num K, num N, num DEPTH)
exception E of string * int
exception Plain
val _ = Callback.register "ffi frame" (fn (f : int -> int) => fn x => f x)
fun spin 0 = 0 | spin m = 1 + spin (m - 1)
(* a frame of kind 0 is an ML call, 1..3 a callback, 4 one through a value pointer.  The bottom raises or returns.
   Level h handles; every level checks its own data afterwards. *)
fun nest (kinds, bottom, h, deep) = let
  fun go [] lvl = (ignore (spin deep); case bottom of 0 => 1000 | 1 => raise E ("bottom", lvl) | 2 => raise Plain | 3 => cfail "from C" | 4 => craise (E ("raised by C", lvl)) | 5 => (hd []) | _ => 1 div (lvl - lvl))
    | go (kd :: kds) lvl = let
        val own = [i2s lvl, "own" ^ i2s (lvl * 7)] val ref r = ref (real lvl / 3.0)
        fun inner x = (if x = lvl + 1 then () else bad "argument" "changed"; go kds (lvl + 1) + 1)
        fun run () = case kd of 0 => inner (lvl + 1)
           | 1 => call0 1 inner (lvl + 1)
           | 2 => call2 2 (fn x => fn y => inner x + y - 2) (lvl + 1)
           | 3 => call3 3 (fn x => fn y => fn z => inner x + y + z - 5) (lvl + 1)
           | _ => call0 4 inner (lvl + 1)
        val res = if h = lvl then (run () handle E (s, l) => (if s = (if bottom = 1 then "bottom" else "raised by C") andalso l = length kinds then 500 else ~5000)
                     | Plain => 501 | Fail s => if s = "from C" then 502 else ~5000 | Empty => 503 | Div => 504) else run ()
        in if own = [i2s lvl, "own" ^ i2s (lvl * 7)] andalso Real.== (r, real lvl / 3.0) then res else ~100000 end
  in go kinds 0 end
fun expect (kinds, bottom, h, deep) = let val d = length kinds in
  if bottom = 0 then SOME (1000 + d) else if h < 0 then NONE else SOME ((case bottom of 1 => 500 | 2 => 501 | 3 => 502 | 4 => 500 | 5 => 503 | _ => 504) + h) end
fun one (c as (kinds, bottom, h, deep)) = (cnt := !cnt + 1; let
   val r = SOME (nest c) handle e => NONE in if r = expect c then () else
     bad ("calls " ^ String.concat (map i2s kinds) ^ " bottom " ^ i2s bottom ^ " handled at " ^ i2s h ^ " depth " ^ i2s deep) ("result " ^ (case r of NONE => "raised" | SOME x => i2s x)) end)
fun lists 0 = [[]] | lists d = List.concat (map (fn l => List.tabulate (5, fn i => i :: l)) (lists (d - 1)))
val all = List.concat (List.tabulate (depth, fn d => lists (d + 1)))
val deeps = if n > 1 then [0, 3000] else [0]
val _ = List.foldl (fn (ks, i) => (if i mod n <> k then () else
     List.app (fn b => List.app (fn h => List.app (fn dp => one (ks, b, h, dp)) deeps) (if b = 0 then [~1] else List.tabulate (length ks + 1, fn h => h - 1))) [0, 1, 2, 3, 4, 5, 6]; i + 1)) 0 all
(* long nests, and a stack that must grow inside *)
val _ = List.app (fn (d, kd) => List.app (fn b => List.app (fn h => List.app (fn dp => one (List.tabulate (d, fn i => if kd < 5 then kd else (i mod 4) + 1), b, h, dp)) [0, 3000, 50000]) [~1, 0, d div 2, d - 1]) [0, 1, 3])
   (if k = 0 andalso n > 1 then [(40, 1), (40, 2), (40, 3), (40, 4), (100, 5)] else [])
(* many callbacks in one call; after thousands of exceptions through C everything still works *)
val _ = if rep (fn i => length [i, i, i] * i) 5000 = 3 * 4999 * 2500 then () else bad "many callbacks" ""
fun many 0 = () | many m = ((ignore (rep (fn i => if i = 3 then raise E ("x", i) else i) 10); bad "exception from a callback" "lost") handle E ("x", 3) => (); many (m - 1))
val _ = many (if n > 1 then 20000 else 300)
val keep = List.tabulate (2000, fn i => i2s i)
val _ = if rep (fn i => size (List.nth (keep, i))) 2000 = List.foldl (fn (s, a) => size s + a) 0 keep then () else bad "after exceptions" "wrong sum"
val _ = print ("COUNT call_nests " ^ i2s (!cnt) ^ "\nDONE\n")
'''

HANDLE = r'''
val i2s = Int.toString
fun num s = valOf (Int.fromString s)
val bads = ref 0 val cnt = ref 0
fun bad key det = if !bads > 25 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\t" ^ det ^ "\n"))
open Dynlib
val [K, N, DEPTH] = CommandLine.arguments ()
val (k, n, depth) = (num K, num N, num DEPTH)
(* two handles h, two symbols s of them; a model of which are open *)
val names = ["open 0", "open 1", "close 0", "close 1", "bind 0", "bind 1", "bind none 0", "call 0", "call 1", "var 0", "var 1"]
val OPS = length names
exception Bad of string
fun run ops = let
  val h = Array.array (2, NONE : (dlHandle * int) option) and s = Array.array (2, NONE : (symHandle * symHandle * int) option)
  val closed = Array.array (1000, false) val serial = ref 0
  fun need what b = if b then () else raise Bad what
  fun op1 x = let val i = x mod 2 in case x of
      0 => opn i | 1 => opn i | 2 => cls i | 3 => cls i
    | 4 => bind x | 5 => bind x
    | 6 => (case Array.sub (h, 0) of NONE => () | SOME (d, id) => ((dlsym d "ffi_no_such"; raise Bad "a symbol that does not exist was bound") handle Fail _ => need "Fail from a closed handle" (not (Array.sub (closed, id)))
                | Closed => need "Closed from an open handle" (Array.sub (closed, id))))
    | 7 => call x | 8 => call x
    | _ => (case Array.sub (s, (x + 1) mod 2) of NONE => () | SOME (_, v, id) => (need "variable has another value" ((var v : int) = 4711); need "variable through a closed handle" (not (Array.sub (closed, id))))
                handle Closed => need "Closed from an open handle" (Array.sub (closed, id))) end
  and opn i = (serial := !serial + 1; Array.update (h, i, SOME (dlopen {lib = "libffi.so", flag = if i = 0 then RTLD_LAZY else RTLD_NOW, global = false}, !serial)))
  and cls i = (case Array.sub (h, i) of NONE => () | SOME (d, id) => (dlclose d; Array.update (closed, id, true)))
  and call x = ((case Array.sub (s, (x + 1) mod 2) of NONE => () | SOME (f, _, id) => (need "call gave another result" ((app1 f : int -> int) 6 = 7); need "call through a closed handle" (not (Array.sub (closed, id))))
                handle Closed => need "Closed from an open handle" (Array.sub (closed, id))))
  and bind x = let val i = x mod 2 in
      (case Array.sub (h, i) of NONE => () | SOME (d, id) => (let val f = dlsym d "ffi_a1" val v = dlsym d "ffi_var" in need "bound in a closed handle" (not (Array.sub (closed, id))); Array.update (s, i, SOME (f, v, id)) end)
                handle Closed => need "Closed from an open handle" (Array.sub (closed, id))) end
  fun text hist = String.concatWith ", " (rev (map (fn x => List.nth (names, x)) hist))
  fun go [] _ = () | go (x :: xs) hist = (cnt := !cnt + 1; (op1 x handle Bad m => bad ("handles " ^ text (x :: hist)) m | e => bad ("handles " ^ text (x :: hist)) ("raised " ^ exnName e)); go xs (x :: hist))
  val _ = go ops []
  val _ = Array.app (fn NONE => () | SOME (d, _) => dlclose d) h
  in () end
fun all 0 acc = run (rev acc) | all d acc = let fun each x = if x = OPS then () else (all (d - 1) (x :: acc); each (x + 1)) in each 0 end
val _ = List.app (fn j => if j mod n = k then (all (depth - 2) [j, 0]; all (depth - 2) [j, 1]) else ()) (List.tabulate (OPS, fn j => j))
(* missing libraries and symbols; all arities after closing; symbols shared only when asked for *)
fun fails what f = ((f (); bad what "did not fail") handle Fail _ => ())
val _ = if k > 0 then () else let
  val _ = fails "dlopen of a missing library" (fn () => dlopen {lib = "libno_such_library.so", flag = RTLD_LAZY, global = false})
  val _ = fails "dlopen at once with a missing symbol" (fn () => dlopen {lib = "libffi2.so", flag = RTLD_NOW, global = false})
  val z = dlopen {lib = "libffi2.so", flag = RTLD_LAZY, global = false}
  val _ = if (app1 (dlsym z "two_self") : int -> int) 21 = 42 then () else bad "library opened lazily" "wrong"
  val _ = dlclose z
  (* every way of opening a library: another one that needs it can be opened at once if and only if it is global *)
  val _ = List.app (fn i => let val g = i div 2 = 1 val a = dlopen {lib = "libpa" ^ i2s i ^ ".so", flag = if i mod 2 = 0 then RTLD_LAZY else RTLD_NOW, global = g}
      val b = SOME (dlopen {lib = "libpb" ^ i2s i ^ ".so", flag = RTLD_NOW, global = false}) handle Fail _ => NONE
      val r = case b of NONE => 0 | SOME b => (app1 (dlsym b "pb") : int -> int) i
      in cnt := !cnt + 1; if r = (if g then i + 3 else 0) then () else bad ("library opened " ^ (if i mod 2 = 0 then "lazily " else "at once ") ^ (if g then "and global" else "not global")) ("another that needs it: " ^ i2s r) end) [0, 1, 2, 3]
  val l = dlopen {lib = "libffi.so", flag = RTLD_LAZY, global = false}
  val _ = fails "dlopen at once, the needed library not global" (fn () => dlopen {lib = "libffi2.so", flag = RTLD_NOW, global = false})
  val g = dlopen {lib = "libffi.so", flag = RTLD_NOW, global = true}
  val y = dlopen {lib = "libffi2.so", flag = RTLD_NOW, global = false}
  val _ = if (app1 (dlsym y "two_plus") : int -> int) 5 = 7 then () else bad "library using a global one" "wrong"
  (* several handles are one library *)
  val n1 : unit -> int = app1 (dlsym l "ffi_next") and n2 : unit -> int = app1 (dlsym g "ffi_next")
  val a = n1 () val b = n2 () val c = n1 ()
  val _ = if (b - a, c - b) = (1, 1) andalso (var (dlsym g "ffi_count") : int) = c then () else bad "two handles of one library" "are different libraries"
  val s1 = dlsym l "ffi_a1" val s2 = dlsym l "ffi_a2" val s3 = dlsym l "ffi_a3" val s4 = dlsym l "ffi_a4" val s5 = dlsym l "ffi_a5" val v = dlsym l "ffi_var"
  val r1 = ((app1 s1 : int -> int) 1, (app2 s2 : int -> int -> string) 1 2, (app3 s3 : int -> int -> int -> string) 1 2 3, (app4 s4 : int -> int -> int -> int -> string) 1 2 3 4, (app5 s5 : int -> int -> int -> int -> int -> string) 1 2 3 4 5)
  val _ = if r1 = (2, "1 2", "1 2 3", "1 2 3 4", "1 2 3 4 5") then () else bad "arguments" "out of order"
  val _ = dlclose l
  fun closed what f = ((f (); bad what "did not raise Closed") handle Closed => ())
  val _ = closed "app1" (fn () => ignore ((app1 s1 : int -> int) 1)) val _ = closed "app2" (fn () => ignore ((app2 s2 : int -> int -> string) 1 2))
  val _ = closed "app3" (fn () => ignore ((app3 s3 : int -> int -> int -> string) 1 2 3)) val _ = closed "app4" (fn () => ignore ((app4 s4 : int -> int -> int -> int -> string) 1 2 3 4))
  val _ = closed "app5" (fn () => ignore ((app5 s5 : int -> int -> int -> int -> int -> string) 1 2 3 4 5)) val _ = closed "var" (fn () => ignore (var v : int))
  val _ = closed "dlsym" (fn () => ignore (dlsym l "ffi_a1"))
  val _ = dlclose l
  val _ = if n2 () = c + 1 then () else bad "the other handle after closing one" "does not work"
  in () end
val _ = print ("COUNT handle_steps " ^ i2s (!cnt) ^ "\nDONE\n")
'''

MISC = HEAD + r'''
prim_type blk
val [ROUNDS] = CommandLine.arguments ()
val rounds = num ROUNDS
val final : int -> blk = app1 (sy "ffi_final")
val fid : blk -> int = app1 (sy "ffi_final_id")
val fdone : int -> int = app1 (sy "ffi_final_done")
val fwrong : unit -> int = app1 (sy "ffi_final_wrong")
val cat5 : string -> string -> string -> string -> string -> string = app5 (sy "ffi_cat5")
val strings : int -> string vector = app1 (sy "ffi_strings")
fun update (r : 'a ref) (v : 'a) : unit = app2 (sy "ffi_update") r v
fun upto (i, j) = if i > j then [] else i :: upto (i + 1, j)
(* 1. finalised blocks: a window of live ones moves along *)
val W = 50
val live = Array.array (W, NONE : blk option)
fun churn m = ignore (List.tabulate (m, fn i => (i, i2s i)))
val _ = List.app (fn id => (
   Array.update (live, id mod W, SOME (final id)); churn 40; cnt := !cnt + 1;
   if id mod 97 = 0 then Array.app (fn NONE => () | SOME b => let val i = fid b in if i < id - W orelse i > id orelse fdone i <> 0 then bad ("finalised block " ^ i2s i) "finalised while reachable, or changed" else () end) live else ())) (upto (0, rounds - 1))
fun doneBefore m = List.length (List.filter (fn i => fdone i = 1) (upto (0, m - 1)))
val m = rounds - W
fun wait t = if doneBefore m = m orelse t = 0 then () else (churn 200000; wait (t - 1))
val _ = wait 40
val _ = if doneBefore m = m then () else bad "finalised blocks" ("of " ^ i2s m ^ " unreachable ones " ^ i2s (doneBefore m) ^ " were finalised once")
val _ = Array.app (fn NONE => () | SOME b => if fdone (fid b) <> 0 then bad "finalised blocks" "a reachable one was finalised" else ()) live
val _ = if fwrong () = 0 then () else bad "finalised blocks" "the finaliser saw another block"
(* 2. strings made and passed *)
val _ = List.app (fn i => (cnt := !cnt + 1; let fun s c = CharVector.tabulate (i, fn j => Char.chr ((c + j) mod 256)) in
    if cat5 (s 1) (s 50) "" (s 100) (s 200) = s 1 ^ s 50 ^ s 100 ^ s 200 then () else bad ("five strings of " ^ i2s i) "" end)) (upto (0, 300) @ [1000, 1015, 1016, 1017, 2047, 2048, 2049, 5000])
val _ = List.app (fn i => (cnt := !cnt + 1; if Vector.foldr (op ::) [] (strings i) = List.tabulate (i, fn j => CharVector.tabulate (j, fn _ => Char.chr (97 + j mod 26))) then () else bad ("copy_string_array " ^ i2s i) "")) (upto (0, 40) @ [100, 255, 256, 257, 290])
(* 3. modify: an old reference given young values by C, at every age of the two *)
val rs = List.tabulate (300, fn i => ref [i2s i])
val _ = churn 60000
val _ = List.app (fn round => (List.app (fn r => update r [hd (!r) ^ "", i2s round]) rs; churn (round * 37 mod 3000);
    ignore (List.foldl (fn (r, i) => (cnt := !cnt + 1; if !r = [i2s i, i2s round] then () else bad ("reference updated by C, round " ^ i2s round) (String.concatWith " " (!r)); i + 1)) 0 rs))) (upto (1, 60))
(* 4. exceptions raised by C *)
val cfail : string -> unit = app1 (sy "ffi_fail")
val _ = List.app (fn i => (cnt := !cnt + 1; let val s = CharVector.tabulate (i, fn j => Char.chr (33 + (i + j) mod 90)) in (cfail s; bad "failwith" "returned") handle Fail t => if s = t then () else bad "failwith" t end)) (upto (0, 199))
(* 5. lists of constructors as flags *)
datatype flag = A | B | C | D | E
val flags : flag list -> int = app1 (sy "ffi_flags")
fun code A = 1 | code B = 2 | code C = 4 | code D = 8 | code E = 16
fun subs [] = [[]] | subs (x :: xs) = let val r = subs xs in r @ map (fn l => x :: l) r end
val _ = List.app (fn l => (cnt := !cnt + 1; if flags l = List.foldl (fn (f, a) => a + code f) 0 l then () else bad "convert_flag_list" "")) (subs [E, B, A, D, C])
val _ = print ("COUNT foreign_misc " ^ i2s (!cnt) ^ "\nDONE\n")
'''


def main():
    c = Check("R08")
    for f in ("ffi", "ffi2"):
        r = run(f"gcc -O1 -w -fPIC -shared -Dunix -I{c.inst.src}/runtime -I{c.inst.src}/config -o {c.work}/lib{f}.so {LIB}/{f}.c 2>&1", timeout=60)
        if r.rc:
            c.fail(f"C code written to the documented interface does not compile: {f}.c", r.out[-2000:])
            c.finish({"executions": 0, "histories": 0})
    for k in range(4):
        inc = f"-O1 -w -fPIC -shared -Dunix -I{c.inst.src}/runtime -I{c.inst.src}/config"
        c.write(f"{c.work}/pa{k}.c", f"#include <mlvalues.h>\nvalue pa{k}(value a) {{ return Val_long(Long_val(a) + 1); }}\n")
        c.write(f"{c.work}/pb{k}.c", f"#include <mlvalues.h>\nextern value pa{k}(value);\nvalue pb(value a) {{ return pa{k}(pa{k}(pa{k}(a))); }}\n")
        r = run(f"cd {c.work} && gcc {inc} -o libpa{k}.so pa{k}.c && gcc {inc} -o libpb{k}.so pb{k}.c", timeout=60)
    env = {"LD_LIBRARY_PATH": c.work}
    hr = c.inst.hooked_runtime()
    gc = dict(env, MOSML_VERIFY_GC_EVERY="1")
    counts = {}

    def add(rs):
        for k, v in c.take([r for r in rs if r]).items():
            counts[k] = counts.get(k, 0) + v
    # 1. values
    vals = values(c.thorough)
    groups = [vals[i:i + 400] for i in range(0, len(vals), 400)]

    def go(a):
        n, g = a
        t = [HEAD, TYPES, 'fun show_ (t : string) v : string = app2 (sy "ffi_show") t v\nfun mk (s : string) = app1 (sy "ffi_make") s\n'
             'fun chk i (v, w, code, want) = let val a = show_ code v val b = show_ code w in cnt := !cnt + 2; if a <> want then bad ("ML value " ^ i) ("C sees " ^ a ^ " instead of " ^ want) else ();'
             ' if b <> want then bad ("C value " ^ i) ("C sees " ^ b ^ " instead of " ^ want) else () end\n'
             'fun eq i (v, w) = if v = w then () else bad ("C value " ^ i) "is not equal to the ML value"\n']
        tree = "<[i%s%s][L%s][]>" % (("@",) * 3)
        for j, (s, code, want, mkp, ty) in enumerate(g):
            if code == "t":     # a recursive type: unroll as deep as the value needs
                code = "<[iuu][Lu][]>"
                for _ in range(4):
                    code = f"<[i{code}{code}][L{code}][]>"
            lab = smlstr((s if len(s) < 60 else s[:57] + "...") + " : " + (ty if len(ty) < 40 else ty[:37] + "..."))
            t.append(f"val v = ({s}) : {ty}; val w : {ty} = mk {smlstr(mkp)}")
            t.append(f"val _ = chk {lab} (v, w, {smlstr(code)}, {smlstr(want)})")
            if "real" not in ty and "ref" not in ty and ty not in ("zoo",):
                t.append(f"val _ = eq {lab} (v, w)")
        t.append('val _ = print ("COUNT values " ^ i2s (!cnt) ^ "\\nDONE\\n")')
        e = c.compile(f"val{n}", "\n".join(t))
        return [c.harness(e, env=env, timeout=100), c.harness(e, env=gc, runtime=hr, timeout=130)]
    add([r for rs in pmap(go, list(enumerate(groups))) for r in rs])
    exes = dict(zip(("reg", "nest", "handle", "misc"), pmap(lambda a: c.compile(*a), [("reg", REG), ("nest", NEST), ("handle", HANDLE), ("misc", MISC)])))
    th = c.thorough
    add(c.shards(exes["reg"], extra=[5 if th else 4], env=env, timeout=140 if not th else 900))
    add(c.shards(exes["reg"], extra=[3], env=gc, runtime=hr, timeout=140))
    add(c.shards(exes["nest"], extra=[5 if th else 4], env=env, timeout=140 if not th else 900))
    add([c.harness(exes["nest"], [0, 1, 3 if th else 2], env=gc, runtime=hr, timeout=140)])
    add(c.shards(exes["handle"], extra=[6 if th else 5], env=env, timeout=140 if not th else 900))
    add([c.harness(exes["misc"], [20000], env=env, timeout=140)])
    add([c.harness(exes["misc"], [400], env=gc, runtime=hr, timeout=140)])
    c.finish({"executions": sum(counts.values()), "histories": counts.get("registry_steps", 0), "counts": counts,
              "bound": "values: two levels over seven leaf types; registry: five operations of fifteen; calls: nestings of four frames of five kinds; handles: five operations of eleven"},
             ["the C side is compiled against the runtime's own headers, as the documentation asks", "dlopen and dlsym of the C library behave as POSIX says"])


main()
