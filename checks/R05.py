#!/usr/bin/env python3
"""R05: an interrupt raises Interrupt at some point of the evaluation and damages nothing.

The hooked runtime sends SIGINT at a chosen poll point (MOSML_VERIFY_INTR_AT / _GROW); an interposed read sends it while the
program waits for input.  Programs: the effects before the interrupt are a prefix of the uninterrupted effects, handlers are
entered innermost first, everything else is untouched, at every poll point.  Toplevel: only the phrase that was interrupted may be
missing.  Compiler and linker: output files are absent or complete."""
import itertools, os, re, shutil, subprocess, sys, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = r'''
prim_val catch_interrupt : bool -> unit = 1 "sys_catch_break"
fun i2s (n : int) = Int.toString n
val log = ref ([] : int list)
exception Other of int
fun burn 0 = () | burn n = burn (n-1)
(* data that nobody changes *)
val keepA = Array.tabulate (20, fn i => SOME (i, "k" ^ i2s i))
val keepL = List.tabulate (30, fn i => [i, i + 1])
val keepR = List.tabulate (10, fn i => ref (i * i))
fun intact () = Vector.foldl (fn (SOME (i, s), ok) => ok andalso s = "k" ^ i2s i | _ => false) true (Array.vector keepA)
   andalso List.all (fn [a, b] => b = a + 1 | _ => false) keepL andalso length keepL = 30
   andalso #2 (List.foldl (fn (r, (i, ok)) => (i + 1, ok andalso !r = i * i)) (0, true) keepR)
'''

# name -> (declarations, body: unit -> unit using log; must end by logging the result)
BODIES = {
 "recursion": ("fun fib n = if n < 2 then n else fib (n-1) + fib (n-2)", "(log := fib 9 :: !log; log := fib 11 :: !log)"),
 "nested handlers": ("fun g n = if n = 0 then (log := 0 :: !log; 0) else (log := n :: !log; let val r = g (n-1) handle Interrupt => (log := ~n :: !log; raise Interrupt) in log := 1000 + n :: !log; r + 1 end)",
                     "log := 5000 + g 12 :: !log"),
 "handlers of other exceptions": ("fun g n = if n = 0 then raise Other 7 else (g (n-1) handle Other k => (log := k :: !log; if n mod 2 = 0 then raise Other (k+1) else k)) + (hd [] handle Empty => (log := 99 :: !log; 1))",
                                  "log := (g 13 handle Other k => 2000 + k) :: !log"),
 "raise and handle": ("fun g n = if n = 0 then 0 else (raise Other n) handle Other k => (log := k :: !log; 1 + g (n-1))", "log := 700 + g 30 :: !log"),
 "deep recursion": ("fun d 0 = 0 | d n = 1 + d (n-1)", "(log := d 1200 :: !log; log := d 2500 :: !log)"),
 "deep recursion with handlers": ("fun d 0 = 0 | d n = 1 + (d (n-1) handle Other _ => 0)", "(log := d 900 :: !log; log := d 1500 :: !log)"),
 "allocation": ("fun up 0 = [] | up n = (n, i2s n, [n]) :: up (n-1)\nfun sum [] = 0 | sum ((n, s, [m]) :: r) = n + size s + m + sum r | sum _ = ~1", "(log := sum (up 150) :: !log; log := size (String.concat (List.map #2 (up 200))) :: !log; log := length (Listsort.sort Int.compare (List.map #1 (up 100))) :: !log)"),
 "references and arrays": ("fun loop r a i = if i = 100 then () else (r := [i]; Array.update (a, i, SOME (ref i)); loop r a (i+1))", "let val r = ref [] val a = Array.array (100, NONE) in loop r a 0; log := hd (!r) :: !log; log := Array.foldl (fn (SOME (ref x), s) => x + s | (NONE, s) => s) 0 a :: !log end"),
 "curried functions": ("fun c a b c d e = a + b * c - d + e\nfun k f x y z = f x y z\nfun pa n = let val p = c n val p2 = p 2 val p3 = p2 3 in p3 4 n + k (c 1 2) 3 4 5 end",
                       "List.app (fn n => log := pa n :: !log) [1,2,3,4,5,6,7,8,9]"),
 "tail calls": ("fun ev 0 x y = x | ev n x y = od (n-1) y x and od 0 x y = y | od n x y = ev (n-1) (x+1) y", "(log := ev 400 1 2 :: !log; log := od 333 3 4 :: !log)"),
 "while loop": ("", "let val i = ref 0 val s = ref 0 in while !i < 300 do (i := !i + 1; s := !s + !i); log := !s :: !log end"),
 "strings": ("fun rep 0 s = s | rep n s = rep (n-1) (s ^ String.map Char.toUpper (Substring.string (Substring.triml 1 (Substring.all s))))", "log := size (rep 7 \"abcdefg\") :: !log"),
 "lexer callbacks": ('''fun mk s = let val p = ref 0 in Lexing.createLexer (fn buf => fn n => let val m = Int.min (3, Int.min (n, size s - !p)) fun cp i = if i < m then (CharArray.update (buf, i, String.sub (s, !p + i)); cp (i+1)) else () in log := 100 + !p :: !log; cp 0; p := !p + m; m end) end''',
                     "let val lb = mk \"hello interrupt\" fun go 0 = () | go n = (log := Char.ord (Lexing.getNextChar lb) :: !log; go (n-1)) in go 15 end"),
 "hash tables": ("", "let val h = Polyhash.mkPolyTable (4, Other 0) fun ins n = if n = 0 then () else (Polyhash.insert h (i2s n, n); ins (n-1)) in ins 40; log := Polyhash.numItems h :: !log; log := Polyhash.find h \"17\" :: !log end"),
 "maps and sorting": ("", "let val m = List.foldl (fn (n, m) => Splaymap.insert (m, n * 7 mod 31, n)) (Splaymap.mkDict Int.compare) (List.tabulate (30, fn i => i)) in log := Splaymap.numItems m :: !log; log := Splaymap.find (m, 3) :: !log end"),
 "reals": ("fun h 0 x = x | h n x = h (n-1) (x * 1.5 - 0.25)", "(log := floor (h 25 1.0) :: !log; log := size (Real.fmt (StringCvt.FIX (SOME 3)) (h 10 2.0)) :: !log)"),
 "output": ("val osr = ref (NONE : TextIO.outstream option)", '''let val os = TextIO.openOut "out.txt" val _ = osr := SOME os in List.app (fn i => (TextIO.output (os, "line " ^ i2s i ^ "\\n"); log := i :: !log; TextIO.flushOut os)) [1,2,3,4,5,6,7,8]; TextIO.closeOut os; osr := NONE end'''),
 "input": ("val _ = let val os = TextIO.openOut \"in.txt\" in TextIO.output (os, CharVector.tabulate (9000, fn i => if i mod 61 = 60 then #\"\\n\" else Char.chr (97 + i mod 26))); TextIO.closeOut os end\nval isr = ref (NONE : TextIO.instream option)",
           '''let val is = TextIO.openIn "in.txt" val _ = isr := SOME is fun go () = (case TextIO.inputLine is of NONE => () | SOME l => (log := size l :: !log; go ())) in go (); TextIO.closeIn is; isr := NONE end'''),
 "large blocks": ("val cells = Array.array (3000, [])\nfun mk n = let val a = Array.array (20000, n) val s = CharVector.tabulate (3, fn i => Char.chr (97 + i)) in (Array.update (a, 7, n + 1); Array.sub (a, 7) + Array.sub (a, 19999) + size s) end\nfun fill i = if i = 40 then () else (Array.update (cells, i * 70, [i]); fill (i+1))",
                  "(List.app (fn n => log := mk n :: !log) [1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20]; fill 0; log := Array.foldl (fn (x :: _, s) => x + s | ([], s) => s) 0 cells :: !log; log := size (String.concat (List.tabulate (3, fn i => CharVector.tabulate (300, fn j => Char.chr (97 + i))))) :: !log)"),
 "suspensions": ("", "let val s = Susp.delay (fn () => (log := 1 :: !log; burn 20; log := 2 :: !log; 33)) in log := Susp.force s :: !log; log := Susp.force s :: !log end"),
}
EXTRA = {  # after an interrupt: what else must hold
 "output": '''case !osr of SOME os => (TextIO.closeOut os; osr := NONE; let val s = String.concat (List.tabulate (8, fn i => "line " ^ i2s (i+1) ^ "\\n")) val is = TextIO.openIn "out.txt" val got = TextIO.inputAll is val _ = TextIO.closeIn is val n = length (!log) in if not (String.isPrefix got s) orelse size got < 7 * (n - 0) - 0 then bad ("the file has " ^ i2s (size got) ^ " characters after " ^ i2s n ^ " lines") else () end) | NONE => ()''',
 "input": "case !isr of SOME is => (TextIO.closeIn is; isr := NONE) | NONE => ()",
}
UNWIND = {"nested handlers"}


def program(name, after_read=False):
    decl, body = BODIES[name]
    return PRE + decl + r'''
fun body () = ''' + body + r'''
val _ = body ()
val full = rev (!log)
val name = "''' + name + r'''"
val bads = ref 0 and attempts = ref 0
fun bad det = if !bads > 3 then () else (bads := !bads + 1; print ("MISMATCH " ^ name ^ "\tinterrupt number " ^ i2s (!attempts) ^ ": " ^ det ^ "\n"))
fun show xs = String.concat (List.map (fn n => i2s n ^ " ") xs)
fun prefix ([], _) = true | prefix (x :: xr, y :: yr) = x = (y : int) andalso prefix (xr, yr) | prefix _ = false
fun check () =
  let val l = rev (!log)
      val done = List.filter (fn n => n >= 0) l
      val unw = List.filter (fn n => n < 0) l
      val _ = if prefix (done, full) then () else bad ("the effects [" ^ show l ^ "] are no prefix of [" ^ show full ^ "]")
      val _ = if intact () then () else bad "other data changed"
      val _ = ''' + (r'''let (* levels entered (logged 1..12) and not left (logged 1000 + n); the innermost logged level is inside all handlers but its own *)
              val inn = List.filter (fn n => n > 0 andalso n < 1000) l and out = List.filter (fn n => n >= 1000) l
              val active = List.filter (fn n => not (List.exists (fn k => k = 1000 + n) out)) (rev inn)
              val u = List.map ~ unw
              val ok = u = active orelse (case active of [] => false | _ :: r => u = r) orelse (case unw of [] => true | _ => false) andalso length active <= 1
          in if ok then () else bad ("handlers entered: " ^ show unw ^ " while active: " ^ show active) end''' if name in UNWIND else "()") + r'''
      val _ = ''' + EXTRA.get(name, "()") + r'''
  in () end
val stage = ref 0
fun drive () =
  let val _ = stage := 0
      val _ = log := []
''' + (r'''      val _ = (ignore (TextIO.input1 TextIO.stdIn); bad "the read was not interrupted") handle Interrupt => ()
''' if after_read else "") + r'''      val _ = ((burn 4000; stage := 1; body (); stage := 2; burn 100000000; stage := 3) handle Interrupt => ())
      val st = !stage
  in attempts := !attempts + 1;
     if st = 3 then bad "no interrupt arrived" else check ();
     if st = 2 then (if rev (!log) = full then () else bad "a complete run has other effects") else drive () end
val _ = catch_interrupt true
val _ = burn 100000000 handle Interrupt => ()
val _ = drive ()
val _ = catch_interrupt false
val _ = burn 1
val _ = print ("COUNT points " ^ i2s (!attempts) ^ "\nDONE\n")
'''


# ---------------------------------------------------------------- toplevel sessions
SESSION = [
 ("val a1 = 11;", "a1"), ("fun f1 x = x + a1;", "f1 1"), ("datatype t1 = A1 | B1 of int;", "(case B1 4 of A1 => 0 | B1 n => n)"),
 ("val a2 = f1 3 handle _ => 0;", "a2"), ("exception E1 of int;", "((raise E1 5) handle E1 n => n)"),
 ("structure S1 = struct val v = 7 fun g x = x * 2 end;", "S1.g S1.v"), ("signature SIG1 = sig val v : int end;", "(let structure S : SIG1 = struct val v = 3 end in S.v end)"),
 ("functor F1 (X : sig val v : int end) = struct val w = X.v + 1 end;", "(let structure T = F1 (struct val v = 8 end) in T.w end)"),
 ("infix 5 +++; fun a +++ b = a * b + 1;", "op+++ (2, 3)"), ("val r1 = ref 1;", "(r1 := !r1 + 1; !r1)"),
 ("val xs1 = List.tabulate (5, fn i => i * i);", "List.foldl op+ 0 xs1"), ("type ty1 = int * int;", "(#1 ((3, 4) : ty1))"),
]
BASE = ("val (a1, a2) = (~1, ~2); fun f1 x = ~3; datatype t0 = A0; datatype t1 = A1 | B1 of int; exception E1 of int; structure S1 = struct val v = ~4 fun g x = ~5 end; "
        "signature SIG1 = sig val v : int end; functor F1 (X : sig val v : int end) = struct val w = ~6 end; fun op+++ (a, b) = ~7; val r1 = ref ~8; val xs1 = [~9]; type ty1 = int * int;")


def session_text():
    t = [BASE]
    for i, (ph, _) in enumerate(SESSION):
        t.append(ph)
    t.append('val marker = 4242;')
    for i, (_, q) in enumerate(SESSION):
        t.append(f'val q{i} = ({q}) : int;')
    t.append('val fin = 777 * 3;')
    return "\n".join(t) + "\n"


def toplevel(c, hr, tot):
    lib = f"{c.inst.root}/inst/lib/mosml"
    d = c.dir("top")
    c.write(f"{d}/s.in", session_text())
    cmd = [hr, f"{lib}/mosmltop", "-stdlib", lib, "-liberal"]

    def go(k, env=None):
        e = dict(c.env)
        e.update({"MOSML_VERIFY_INTR_AT": str(k)} if k else {"MOSML_VERIFY_STATS": f"{d}/stats"})
        return run(cmd, cwd=d, env=e, input=session_text(), timeout=60, merge=True)
    r0 = go(0)
    polls = int(re.search(r"polls (\d+)", open(f"{d}/stats").read())[1])
    full = dict(re.findall(r'> val q(\d+) = (\S+) : int', r0.out))
    if len(full) != len(SESSION) or "fin = 2331" not in r0.out:
        c.fail("the uninterrupted session", r0.out[-1500:])
        return
    # answers when single definitions are missing: the definitions depend on each other only as stated in SESSION
    start = 1
    step = 1 if c.thorough else max(1, polls // 7000)
    nint = [0, 0, 0]

    def judge(k):
        r = go(k)
        if r.rc == -signal.SIGINT:      # it came while the toplevel does not catch it
            nint[1] += 1
            return
        n = r.out.count("Interrupted.")
        if r.timed_out or r.rc != 0:
            # before the main loop starts an interrupt ends the program
            if n == 0 and "4242" not in r.out and "val a1 = 11" not in r.out and not r.timed_out and r.rc in (1, 2, 255):
                nint[2] += 1
                return
            c.fail(f"toplevel-interrupt-at-{k}", f"the session ended with status {r.rc}{', timeout' if r.timed_out else ''}\n{r.out[-1500:]}")
            return
        if n > 1:
            c.fail(f"toplevel-interrupt-at-{k}", f"{n} messages 'Interrupted.'\n{r.out[-1500:]}")
            return
        nint[0] += 1
        got = dict(re.findall(r'> val q(\d+) = (\S+) : int', r.out))
        diff = [i for i in range(len(SESSION)) if got.get(str(i)) != full[str(i)]]
        # the interrupt hits one phrase: at most this definition is missing (its dependents change with it), or one query
        ok = True
        if diff:
            if all(str(i) not in got for i in diff) and len(diff) == 1:
                pass                                  # a query was interrupted
            else:
                d0 = diff[0]
                # what depends on what: a1 -> f1, a2; f1 -> a2
                dep = {0: {0, 1, 3}, 1: {1, 3}}.get(d0, {d0})
                # an interrupted definition of a1 can change f1 1 and a2 as well
                ok = set(diff) <= dep
                if not ok and set(diff) <= {1, 3}:
                    ok = True
        if not ok or (diff and "fin = 2331" not in r.out):
            c.fail(f"toplevel-interrupt-at-{k}", f"answers that changed: {diff}\n{r.out[-2500:]}")
            return
        # a definition that was reported is there
        for i, (ph, q) in enumerate(SESSION):
            m = re.match(r"val (\w+) =", ph)
            if m and i in diff and str(i) in got and i not in (3,):
                rep = re.search(rf"> val {m[1]} = (\S+)", r.out[r.out.index("xs1 = [~9]") if "xs1 = [~9]" in r.out else 0:])
                if rep:
                    c.fail(f"toplevel-interrupt-at-{k}", f"{m[1]} was reported and is lost\n{r.out[-2500:]}")
    ks = list(range(start, polls + 1, step))
    pmap(judge, ks, NCPU)
    tot["toplevel interrupts"] = nint[0]
    tot["toplevel killed while not catching"] = nint[1]
    tot["toplevel before the loop"] = nint[2]
    tot["toplevel points"] = len(ks)


# ---------------------------------------------------------------- compiler and linker
UNITS = {"Ua.sig": "type t\nval mk : int -> t\nval get : t -> int\n",
         "Ua.sml": "datatype t = T of int\nfun mk n = T n\nfun get (T n) = n + 1\n",
         "Ub.sml": "val v = Ua.get (Ua.mk 4)\nval _ = print (Int.toString v ^ \"\\n\")\n"}


def tools(c, hr, tot):
    lib = f"{c.inst.root}/inst/lib/mosml"
    jobs = [("compiling a signature", f"{lib}/mosmlcmp -stdlib {lib} -conservative Ua.sig", ["Ua.ui"], []),
            ("compiling a structure", f"{lib}/mosmlcmp -stdlib {lib} -conservative Ua.sml", ["Ua.uo"], ["Ua.ui"]),
            ("compiling without a signature", f"{lib}/mosmlcmp -stdlib {lib} -conservative Ub.sml", ["Ub.ui", "Ub.uo"], ["Ua.ui", "Ua.uo"]),
            ("linking", f"{lib}/mosmllnk -stdlib {lib} -P default -exec x.out Ub.uo", ["x.out"], ["Ua.ui", "Ua.uo", "Ub.ui", "Ub.uo"])]
    made = {}
    n = 0
    for name, cmd, outs, needs in jobs:
        base = c.dir("tool-" + re.sub(r"\W", "-", name))

        def setup(d, old):
            os.makedirs(d, exist_ok=True)
            for fn in os.listdir(d):
                os.remove(f"{d}/{fn}")
            for fn, t in UNITS.items():
                c.write(f"{d}/{fn}", t)
            for fn in needs:
                c.write(f"{d}/{fn}", made[fn])

        def go(d, k):
            e = dict(c.env)
            e.update({"MOSML_VERIFY_INTR_AT": str(k)} if k else {"MOSML_VERIFY_STATS": f"{base}/stats"})
            return run([hr, *cmd.split()], cwd=d, env=e, timeout=60, merge=True)
        setup(base + "/ref", False)
        r0 = go(base + "/ref", 0)
        if r0.rc != 0:
            c.fail(f"{name}: uninterrupted", r0.out)
            return
        polls = int(re.search(r"polls (\d+)", open(f"{base}/stats").read())[1])
        for fn in outs:
            made[fn] = open(f"{base}/ref/{fn}", "rb").read()
        step = 3 if c.thorough else max(1, polls // 700)
        ks = sorted(set(range(1, polls + 1, step)) | set(range(max(1, polls - (30000 if c.thorough else 1500)), polls + 1, 1 if c.thorough else 3)))

        def judge(j):
            i, k = j
            d = f"{base}/w{k}"
            setup(d, False)
            r = go(d, k)
            if r.timed_out:
                c.fail(f"{name}: interrupted at {k}", "did not end")
            for fn in outs:
                p = f"{d}/{fn}"
                if os.path.exists(p):
                    got = open(p, "rb").read()
                    if got != made[fn] and len(got) != 0:
                        c.fail(f"{name}: interrupted at {k}", f"{fn} is left incomplete: {len(got)} of {len(made[fn])} bytes; status {r.rc}\n{r.out}")
                    elif got != made[fn]:
                        c.fail(f"{name}: interrupted at {k}", f"{fn} is left empty; status {r.rc}\n{r.out}")
                elif r.rc == 0:
                    c.fail(f"{name}: interrupted at {k}", f"status 0 and no {fn}\n{r.out}")
            for fn in needs:
                if open(f"{d}/{fn}", "rb").read() != made[fn]:
                    c.fail(f"{name}: interrupted at {k}", f"{fn} changed")
            for fn in os.listdir(d):
                os.remove(f"{d}/{fn}")
            os.rmdir(d)
        pmap(judge, list(enumerate(ks)), NCPU)
        tot[name] = len(ks)


# ---------------------------------------------------------------- interrupts while waiting for input
READERS = {
 "input1": "fun rd () = Option.map String.str (TextIO.input1 TextIO.stdIn)",
 "input": "fun rd () = case TextIO.input TextIO.stdIn of \"\" => NONE | s => SOME s",
 "inputN 1": "fun rd () = case TextIO.inputN (TextIO.stdIn, 1) of \"\" => NONE | s => SOME s",
 "lookahead": "fun rd () = case TextIO.lookahead TextIO.stdIn of NONE => NONE | SOME c => Option.map String.str (TextIO.input1 TextIO.stdIn)",
 "lexer": "val lb = Lexing.createLexer (fn buf => fn n => let val s = TextIO.inputN (TextIO.stdIn, 1) in CharArray.copyVec {src = s, dst = buf, di = 0}; size s end)\nfun rd () = case Lexing.getNextChar lb of #\"\\000\" => NONE | ch => SOME (String.str ch)",
}


AFTER = {"recursion", "nested handlers", "raise and handle", "deep recursion with handlers", "curried functions", "tail calls"}


def writing(c, tot):
    """SIGINT during a write: no line is torn or written twice, at most one line missing per exception"""
    d = c.dir("wait")
    exe = c.compile("wr", PRE + r'''
val _ = catch_interrupt true
val ints = ref 0
fun sure f = (f () handle Interrupt => (ints := !ints + 1; sure f))
fun line os i = (TextIO.output (os, "line " ^ i2s i ^ "\n"); if i mod 2 = 0 then TextIO.flushOut os else ()) handle Interrupt => ints := !ints + 1
val os = TextIO.openOut "w.txt"
val _ = List.app (line os) (List.tabulate (12, fn i => i))
val _ = line os 12
val _ = sure (fn () => TextIO.output (os, CharVector.tabulate (9000, fn i => if i = 8999 then #"\n" else #"x")))
val _ = sure (fn () => TextIO.closeOut os)
val _ = sure (fn () => burn 100)
val _ = print (i2s (!ints) ^ "\nDONE\n")
''')
    if exe is None:
        return
    jobs = ["".join(s) for n in range(1, 6) for s in itertools.product("F1HST", repeat=n) if "S" in s or "T" in s] + ["S" * 40 + "F", "T" * 30, "ST1" * 20]

    def go(seq):
        w = c.dir(f"wr-{seq[:12]}-{len(seq)}")
        r = c.harness(exe, (), cwd=w, env={"LD_PRELOAD": f"{d}/shim.so", "SHIM_OUT": f"{w}/w.txt", "SHIM_W": seq}, timeout=60)
        if r is None:
            return 0
        ints = int(r.out.split("\n")[0])
        got = open(f"{w}/w.txt").read().split("\n")
        shutil.rmtree(w)
        big = [l for l in got[:-1] if l.startswith("x")]
        lines = [l for l in got[:-1] if not l.startswith("x")]
        want = [f"line {i}" for i in range(13)]
        it = iter(want)
        if got[-1] != "" or not all(l in it for l in lines) or len(lines) < 13 - ints or not big or any(l != "x" * 8999 for l in big) or len(big) > 1 + ints or ints > seq.count("S") + seq.count("T"):
            c.fail(f"interrupted write: {seq}", f"{ints} interrupts; the file is {[l[:20] for l in got]}")
        return 1
    tot["interrupted writes"] = sum(pmap(go, jobs, NCPU))


def waiting(c, tot):
    d = c.dir("wait")
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-o", f"{d}/shim.so", f"{VERIF}/lib/io/shim.c", "-ldl"], timeout=120, merge=True)
    if r.rc != 0:
        raise SystemExit(2)
    data = "".join(f"line {i} of the input\n" for i in range(9))
    n = 0
    jobs = []
    for name, rd in READERS.items():
        exe = c.compile("rd" + re.sub(r"\W", "", name), PRE + rd + r'''
val _ = catch_interrupt true
val ints = ref 0
fun loop acc = case (SOME (rd ()) handle Interrupt => NONE) of NONE => (ints := !ints + 1; if not (intact ()) then print "damage" else (); loop acc) | SOME NONE => String.concat (rev acc) | SOME (SOME s) => loop (s :: acc)
val all = loop []
val _ = print ("[" ^ String.toString all ^ "] " ^ i2s (!ints) ^ "\nDONE\n")
''')
        if exe is None:
            continue
        outcomes = ["F", "1", "S", "I", "H"]
        for n in range(1, 5):
            for seq in itertools.product(outcomes, repeat=n):
                if "S" in seq:
                    jobs.append((name, exe, "".join(seq)))
        jobs += [(name, exe, "1S" * 60), (name, exe, "S" * 50), (name, exe, "SSH" * 30)]

    jobs = [(*j, w) for j in jobs for w in ({}, {"SHIM_POLL": "1"}) if not w or c.thorough or j[0] in ("input1", "inputN 1", "lexer")]

    def go(j):
        name, exe, seq, where = j
        e = {"LD_PRELOAD": f"{d}/shim.so", "SHIM_IN": "0", "SHIM_R": seq, "ASAN_OPTIONS": "", **where}
        r = c.harness(exe, (), env=e, input=data, timeout=60)
        if r is None:
            return 0
        m = re.search(r"^\[(.*)\] (\d+)$", r.out, re.M)
        if not m or m[1] != smlesc(data):
            c.fail(f"interrupted read: {name}: {seq}{' while waiting' if where else ''}", f"the input was read as {r.out[:600]}")
        elif "damage" in r.out:
            c.fail(f"interrupted read: {name}: {seq}{' while waiting' if where else ''}", "other data changed")
        elif int(m[2]) > seq.count("S") or (int(m[2]) == 0 and seq[0] == "S"):
            c.fail(f"interrupted read: {name}: {seq}{' while waiting' if where else ''}", f"{m[2]} interrupts were seen")
        return 1
    tot["interrupted reads"] = sum(pmap(go, jobs, NCPU))


# ---------------------------------------------------------------- every endless computation can be interrupted
ENDLESS = {
 "tail recursion": "fun f n = f (n + 1) val _ = f 0",
 "mutual tail recursion": "fun f n = g (n + 1) and g n = f (n - 1) val _ = f 0",
 "while": "val r = ref 0 val _ = while true do r := 1 - !r",
 "empty while": "val _ = while true do ()",
 "curried tail recursion": "fun f a b c = f b c a val _ = f 1 2 3",
 "recursion through a reference": "val r = ref (fn (n : int) => n) val _ = r := (fn n => !r (n + 1)) val _ = !r 0",
 "allocation": "datatype t = T of t list fun f x = f (T [T []]) val _ = f (T [])",
 "raising": "exception E fun f () = ((raise E) handle E => ()) val _ = while true do f ()",
 "handler loop": "exception E fun f n = (raise E) handle E => f (n + 1) val _ = f 0",
 "non-tail recursion in a loop": "fun d 0 = 0 | d n = 1 + d (n-1) val _ = while true do d 50",
 "strings": "fun f s = f (String.substring (s ^ s, 0, 5)) val _ = f \"abcde\"",
}


def endless(c, tot):
    def go(item):
        name, text = item
        exe = c.compile("e" + re.sub(r"\W", "", name), 'prim_val catch_interrupt : bool -> unit = 1 "sys_catch_break"\nval _ = catch_interrupt true\nval _ = (print "ready\\n"; TextIO.flushOut TextIO.stdOut)\n' + text + "\n")
        if exe is None:
            return 0
        p = subprocess.Popen([c.inst.camlrunm, exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=c.env, cwd=os.path.dirname(exe))
        try:
            p.stdout.readline()
            time.sleep(0.05)
            p.send_signal(signal.SIGINT)
            try:
                out, err = p.communicate(timeout=60)
                if p.returncode != 2 or b"Interrupt" not in err + out:
                    c.fail(f"endless: {name}", f"after SIGINT: status {p.returncode} {(out + err)[-300:]}")
            except subprocess.TimeoutExpired:
                c.fail(f"endless: {name}", "SIGINT is not noticed for 60 s")
        finally:
            p.kill()
            p.wait()
        return 1
    tot["endless computations"] = sum(pmap(go, list(ENDLESS.items()), NCPU))


def main():
    c = Check("R05")
    hr = c.inst.hooked_runtime()
    ha = c.inst.hooked_runtime(asan=True)
    tot = {}
    jobs = []
    for i, name in enumerate(BODIES):
        jobs.append((name, f"b{i}", hr, {}))
        jobs.append((name, f"b{i}", hr, {"MOSML_VERIFY_GC_EVERY": "53", "MOSML_VERIFY_SLICE": "300"}))
        if c.thorough:
            jobs.append((name, f"b{i}", ha, {}))
    exes = dict(pmap(lambda j: (j[1], c.compile(j[1], program(j[0]))), [(n, f"b{i}") for i, n in enumerate(BODIES)]))
    # the same after an interrupted read
    d = c.dir("shim")
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-o", f"{d}/shim.so", f"{VERIF}/lib/io/shim.c", "-ldl"], timeout=120, merge=True)
    if r.rc != 0:
        raise SystemExit(2)
    shim = {"LD_PRELOAD": f"{d}/shim.so", "SHIM_IN": "0", "SHIM_R": "s"}
    for i, name in enumerate(BODIES):
        if name in AFTER or c.thorough:
            exes[f"a{i}"] = c.compile(f"a{i}", program(name, True))
            jobs.append((name, f"a{i}", hr, shim))

    def go(j):
        name, b, rt, env = j
        w = c.dir(f"{b}-{abs(hash((rt, tuple(env))))}")
        return c.harness(exes[b], (), cwd=w, runtime=rt, env={"MOSML_VERIFY_INTR_GROW": "4000", **env}, timeout=600)
    res = [r for r in pmap(go, jobs, NCPU) if r]
    tot["program points"] = c.take(res).get("points", 0)
    endless(c, tot)
    waiting(c, tot)
    writing(c, tot)
    tools(c, hr, tot)
    toplevel(c, hr, tot)
    c.finish({"schedules": sum(v for v in tot.values()), **tot,
              "explanation": "one schedule = one program, session or tool run (or attempt inside one run) with a SIGINT delivered at one chosen poll point or read"},
             ["signals are delivered at the interpreter's poll points or inside read, which is where the runtime notices them"])


main()
