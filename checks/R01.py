#!/usr/bin/env python3
"""R01: garbage collection is unobservable.

The real runtime, rebuilt with -DMOSML_VERIFY (freed memory is overwritten), runs a corpus that reaches the allocating
instructions and C primitives.  Schedules explored: a whole collection at the k-th allocation for every k of every
program; a collection at every n-th allocation crossed with every size of incremental mark/sweep slice in a list; and,
under AddressSanitizer, a collection at every allocation.  Every run must give the output and status of the unforced run.
The compiler and the toplevel themselves run under forced collections too."""
import glob, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

LEX = r'''{
open Calc_p;
exception Bad of string;
}
rule token = parse
    [` ` `\t`]      { token lexbuf }
  | `\n`            { EOL }
  | [`0`-`9`]+      { case Int.fromString (Lexing.getLexeme lexbuf) of SOME i => NUM i | NONE => raise Bad "num" }
  | [`a`-`z`]+      { ID (Lexing.getLexeme lexbuf) }
  | `+`             { PLUS }
  | `*`             { TIMES }
  | `(`             { LP }
  | `)`             { RP }
  | eof             { EOF }
  | _               { raise Bad (Lexing.getLexeme lexbuf) }
;
'''
YAC = r'''
%token <int> NUM
%token <string> ID
%token PLUS TIMES LP RP EOL EOF
%left PLUS
%left TIMES
%start Main
%type <(string * int) list> Main
%type <string * int> Expr
%%
Main:
    EOF                { [] }
  | Expr EOL Main      { $1 :: $3 }
;
Expr:
    NUM                { (Int.toString $1, $1) }
  | ID                 { ($1, size $1) }
  | LP Expr RP         { $2 }
  | Expr PLUS Expr     { ("(" ^ #1 $1 ^ "+" ^ #1 $3 ^ ")", #2 $1 + #2 $3) }
  | Expr TIMES Expr    { ("(" ^ #1 $1 ^ "*" ^ #1 $3 ^ ")", #2 $1 * #2 $3) }
;
'''
CALC = r'''
fun parse s = let val lb = Lexing.createLexerString s in Calc_p.Main Calc_l.token lb end
val _ = app (fn (s, n) => print (s ^ "=" ^ Int.toString n ^ "\n")) (parse "1+2*3\n(a+bb)*ccc+4\n((7))\n2*3*4+5*6\n")
val _ = (parse "1+)\n"; ()) handle e => print (exnName e ^ "\n")
val _ = (parse "1 % 2\n"; ()) handle e => print (exnName e ^ "\n")
val _ = print (Int.toString (#2 (hd (parse (String.concatWith "+" (List.tabulate (60, Int.toString)) ^ "\n")))) ^ "\n")
'''
SESSION = r'''
fun f x = x + 1;
val y = f 3;
datatype 'a t = L | N of 'a t * 'a * 'a t;
fun ins (L, x : int) = N (L, x, L) | ins (t as N (a, y, b), x) = if x < y then N (ins (a, x), y, b) else if x > y then N (a, y, ins (b, x)) else t;
val t = foldl (fn (x, t) => ins (t, x)) L [3, 1, 2];
val bad = 1 + "x";
structure S :> sig type u val mk : int -> u val get : u -> int end = struct type u = int fun mk x = x fun get x = x end;
val z = S.get (S.mk y);
functor F (X : sig val n : int end) = struct val m = X.n * 2 end;
structure G = F (struct val n = z end);
G.m;
fun g [] = 0 | g (x :: r) = x + g r;
g [1, 2, 3];
val r = {a = 1, b = "x", c = #"c", d = 2.5, e = 0w3, f = [SOME 1, NONE]};
raise Fail "boom";
let val q = ref 0 in while !q < 5 do q := !q + 1; !q end;
'''


def main():
    c = Check("R01")
    I = c.inst
    rt, rta = I.hooked_runtime(), I.hooked_runtime(asan=True)
    progs = []

    def corpus(p):
        name = os.path.basename(p)[:-4]
        return name, c.compile(name, open(p).read())
    jobs = [lambda p=p: corpus(p) for p in sorted(glob.glob(f"{VERIF}/lib/gc/*.sml"))]

    def calc():
        d = c.dir("calc")
        c.write(f"{d}/Calc_l.lex", LEX)
        c.write(f"{d}/Calc_p.grm", YAC)
        c.write(f"{d}/calc.sml", CALC)
        r = run("mosmlyac Calc_p.grm && mosmlc -c -liberal Calc_p.sig Calc_p.sml && mosmllex Calc_l.lex && mosmlc -c Calc_l.sml && "
                "mosmlc -toplevel Calc_p.uo Calc_l.uo calc.sml -o calc.exe", cwd=d, env=c.env, merge=True)
        if not os.path.exists(f"{d}/calc.exe"):
            c.fail("corpus:calc", f"the lexer/parser program does not build:\n{r.out[-2000:]}")
            return "calc", None
        return "calc", f"{d}/calc.exe"
    jobs.append(calc)
    progs = [(n, e) for n, e in pmap(lambda f: f(), jobs) if e]

    def one(exe, envx, runtime=rt, timeout=60, tag=""):
        d = c.work + "/run/" + tag
        os.makedirs(d, exist_ok=True)
        e = dict(c.env, GCVAR="gcvar-value", **{"MOSML_VERIFY_" + k: str(v) for k, v in envx.items()})
        r = run([runtime, exe, "arg1", "arg2"], cwd=d, env=e, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        return r

    base, allocs, scheds = {}, {}, []
    for n, e in progs:
        st = f"{c.work}/stats-{n}"
        r0 = one(e, {"STATS": st}, tag=n)
        s = open(st).read().split() if os.path.exists(st) else []
        plain = one(e, {}, runtime=I.camlrunm, tag=n)
        if r0.rc or not s:
            c.fail(f"{n}:unforced", f"status {r0.rc}\n{r0.out[-500:]}{r0.err[-500:]}")
            continue
        if (r0.out, r0.rc, r0.err) != (plain.out, plain.rc, plain.err):
            c.fail(f"{n}:hooked-vs-plain", "the hooked runtime with no schedule differs from the plain runtime")
        base[n], allocs[n] = (r0.out, r0.err, r0.rc), int(s[1])
        c.sample(f"{n}: {s[1]} allocations, {s[3]} polls")
        lim = allocs[n]
        scheds += [(n, e, {"GC_AT": k, "SLICE": -1}, rt) for k in range(1, lim + 1)]
        ev = list(range(1, 65)) if c.thorough else [1, 2, 3, 5, 8, 13, 21, 55]
        for m in ev:
            for s in ([-1, 1, 3, 10, 30, 100, 300, 1000, 3000, 10000] if c.thorough else [-1, 5, 50, 400, 3000]):
                scheds.append((n, e, {"GC_EVERY": m, "SLICE": s}, rt))
        for m, s in [(1, -1), (1, 60), (3, 700)]:
            scheds.append((n, e, {"GC_EVERY": m, "SLICE": s}, rta))
        if c.thorough:
            scheds += [(n, e, {"GC_AT": k, "SLICE": s}, rt) for k in range(1, lim + 1) for s in (0, 200)]
    env0 = {"ASAN_OPTIONS": "detect_leaks=0", "LD_LIBRARY_PATH": I.lib}
    c.env.update(env0)

    def go(t):
        i, (n, e, envx, r_) = t
        r = one(e, envx, runtime=r_, tag=f"{n}-{i}", timeout=240)
        if (r.out, r.err, r.rc) != base[n]:
            tag = " asan" if r_ is rta else ""
            want = base[n][0].splitlines()
            got = r.out.splitlines()
            j = next((j for j in range(max(len(want), len(got))) if want[j:j + 1] != got[j:j + 1]), 0)
            c.fail(f"{n}:{envx}{tag}", f"status {r.rc}; first difference at output line {j}: expected {want[j:j+1]} got {got[j:j+1]}\nstderr {r.err[:1500]}")
        return 1
    runs = sum(pmap(go, list(enumerate(scheds))))

    # self-checking workloads that grow, fragment and scan the heap, under every combination of heap parameters
    grid = []
    heap = c.compile("heap", open(f"{VERIF}/lib/gcbig/heap.sml").read())
    if heap:
        small = ["s=1024,i=1024,o=30", "s=4096,i=1024,o=80", "s=1024,i=9000,o=10", "s=32768,i=31744,o=30"]
        for n in range(1, 300 if c.thorough else 150):
            grid.append(("chunks", n, small[n % 3], {}))
        for f in ("chunks", "churn", "barrier", "wide", "shuttle", "weaks"):
            for n in ((1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610) if c.thorough else (1, 3, 8, 21, 55, 144)):
                for cr in small:
                    for h in ({}, {"SLICE": 17}, {"SLICE": 300}, {"SLICE": 4000}, {"GC_EVERY": 997, "SLICE": 60}, {"GC_EVERY": 4999, "SLICE": -1}):
                        if c.thorough or n <= 21 or f != "wide" or h.get("SLICE", 4000) >= 300:
                            grid.append((f, n, cr, h))

        def big(t):
            f, n, cr, h = t
            e = dict(c.env, CAMLRUNPARAM=cr, **{"MOSML_VERIFY_" + k: str(v) for k, v in h.items()})
            for r_ in (rt, rta) if n in (5, 8, 13) and h.get("SLICE", 0) in (0, 300) else (rt,):
                r = run([r_, heap, f, str(n)], cwd=c.work, env=e, timeout=200)
                if (r.out, r.err, r.rc) != (f"end {f}\n", "", 0):
                    c.fail(f"heap {f} {n} {cr} {h}", f"status {r.rc}: {r.out[-400:]}{r.err[-800:]}")
        pmap(big, grid)

    # the compiler and the toplevel as programs
    d = c.dir("comp")
    src = open(f"{VERIF}/lib/gc/closures.sml").read() + "".join(l + "\n" for l in SESSION.splitlines() if l.startswith(("val r", "val y", "val z", "val t", "fun", "datatype", "structure", "functor")))
    lib = I.lib
    tools = []

    def comp(envx, tag, runtime=rt):
        w = c.dir(f"comp{tag}")
        c.write(f"{w}/A.sml", src)
        e = dict(c.env, **{"MOSML_VERIFY_" + k: str(v) for k, v in envx.items()})
        r = run([runtime, f"{lib}/mosmlcmp", "-stdlib", lib, "-P", "default", "-liberal", "-toplevel", "A.sml"], cwd=w, env=e, timeout=300)
        out = {f: open(f"{w}/{f}", "rb").read() for f in ("A.ui", "A.uo") if os.path.exists(f"{w}/{f}")}
        r2 = run([runtime, f"{lib}/mosmltop", "-stdlib", lib, "-P", "default"], cwd=w, env=e, timeout=300, input=SESSION)
        return r.rc, r.out, r.err, out, r2.out, r2.rc
    b0 = comp({}, "0")
    if b0[0] != 0 or len(b0[3]) != 2:
        c.fail("compiler:unforced", str(b0[:3])[:800])
    else:
        tools = [(m, s) for m in ((1, 2, 3, 5, 7, 11, 50, 333) if c.thorough else (3, 7, 50, 333)) for s in ((2000, 20000, 200000) if c.thorough else (3000, 100000))]

        def cmp1(t):
            r = comp({"GC_EVERY": t[0], "SLICE": t[1]}, f"{t[0]}-{t[1]}")
            if r != b0:
                c.fail(f"compiler:every{t[0]}:slice{t[1]}", f"compiling or the toplevel session behaves differently under forced collections: {str(r)[:600]}")
        pmap(cmp1, tools)
    c.finish({"states": sum(allocs.values()), "transitions": len(scheds) + 2 * len(tools) + len(grid), "traces_validated_against_impl": len(base),
              "allocation_points": allocs, "exhaustive_single_collection_points": True,
              "schedules": runs, "compiler_runs": 2 * len(tools), "heap_workloads": len(grid)},
             ["hooks under MOSML_VERIFY force collections only where the collector may run anyway",
              "the expected behaviour of each program is its own behaviour without forced collections, which the other checks judge"])


main()
