#!/usr/bin/env python3
"""R04: calls may nest as deep as memory allows, and an exception reaches the innermost enclosing handler, at every depth.

Families of recursive programs: every call shape x number of live variables x spacing of handlers x stack alignment; each runs
a series of depths that makes the evaluation stack grow through all its sizes, with a value, a raise, a primitive that raises
or a callback from C at the bottom.  Oracle: a loop over the levels.  Frames are also run under AddressSanitizer."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

PRE = r'''
exception E of int
fun i2s (n : int) = Int.toString n
val bads = ref 0 and cnt = ref 0
fun bad key = if !bads > 5 then () else (bads := !bads + 1; print ("MISMATCH " ^ key ^ "\n"))
(* what happens at the bottom *)
fun lexcall n = (* a callback from C, the reading function, which itself recurses *)
  let fun down 0 = 0 | down k = 1 + down (k-1)
      fun rd buf m = (CharArray.update (buf, 0, Char.chr (down n mod 7 + 65)); 1)
      val lb = Lexing.createLexer rd
  in Char.ord (Lexing.getNextChar lb) - 65 end
fun lexraise n = let fun rd buf m = raise E n val lb = Lexing.createLexer rd in ignore (Lexing.getNextChar lb); 0 end
val bottoms = [("value", fn n => n), ("raise", fn n => raise E n), ("Subscript", fn n => Char.ord (String.sub ("abc", n + 3))), ("Overflow", fn n => valOf Int.maxInt + n + 1), ("Div", fn n => n div (n - n)),
   ("callback", fn n => lexcall n), ("callback that raises", lexraise), ("list exception", fn n => hd (List.tabulate (n - n, fn i => i)))]
datatype st = V of int | R of int
fun code (E j) = j | code Subscript = 1001 | code Overflow = 1002 | code Div = 1003 | code Empty = 1004 | code _ = ~1
fun bottomSt ("value", n) = V n | bottomSt ("raise", n) = R n | bottomSt ("Subscript", n) = R 1001 | bottomSt ("Overflow", n) = R 1002 | bottomSt ("Div", n) = R 1003
  | bottomSt ("callback", n) = V (n mod 7) | bottomSt ("callback that raises", n) = R n | bottomSt (_, n) = R 1004
(* the handler of level n: keeps the exceptions of its own residue, passes on the others with the next number *)
fun hnd n e = let val j = code e in if j mod 3 = n mod 3 then 7 * n else raise E (j + 1) end
fun model (top, h, bname, b, extra) =
  let fun go n s = if n > top then s else
        go (n+1) (case s of V v => V ((v + 1 + extra n) mod 1000003)
                   | R j => if n mod h = 0 then (if j mod 3 = n mod 3 then V ((7 * n + 1 + extra n) mod 1000003) else R (j + 1)) else R j)
  in go 1 (bottomSt (bname, b)) end
fun show (V v) = "value " ^ i2s v | show (R j) = "exception " ^ i2s j
'''


def program(shape, k, h, off):
    """level n: (rec (n-1) handle e => hnd n e, when n mod h = 0) + 1 + extra n, with k live variables across the call"""
    live = "".join(f" val a{i} = n + {i}" for i in range(k))
    uses = "".join(f" + a{i}" for i in range(k))
    ex = f"fun extra (n : int) = {k} * n + {sum(range(k))}\n" if k else "fun extra (n : int) = 0\n"
    args = {"one": "n", "cur2": "x2 n", "cur3": "x2 x3 n", "cur4": "x2 x3 x4 n", "cur5": "x2 x3 x4 x5 n", "tuple": "(n, x2)", "closure": "n", "hof": "n", "method": "n", "mutual": "n"}[shape]
    nxt = args.replace("n", "(n-1)") if shape != "tuple" else "(n-1, x2)"
    call = f"g {nxt}"
    body = f"if n = 0 then bot () else let{live} in (1 + (if n mod {h} = 0 then ({call} handle e => hnd n e) else {call}){uses}) mod 1000003 end"
    if shape in ("one", "cur2", "cur3", "cur4", "cur5", "tuple"):
        d = f"fun g {args} = {body}\nfun top n = g {args.replace('x2', '12').replace('x3', '13').replace('x4', '14').replace('x5', '15')}\n"
    elif shape == "closure":
        d = f"fun top n = let val c1 = n val c2 = n + 1 fun g n = if c1 < 0 then c2 else {body} in g n end\n"
    elif shape == "hof":
        d = f"fun ap f x = f x\nfun g n = {body.replace('g (n-1)', 'ap g (n-1)')}\nfun top n = g n\n"
    elif shape == "method":
        d = f"val r = ref (fn (n : int) => 0)\nfun g n = {body.replace('g (n-1)', '!r (n-1)')}\nval _ = r := g\nfun top n = g n\n"
    else:
        d = f"fun g n = {body.replace('g (n-1)', 'g2 0 (n-1)')}\nand g2 z n = if z > 0 then z else g n\nfun top n = g n\n"
    pads = "".join(f"let val p{i} = !one + {i} in " for i in range(off))
    pade = "".join(f" + p{i} - p{i}" for i in range(off))
    return PRE + "val bot = ref (fn () => 0)\nfun run_bot () = !bot ()\nval one = ref 1\n" + ex + d.replace("bot ()", "run_bot ()") + f"fun shifted n = {pads}top n{pade}{' end' * off}\n" + f'''
val depths = List.tabulate (110, fn i => i * 7 + i div 3) @ [800, 811, 900, 1000, 1300, 1700, 2500, 3333, 5000, 7000, 11000, 15000, 30000] @ (if {1 if k < 3 else 0} = 1 then [60000] else [])
val _ = List.app (fn n => List.app (fn (nm, b) =>
   let val bn = n mod 11 val _ = bot := (fn () => b bn) val _ = cnt := !cnt + 1
       val got = V (shifted n) handle e => R (code e)
       val want = model (n, {h}, nm, bn, extra)
   in if got = want then () else bad ("{shape} calls, {k} live variables, a handler every {h} levels, offset {off}, depth " ^ i2s n ^ ", at the bottom: " ^ nm ^ "\\texpected " ^ show want ^ ", got " ^ show got) end)
   (if n > 5000 then List.take (bottoms, 3) else bottoms)) depths
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\\nDONE\\n")
'''


def big(m, kind):
    """an expression that needs about m stack slots, evaluated at every depth"""
    if kind == "tuple":
        e, v = f"#{m} (" + ",".join(f"x+{i}" for i in range(1, m + 1)) + ")", m
    elif kind == "list":
        e, v = "List.last [" + ",".join(f"x+{i}" for i in range(1, m + 1)) + "]", m
    elif kind == "nest":
        e, v = "(x+".join([""] + ["1-"] * 0) + "+".join(["x"]), 0
        e = "".join(f"(x - (" for _ in range(m // 2)) + "x + 1" + "))" * (m // 2)
        v = None
    elif kind == "locals":
        e, v = "let " + " ".join(f"val v{i} = x + {i}" for i in range(1, m + 1)) + " in " + f"v{m} + (v1 - v2) - (v1 - v2)" + " end", m
    else:
        fs = " ".join(f"x{i}" for i in range(m))
        return f"fun wide {fs} = x0 + x{m - 1}\nfun big x = wide {' '.join(f'(x+{i})' for i in range(m))} - x\n", m - 1
    return f"fun big x = {e}\n", v


def big_program(m, kind, off):
    d, v = big(m, kind)
    pads = "".join(f"let val p{i} = !one + {i} in " for i in range(off))
    return PRE + "val one = ref 1\n" + d + f'''
fun deep (0, x) = big x | deep (n, x) = let val r = deep (n-1, x) in r + 1 end
fun shifted n = {pads}deep (n, 5){"".join(f" + p{i} - p{i}" for i in range(off))}{" end" * off}
val at0 = {"big 5" if v is None else 5 + v}
fun go (n, hi) = if n > hi then () else (cnt := !cnt + 1; if shifted n = at0 + n then () else bad ("an expression of {m} slots ({kind}) at depth " ^ i2s n); go (n+1, hi))
val [LO, HI] = CommandLine.arguments ()
val _ = go (valOf (Int.fromString LO), valOf (Int.fromString HI))
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\\nDONE\\n")
'''


OOM = PRE + r'''
fun inf n = 1 + inf (n + 1)
fun infh n = 1 + (infh (n + 1) handle Div => 0)
fun infc (n, x) = let val a = n + 1 val b = x + 1 in a + b + infc (a, b) end
fun infl n = (n + 1) :: infl (n + 1)
val live = Array.tabulate (1000, fn i => [i, i + 1])
fun intact () = Array.foldli (fn (i, [a, b], t) => t andalso a = i andalso b = i + 1 | _ => false) true live
fun try nm f = let val r = (ignore (f ()); "returned") handle Out_of_memory => "Out_of_memory" | e => exnName e in
   cnt := !cnt + 1; if r = "Out_of_memory" then () else bad (nm ^ "\tinfinite recursion gave " ^ r); if intact () then () else bad (nm ^ "\tlive data changed") end
fun sum 0 = 0 | sum n = n + sum (n-1)
fun ok () = if sum 50000 = 1250025000 then () else bad "a recursion of depth 50000 after an exhausted stack"
val order = map (valOf o Int.fromString) (CommandLine.arguments ())
val _ = List.app (fn 0 => try "plain" (fn () => inf 0) | 1 => try "with handlers" (fn () => infh 0) | 2 => try "with locals" (fn () => infc (0, 0)) | 3 => try "consing" (fn () => length (infl 0)) | _ => ok ()) order
(* caught deep inside, the computation goes on from there *)
fun down 0 = (inf 0 handle Out_of_memory => 5) | down n = 1 + down (n - 1)
val _ = if down 1000 = 1005 then () else bad "Out_of_memory handled at depth 1000"
val _ = ok ()
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\nDONE\n")
'''

UNCAUGHT = r'''
exception Mine of int * string and Plain
fun deep 0 f = f () | deep n f = let val r = deep (n-1) f in r + 1 end
val which = hd (CommandLine.arguments ()) val n = valOf (Int.fromString (List.nth (CommandLine.arguments (), 1)))
val _ = print "before\n"
val _ = deep n (fn () => case which of "mine" => raise Mine (3, "x") | "plain" => raise Plain | "fail" => raise Fail "text" | "div" => 1 div (n - n) | "sub" => Char.ord (String.sub ("", n)) | "exit" => OS.Process.exit OS.Process.failure | "over" => valOf Int.maxInt + n + 1 | _ => 0)
val _ = print "after\n"
'''


OVER_PRE = r'''
exception E of int
fun deep 0 = 0 | deep n = 1 + deep (n-1)
fun thrower x = if x > 0 then raise E x else x
fun hdeep 0 = raise E 5 | hdeep n = 1 + hdeep (n-1)
fun id x = x
val r = ref 0
'''
# bodies of a function of the parameter a1 (0 or 1) that give K (a function of the remaining arguments) or L (another)
BODIES = [("raise caught", "(if a1 > 0 then raise E 1 else K) handle E _ => L", 1), ("call caught", "(r := thrower a1; K) handle E _ => L", 1), ("caught in let", "let val z = thrower a1 handle E x => x + 1 in if z > 0 then L else K end", 1),
          ("not raised", "K handle E _ => L", 0), ("wrong handler", "((if a1 > 0 then raise E 1 else K) handle Div => K) handle E _ => L", 1),
          ("raised in handler", "(if a1 > 0 then raise Div else K) handle Div => ((raise E 2) handle E _ => L)", 1), ("handler raises", "((if a1 > 0 then raise Div else K) handle Div => raise E 2) handle E _ => L", 1),
          ("case", "case (thrower a1 handle E x => x) of 0 => K | _ => L", 1), ("caught deep", "(r := (if a1 > 0 then hdeep 2000 else 0); K) handle E _ => L", 1), ("primitive", "(r := 1 div (1 - a1); K) handle Div => L", 1),
          ("overflow", "(r := valOf Int.maxInt - 1 + a1 + a1; K) handle Overflow => L", 1), ("external primitive", "(r := size (substring (\"\", 0, a1)); K) handle Subscript => L", 1),
          ("loop", "(r := 3; while !r > 0 do r := !r - 1; if a1 > 0 then L else K)", 1), ("deep call", "(r := deep 3000; if a1 > 0 then L else K)", 1), ("local function", "let fun h 0 = K | h n = L in h a1 end", 1),
          ("chain", "id (id (if a1 > 0 then L else K))", 1), ("over-applied inside", "id id id (if a1 > 0 then L else K)", 1), ("sequence", "(thrower (a1 - 1); if a1 > 0 then L else K)", 1),
          ("two handlers", "(r := (thrower a1 handle E x => x); (if !r > 0 then raise E 1 else K) handle E _ => L)", 1), ("string case", "case (if a1 > 0 then \"x\" else \"y\") of \"x\" => L | _ => K", 1)]
USES = [("tail", "fun use () = {call}", lambda v: str(v)), ("added", "fun use () = 1 + {call}", lambda v: str(v + 1)), ("protected", "fun use () = {call} handle E _ => ~1", lambda v: str(v)),
        ("in a handler", "fun use () = (raise E 0) handle E _ => {call}", lambda v: str(v)), ("in a protected call", "fun use () = (2 * {call} handle Div => ~1) handle E _ => ~2", lambda v: str(2 * v)),
        ("mapped", "fun use () = hd (map ({but1}) [{last}])", lambda v: str(v)), ("stored", "fun use () = let val k = {but1} in k {last} + k {last} end", lambda v: str(2 * v)), ("argument", "fun use () = id ({call})", lambda v: str(v)),
        ("deep inside", "fun use () = let fun go 0 = {call} | go n = go (n-1) + 1 in go 1500 end", lambda v: str(v + 1500))]


def over_items(th):
    items = []
    for p in (1, 2, 3, 4, 6) if th else (1, 2, 3):
        for e in (1, 2, 3, 4, 5, 7) if th else (1, 2, 3, 4):
            ps = [f"a{i}" for i in range(1, p + 1)]
            qs = [f"b{j}" for j in range(1, e + 1)]
            K = lambda m: "(" + " ".join(f"fn {q} =>" for q in qs) + " " + " + ".join([f"{10 ** i} * {x}" for i, x in enumerate(ps + qs)]) + f" + {m})"
            for nm, body, diff in BODIES:
                import re as _re
                b = _re.sub(r"\bK\b", lambda _: K(0), _re.sub(r"\bL\b", lambda _: K(500), body))
                d = f"fun f {' '.join(ps)} = {b}"
                for un, u, val in USES:
                    for a1 in (0, 1):
                        vs = [a1] + [(i * 3 + 2) % 8 for i in range(1, p + e)]
                        args = [str(x) for x in vs]
                        v = sum(10 ** i * x for i, x in enumerate(vs)) + (500 if a1 and diff else 0)
                        code = f"let {d} {u.format(call='f ' + ' '.join(args), but1='f ' + ' '.join(args[:-1]), last=args[-1])} in i2s (use ()) end"
                        items.append((f"{nm}: {p} parameters, {e} more arguments, {un}, first argument {a1}", code, val(v)))
    return items


def main():
    c = Check("R04")
    th = c.thorough
    shapes = ["one", "cur2", "cur3", "cur4", "cur5", "tuple", "closure", "hof", "method", "mutual"]
    cfg = [(s, k, h, o) for s in shapes for k in range(0, 5 if not th else 9) for h in ((1, 2, 5) if not th else (1, 2, 3, 4, 5, 9)) for o in range(0, 3 if not th else 8)]
    if not th:
        cfg = [x for i, x in enumerate(cfg) if x[1] in (0, 1, 3) or i % 2]
    # one executable per batch of configurations would share a stack that has already grown: each configuration is its own program
    def one(x):
        i, (s, k, h, o) = x
        e = c.compile(f"p{i}", program(s, k, h, o))
        r = c.harness(e, timeout=120)
        if e:
            shutil_rm(os.path.dirname(e))
        return r
    tot = c.take([r for r in pmap(one, list(enumerate(cfg))) if r])
    n = tot.get("n", 0)

    ov = over_items(th)
    nov = c.cases("over", OVER_PRE, ov, shard=270)

    # frames of many slots, under AddressSanitizer (an access outside the stack is reported)
    asan = c.inst.hooked_runtime(asan=True)
    bigs = [(m, kd, o) for kd, ms in (("tuple", (40, 120, 200, 230)), ("list", (100, 200)), ("nest", (120, 220)), ("locals", (100, 200)), ("args", (20, 60))) for m in ms for o in (range(0, 6) if th else (0, 1, 4))]
    ranges = [(0, 450), (450, 950), (950, 1500)] + ([(1500, 2500), (2500, 5000)] if th else [])

    def bigrun(x):
        i, (m, kd, o) = x
        e = c.compile(f"b{i}", big_program(m, kd, o))
        return [c.harness(e, [a, b], runtime=rt, timeout=200, env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}) for a, b in ranges for rt in ((asan,) if a < 950 or th else (None,))] if e else []
    res = [r for l in pmap(bigrun, list(enumerate(bigs))) for r in l if r]
    nb = c.take(res).get("n", 0)
    # known: larger frames (see known_findings.txt)
    e = c.compile("frame600", big_program(600, "tuple", 0))
    if e:
        r = run([c.inst.camlrunm, e, "0", "1500"], env=c.env, timeout=60)
        nb += 1
        if r.rc or "DONE" not in r.out:
            c.fail("frame:600", f"a tuple expression of 600 components evaluated at the end of the stack: status {r.rc}")

    # exhausting the stack, in every order of the kinds
    e = c.compile("oom", OOM)
    orders = [p for l in (1, 2, 3) for p in itertools.product(range(4), repeat=l)] if th else [p for l in (1, 2) for p in itertools.product(range(4), repeat=l)] + list(itertools.permutations(range(4), 3))
    if e:
        no = c.take([r for r in pmap(lambda p: c.harness(e, [*p, 4], timeout=120), orders, 6) if r]).get("n", 0)
        n += no

    # exceptions that reach the top end the program with a report and status 2
    e = c.compile("uncaught", UNCAUGHT)
    if e:
        for which, pat, rc in (("mine", "Mine", 2), ("plain", "Plain", 2), ("fail", "Fail.*text", 2), ("div", "Div", 2), ("sub", "Subscript", 2), ("over", "Overflow", 2), ("none", "", 0), ("exit", "", 255)):
            for d in (0, 1, 700, 5000, 50000):
                r = run([c.inst.camlrunm, e, which, str(d)], env=c.env, timeout=30)
                n += 1
                want = "before\n" + ("after\n" if which == "none" else "")
                if r.rc != rc or r.out != want or (pat and not re.search(pat, r.err)) or (not pat and r.err):
                    c.fail(f"uncaught {which} at depth {d}", f"status {r.rc} (expected {rc}), output {r.out!r}, stderr {r.err[-200:]!r}")
    c.sample("cur3 calls, 2 live variables, a handler every 5 levels, offset 1: depths 0..60000, eight kinds of bottom")
    c.finish({"states": len(cfg) + len(bigs) + nov, "transitions": n + nb + nov, "traces_validated_against_impl": n + nb + nov, "over_application_cases": nov, "exhaustive": True, "program_configurations": len(cfg), "evaluations": n, "frame_evaluations": nb, "exhaustion_orders": len(orders),
              "bound": "20 bodies with handlers and control x parameters x further arguments x 9 uses; 10 call shapes x live variables x handler spacings x offsets; depths to 60000; frames to 230 slots at every depth to 1500 (950 under AddressSanitizer)"},
             ["a frame of more than 256 slots is a known finding"])


def shutil_rm(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


main()
