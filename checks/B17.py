#!/usr/bin/env python3
"""B17: IntInf is exact integer arithmetic.

All ordered pairs of boundary values around the machine sizes and beyond, under every operation; all short numeral texts in
each radix; histories under forced collections.  Oracle: Python's integers."""
import itertools, os, re, sys
sys.set_int_max_str_digits(0)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAX, MIN = 2**62 - 1, -2**62
PRE = r"""
structure I = IntInf
fun v s = valOf (I.fromString s)
val lines = let val is = TextIO.openIn (hd (CommandLine.arguments ()))
                fun rd () = case TextIO.inputLine is of NONE => [] | SOME l => String.substring (l, 0, size l - 1) :: rd ()
            in rd () end
val K = valOf (Int.fromString (List.nth (CommandLine.arguments (), 1)))
val N = valOf (Int.fromString (List.nth (CommandLine.arguments (), 2)))
fun g f = f () handle Div => "Div" | Overflow => "Overflow" | Domain => "Domain" | Size => "Size" | e => "!" ^ exnName e
fun out s = (print s; print " ")
val b = Bool.toString
val t = I.toString
fun ord LESS = "<" | ord EQUAL = "=" | ord GREATER = ">"
"""
BINARY = PRE + r"""
val vals = Vector.fromList (List.map v lines)
fun two (x, y) = t x ^ "," ^ t y
val ops = [fn p => t (I.+ p), fn p => t (I.- p), fn p => t (I.* p), fn p => t (I.div p), fn p => t (I.mod p), fn p => t (I.quot p), fn p => t (I.rem p),
           two o I.divMod, two o I.quotRem, b o I.<, b o I.>, b o I.<=, b o I.>=, b o I.eq, b o I.ne, t o I.min, t o I.max, b o I.sameSign, ord o I.compare]
val _ = Vector.appi (fn (i, x) => if i mod N <> K then () else
          (Vector.app (fn y => List.app (fn f => out (g (fn () => f (x, y)))) ops) vals; print "\n")) vals
(* operands are as they were *)
val _ = ListPair.app (fn (l, x) => if t x = l then () else print ("MISMATCH operand:" ^ l ^ "\t" ^ t x ^ "\n")) (lines, Vector.foldr (op ::) [] vals)
val _ = print "DONE\n"
"""
UNARY = PRE + r"""
val rad = [StringCvt.BIN, StringCvt.OCT, StringCvt.DEC, StringCvt.HEX]
val exps = [~3, ~2, ~1, 0, 1, 2, 3, 5, 10, 64, 65, valOf Int.minInt]
fun one l =
    let val x = v l
    in List.app out [g (fn () => t (I.~ x)), g (fn () => t (I.abs x)), g (fn () => Int.toString (I.sign x)), g (fn () => Int.toString (I.log2 x)),
                     g (fn () => Int.toString (I.toInt x)), g (fn () => t (I.fromInt (I.toInt x))), g (fn () => t (I.toLarge x)), g (fn () => t (I.fromLarge x))];
       List.app (fn r => out (I.fmt r x)) rad;
       List.app (fn r => out (case StringCvt.scanString (I.scan r) (I.fmt r x) of NONE => "NONE" | SOME y => b (I.eq (x, y)))) rad;
       List.app (fn k => out (g (fn () => t (I.pow (x, k))))) exps;
       List.app (fn x => out (t x)) [I.- (x, x), I.+ (x, x), I.* (x, x), x];
       print "\n"
    end
val _ = List.app one lines
val _ = print "DONE\n"
"""
SCAN = PRE + r"""
val rad = [StringCvt.BIN, StringCvt.OCT, StringCvt.DEC, StringCvt.HEX]
val rest = ref 0
fun scan r s =
    case I.scan r (fn i => if i < size s then SOME (String.sub (s, i), i+1) else NONE) 0 of
        NONE => "-" | SOME (x, i) => t x ^ ":" ^ Int.toString i
fun one (i, l) = if i mod N <> K then () else
    let val s = valOf (String.fromString l)
    in List.app (fn r => out (scan r s)) rad;
       out (case I.fromString s of NONE => "-" | SOME x => t x);
       List.app (fn r => out (case StringCvt.scanString (I.scan r) s of NONE => "-" | SOME x => t x)) rad;
       print "\n"
    end
val _ = Vector.appi one (Vector.fromList lines)
val _ = print "DONE\n"
"""
# chains of operations whose intermediate values become garbage, with other allocation in between
CHAIN = PRE + r"""
val n = valOf (Int.fromString (List.nth (CommandLine.arguments (), 3)))
fun junk k = List.tabulate (k mod 5, fn i => Int.toString i)
fun fac 0 = I.fromInt 1 | fac k = let val r = fac (k-1) val _ = junk k in I.* (r, I.fromInt k) end
fun fib k = let fun lp (0, a, b) = a | lp (k, a, b) = (ignore (junk k); lp (k-1, b, I.+ (a, b))) in lp (k, I.fromInt 0, I.fromInt 1) end
fun powmod (b, e, m) = if e = 0 then I.fromInt 1 else
    let val h = powmod (b, e div 2, m) val q = I.mod (I.* (h, h), m) in if e mod 2 = 1 then I.mod (I.* (q, b), m) else q end
val kept = List.tabulate (n, fn i => (i, I.pow (I.fromInt (i - n div 2), i mod 7)))
fun digits (x, r) = if I.sign x = 0 then r else let val (q, d) = I.divMod (x, v "1000000007") in digits (q, t d ^ "," ^ r) end
val _ = out (t (fac n))
val _ = out (t (fib n))
val _ = out (t (powmod (v "123456789012345678901", 1000 + n, v "1000000000000000000039")))
val _ = out (digits (fac n, ""))
val _ = out (valOf (Option.map t (StringCvt.scanString (I.scan StringCvt.HEX) (I.fmt StringCvt.HEX (fac n)))))
val _ = List.app (fn (i, x) => out (t x)) kept
val _ = print "\nDONE\n"
"""


def s(x):
    return str(x).replace("-", "~")


def fdiv(a, b):
    return a // b


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binary(a, b):
    d = lambda f: "Div" if b == 0 else f()
    t = lambda x: "true" if x else "false"
    sg = lambda x: (x > 0) - (x < 0)
    return [s(a + b), s(a - b), s(a * b), d(lambda: s(a // b)), d(lambda: s(a % b)), d(lambda: s(tdiv(a, b))), d(lambda: s(a - b * tdiv(a, b))),
            d(lambda: s(a // b) + "," + s(a % b)), d(lambda: s(tdiv(a, b)) + "," + s(a - b * tdiv(a, b))),
            t(a < b), t(a > b), t(a <= b), t(a >= b), t(a == b), t(a != b), s(min(a, b)), s(max(a, b)), t(sg(a) == sg(b)),
            "<" if a < b else "=" if a == b else ">"]


OPS = "+ - * div mod quot rem divMod quotRem < > <= >= eq ne min max sameSign compare".split()


def fmt(x, base):
    a, o = abs(x), ""
    while a:
        o = "0123456789ABCDEF"[a % base] + o
        a //= base
    return ("~" if x < 0 else "") + (o or "0")


def unary(x):
    o = [s(-x), s(abs(x)), s((x > 0) - (x < 0)), "Domain" if x <= 0 else str(x.bit_length() - 1)]
    o += [s(x)] * 2 if MIN <= x <= MAX else ["Overflow"] * 2
    o += [s(x)] * 2
    o += [fmt(x, b) for b in (2, 8, 10, 16)] + ["true"] * 4
    for k in (-3, -2, -1, 0, 1, 2, 3, 5, 10, 64, 65, MIN):
        o.append("1" if k == 0 else s(x ** k) if k > 0 else "Div" if x == 0 else s(x ** (k % 2)) if abs(x) == 1 else "0")
    return o + [s(0), s(2 * x), s(x * x), s(x)]


UN = ["~", "abs", "sign", "log2", "toInt", "fromInt", "toLarge", "fromLarge"] + [f"fmt{b}" for b in (2, 8, 10, 16)] + [f"scan{b}" for b in (2, 8, 10, 16)] + \
     [f"pow{k}" for k in (-3, -2, -1, 0, 1, 2, 3, 5, 10, 64, 65, "min")] + ["x-x", "x+x", "x*x", "itself"]


def scan(t, base):
    ds = "0123456789abcdef"[:base] + "ABCDEF"[:max(0, base - 10)]
    m = re.match(rf"[ \n\t\v\f\r]*([+~-]?)([{ds}]+)", t)
    return (int(m[2], base) * (-1 if m[1] and m[1] in "~-" else 1), m.end()) if m else None


def main():
    c = Check("B17")
    T = c.thorough
    ks = [1, 2, 3, 30, 31, 32, 61, 62, 63, 64, 65, 127, 128, 200] + ([16, 33, 95, 96, 129, 192, 256, 511, 1000, 2000, 4001] if T else [1000])
    vals = {0, 10, 12345678901234567890, 10**30, 10**18, 3**50, 2**64 * 3 // 2}
    for k in ks:
        vals |= {2**k + d for d in (-1, 0, 1)}
    vals = sorted({x for v in vals for x in (v, -v)})
    f = c.write(f"{c.work}/vals", "".join(s(v) + "\n" for v in vals))
    cov = {"values": len(vals)}

    # binary operations
    exe = c.compile("binary", BINARY)
    rs = pmap(lambda k: c.harness(exe, [f, k, NCPU]), range(NCPU))
    n = 0
    c.take([r for r in rs if r])
    for k, r in enumerate(rs):
        mine = vals[k::NCPU]
        lines = [l for l in r.out.split("\n") if not l.startswith("MISMATCH")] if r else []
        for x, l in zip(mine, lines):
            got = l.split(" ")
            for i, y in enumerate(vals):
                for op_, w, g in zip(OPS, binary(x, y), got[i * len(OPS):(i + 1) * len(OPS)] + ["?"] * len(OPS)):
                    n += 1
                    if w != g:
                        c.fail(f"{op_}:{s(x)}:{s(y)}", f"got {g[:200]}, expected {w[:200]}")
    cov["binary operations"] = n
    # unary operations
    few = [v for v in vals if abs(v).bit_length() <= 300]
    f1 = c.write(f"{c.work}/few", "".join(s(v) + "\n" for v in few))
    r = c.harness(c.compile("unary", UNARY), [f1, 0, 1])
    n = 0
    for x, l in zip(few, r.out.split("\n") if r else []):
        got = l.split(" ")
        for op_, w, g in zip(UN, unary(x), got + ["?"] * 60):
            n += 1
            if w != g:
                c.fail(f"{op_}:{s(x)}", f"got {g[:200]}, expected {w[:200]}")
    cov["unary operations"] = n
    # every int near the bounds converts
    ints = [MIN, MIN + 1, MAX - 1, MAX, -2**61, 2**61, -2**61 - 1, 2**32, -2**32, 2**31, -2**31 - 1]
    items = [(f"fromInt:{x}", f"IntInf.toString (IntInf.fromInt {s(x)})", s(x)) for x in ints] + \
            [(f"toInt:{x}", f'Int.toString (IntInf.toInt (valOf (IntInf.fromString "{s(x)}"))) handle Overflow => "Overflow"', s(x) if MIN <= x <= MAX else "Overflow")
             for b in (MIN, MAX, 2**63, -2**63, 2**64, -2**64, 2**126) for x in range(b - 3, b + 4)] + \
            [("precision", "if not (isSome IntInf.precision) andalso not (isSome IntInf.minInt) andalso not (isSome IntInf.maxInt) then \"ok\" else \"no\"", "ok")]
    cov["conversions"] = c.cases("conv", "", items)
    # numerals
    alpha = "0179aFg+-~ "
    texts = ["".join(t) for k in range(0, 6 if T else 5) for t in itertools.product(alpha, repeat=k)]
    texts += [a + b for a in (" \n\t", "\v\f\r", "~", "-", "+", "~ ", "+~", "0x", "0", "00") for b in ("123456789012345678901234567890", "FFFFFFFFFFFFFFFFFFFFffffffffffffffffg", "1" * 70, "7" * 40 + "\0", "9\x80", "/", ":", "@", "G", "`", "8", "2")]
    f2 = c.write(f"{c.work}/texts", "".join(smlesc(t) + "\n" for t in texts))
    exe = c.compile("scan", SCAN)
    rs = pmap(lambda k: c.harness(exe, [f2, k, NCPU]), range(NCPU))
    n = 0
    for k, r in enumerate(rs):
        for t, l in zip(texts[k::NCPU], r.out.split("\n") if r else []):
            w = [scan(t, b) for b in (2, 8, 10, 16)]
            want = ["-" if x is None else f"{s(x[0])}:{x[1]}" for x in w] + ["-" if w[2] is None else s(w[2][0])] + ["-" if x is None else s(x[0]) for x in w]
            got = l.split(" ")
            n += len(want)
            for i, (x, y) in enumerate(itertools.zip_longest(want, got[:-1])):
                if x != y:
                    c.fail(f"scan{i}:{smlesc(t)}", f"got {y}, expected {x}")
    cov["numerals read"] = n
    # histories with collections at every allocation point
    exe = c.compile("chain", CHAIN)

    def fac(k):
        r = 1
        for i in range(2, k + 1):
            r *= i
        return r

    def chain(k):
        a, b = 0, 1
        for _ in range(k):
            a, b = b, a + b
        o = [fac(k), a, pow(123456789012345678901, 1000 + k, 1000000000000000000039)]
        ds, x = [], fac(k)
        while x:
            ds.append(s(x % 1000000007))
            x //= 1000000007
        o = [s(x) for x in o] + ["".join(d + "," for d in reversed(ds)), s(fac(k))]
        return o + [s((i - k // 2) ** (i % 7)) for i in range(k)]
    hr, ha = c.inst.hooked_runtime(), c.inst.hooked_runtime(asan=True)
    jobs = [(None, {}, 1500)] + [(hr, {"GC_EVERY": e, "SLICE": sl}, 150) for e in (1, 2, 3, 5, 17, 101) for sl in (1, 50, 100000)]
    jobs += [(ha, {"GC_EVERY": e, "SLICE": sl}, 60) for e in (1, 3, 10) for sl in (1, 1000)]
    jobs += [(hr, {"GC_EVERY": e}, n) for e in (1, 2) for n in range(0, 40)]

    def go(j):
        rt, env, n = j
        e = {"MOSML_VERIFY_" + k: str(x) for k, x in env.items()}
        r = c.harness(exe, [f1, 0, 1, n], runtime=rt, env=dict(e, ASAN_OPTIONS="detect_leaks=0", LD_LIBRARY_PATH=c.inst.lib) if rt == ha else e)
        if r:
            want, got = chain(n), r.out.split("\n")[0].split(" ")[:-1]
            if want != got:
                i = next((i for i, (x, y) in enumerate(zip(want, got)) if x != y), -1)
                c.fail(f"chain:{n}:{env}", f"result {i} differs: {(got + ["nothing"] * 3000)[i][:200]}, expected {(want + ["nothing"] * 3000)[i][:200]}")
        return 1
    cov["runs with forced collections"] = sum(pmap(go, jobs))
    c.sample("2^64-1 div ~(2^63): " + binary(2**64 - 1, -2**63)[3])
    c.finish({"operations": cov["binary operations"] + cov["unary operations"] + cov["numerals read"], "sections": cov},
             ["GMP itself is part of the system under test", "hexadecimal and other digits are upper case, as Int.fmt's are"])


if __name__ == "__main__":
    main()
