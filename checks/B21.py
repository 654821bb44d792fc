#!/usr/bin/env python3
"""B21: real arithmetic, Math, conversions between real and int, and PackReal are the IEEE operations, with Overflow, Div and Domain.

All ordered pairs of a set of boundary and ordinary doubles under every binary operation, all of them under every unary
one, in several syntactic forms; every int boundary converted to real; doubles around every rounding boundary converted
to int by floor, ceil, trunc and round.  Results are compared bit for bit with Python (same libm)."""
import itertools, math, os, struct, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXD = sys.float_info.max / 2          # the largest magnitude an operation may return
MAXI, MINI = 2**62 - 1, -2**62


def bits(v):
    return struct.pack(">d", v + 0.0 if v else 0.0).hex().upper()


def lit(v):
    return f"(r64 \"{bits(v)}\")"


PRE = r'''
fun hexv c = if Char.isDigit c then ord c - 48 else ord c - 55
fun r64 s = PackRealBig.fromBytes (Word8Vector.tabulate (8, fn i => Word8.fromInt (16 * hexv (String.sub (s, 2*i)) + hexv (String.sub (s, 2*i+1)))))
fun hx w = let val s = Word8.toString w in if size s < 2 then "0" ^ s else s end
fun show r = String.concat (List.map hx (Word8Vector.foldr (op ::) [] (PackRealBig.toBytes r)))
fun showL r = String.concat (List.map hx (Word8Vector.foldr (op ::) [] (PackRealLittle.toBytes r)))
fun ex f = f () handle e => "!" ^ exnName e
'''


def vals(deep):
    v = [0.0, 1.0, 2.0, 0.5, 0.1, 1 / 3, 3.0, 10.0, 1.5, 2.5, 1e-5, 123456.789, 1e10, 2.0**31, 2.0**52, 2.0**53, 2.0**62, 2.0**63, 1e100, 1e-100, 1e150, 1e155, 1e200, 1e-200, 1e300, 1e-300, 8.9e307,
         MAXD, math.nextafter(MAXD, 0), MAXD / 2, 2.2250738585072014e-308, 4.9e-324, math.nextafter(1, 2), math.nextafter(1, 0), math.pi, math.pi / 2, math.e, 709.0, 710.0, 711.0, 700.0, 745.0, 7.0, 20.0]
    if deep:
        v += [k / 7 * 10.0 ** e for k in (1, 5) for e in range(-20, 21, 4)] + [2.0 ** k for k in range(-60, 64, 6)]
    return v + [-x for x in v if x]


def ovf(x):
    if x != x:
        return "nan"
    return "!Overflow" if abs(x) > MAXD else bits(x)


def div(a, b):
    return "!Div" if b == 0 else ovf(pdiv(a, b))


def pdiv(a, b):
    try:
        return a / b
    except OverflowError:
        return math.inf


def pmul(a, b):
    return a * b


def dom(cond, f, *a, exc="!Overflow"):
    if cond:
        return "!Domain"
    try:
        return ovf(f(*a))
    except OverflowError:
        return exc
    except ValueError:
        return "!Domain"


def powr(x, y):
    if x == 0 and y == 0:
        return bits(1.0)
    if (x == 0 and y < 0) or (x < 0 and not float(y).is_integer()):
        return "!Domain"
    if x < 0 and abs(y) > 2.0**62:
        return "unspecified"
    try:
        return ovf(math.pow(x, y))
    except OverflowError:
        return "!Overflow"


def sgn(a):
    return (a > 0) - (a < 0)


def cmp(a, b):
    return "LESS" if a < b else "GREATER" if a > b else "EQUAL"


def toint(x, how):
    f = Fraction(x)
    if how == "floor":
        n = math.floor(f)
    elif how == "ceil":
        n = math.ceil(f)
    elif how == "trunc":
        n = math.trunc(f)
    else:
        n = round(f)
    return smlint(n) if MINI <= n <= MAXI else "!Overflow"


def main():
    c = Check("B21")
    V = vals(c.thorough)
    n = 0

    def table(name, body, want):
        return rows(c, name, PRE + "val vs = [" + ",\n".join(lit(v) for v in V) + "]\nval ivs = let fun h i [] = [] | h i (x::r) = (i : int, x : real) :: h (i+1) r in h 0 vs end\n" + body, want)

    bins = {"+": lambda a, b: ovf(a + b), "-": lambda a, b: ovf(a - b), "*": lambda a, b: ovf(pmul(a, b)), "/": div,
            "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
    forms = {}
    for o in bins:
        r = "show" if o in "+-*/" else "Bool.toString"
        o2 = f"op {o} " if o == "*" else f"op {o}"
        forms[o] = [(f"{o}", f"fn (x : real, y : real) => {r} (x {o} y)"), (f"op {o}", f"fn p => {r} (({o2} : real * real -> {'real' if o in '+-*/' else 'bool'}) p)"), (f"Real.{o}", f"fn p => {r} (Real.{o} p)"),
                    (f"in a let {o}", f"fn (x : real, y) => let val z = x val w = y val q = (z, w) in {r} (z {o} w) end"), (f"if {o}", f"fn (x : real, y) => if x {o} y then \"true\" else \"false\"" if o in ("<", "<=", ">", ">=") else f"fn (x, y : real) => show (1.0 * (x {o} y))")]
    funs = {"Real.min": (lambda a, b: bits(min(a, b)), "show"), "Real.max": (lambda a, b: bits(max(a, b)), "show"), "Real.compare": (cmp, "o2s"), "Real.sameSign": (lambda a, b: str(sgn(a) == sgn(b)).lower(), "Bool.toString"),
            "Real.==": (lambda a, b: str(a == b).lower(), "Bool.toString"), "Real.!=": (lambda a, b: str(a != b).lower(), "Bool.toString"), "Real.?=": (lambda a, b: "false", "Bool.toString"), "Math.pow": (powr, "show"),
            "Math.atan2": (lambda a, b: bits(0.0) if a == 0 == b else bits(math.atan2(a, b)), "show")}
    fl = [(nm, f, bins[o]) for o, fs in forms.items() for nm, f in fs] + [(nm, f"fn p => {sh} ({nm} p)", w) for nm, (w, sh) in funs.items()]
    body = "fun o2s LESS = \"LESS\" | o2s EQUAL = \"EQUAL\" | o2s GREATER = \"GREATER\"\n"
    for nm, f, _ in fl:
        body += f'val f = {f}\nval _ = app (fn (i, x) => app (fn (j, y) => print ("{nm} " ^ Int.toString i ^ " " ^ Int.toString j ^ "\\t" ^ ex (fn () => f (x, y)) ^ "\\n")) ivs) ivs\n'

    def want2():
        for nm, _, w in fl:
            for i, a in enumerate(V):
                for j, b in enumerate(V):
                    r = w(a, b)
                    yield f"{nm} {i} {j}", (str(r).lower() if isinstance(r, bool) else r)
    n2 = table("bin", body, want2())

    # literals as operands: the constant's code path
    its = []
    for o, w in bins.items():
        for b in (0.0, 1.0, -1.0, 2.5, 1e300, -1e-5):
            l = repr(b).replace("-", "~").replace("e", "E").replace("+", "")
            for a in V:
                r = w(a, b)
                its.append((f"{a!r} {o} literal {b!r}", f"{'show' if o in '+-*/' else 'b2s'} ({lit(a)} {o} {l})", str(r).lower() if isinstance(r, bool) else r))
                r = w(b, a)
                its.append((f"literal {b!r} {o} {a!r}", f"{'show' if o in '+-*/' else 'b2s'} ({l} {o} {lit(a)})", str(r).lower() if isinstance(r, bool) else r))
    # real literals
    for m in ("0.0", "1.0", "0.1", "123.456", "9.999999999999999", "3.14159265358979323846", "1.7976931348623157", "00012.50", "1", "4503599627370497.5", "9007199254740993.0", "0.1234567890123456789012345678"):
        for e in ("", "E0", "e0", "E1", "E~1", "e10", "E~10", "E100", "E~100", "E300", "e~300", "E~320", "E007"):
            if m + e == m and "." not in m:
                continue
            v = float((m + e).replace("~", "-"))
            if abs(v) > MAXD:
                continue
            its.append((f"literal {m}{e}", f"show {m}{e}", bits(v)))
            its.append((f"literal ~{m}{e}", f"show ~{m}{e}", bits(-v)))
    n3 = c.cases("lits", PRE, its)

    # unary
    un = {"~": lambda a: ovf(-a), "abs": lambda a: ovf(abs(a)), "Real.~": lambda a: ovf(-a), "Real.abs": lambda a: ovf(abs(a)), "Math.sqrt": lambda a: dom(a < 0, math.sqrt, a), "Math.sin": lambda a: bits(math.sin(a)),
          "Math.cos": lambda a: bits(math.cos(a)), "Math.atan": lambda a: bits(math.atan(a)), "Math.asin": lambda a: dom(abs(a) > 1, math.asin, a), "Math.acos": lambda a: dom(abs(a) > 1, math.acos, a), "Math.exp": lambda a: dom(False, math.exp, a),
          "Math.ln": lambda a: dom(a <= 0, math.log, a), "Math.sinh": lambda a: dom(False, math.sinh, a), "Math.cosh": lambda a: dom(False, math.cosh, a), "Math.tanh": lambda a: bits(math.tanh(a)),
          "Math.log10": lambda a: "!Domain" if a <= 0 else bits(math.log(a) / math.log(10.0)), "Math.tan": lambda a: bits(math.sin(a) / math.cos(a))}
    body = ""
    for nm in un:
        body += f'val f = {nm} : real -> real\nval _ = app (fn (i, x) => print ("{nm} " ^ Int.toString i ^ "\\t" ^ ex (fn () => show (f x)) ^ "\\n")) ivs\n'
    body += 'val _ = app (fn (i, x) => print ("sign " ^ Int.toString i ^ "\\t" ^ Int.toString (Real.sign x) ^ "\\n")) ivs\n'
    body += 'val _ = app (fn (i, x) => print ("little " ^ Int.toString i ^ "\\t" ^ showL x ^ "\\n")) ivs\n'
    body += 'val _ = app (fn (i, x) => print ("little back " ^ Int.toString i ^ "\\t" ^ show (PackRealLittle.fromBytes (PackRealLittle.toBytes x)) ^ "\\n")) ivs\n'
    body += 'val _ = app (fn (i, x) => print ("default " ^ Int.toString i ^ "\\t" ^ show (Real.toDefault (Real.fromDefault x)) ^ "\\n")) ivs\n'

    def want1():
        for nm, w in un.items():
            for i, a in enumerate(V):
                try:
                    yield f"{nm} {i}", w(a)
                except ValueError:
                    yield f"{nm} {i}", "unspecified"
        for i, a in enumerate(V):
            yield f"sign {i}", smlint(sgn(a))
            yield f"little {i}", bytes.fromhex(bits(a))[::-1].hex().upper()
            yield f"little back {i}", bits(a)
            yield f"default {i}", bits(a)
    n4 = table("un", body, want1())

    # int <-> real
    pts = set()
    for b in (0, 1, 2, 3, 4, 5, 100, 2**30, 2**31, 2**32, 2**51, 2**52, 2**53, 2**61, 2**62, 2**63, 2**64):
        for d in (0, 0.25, 0.5, 0.75, 1, 1.5, 2.5):
            for s in (1, -1):
                x = s * (b + d)
                pts |= {x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), s * (b - d)}
    pts |= {float(x) for x in V}
    pts = sorted(p + 0.0 for p in pts)
    its = []
    for p in pts:
        for f in ("floor", "ceil", "trunc", "round"):
            its.append((f"{f} {p!r}", f"i2s ({f} {lit(p)})", toint(p, f)))
            its.append((f"Real.{f} {p!r}", f"i2s (Real.{f} {lit(p)})", toint(p, f)))
    for i in sorted({s * (2**k + d) for k in (0, 1, 10, 30, 31, 32, 52, 53, 54, 60, 61, 62) for d in (-1, 0, 1, 2, 3, 2**(max(k - 53, 0)), 3 * 2**(max(k - 54, 0))) for s in (1, -1)}):
        if MINI <= i <= MAXI:
            its.append((f"real {i}", f"show (real ({smlint(i)}))", bits(float(i))))
            its.append((f"Real.fromInt {i}", f"show (Real.fromInt ({smlint(i)}))", bits(float(i))))
    # PackReal on arrays and sub-vectors
    by = list(range(1, 25))
    for big in (True, False):
        st = "PackRealBig" if big else "PackRealLittle"
        its.append((f"{st} constants", f"b2s ({st}.isBigEndian) ^ i2s {st}.bytesPerElem", str(big).lower() + "8"))
        for i in (-1, 0, 1, 2, 3):
            ok = 0 <= i <= 2
            w = bytes(by[8 * i:8 * i + 8]) if ok else b""
            w = w if big else w[::-1]
            for nm, mk in (("subVec", f"(Word8Vector.fromList (map Word8.fromInt {by}))"), ("subArr", f"(Word8Array.fromList (map Word8.fromInt {by}))")):
                its.append((f"{st}.{nm} {i}", f"show ({st}.{nm} ({mk}, {smlint(i)}))", w.hex().upper() if ok else "!Subscript"))
            b = bytes.fromhex(bits(1 / 3))
            b = b if big else b[::-1]
            exp = by[:]
            if ok:
                exp[8 * i:8 * i + 8] = list(b)
            its.append((f"{st}.update {i}", f"let val a = Word8Array.fromList (map Word8.fromInt {by}) val r = (({st}.update (a, {smlint(i)}, {lit(1 / 3)}); \"\") handle e => exnName e) in r ^ l2s (i2s o Word8.toInt) (Word8Array.foldr (op ::) [] a) end",
                        ("" if ok else "Subscript") + sl(exp)))
        for l in (0, 7, 8, 9):
            b = bytes(by[:8]) if big else bytes(by[:8])[::-1]
            if not big and l > 8:
                continue
            its.append((f"{st}.fromBytes {l} bytes", f"show ({st}.fromBytes (Word8Vector.fromList (map Word8.fromInt {by[:l]})))", b.hex().upper() if l >= 8 else "!Subscript"))
    n5 = c.cases("conv", PRE, its)
    c.sample("round 4.611686018427388e18 raises Overflow")
    c.sample("Math.pow(~8.98846567431158E307, 1.0)")
    n = n2 + n3 + n4 + n5
    c.finish({"states": n, "transitions": n, "traces_validated_against_impl": n, "exhaustive": True, "reals": len(V), "int_conversions": len(pts) * 8,
              "bound": "all ordered pairs of the listed reals under all binary operations and forms; all listed reals under all unary ones; doubles adjacent to every half-integer boundary listed"},
             ["an operation whose result exceeds half the largest double raises Overflow (the implementation's documented lack of infinities)", "transcendental functions are compared with the same libm"])


main()
