#!/usr/bin/env python3
"""B05: numbers and their text: Int, Word, Word8, Bool and Real scan, fromString, fmt, toString.

Every text over the numeral alphabet of each radix up to a length is scanned by the real scanners, with two readers
(substring and list), and the value and the length of the unused part are compared with a regular-expression reference;
every boundary value is formatted in every radix and scanned back; numerals around the largest representable values,
with and without leading zeros, must give the exact value or Overflow."""
import itertools, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

RAD = {"BIN": (2, "01"), "OCT": (8, "0-7"), "DEC": (10, "0-9"), "HEX": (16, "0-9a-fA-F")}
SP = r"[ \t\n\v\f\r]*"
MAXI, MINI, MAXW = 2**62 - 1, -2**62, 2**63 - 1


def value(m, radix):
    return int(m.translate(str.maketrans("", "", "")), radix)


def int_ref(rad, s):
    b, cls = RAD[rad]
    m = re.match(rf"{SP}([+~-]?)" + (rf"(?:0[xX](?=[{cls}]))?" if rad == "HEX" else "") + rf"([{cls}]+)", s)
    if not m:
        return None
    v = int(m[2], b) * (-1 if m[1] and m[1] in "~-" else 1)
    return ("Overflow" if not MINI <= v <= MAXI else v), len(s) - m.end()


def word_ref(rad, s, top):
    b, cls = RAD[rad]
    if rad == "HEX" and re.match(rf"{SP}0w[{cls}]", s):
        return "unspecified"      # the documented format has no 0w without x
    pre = rf"(?:0w[xX](?=[{cls}])|0[xX](?=[{cls}]))?" if rad == "HEX" else rf"(?:0w(?=[{cls}]))?"
    m = re.match(rf"{SP}" + pre + rf"([{cls}]+)", s)
    if not m:
        return None
    v = int(m[1], b)
    return ("Overflow" if v > top else v), len(s) - m.end()


def bool_ref(s):
    m = re.match(SP + r"(true|false)", s, re.I)
    return (m[1].lower(), len(s) - m.end()) if m else None


def show(r, f=smlint):
    if r is None:
        return "NONE"
    return "!Overflow" if r[0] == "Overflow" else f"{f(r[0])} {r[1]}"


def fmt(v, b):
    d = "0123456789ABCDEF"
    s, n = "", abs(v)
    while True:
        s = d[n % b] + s
        n //= b
        if n == 0:
            return ("~" if v < 0 else "") + s


PRE = r'''
fun words alpha l f = let fun h 0 acc = f (String.implode acc) | h n acc = app (fn c => h (n-1) (c :: acc)) alpha in h l [] end
fun upto a b f = if a > b then () else (f a; upto (a+1) b f)
fun res f NONE = "NONE" | res f (SOME (v, n)) = f v ^ " " ^ Int.toString n
(* scan with both readers; they must agree *)
fun both show scan scanL scanS s =
  let val a = res show (case scan Substring.getc (Substring.full ("#" ^ s)) of _ => (case scan Substring.getc (Substring.triml 1 (Substring.full ("#" ^ s))) of NONE => NONE | SOME (v, r) => SOME (v, Substring.size r))) handle e => "!" ^ exnName e
      val b = res show (case scanL List.getItem (String.explode s) of NONE => NONE | SOME (v, r) => SOME (v, List.length r)) handle e => "!" ^ exnName e
      val d = (case StringCvt.scanString scanS s of NONE => "NONE" | SOME v => show v) handle e => "!" ^ exnName e
  in if a <> b then "readers differ: " ^ a ^ " / " ^ b
     else if hd (String.tokens (fn c => c = #" ") a) <> d then "scanString differs: " ^ a ^ " / " ^ d else a end
'''


def scans(c):
    n = 0
    L = 5 if c.thorough else 4
    jobs = []
    for what in ("Int", "Word", "Word8"):
        for rad in RAD:
            alpha = {"BIN": "012~-+w x", "OCT": "0178~-+w ", "DEC": "0159a~+w ", "HEX": "019aFgxXw~-+ "}[rad]
            if what != "Int":
                alpha = alpha.replace("-", "")
            jobs.append((what, rad, alpha))

    def go(j):
        what, rad, alpha = j
        LL = L + (1 if len(alpha) <= 9 and c.thorough else 0)
        sh = "Int.toString" if what == "Int" else "(Int.toString o Word.toIntX)" if what == "Word" else "(Int.toString o Word8.toInt)"
        t = PRE + f'val alpha = String.explode {smlstr(alpha)}\n' \
            f'val _ = upto 0 {LL} (fn l => words alpha l (fn s => print ("{what}.{rad} " ^ s ^ "\\t" ^ both {sh} ({what}.scan StringCvt.{rad}) ({what}.scan StringCvt.{rad}) ({what}.scan StringCvt.{rad}) s ^ "\\n")))'

        def want():
            for l in range(LL + 1):
                for w in itertools.product(alpha, repeat=l):
                    s = "".join(w)
                    r = int_ref(rad, s) if what == "Int" else word_ref(rad, s, MAXW if what == "Word" else 255)
                    yield f"{what}.{rad} {s}", r if r == "unspecified" else show(r)
        return rows(c, f"scan{what}{rad}", t, want())
    n += sum(pmap(go, jobs))
    # fromString, at its radix, and whitespace
    its = []
    for w in itertools.product("09~- \tx", repeat=4):
        s = "".join(w)
        r = int_ref("DEC", s)
        its.append((f"Int.fromString {s!r}", f"op2s i2s (Int.fromString {smlstr(s)})", "NONE" if r is None else f"SOME {smlint(r[0])}"))
    for w in itertools.product("0fwxG ", repeat=4):
        s = "".join(w)
        for st, top in (("Word", MAXW), ("Word8", 255)):
            r = word_ref("HEX", s, top)
            if r == "unspecified":
                continue
            its.append((f"{st}.fromString {s!r}", f"op2s {st}.toString ({st}.fromString {smlstr(s)})",
                        "NONE" if r is None else "!Overflow" if r[0] == "Overflow" else f"SOME {r[0]:X}"))
    n += c.cases("fs", "", its)
    return n


def limits(c):
    """Numerals around the representable extremes, all radices, leading zeros, signs; values at the limits formatted."""
    its = []
    near = sorted({x + d for x in (0, 2**7, 2**8, 2**30, 2**31, 2**61, 2**62, 2**63, 2**64, 10**18, 10**19, 2**62 // 10 * 10, 2**63 // 10 * 10, 16**15, 8**20, 8**21)
                   for d in range(-3, 4)} | {2**62 * k + d for k in (3, 5, 10, 16) for d in (-1, 0, 1)} | {10**25, 10**40})
    near = [x for x in near if x >= 0]
    for rad, (b, _) in RAD.items():
        for v in near:
            for z in ("", "0", "0" * 70):
                digs = z + fmt(v, b)
                for variant in {digs, digs.lower()}:
                    for sg in ("", "~", "-", "+"):
                        s = sg + variant
                        r = int_ref(rad, s + "z")
                        its.append((f"Int.scan {rad} {s}", f'op2s (fn (i, r) => i2s i ^ " " ^ Substring.string r) (Int.scan StringCvt.{rad} Substring.getc (Substring.full "{s}z"))',
                                    "!Overflow" if r[0] == "Overflow" else f"SOME {smlint(r[0])} z"))
                    for st, top in (("Word", MAXW), ("Word8", 255)):
                        its.append((f"{st}.scan {rad} {variant}", f'op2s (fn (w, r) => {st}.fmt StringCvt.DEC w ^ " " ^ Substring.string r) ({st}.scan StringCvt.{rad} Substring.getc (Substring.full "{variant}z"))',
                                    "!Overflow" if v > top else f"SOME {v} z"))
        ints = sorted({s * x for x in near for s in (1, -1)} | set(range(-40, 300)))
        for v in ints:
            if MINI <= v <= MAXI:
                its.append((f"Int.fmt {rad} {v}", f"Int.fmt StringCvt.{rad} ({smlint(v)})", fmt(v, b)))
                if rad == "DEC":
                    its.append((f"Int.toString {v}", f"Int.toString ({smlint(v)})", fmt(v, 10)))
            if 0 <= v <= MAXW:
                its.append((f"Word.fmt {rad} {v}", f"Word.fmt StringCvt.{rad} 0w{v}", fmt(v, b)))
                if rad == "HEX":
                    its.append((f"Word.toString {v}", f"Word.toString 0w{v}", fmt(v, 16)))
        for v in range(256):
            its.append((f"Word8.fmt {rad} {v}", f"Word8.fmt StringCvt.{rad} (Word8.fromInt {v})", fmt(v, b)))
            its.append((f"Word8 round trip {rad} {v}", f"op2s (i2s o Word8.toInt) (StringCvt.scanString (Word8.scan StringCvt.{rad}) (Word8.fmt StringCvt.{rad} (Word8.fromInt {v})))", f"SOME {v}"))
    for v in near:
        if v <= MAXW:
            sx = v if v <= MAXI else v - 2**63
            for f in ("toInt", "toLargeInt"):
                its.append((f"Word.{f} {v}", f"i2s (Word.{f} 0w{v})", str(v) if v <= MAXI else "!Overflow"))
            for f in ("toIntX", "toLargeIntX"):
                its.append((f"Word.{f} {v}", f"i2s (Word.{f} 0w{v})", smlint(sx)))
            its.append((f"Word8.fromLargeWord {v}", f"Word8.fmt StringCvt.DEC (Word8.fromLargeWord 0w{v})", str(v % 256)))
    for v in range(256):
        for f in ("toLargeInt", "toInt"):
            its.append((f"Word8.{f} {v}", f"i2s (Word8.{f} (Word8.fromInt {v}))", str(v)))
        for f in ("toLargeIntX", "toIntX"):
            its.append((f"Word8.{f} {v}", f"i2s (Word8.{f} (Word8.fromInt {v}))", smlint(v - 256 if v > 127 else v)))
        for f in ("toLarge", "toLargeWord"):
            its.append((f"Word8.{f} {v}", f"Word.toString (Word8.{f} (Word8.fromInt {v}))", f"{v:X}"))
        for f in ("toLargeX", "toLargeWordX"):
            its.append((f"Word8.{f} {v}", f"Word.toString (Word8.{f} (Word8.fromInt {v}))", f"{(v - 256 if v > 127 else v) % 2**63:X}"))
    return c.cases("lim", "", its)


def bools(c):
    texts = set()
    for base in ("true", "false"):
        for mask in range(2 ** len(base)):
            texts.add("".join(ch.upper() if mask >> i & 1 else ch for i, ch in enumerate(base)))
        for i in range(len(base) + 1):
            texts |= {base[:i], base[i:], base[:i] + "x" + base[i:], base[:i] + " " + base[i:], base[:i] + base[i + 1:]}
            if i < len(base):
                texts |= {base[:i] + chr(ord(base[i]) ^ k) + base[i + 1:] for k in (1, 2, 4, 16, 32, 64, 128)}
    texts = {p + t + q for t in texts for p in ("", " ", "\n\t", "x") for q in ("", "e", "true")}
    its = []
    for s in sorted(texts):
        r = bool_ref(s)
        its.append((f"Bool.scan {s!r}", f'op2s (fn (b, r) => b2s b ^ " " ^ i2s (Substring.size r)) (Bool.scan Substring.getc (Substring.full {smlstr(s)}))',
                    "NONE" if r is None else f"SOME {r[0]} {r[1]}"))
        its.append((f"Bool.fromString {s!r}", f"op2s Bool.toString (Bool.fromString {smlstr(s)})", "NONE" if r is None else f"SOME {r[0]}"))
    return c.cases("bool", "", its)


# ---------------------------------------------------------------- reals

REALRE = re.compile(SP + r"([+~-]?)(?:(\d+)(?:\.(\d+))?|\.(\d+))")
EXPRE = re.compile(r"[eE]([+~-]?)(\d+)")


def real_ref(s):
    """(exact value as Fraction-like (mantissa int, exponent10), rest) or None"""
    m = REALRE.match(s)
    if not m:
        return None
    ip, fp = m[2] or "", m[3] or m[4] or ""
    man, ex, end = int((ip + fp) or "0"), -len(fp), m.end()
    e = EXPRE.match(s, end)
    # the exponent part belongs to the numeral only when it is complete
    if e:
        ex += int(e[2]) * (-1 if e[1] and e[1] in "~-" else 1)
        end = e.end()
    return (-man if m[1] and m[1] in "~-" else man), ex, len(s) - end


def mlreal(s):
    return float(s.replace("~", "-"))


def close(got, man, ex):
    try:
        want = float(f"{man}e{ex}")
    except OverflowError:
        return None
    if want == 0:
        return got == 0 if man == 0 else abs(got) < 1e-300
    return abs(got - want) <= 2e-14 * abs(want)


def reals(c):
    n = 0
    # every text over the alphabet
    L = 6 if c.thorough else 5
    alpha = "01.eE~-+ "
    texts = ["".join(w) for l in range(L + 1) for w in itertools.product(alpha, repeat=l)]
    longs = []
    for a in range(0, 41, 1):
        for f in range(0, 41, 4):
            for e in ("", "e0", "e7", "E~7", "e+20", "E-30", "e"):
                d = "9081726354" * 5
                longs.append(d[:a] + ("." + d[3:3 + f] if f else "") + e)
    longs += [f"{m}e{s}{x}" for m in ("1", "9.999999", "~1.5", "0.1", "12345678901234567890") for s in ("", "~", "+", "-") for x in list(range(0, 40)) + list(range(40, 290, 7))]
    groups = [texts[i::8] for i in range(8)] + [longs]

    def go(g):
        i, ts = g
        alphaL = 'val texts = List.filter (fn s => s <> "\\t") (String.fields (fn c => c = #"\\n") (let val is = TextIO.openIn (hd (CommandLine.arguments ())) in TextIO.inputAll is before TextIO.closeIn is end))\n'
        t = PRE + alphaL + 'fun sh r = Real.fmt (StringCvt.SCI (SOME 17)) r\nval _ = app (fn s => print (s ^ "\\t" ^ both sh Real.scan Real.scan Real.scan s ^ "\\n")) texts\n'
        d = c.dir(f"real{i}")
        c.write(f"{d}/in.txt", "\n".join(ts))
        exe = c.compile(f"real{i}", t + 'val _ = print "DONE\\n"\n')
        r = c.harness(exe, [f"{d}/in.txt"], timeout=300)
        if r is None:
            return 0
        got = dict(l.split("\t", 1) for l in r.out.split("\n") if "\t" in l)
        k = 0
        for s in ts:
            w, g = real_ref(s), got.get(s)
            k += 1
            if g is None:
                c.fail(f"Real.scan {s!r}", "no result")
            elif w is None:
                if g != "NONE":
                    c.fail(f"Real.scan {s!r}", f"expected NONE, got {g}")
            else:
                man, ex, rest = w
                mag = len(str(abs(man))) + ex
                if mag < -280 or ex < -300 or (ex > 300 and man == 0):
                    continue
                if mag > 310:
                    if g != "!Overflow":
                        c.fail(f"Real.scan {s!r}", f"expected Overflow, got {g}")
                    continue
                if mag > 300:
                    continue
                m = re.match(r"(~?[\d.]+E~?\d+) (\d+)$", g)
                if not m or int(m[2]) != rest or not close(mlreal(m[1]), man, ex):
                    c.fail(f"Real.scan {s!r}", f"expected {man}e{ex} with {rest} characters left, got {g}")
        return k
    n += sum(pmap(go, list(enumerate(groups))))

    # formats
    vals = [0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 1.5, 0.1, 0.125, 1 / 3, -2 / 3, 9.5, 99.5, 0.05, 9.9999999999995, 999999.5, 9999999.5, 123456.789, 1e5, 1e6, 1e11, 1e12, 123456789012.0, 1234567890123.0,
            1e-4, 1e-5, 0.00012345, 0.000012345, 1e22, 1e23, 1e100, -1e100, 1.7976931348623157e308, 2.2250738585072014e-308, 1e-300, 4.9e-324, 2.0**52 + 0.5, 2.0**53, 1e15, 1e16, 1e17, 5e-7, 314159.2653589793, 100.0, 10.0, 1e9, 1e10, -1e10, 3e10]
    if c.thorough:
        vals += [k * 10.0 ** e for k in (1, 1.25, 4.5, 9.99, 9.9999995) for e in range(-320, 305, 3)] + [k / 8 for k in range(-80, 81)]
    else:
        vals += [k * 10.0 ** e for k in (1.25, 9.9999995) for e in range(-30, 31, 3)] + [k / 8 for k in range(-20, 21)]
    specs = [("SCI NONE", "%e"), ("FIX NONE", "%f"), ("GEN NONE", "%.12g")]
    precs = [0, 1, 2, 3, 5, 6, 7, 10, 11, 12, 13, 15, 16, 17, 18, 20, 50, 120, 399, 400]
    specs += [(f"SCI (SOME {p})", f"%.{p}e") for p in precs] + [(f"FIX (SOME {p})", f"%.{p}f") for p in precs] + [(f"GEN (SOME {p})", f"%.{p}g") for p in precs if p]
    its = []

    def mlfmt(pat, v):
        s = pat % (v + 0.0 if v else 0.0)
        m, _, e = s.partition("e")
        if e:
            sg, d = e[0], e[1:]
            if d[0] == "0":
                d = d[1:]
            s = m + "E" + ("~" if sg == "-" else "") + d
        s = s.replace("-", "~")
        if pat.endswith("g") and "." not in s and "E" not in s:
            s += ".0"
        return s
    for v in vals:
        lit = f"{v:.17g}"
        x = f"(valOf (r64 {struct_words(v)}))"
        for sp, pat in specs:
            if not c.thorough and ("399" in sp or "120" in sp) and v not in vals[:45]:
                continue
            its.append((f"Real.fmt ({sp}) {lit}", f"Real.fmt (StringCvt.{sp.replace('SOME ', 'SOME ')}) {x}", mlfmt(pat, v)))
        its.append((f"Real.toString {lit}", f"Real.toString {x}", mlfmt("%.12g", v)))
        its.append((f"Real round trip {lit}", f'let val x = {x} val y = valOf (Real.fromString (Real.fmt (StringCvt.SCI (SOME 17)) x)) in b2s (abs (x - y) <= 1E~14 * abs x) end',
                    "true" if 1e-270 < abs(v) < 1e290 or v == 0 else None))
        its.append((f"Real toString round trip {lit}", f'let val x = {x} val y = valOf (Real.fromString (Real.toString x)) in b2s (abs (x - y) <= 1E~11 * abs x) end',
                    "true" if 1e-270 < abs(v) < 1e290 or v == 0 else None))
    for sp in ("SCI", "FIX", "GEN"):
        for p in (-1, -2, MINI, 401, 1000, MAXI) + ((0,) if sp == "GEN" else ()):
            its.append((f"Real.fmt {sp} {p}", f"(Real.fmt (StringCvt.{sp} (SOME ({smlint(p)}))); \"no exception\")", "!Size"))
    its = [i for i in its if i[2] is not None]
    n += c.cases("fmt", R64, its, shard=900)
    return n


R64 = r'''
fun r64 (bs : int list) = SOME (PackRealBig.fromBytes (Word8Vector.fromList (map Word8.fromInt bs)))
'''


def struct_words(v):
    import struct
    return "[" + ",".join(str(b) for b in struct.pack(">d", v)) + "]"


def main():
    c = Check("B05")
    n1, n2, n3, n4 = scans(c), limits(c), bools(c), reals(c)
    c.sample("Word.scan HEX \"0wxg\" reads 0 and leaves \"wxg\"")
    c.sample("Int.scan DEC \"~4611686018427387905z\" raises Overflow")
    c.sample("Real.fmt (FIX (SOME 400)) 1.7976931348623157e308")
    n = n1 + n2 + n3 + n4
    c.finish({"states": n, "transitions": n, "traces_validated_against_impl": n, "exhaustive": True, "texts_scanned": n1, "limit_cases": n2,
              "bound": "all texts of length <= 4 (thorough 5/6) over each radix's numeral alphabet, all real texts of length <= 5 (6) over 9 characters, numerals within 3 of every representation limit, all Word8 values, 60 real formats at each value of a list"},
             ["real numerals are judged to a relative error of 2e-14 (the scanner is documented as not correctly rounding), and only when the value and its parts stay within 1e-280..1e300"])


main()
