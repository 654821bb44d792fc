#!/usr/bin/env python3
"""B04: String, Substring, Char and StringCvt act as functions on character sequences.

Every string over {a,b} up to a length, every substring of it (base triples included), every pattern, every argument
around the bounds and the extreme ints; every pair of short strings over {NUL,a,b,\\255} for comparisons; every
character; every string over an escape alphabet up to a length for the readers.  Oracle: Python strings."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI = (1 << 62) - 1, -(1 << 62)
b = lambda x: "true" if x else "false"


def words(alpha, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


PRE = CASE_PRELUDE + r'''
fun words alpha 0 = [""]
  | words alpha n = let val w = words alpha (n-1)
                        val last = List.filter (fn s => size s = n-1) w
                    in w @ List.concat (map (fn s => map (fn c => s ^ str c) alpha) last) end
fun t3 sus = let val (s,i,n) = Substring.base sus in "(" ^ String.toString s ^ "," ^ i2s i ^ "," ^ i2s n ^ ")" end
fun t3p (x,y) = t3 x ^ t3 y
fun row k f = print (k ^ "\t" ^ (f () handle e => "!" ^ exnName e) ^ "\n")
val es = String.toString
fun opt NONE = "NONE" | opt (SOME s) = "SOME " ^ es s
fun lst f xs = "[" ^ String.concatWith "," (map f xs) ^ "]"
fun upto (i,j) = if i > j then [] else i :: upto (i+1,j)
val maxI = valOf Int.maxInt val minI = valOf Int.minInt
'''


def t3(s, i, n):
    return f"({smlesc(s)},{smlint(i)},{smlint(n)})"


# ---------------------------------------------------------------- 1. searching and splitting on every slice
SEARCH = PRE + r'''
val S = words [#"a",#"b"] LEN
val P = words [#"a",#"b"] PLEN
fun isA c = c = #"a"
val _ = app (fn s => app (fn i => app (fn n =>
  let val x = Substring.substring (s,i,n) val k0 = s ^ ":" ^ i2s i ^ ":" ^ i2s n ^ ":"
      val str_ = Substring.string x
  in
   app (fn p => row (k0 ^ p) (fn () =>
     b2s (Substring.isPrefix p x) ^ b2s (Substring.isSuffix p x) ^ b2s (Substring.isSubstring p x)
     ^ t3p (Substring.position p x)
     ^ (if i = 0 andalso n = size s then
          b2s (String.isPrefix p s) ^ b2s (String.isSuffix p s) ^ b2s (String.isSubstring p s) else ""))) P;
   row (k0 ^ "split") (fn () =>
     t3p (Substring.splitl isA x) ^ t3p (Substring.splitr isA x) ^ t3 (Substring.takel isA x) ^ t3 (Substring.taker isA x)
     ^ t3 (Substring.dropl isA x) ^ t3 (Substring.dropr isA x));
   row (k0 ^ "views") (fn () => str_ ^ "|" ^ i2s (Substring.size x) ^ b2s (Substring.isEmpty x)
     ^ (case Substring.first x of NONE => "-" | SOME c => str c)
     ^ (case Substring.getc x of NONE => "-" | SOME (c,r) => str c ^ t3 r)
     ^ implode (Substring.explode x) ^ "|" ^ Substring.foldl (fn (c,a) => "(" ^ str c ^ a ^ ")") "" x
     ^ Substring.foldr (fn (c,a) => "(" ^ str c ^ a ^ ")") "" x
     ^ tr2 (fn () => (Substring.app (fn c => tr (str c)) x; "")) ()
     ^ tr2 (fn () => Substring.translate (fn c => (tr (str c); if isA c then "xy" else "")) x) ());
   row (k0 ^ "fields") (fn () => lst t3 (Substring.tokens isA x) ^ lst t3 (Substring.fields isA x)
     ^ (if i = 0 andalso n = size s then lst es (String.tokens isA s) ^ lst es (String.fields isA s) else ""));
   if size s <= BLEN then app (fn k => row (k0 ^ "at" ^ i2s k) (fn () =>
     (let fun u f = f () handle e => "!" ^ exnName e in
     u (fn () => t3p (Substring.splitAt (x,k))) ^ u (fn () => t3 (Substring.triml k x)) ^ u (fn () => t3 (Substring.trimr k x))
     ^ u (fn () => str (Substring.sub (x,k))) ^ u (fn () => t3 (Substring.slice (x,k,NONE)))
     ^ u (fn () => (Substring.triml k; "ok")) ^ u (fn () => (Substring.trimr k; "ok"))
     ^ String.concat (map (fn m => u (fn () => t3 (Substring.slice (x,k,SOME m)))) (upto (~1, n+1) @ [maxI,minI])) end)))
     (upto (~1, n+1) @ [maxI,minI]) else ()
  end) (upto (0, size s - i))) (upto (0, size s))) S
val _ = app (fn s => app (fn i => (
   row (s ^ ":ext" ^ i2s i) (fn () => let fun u f = f () handle e => "!" ^ exnName e in
     u (fn () => str (String.sub (s,i))) ^ u (fn () => String.extract (s,i,NONE)) ^ u (fn () => t3 (Substring.extract (s,i,NONE)))
     ^ String.concat (map (fn n => u (fn () => String.extract (s,i,SOME n)) ^ u (fn () => String.substring (s,i,n))
         ^ u (fn () => t3 (Substring.extract (s,i,SOME n))) ^ u (fn () => t3 (Substring.substring (s,i,n))))
       (upto (~1, size s + 1) @ [maxI,minI])) end))) (upto (~1, size s + 1) @ [maxI,minI])) (words [#"a",#"b"] BLEN)
'''


def search(LEN, PLEN, BLEN):
    P = words("ab", PLEN)
    ints = lambda n: list(range(-1, n + 2)) + [MAXI, MINI]

    def sub3(s, i, n):
        return t3(s, i, n)
    for s in words("ab", LEN):
        for i in range(len(s) + 1):
            for n in range(len(s) - i + 1):
                x = s[i:i + n]
                k0 = f"{s}:{i}:{n}:"
                for p in P:
                    w = b(x.startswith(p)) + b(x.endswith(p)) + b(p in x)
                    k = x.find(p)
                    w += (t3(s, i, k) + t3(s, i + k, n - k)) if k >= 0 else t3(s, i, n) + t3(s, i + n, 0)
                    if i == 0 and n == len(s):
                        w += b(x.startswith(p)) + b(x.endswith(p)) + b(p in x)
                    yield k0 + p, w
                l = len(x) - len(x.lstrip("a"))
                r = len(x.rstrip("a"))
                yield k0 + "split", (t3(s, i, l) + t3(s, i + l, n - l) + t3(s, i, r) + t3(s, i + r, n - r) + t3(s, i, l)
                                     + t3(s, i + r, n - r) + t3(s, i + l, n - l) + t3(s, i, r))
                fl = fr = ""
                for ch in x:
                    fl = f"({ch}{fl})"
                for ch in x[::-1]:
                    fr = f"({ch}{fr})"
                tc = "".join(ch + ";" for ch in x)
                yield k0 + "views", (x + "|" + str(n) + b(n == 0) + (x[0] if x else "-")
                                     + (x[0] + t3(s, i + 1, n - 1) if x else "-") + x + "|" + fl + fr + "|" + tc
                                     + "xy" * x.count("a") + "|" + tc)
                F, T, st = [], [], i
                for j in range(i, i + n + 1):
                    if j == i + n or s[j] == "a":
                        F.append(t3(s, st, j - st))
                        if j > st:
                            T.append(t3(s, st, j - st))
                        st = j + 1
                w = "[" + ",".join(T) + "][" + ",".join(F) + "]"
                if i == 0 and n == len(s):
                    w += "[" + ",".join(t for t in s.split("a") if t) + "][" + ",".join(s.split("a")) + "]"
                yield k0 + "fields", w
                if len(s) <= BLEN:
                    for k in ints(n):
                        ok = 0 <= k <= n
                        w = t3(s, i, k) + t3(s, i + k, n - k) if ok else "!Subscript"
                        m = min(k, n)
                        w += t3(s, i + m, n - m) if k >= 0 else "!Subscript"
                        w += t3(s, i, n - m) if k >= 0 else "!Subscript"
                        w += x[k] if 0 <= k < n else "!Subscript"
                        w += t3(s, i + k, n - k) if ok else "!Subscript"
                        w += ("ok" if k >= 0 else "!Subscript") * 2
                        for m in ints(n):
                            w += t3(s, i + k, m) if k >= 0 and m >= 0 and k + m <= n else "!Subscript"
                        yield k0 + "at" + smlint(k), w
    for s in words("ab", BLEN):
        for i in ints(len(s)):
            ok = 0 <= i <= len(s)
            w = s[i] if 0 <= i < len(s) else "!Subscript"
            w += s[i:] + t3(s, i, len(s) - i) if ok else "!Subscript" * 2
            for n in ints(len(s)):
                good = i >= 0 and n >= 0 and i + n <= len(s)
                w += s[i:i + n] * 2 + t3(s, i, n) * 2 if good else "!Subscript" * 4
            yield s + ":ext" + smlint(i), w


# ---------------------------------------------------------------- 2. comparisons, concatenations, spans
PAIRS = PRE + r'''
val S = words [#"\000",#"a",#"b",#"\255"] PL
fun o1 LESS = "<" | o1 EQUAL = "=" | o1 GREATER = ">"
fun rv (c,d) = (tr (es (str c) ^ es (str d)); Char.compare (d,c))
val _ = app (fn s => app (fn t => row ("cmp:" ^ es s ^ ":" ^ es t) (fn () =>
   o1 (String.compare (s,t)) ^ b2s (s = t) ^ b2s (s < t) ^ b2s (s <= t) ^ b2s (s > t) ^ b2s (s >= t)
   ^ b2s (String.< (s,t)) ^ b2s (String.<= (s,t)) ^ b2s (String.> (s,t)) ^ b2s (String.>= (s,t))
   ^ tr2 (fn () => o1 (String.collate rv (s,t))) ()
   ^ (let val x = Substring.substring ("b" ^ s ^ "a", 1, size s) val y = Substring.substring (t ^ "b", 0, size t)
      in o1 (Substring.compare (x,y)) ^ tr2 (fn () => o1 (Substring.collate rv (x,y))) () end)
   ^ es (s ^ t))) S) S
val L = ["", "a", "bc", "def"]
fun lists 0 = [[]] | lists n = [] :: List.concat (map (fn r => map (fn x => x :: r) L) (lists (n-1)))
fun uniq (x::xs) = if List.exists (fn y => y = x) xs then uniq xs else x :: uniq xs | uniq [] = []
fun sus s = Substring.substring ("xy" ^ s ^ "z", 2, size s)
val _ = app (fn ss => app (fn sep => row ("cat:" ^ i2s (length ss) ^ lst es ss ^ sep) (fn () =>
   String.concat ss ^ "|" ^ String.concatWith sep ss ^ "|" ^ Substring.concat (map sus ss) ^ "|" ^ Substring.concatWith sep (map sus ss)))
   ["", "-", "=="]) (uniq (lists 3))
val base1 = "abcd"
val base2 = implode [#"a",#"b",#"c",#"e"]
val _ = app (fn i => app (fn n => app (fn j => app (fn m => app (fn (nm,b2) =>
   row ("span" ^ nm ^ i2s i ^ i2s n ^ i2s j ^ i2s m) (fn () => t3 (Substring.span (Substring.substring (base1,i,n), Substring.substring (b2,j,m)))))
   [("same",base1),("other",base2)]) (upto (0,4-j))) (upto (0,4))) (upto (0,4-i))) (upto (0,4))
'''


def pairs(PL):
    S = words("\0ab\xff", PL)
    for s in S:
        for t in S:
            o = "<" if s < t else "=" if s == t else ">"
            r, tr = None, ""
            for x, y in zip(s, t):
                tr += smlesc(x) + smlesc(y) + ";"
                if x != y:
                    r = "<" if y < x else ">"
                    break
            if r is None:
                r = "<" if len(s) < len(t) else "=" if len(s) == len(t) else ">"
            yield f"cmp:{smlesc(s)}:{smlesc(t)}", (o + b(s == t) + (b(s < t) + b(s <= t) + b(s > t) + b(s >= t)) * 2
                                                 + r + "|" + tr + o + r + "|" + tr + smlesc(s + t))
    for n in range(4):
        for ss in itertools.product(["", "a", "bc", "def"], repeat=n):
            for sep in ("", "-", "=="):
                yield f"cat:{n}[" + ",".join(ss) + "]" + sep, "|".join(["".join(ss), sep.join(ss)] * 2)
    for i in range(5):
        for n in range(5 - i):
            for j in range(5):
                for m in range(5 - j):
                    yield f"spansame{i}{n}{j}{m}", t3("abcd", i, j + m - i) if i <= j + m else "!Span"
                    yield f"spanother{i}{n}{j}{m}", "!Span"


# ---------------------------------------------------------------- 3. characters
CHARS = PRE + r'''
val C = List.tabulate (256, Char.chr)
fun u f = f () handle e => "!" ^ exnName e
val _ = app (fn c => row ("char" ^ i2s (ord c)) (fn () =>
   String.concat (map b2s [Char.isLower c, Char.isUpper c, Char.isDigit c, Char.isAlpha c, Char.isHexDigit c, Char.isAlphaNum c,
     Char.isPrint c, Char.isSpace c, Char.isPunct c, Char.isGraph c, Char.isAscii c, Char.isCntrl c])
   ^ i2s (ord (Char.toLower c)) ^ "," ^ i2s (ord (Char.toUpper c)) ^ "," ^ u (fn () => i2s (ord (Char.succ c))) ^ u (fn () => i2s (ord (Char.pred c)))
   ^ Char.toString c ^ " " ^ Char.toCString c ^ " " ^ String.toString (str c) ^ " " ^ String.toCString (str c) ^ i2s (ord (valOf (Char.fromString (Char.toString c))))
   ^ i2s (ord (valOf (Char.fromCString (Char.toCString c)))) ^ i2s (Char.ord c) ^ i2s (size (str c)) ^ i2s (ord (String.sub (str c, 0))))) C
val _ = app (fn i => row ("chr" ^ i2s i) (fn () => i2s (ord (chr i)) ^ "," ^ i2s (ord (Char.chr i)))) [~1,0,255,256,257,1000,maxI,minI]
val _ = app (fn s => let val f = Char.contains s val g = Char.notContains s in
  row ("in" ^ es s) (fn () => implode (map (fn c => if f c then (if g c then #"?" else #"1") else if g c then #"0" else #"?") C)) end) (words [#"\000",#"a",#"\255"] 3)
val _ = app (fn c => app (fn d => if
   (c < d) = (ord c < ord d) andalso (c <= d) = (ord c <= ord d) andalso (c > d) = (ord c > ord d) andalso (c >= d) = (ord c >= ord d)
   andalso Char.compare (c,d) = Int.compare (ord c, ord d) andalso (c = d) = (ord c = ord d)
   andalso Char.<(c,d) = (c < d) andalso Char.<=(c,d) = (c <= d) andalso Char.>(c,d) = (c > d) andalso Char.>=(c,d) = (c >= d)
   andalso String.fromString (String.toString (implode [c,d])) = SOME (implode [c,d])
   andalso String.fromCString (String.toCString (implode [c,d])) = SOME (implode [c,d])
   andalso String.toString (implode [c,d]) = Char.toString c ^ Char.toString d
   andalso String.toCString (implode [c,d]) = Char.toCString c ^ Char.toCString d
   andalso explode (implode [c,d]) = [c,d] andalso String.explode (String.implode [d,c]) = [d,c]
   andalso String.map (fn x => if x = c then d else x) (implode [c,d,c]) = implode [d,d,d]
   then () else print ("pair" ^ i2s (ord c) ^ "," ^ i2s (ord d) ^ "\tbroken\n")) C) C
'''


def mlesc(c):
    return smlesc(chr(c))


def cesc(c):
    ch = chr(c)
    if ch in "\\\"?'":
        return "\\" + ch
    if 7 <= c <= 13:
        return "\\" + "abtnvfr"[c - 7]
    if 32 <= c < 127:
        return ch
    return "\\%03o" % c


def chars():
    import string
    for c in range(256):
        ch = chr(c)
        lo, up, di = ch in string.ascii_lowercase, ch in string.ascii_uppercase, ch in string.digits
        pr, sp = 32 <= c < 127, c == 32 or 9 <= c <= 13
        gr = pr and not sp
        w = "".join(map(b, [lo, up, di, lo or up, ch in string.hexdigits, lo or up or di, pr, sp, gr and not (lo or up or di), gr, c < 128, not pr]))
        w += f"{c + 32 if up else c},{c - 32 if lo else c},"
        w += (str(c + 1) if c < 255 else "!Chr") + (str(c - 1) if c > 0 else "!Chr")
        w += f"{mlesc(c)} {cesc(c)} {mlesc(c)} {cesc(c)}{c}{c}{c}1{c}"
        yield f"char{c}", w
    for i in (-1, 0, 255, 256, 257, 1000, MAXI, MINI):
        yield "chr" + smlint(i), f"{i},{i}" if 0 <= i <= 255 else "!Chr"
    for s in words("\0a\xff", 3):
        yield "in" + smlesc(s), "".join("1" if chr(c) in s else "0" for c in range(256))


# ---------------------------------------------------------------- 4. reading escapes
READ = PRE + r'''
fun oc NONE = "NONE" | oc (SOME c) = es (str c)
fun go (nm, pre, alpha, n) = app (fn w => let val s = pre ^ w in
   row (nm ^ ":" ^ es s) (fn () => opt (String.fromString s) ^ "|" ^ opt (String.fromCString s) ^ "|" ^ oc (Char.fromString s) ^ "|" ^ oc (Char.fromCString s)) end)
   (words alpha n)
val _ = go ("mix", "", explode "\\an\"^@ 0x?", ML)
val _ = go ("num", "\\", explode "0123789f", NL)
val _ = go ("hex", "\\x", explode "0fFgA", NL)
val _ = go ("hexlong", "\\x", explode "01", 9)
val _ = app (fn k => app (fn d => go ("hexrun", "\\x" ^ d ^ implode (List.tabulate (k, fn _ => #"0")) ^ "4", [#"1"], 1)) ["", "1", "f", "8", "7f"]) (upto (0, 40))
val _ = go ("ctl", "\\^", List.tabulate (128, Char.chr), 1)
val _ = go ("one", "\\", List.filter (fn c => not (c = #"\r" orelse c = #"\f" orelse c = #"\v")) (List.tabulate (256, Char.chr)), 1)
val _ = go ("gap", "a\\", [#" ", #"\t", #"\\", #"a", #"\n"], GL)
'''


class Bad(Exception):
    pass


def ml_one(s, i):
    """s[i] is what follows a backslash: (char or None for a gap, next)"""
    if i >= len(s):
        raise Bad
    ch = s[i]
    simple = dict(zip('abtnvfr"\\', '\a\b\t\n\v\f\r"\\'))
    if ch in simple:
        return simple[ch], i + 1
    if ch == "^":
        if i + 1 < len(s) and 64 <= ord(s[i + 1]) <= 95:
            return chr(ord(s[i + 1]) - 64), i + 2
        raise Bad
    if ch in " \t\n":
        j = i
        while j < len(s) and (s[j] == " " or 9 <= ord(s[j]) <= 13):
            j += 1
        # the repository's own tests pin that a formatting sequence must be followed by a character
        if j + 1 < len(s) and s[j] == "\\":
            return None, j + 1
        raise Bad
    d = s[i:i + 3]
    if len(d) == 3 and all("0" <= x <= "9" for x in d) and int(d) <= 255:
        return chr(int(d)), i + 3
    raise Bad


def c_one(s, i):
    if i >= len(s):
        raise Bad
    ch = s[i]
    simple = dict(zip("abtnvfr\"\\?'", "\a\b\t\n\v\f\r\"\\?'"))
    if ch in simple:
        return simple[ch], i + 1
    if ch == "x":
        j = i + 1
        while j < len(s) and s[j] in "0123456789abcdefABCDEF":
            j += 1
        if j > i + 1 and int(s[i + 1:j], 16) <= 255:
            return chr(int(s[i + 1:j], 16)), j
        raise Bad
    j = i
    while j < len(s) and j < i + 3 and s[j] in "01234567":
        j += 1
    if j > i and int(s[i:j], 8) <= 255:
        return chr(int(s[i:j], 8)), j
    raise Bad


def read_all(s, one):
    out, i = "", 0
    try:
        while i < len(s):
            if s[i] == "\\":
                ch, i = one(s, i + 1)
                out += ch or ""
            else:
                out += s[i]
                i += 1
    except Bad:
        return "NONE"
    return "SOME " + smlesc(out)


def read_first(s, one):
    i = 0
    try:
        while True:
            if i >= len(s):
                return "NONE"
            if s[i] != "\\":
                return smlesc(s[i])
            ch, i = one(s, i + 1)
            if ch is not None:
                return smlesc(ch)
    except Bad:
        return "NONE"


def reads(ML, NL, GL):
    for nm, pre, alpha, n in [("mix", "", '\\an"^@ 0x?', ML), ("num", "\\", "0123789f", NL), ("hex", "\\x", "0fFgA", NL), ("hexlong", "\\x", "01", 9),
                              *(("hexrun", "\\x" + d + "0" * k + "4", "1", 1) for k in range(41) for d in ("", "1", "f", "8", "7f")),
                              ("ctl", "\\^", [chr(i) for i in range(128)], 1),
                              ("one", "\\", [chr(i) for i in range(256) if chr(i) not in "\r\f\v"], 1), ("gap", "a\\", " \t\\a\n", GL)]:
        for w in words(alpha, n):
            s = pre + w
            yield f"{nm}:{smlesc(s)}", "|".join([read_all(s, ml_one), read_all(s, c_one), read_first(s, ml_one), read_first(s, c_one)])


# ---------------------------------------------------------------- 5. StringCvt on list sources
CVT = PRE + r'''
fun getc [] = NONE | getc (x::r) = SOME (x, r)
fun isA c = c = #"a"
val _ = app (fn s => let val l = explode s in row ("cvt:" ^ es s) (fn () =>
   (let val (p,r) = StringCvt.splitl isA getc l in p ^ "|" ^ implode r end) ^ "|" ^ StringCvt.takel isA getc l ^ "|" ^ implode (StringCvt.dropl isA getc l)
   ^ "|" ^ es (implode (StringCvt.skipWS getc (map (fn #"a" => #"\n" | c => c) l)))
   ^ "|" ^ opt (StringCvt.scanString (fn g => fn src => case g src of NONE => NONE | SOME (c, r) => (case g r of NONE => NONE | SOME (d,r') => SOME (str d ^ str c, r'))) s)) end)
   (words [#"a",#"b"] 6)
val _ = app (fn n => let val l = List.tabulate (n, fn i => chr (97 + i mod 26)) in row ("long" ^ i2s n) (fn () =>
   (let val (p,r) = StringCvt.splitl (fn c => c <> #"!") getc (l @ [#"!", #"x"]) in p ^ "|" ^ implode r end) ^ "|" ^ #1 (StringCvt.splitl (fn _ => true) getc l)
   ^ "|" ^ valOf (String.fromCString (implode l)) ^ "|" ^ valOf (String.fromString (implode l))) end) (upto (0, 70) @ [127,128,129,239,240,241])
val _ = app (fn s => app (fn n => row ("pad" ^ i2s n ^ s) (fn () => StringCvt.padLeft #"." n s ^ "|" ^ StringCvt.padRight #"." n s)) (upto (~2, 9) @ [minI])) (words [#"a",#"b"] 2 @ ["abcdefg"])
val _ = app (fn c => row ("ws" ^ i2s (ord c)) (fn () => i2s (length (StringCvt.skipWS getc [c, #"x", c])))) (List.tabulate (256, chr))
exception E
val _ = app (fn s => (row ("map" ^ s) (fn () => tr2 (fn () => String.map (fn c => (tr (str c); if c = #"c" then raise E else Char.toUpper c)) s) ()
   ^ tr2 (fn () => String.translate (fn c => (tr (str c); case c of #"a" => "" | #"b" => "xyz" | _ => raise E)) s) ())))
   (words [#"a",#"b",#"c"] 4)
'''


def cvt():
    for s in words("ab", 6):
        k = len(s) - len(s.lstrip("a"))
        w = [s[:k], s[k:], s[:k], s[k:], s[k:].replace("a", "\\n"), "NONE" if len(s) < 2 else "SOME " + s[1] + s[0]]
        yield "cvt:" + s, "|".join(w)
    for n in list(range(71)) + [127, 128, 129, 239, 240, 241]:
        l = "".join(chr(97 + i % 26) for i in range(n))
        yield f"long{n}", "|".join([l, "!x", l, l, l])
    for s in words("ab", 2) + ["abcdefg"]:
        for n in list(range(-2, 10)) + [MINI]:
            yield f"pad{smlint(n)}{s}", s.rjust(max(n, 0), ".") + "|" + s.ljust(max(n, 0), ".")
    for c in range(256):
        yield f"ws{c}", "2" if c == 32 or 9 <= c <= 13 else "3"
    for s in words("abc", 4):
        k = s.find("c")
        seen = s if k < 0 else s[:k + 1]
        tr = "".join(x + ";" for x in seen)
        yield "map" + s, (s.upper() if k < 0 else "!E") + "|" + tr + ("xyz" * s.count("b") if k < 0 else "!E") + "|" + tr


# ---------------------------------------------------------------- 6. long strings, checked character by character in the harness
LONG = PRE + r"""
fun pat k i = chr ((i * 7 + i div 251 + k) mod 256)
fun mk (k, n) = CharVector.tabulate (n, pat k)
fun pow2 k = if k = 0 then 1 else 2 * pow2 (k-1)
val lens = upto (0, 72) @ List.concat (map (fn k => upto (pow2 k - 2, pow2 k + 2)) (upto (7, 16)))
           @ upto (1000, 1064) @ upto (4090, 4200) @ upto (8190, 8256) @ upto (65536, HI) @ [100000, 131072 + 33, 262144]
fun same (s, off, n, f) = let fun h i = i >= n orelse (String.sub (s, off + i) = f i andalso h (i+1)) in h 0 end
fun isIt (s, n, f) = size s = n andalso same (s, 0, n, f)
val cnt = ref 0
fun t nm n f = (cnt := !cnt + 1; if (f () handle _ => false) then () else print (nm ^ "\tbroken at length " ^ i2s n ^ "\n"))
fun set (s, j) = CharVector.mapi (fn (i, c) => if i = j then chr ((ord c + 128) mod 256) else c) s
fun one n =
  let val s = mk (3, n) and f = pat 3 and s' = mk (3, n) and u = mk (90, 37) and g = pat 90
      fun fx i = if i < n then f i else g (i - n)
  in t "tabulate" n (fn () => isIt (s, n, f));
     t "s ^ u" n (fn () => isIt (s ^ u, n + 37, fx));
     t "u ^ s" n (fn () => isIt (u ^ s, n + 37, fn i => if i < 37 then g i else f (i - 37)));
     t "String.concat" n (fn () => isIt (String.concat [s, u, s, ""], 2 * n + 37, fn i => if i < n + 37 then fx i else f (i - n - 37)));
     t "String.concatWith" n (fn () => isIt (String.concatWith u [s, s], 2 * n + 37, fn i => if i < n + 37 then fx i else f (i - n - 37)));
     t "Substring.concat" n (fn () => isIt (Substring.concat [Substring.all s, Substring.all u, Substring.triml 1 (Substring.all ("x" ^ s))], 2 * n + 37, fn i => if i < n + 37 then fx i else f (i - n - 37)));
     app (fn k => if k > n then () else
       (t ("extract from " ^ i2s k) n (fn () => isIt (String.extract (s, k, NONE), n - k, fn i => f (i + k)));
        t ("substring to " ^ i2s k) n (fn () => isIt (String.substring (s, 0, n - k), n - k, f));
        t ("Substring.string " ^ i2s k) n (fn () => isIt (Substring.string (Substring.trimr k (Substring.all s)), n - k, f)))) [0, 1, 3, 7, 8, 13, 31];
     t "implode o explode" n (fn () => isIt (implode (explode s), n, f));
     t "String.map" n (fn () => isIt (String.map Char.succ (String.map (fn c => if c = #"\255" then #"\000" else c) s), n, fn i => Char.succ (if f i = #"\255" then #"\000" else f i)));
     t "translate" n (fn () => isIt (String.translate (fn c => implode [c, c]) s, 2 * n, fn i => f (i div 2)));
     t "equal" n (fn () => s = s' andalso not (s <> s') andalso String.compare (s, s') = EQUAL andalso s <= s' andalso not (s < s'));
     t "longer" n (fn () => s < s ^ "\000" andalso s ^ "\000" > s andalso s <> s ^ "\000" andalso String.isPrefix s (s ^ "q") andalso String.isSuffix s ("q" ^ s) andalso not (String.isPrefix (s ^ "q") s));
     t "CharVector.concat" n (fn () => isIt (CharVector.concat [u, s], n + 37, fn i => if i < 37 then g i else f (i - 37)));
     t "CharArray" n (fn () => let val a = CharArray.array (n, #"z") in
          CharArray.copyVec {src = s, dst = a, di = 0}; isIt (CharArray.vector a, n, f) end);
     t "CharArray.copy" n (fn () => let val a = CharArray.tabulate (n, f) and b = CharArray.array (n + 9, #"z") in
          CharArray.copy {src = a, dst = b, di = 5};
          isIt (CharArray.vector b, n + 9, fn i => if i < 5 orelse i >= n + 5 then #"z" else f (i - 5)) end);
     app (fn d => t ("CharArray.copy overlapping by " ^ i2s d) n (fn () => n < 80 orelse let val a = CharArray.tabulate (n, f) in
          CharArraySlice.copy {src = CharArraySlice.slice (a, 0, SOME (n - d)), dst = a, di = d};
          isIt (CharArray.vector a, n, fn i => if i < d then f i else f (i - d)) andalso
          let val a = CharArray.tabulate (n, f) in
            CharArraySlice.copy {src = CharArraySlice.slice (a, d, NONE), dst = a, di = 0};
            isIt (CharArray.vector a, n, fn i => if i < n - d then f (i + d) else f i) end end)) [1, 5, 8, 33];
     app (fn j => if j < 0 orelse j >= n then () else t ("differ at " ^ i2s j) n (fn () =>
         let val r = set (s, j) val lt = f j < String.sub (r, j) in
           s <> r andalso not (r = s) andalso String.compare (s, r) = (if lt then LESS else GREATER) andalso (s < r) = lt andalso (r >= s) = lt
           andalso Substring.compare (Substring.all s, Substring.all r) = String.compare (s, r) end)) [0, 1, 7, 8, 63, 64, 255, n div 2, n - 9, n - 8, n - 2, n - 1]
  end
val _ = app one lens
val _ = print ("CASES\t" ^ i2s (!cnt) ^ "\n")
"""


def main():
    c = Check("B04")
    th = c.thorough
    LEN, PLEN, BLEN, PL = (9, 4, 5, 4) if th else (7, 3, 4, 3)
    ML, NL, GL = (5, 5, 7) if th else (4, 4, 6)
    sub = lambda t: t.replace("PLEN", str(PLEN)).replace("BLEN", str(BLEN)).replace("LEN", str(LEN)).replace("PL)", f"{PL})") \
        .replace("] PL", f"] {PL}").replace("ML)", f"{ML})").replace("NL)", f"{NL})").replace("GL)", f"{GL})")
    jobs = [("search", SEARCH, search(LEN, PLEN, BLEN)), ("pairs", PAIRS, pairs(PL)), ("chars", CHARS, chars()),
            ("reads", READ, reads(ML, NL, GL)), ("cvt", CVT, cvt()), ("long", LONG.replace("HI", str(65536 + (64 if th else 8))), [("CASES", "unspecified")])]
    ns = pmap(lambda j: rows(c, j[0], sub(j[1]), j[2], timeout=600), jobs)
    c.sample("aab:1:2:b -> " + dict(search(3, 1, 0))["aab:1:2:b"])
    c.sample("mix:\\\\^@ -> " + read_all("\\^@", ml_one))
    c.finish({"states": sum(ns), "transitions": ns[0] * 4 + ns[1] * 12 + ns[2] * 20 + ns[3] * 4 + ns[4] * 3,
              "traces_validated_against_impl": len(jobs), "exhaustive": True,
              "bounds": f"strings over {{a,b}} to length {LEN} with all substrings, patterns to {PLEN}; pairs to length {PL} over 4 characters; "
                        f"escapes to length {ML}-{GL}; some 380 lengths up to 262144 for the copying and comparing operations"},
             ["oracle: Python str operations and a hand-written reader of the documented ML and C escapes"])


main()
