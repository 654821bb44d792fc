#!/usr/bin/env python3
"""T01: mosmllex lexers return the longest match of the first matching rule.

All regular expressions over two letters up to a size, all pairs and triples of smaller ones, as rules of generated lexers,
on all inputs over three letters to a length; every notation for every character and range; every chunking of the input.
Oracle: derivatives of regular expressions, in Python."""
import functools, itertools, multiprocessing, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ALL = frozenset(range(1, 256))
# AST: ("0",) empty set, ("e",) epsilon, ("c", frozenset), ("s", a, b), ("|", a, b), ("*", a)
NUL, EPS = ("0",), ("e",)


def ch(x):
    return ("c", frozenset([x] if isinstance(x, int) else [ord(y) for y in x]))


def seq(a, b):
    if a == NUL or b == NUL:
        return NUL
    return b if a == EPS else a if b == EPS else ("s", a, b)


def alt(a, b):
    if a == NUL:
        return b
    if b == NUL or a == b:
        return a
    return ("|",) + tuple(sorted((a, b), key=repr))


@functools.lru_cache(None)
def nullable(r):
    t = r[0]
    return t in "e*" or t == "s" and nullable(r[1]) and nullable(r[2]) or t == "|" and (nullable(r[1]) or nullable(r[2]))


@functools.lru_cache(None)
def deriv(r, c):
    t = r[0]
    if t == "c":
        return EPS if c in r[1] else NUL
    if t == "s":
        d = seq(deriv(r[1], c), r[2])
        return alt(d, deriv(r[2], c)) if nullable(r[1]) else d
    if t == "|":
        return alt(deriv(r[1], c), deriv(r[2], c))
    if t == "*":
        return seq(deriv(r[1], c), r)
    return NUL


def lex(rules, text, limit=7):
    """tokens (rule, start, end)...; '!' when no rule matches.  The text ends with one end-of-file character (0)."""
    s, i, out = list(text) + [0], 0, []
    while len(out) < limit:
        rs, best, j = list(rules), None, i
        while True:
            for k, r in enumerate(rs):
                if nullable(r):
                    best = (k, i, j)
                    break
            if j >= len(s):
                break
            rs = [deriv(r, s[j]) for r in rs]
            j += 1
            if all(r == NUL for r in rs):
                break
        if best is None:
            return out + ["!"]
        out.append(best)
        i = best[2]
        if i >= len(s):
            return out
    return out


def fmt(toks, text):
    s = bytes(text) + b"\0"
    return ";".join(t if t == "!" else f"{t[0]}:{t[1]}-{t[2]}:{s[t[1]:t[2]].hex()}" for t in toks)


def show(r, ctx=0):
    """concrete syntax with as few parentheses as the precedences allow; surface AST: also + ? and strings"""
    t = r[0]
    if t == "c":
        return "`%s`" % chr(min(r[1])) if len(r[1]) == 1 else "[" + " ".join("`%s`" % chr(x) for x in sorted(r[1])) + "]"
    if t in ("*", "+", "?"):
        return show(r[1], 2) + " " + t
    if t == "s":
        x = show(r[1], 1) + " " + show(r[2], 1)
        return f"( {x} )" if ctx > 1 else x
    if t == "|":
        x = show(r[1], 0) + " | " + show(r[2], 0)
        return f"( {x} )" if ctx > 0 else x
    raise ValueError(r)


def desugar(r):
    t = r[0]
    if t == "c":
        return r
    a = desugar(r[1])
    if t == "*":
        return ("*", a)
    if t == "+":
        return seq(a, ("*", a))
    if t == "?":
        return alt(a, EPS)
    return seq(a, desugar(r[2])) if t == "s" else alt(a, desugar(r[2]))


def regexes(n, memo={}):
    if n in memo:
        return memo[n]
    if n == 1:
        res = [ch("a"), ch("b")]
    else:
        res = [(u, r) for u in "*+?" for r in regexes(n - 1)]
        for i in range(1, n - 1):
            res += [(o, x, y) for o in "s|" for x in regexes(i) for y in regexes(n - 1 - i)]
    memo[n] = res
    return res


HEAD = r'''{
fun hx c = let val n = Char.ord c fun d k = String.sub ("0123456789abcdef", k) in implode [d (n div 16), d (n mod 16)] end
fun tok (i : int) lb = (i, getLexeme lb, getLexemeStart lb, getLexemeEnd lb)
fun same lb (s : string) = (* getLexemeChar agrees with getLexeme *)
  let fun h i = i >= size s orelse getLexemeChar lb i = String.sub (s, i) andalso h (i+1) in h 0 end
}
'''
DRIVER = r'''
fun hx c = let val n = Char.ord c fun d k = String.sub ("0123456789abcdef", k) in implode [d (n div 16), d (n mod 16)] end
fun show (i, s, a, b) = Int.toString i ^ ":" ^ Int.toString a ^ "-" ^ Int.toString b ^ ":" ^ String.translate hx s
fun toks rule len limit lb =
  let fun go 0 acc = rev acc | go n acc =
     case (SOME (rule lb) handle Fail _ => NONE) of NONE => rev ("!" :: acc)
       | SOME (t as (_, _, _, e)) => if e > len then rev (show t :: acc) else go (n-1) (show t :: acc)
  in String.concatWith ";" (go limit []) end
fun strRun rule s = toks rule (size s) 7 (Lexing.createLexerString s)
(* a reader that gives the chunks of the list one after the other *)
fun chunked rule limit s sizes =
  let val pos = ref 0 val szs = ref sizes
      fun rd buf n = let val want = case !szs of [] => n | [k] => k | k :: r => (szs := r; k) val m = Int.min (Int.min (want, n), size s - !pos) in
         CharArray.copyVec {src = String.substring (s, !pos, m), dst = buf, di = 0}; pos := !pos + m; m end
  in toks rule (size s) limit (Lexing.createLexer rd) end
'''


def lexer_file(entries, head=HEAD):
    """entries: [(name, [(regex text, action number)])]"""
    out = [head]
    for k, (nm, rules) in enumerate(entries):
        out.append(("rule " if k == 0 else "and ") + f"{nm} = parse\n    " + "\n  | ".join(f"{r} {{ tok {i} lexbuf }}" for i, r in enumerate(rules)))
    return "\n".join(out) + "\n;\n"


def expect(job):
    ents, inputs = job
    return {f"{nm}.{i}": fmt(lex(asts, t), t) for nm, asts in ents for i, t in enumerate(inputs)}


def build(c, name, lexers, main, must=True):
    """lexers: [(module, text)]"""
    d = c.dir(name)
    cmds = []
    for mod, text in lexers:
        c.write(f"{d}/{mod}.lex", text)
        cmds += [f"mosmllex {mod}.lex", f"mosmlc -c {mod}.sml"]
    c.write(f"{d}/main.sml", main)
    r = run(" && ".join(cmds + ["mosmlc -toplevel " + " ".join(m + ".uo" for m, _ in lexers) + " main.sml -o main.exe"]), cwd=d, env=c.env, merge=True, timeout=300)
    if not os.path.exists(f"{d}/main.exe"):
        if must:
            c.fail(f"build:{name}", f"the lexer does not build:\n{errors_of(r.out)}")
        return None
    return f"{d}/main.exe"


def compare(c, key, exe, want, describe):
    r = c.harness(exe)
    if r is None:
        return 0
    got = dict(l.partition("\t")[::2] for l in r.out.split("\n") if "\t" in l)
    for k, v in want.items():
        if got.get(k) != v:
            c.fail(f"{key}:{k}", f"{describe(k)}\n  expected {v}\n  got      {got.get(k)}")
    return len(want)


def smlstring(t):
    return '"' + "".join("\\%03d" % x for x in t) + '"'


def main():
    c = Check("T01")
    th = c.thorough
    ctx = multiprocessing.get_context("fork")

    # ---- 1 all small expressions and rule lists
    lists = [[r] for n in range(1, 6 if th else 5) for r in regexes(n)]
    if not th:
        lists += [[r] for r in regexes(5)[::2]]
    small = [r for n in range(1, 4) for r in regexes(n)]
    lists += [[x, y] for x in small for y in small]
    tiny = [r for n in (1, 2) for r in regexes(n)]
    lists += [list(p) for p in itertools.product(tiny, repeat=3)]
    L = 7 if th else 5
    inputs = [tuple(map(ord, p)) for l in range(L + 1) for p in itertools.product("abc", repeat=l)]
    ents = []
    for k, rl in enumerate(lists):
        texts, asts = [show(r) for r in rl], [desugar(r) for r in rl]
        if k % 3 == 0:                      # with an end-of-file rule; the others end with an error
            texts.append("eof")
            asts.append(ch(0))
        if k % 4 == 1:
            texts.append("_")
            asts.append(("c", ALL))
        ents.append((f"r{k}", texts, asts))
    groups = [ents[i:i + 70] for i in range(0, len(ents), 70)]
    inp = "val inputs = [" + ",".join(smlstring(t) for t in inputs) + "]\n"

    def job(ig):
        i, g = ig
        mod = f"L{i}"
        main_ = DRIVER + inp + f"fun all nm rule = ignore (foldl (fn (s, k) => (print (nm ^ \".\" ^ Int.toString k ^ \"\\t\" ^ strRun rule s ^ \"\\n\"); k + 1)) 0 inputs)\n" + \
            "".join(f'val _ = all "{nm}" {mod}.{nm}\n' for nm, _, _ in g) + 'val _ = print "DONE\\n"\n'
        return build(c, f"all{i}", [(mod, lexer_file([(nm, t) for nm, t, _ in g]))], main_)
    with ctx.Pool(NCPU) as pool:
        fut = pool.map_async(expect, [([(nm, a) for nm, _, a in g], inputs) for g in groups])
        exes = pmap(job, list(enumerate(groups)))
        wants = fut.get()
    texts = {nm: t for nm, t, _ in ents}

    def desc(k):
        nm, _, i = k.partition(".")
        return f"rules {' / '.join(texts[nm])} on {bytes(inputs[int(i)])}"
    n1 = sum(pmap(lambda z: compare(c, "rules", z[0], z[1], desc) if z[0] else 0, list(zip(exes, wants))))

    # ---- 2 notations: every character, ranges, classes, strings, names, precedences
    forms = []                              # (list of regex texts, asts, inputs)
    esc = {10: "\\n", 9: "\\t", 8: "\\b", 13: "\\r", 92: "\\\\", 96: "\\`"}
    for x in range(1, 256):
        near = [(x,), (x % 255 + 1,), ((x - 2) % 255 + 1,), (x, x)]
        notes = ["`\\%03d`" % x, "[`\\%03d`]" % x, '"\\%03d"' % x]
        if 32 <= x < 255 and x not in (92, 96, 127):
            notes.append(f"`{chr(x)}`")
        if 32 <= x < 255 and x not in (92, 34, 127):
            notes.append(f'"{chr(x)}"')
        if x < 32:
            notes.append(f"`\\^{chr(x + 64)}`")
            notes.append(f'"\\^{chr(x + 64)}"')
        if x in esc:
            notes.append(f"`{esc[x]}`")
            if x != 96:
                notes.append(f'"{esc[x]}"')
        if x == 34:
            notes.append('"\\""')
        for nt in notes:
            forms.append(([nt], [ch(x)], near))
        forms.append((["[^ `\\%03d`]" % x], [("c", ALL - {x})], near + [()]))
    codes = [1, 2, 31, 32, 47, 48, 57, 58, 65, 90, 97, 122, 126, 127, 128, 129, 200, 254, 255]
    for x, y in itertools.product(codes, repeat=2):
        rng = frozenset(range(x, y + 1))
        pts = [(p,) for p in sorted({max(1, min(255, q)) for q in (x - 1, x, x + 1, y - 1, y, y + 1)})]
        forms.append((["[`\\%03d`-`\\%03d`]" % (x, y)], [("c", rng)], pts))
        forms.append((["[^`\\%03d`-`\\%03d` `q`]" % (x, y)], [("c", ALL - rng - {113})], pts + [(113,)]))
    everyc = [(x,) for x in range(1, 256)] + [()]
    az, num = frozenset(range(97, 123)), frozenset(range(48, 58))
    forms += [(["[`a`-`f` `h` `j`-`z`]"], [("c", az - {103, 105})], everyc), (["[^`a`-`z` `0`-`9` `_`]"], [("c", ALL - az - num - {95})], everyc), (["_"], [("c", ALL)], everyc),
              (["[`a`]", "[^`a`]"], [ch("a"), ("c", ALL - {97})], everyc), (["[`a`-`c`]", "[`b`-`z`]", "_"], [ch("abc"), ("c", az), ("c", ALL)], everyc),
              (["[]", "`a`"], [NUL, ch("a")], [(97,), ()]), (["[^]"], [("c", ALL)], everyc), (["`\\200`-`a`"[:6], "_"], [ch(200), ("c", ALL)], everyc)]
    ab = [tuple(map(ord, p)) for l in range(6) for p in itertools.product("abc", repeat=l)]

    def st(s):
        return functools.reduce(lambda r, x: seq(ch(x), r), reversed(s), EPS) if s else EPS
    star = lambda r: ("*", r)
    A, B, C = ch("a"), ch("b"), ch("c")
    prec = [("`a` | `b` `c` *", alt(A, seq(B, star(C)))), ("`a` `b` | `c` +", alt(seq(A, B), seq(C, star(C)))), ("`a` ? `b` ?", seq(alt(A, EPS), alt(B, EPS))),
            ("`a` | `b` | `c` `a`", alt(A, alt(B, seq(C, A)))), ("( `a` | `b` ) `c`", seq(alt(A, B), C)), ("`a` * ?", star(A)), ("`a` + *", star(A)), ("`a` ? +", star(A)), ("`a` `b` ? `c` *", seq(A, seq(alt(B, EPS), star(C)))),
            ('"ab" *', star(st("ab"))), ('"ab" +', seq(st("ab"), star(st("ab")))), ('"ab" ?', alt(st("ab"), EPS)), ('"abc" | "ab" | "a"', alt(st("abc"), alt(st("ab"), A))), ('"a" "b" "c"', st("abc")),
            ('"ab" | `c` `a` *', alt(st("ab"), seq(C, star(A)))), ('( "ab" | "ac" ) + `b` ?', seq(seq(alt(st("ab"), st("ac")), star(alt(st("ab"), st("ac")))), alt(B, EPS))), ('"ab" eof', seq(st("ab"), ch(0))),
            ('`a` * eof', seq(star(A), ch(0))), ('`a` ( `b` | eof )', seq(A, alt(B, ch(0)))), ('_ _', seq(("c", ALL), ("c", ALL))), ('[`a` `b`] * "abb"', seq(star(ch("ab")), st("abb"))),
            ('( `a` | `b` `b` ) * `c`', seq(star(alt(A, seq(B, B))), C)), ('( ( `a` * ) * ) * `b`', seq(star(A), B)), ('x y | z', alt(seq(A, B), seq(alt(A, B), C))), ('z * x', seq(star(seq(alt(A, B), C)), A)), ('w +', seq(st("ab"), star(st("ab")))),
            ('( x ) ( y ) ?', seq(A, alt(B, EPS)))]
    for t, a in prec:
        forms.append(([t], [a], ab))
        forms.append(([t, "`a` +", "_"], [a, seq(A, star(A)), ("c", ALL)], ab))
        forms.append((["`a` `b`", t], [st("ab"), a], ab))
    for rules in itertools.product([('""', EPS), ("`a`", A), ("`b` *", star(B)), ('( "" | `c` )', alt(EPS, C))], repeat=2):     # rules that match the empty string (only)
        forms.append(([t for t, _ in rules], [a for _, a in rules], ab[:40]))
        forms.append(([rules[0][0]], [rules[0][1]], ab[:40]))
    words = ["if", "in", "int", "integer", "i", "else", "e", "elsif", "end", "endif", "=", "==", "=>", ">=", ">", ">>=", ">>"]
    wt = [f'"{w}"' for w in words] + ["[`a`-`z`] +", "` ` +"]
    wa = [st(w) for w in words] + [seq(("c", az), star(("c", az))), seq(ch(" "), star(ch(" ")))]
    winp = [tuple(map(ord, a + s + b)) for a in words for b in words for s in ("", " ")] + [tuple(map(ord, w[:k] + "x")) for w in words for k in range(len(w) + 1)]
    forms += [(wt, wa, winp), (wt[::-1], wa[::-1], winp), ([wt[-2]] + wt[:-2] + [wt[-1]], [wa[-2]] + wa[:-2] + [wa[-1]], winp)]
    kw = ["k%d" % (i * 7919 % 1000) for i in range(320)]
    forms.append(([f'"{w}"' for w in kw] + ["[`a`-`z` `0`-`9`] +"], [st(w) for w in kw] + [seq(("c", az | num), star(("c", az | num)))], [tuple(map(ord, w)) for w in kw] + [tuple(map(ord, w + "x")) for w in kw[:50]]))
    lets = "let x = `a`\nlet y = `b`\nlet z = ( x | y ) `c`\nlet w = \"ab\"\n"
    fents = [(f"f{k}", t, a, i) for k, (t, a, i) in enumerate(forms)]
    fg = [fents[i::16] for i in range(16)]

    def fjob(ig):
        i, g = ig
        mod = f"F{i}"
        main_ = DRIVER + "fun go nm rule xs = ignore (foldl (fn (s, k) => (print (nm ^ \".\" ^ Int.toString k ^ \"\\t\" ^ strRun rule s ^ \"\\n\"); k + 1)) 0 xs)\n" + \
            "".join(f'val _ = go "{nm}" {mod}.{nm} [{",".join(smlstring(t) for t in ins)}]\n' for nm, _, _, ins in g) + 'val _ = print "DONE\\n"\n'
        return build(c, f"form{i}", [(mod, lexer_file([(nm, t) for nm, t, _, _ in g], HEAD + lets))], main_)
    fexe = pmap(fjob, list(enumerate(fg)))
    ftext = {nm: (t, i) for nm, t, _, i in fents}

    def fdesc(k):
        nm, _, i = k.partition(".")
        return f"rules {' / '.join(ftext[nm][0])[:200]} on {bytes(ftext[nm][1][int(i)])}"
    n2 = 0
    for e, g in zip(fexe, fg):
        if e:
            n2 += compare(c, "notation", e, {f"{nm}.{k}": fmt(lex(a, t), t) for nm, _, a, ins in g for k, t in enumerate(ins)}, fdesc)

    # ---- 3 chunked readers and buffer boundaries; several lexers at the same time; entry points calling one another
    body = r'''
rule main = parse
    [`a`-`z`] +            { tok 0 lexbuf }
  | [`0`-`9`] + (`.` [`0`-`9`] +)?   { tok 1 lexbuf }
  | [` ` `\n`]             { tok 2 lexbuf }
  | "=>"                   { tok 3 lexbuf }
  | "=" | "==="            { tok 4 lexbuf }
  | [`\128`-`\255`] +      { tok 5 lexbuf }
  | eof                    { tok 6 lexbuf }
and skip = parse
    [`a`-`z`] +            { skip2 lexbuf }
  | "(*"                   { (comment lexbuf; skip lexbuf) }
  | eof                    { tok 6 lexbuf }
and skip2 = parse
    `!`                    { tok 7 lexbuf }
  | [`0`-`9`]              { skip lexbuf }
and comment = parse
    "*)"                   { () }
  | "(*"                   { (comment lexbuf; comment lexbuf) }
  | _                      { comment lexbuf }
;
'''
    W = ("c", az)
    R3 = [seq(W, star(W)), seq(seq(("c", num), star(("c", num))), alt(seq(ch("."), seq(("c", num), star(("c", num)))), EPS)), ch(" \n"), st("=>"), alt(st("="), st("===")),
          seq(("c", frozenset(range(128, 256))), star(("c", frozenset(range(128, 256))))), ch(0)]
    short = ["ab 12.5=>x", "1.a==>===", "a=b==c", "\x80\xff9.", "ab12", "==", "1.2.3 "]
    longs = []
    for off in (0, 1, 5, 1000, 1020, 1023):
        for tl in (1, 30, 1000, 1023, 1024):
            longs.append(" " * off + "a" * tl + "1" * 7 + ".5 ===" + "z" * 900 + " 12.=" + "\xff" * 1024 + "q" * 60)
    longs.append(" ".join("abc%dxyz=>%d.%d===" % (i, i, i * 3) for i in range(400)))
    rows_ = []
    for i, s in enumerate(short):
        for m in range(1 << (len(s) - 1)):
            cuts = [k for k in range(1, len(s)) if m >> (k - 1) & 1] + [len(s)]
            rows_.append((f"s{i}.{m}", s, [b - a for a, b in zip([0] + cuts, cuts)] + [1024], 40))
    for i, s in enumerate(longs):
        for sizes in ([1024], [1], [2], [3], [7], [500], [1000], [1023], [1, 1024], [1023, 1, 1024], [1, 1023, 2, 1022], [512, 513], [100, 1024, 1]):
            rows_.append((f"l{i}.{'_'.join(map(str, sizes))}", s, sizes, 5000))
    exp = {}

    @functools.lru_cache(None)
    def whole(s, lim):
        t = s.encode("latin-1")
        return fmt(lex(R3, t, lim), t)
    m3 = DRIVER + "val longs = Vector.fromList [" + ",".join(smlstring(s.encode("latin-1")) for s in longs) + "]\nval shorts = Vector.fromList [" + ",".join(smlstring(s.encode("latin-1")) for s in short) + "]\n"
    m3 += "fun hash s = CharVector.foldl (fn (c, h) => (h * 31 + Char.ord c) mod 1000000007) 7 s\n"
    rl = []
    for k, s, sizes, lim in rows_:
        which = ("Vector.sub (shorts, %s)" if k[0] == "s" else "Vector.sub (longs, %s)") % k[1:].split(".")[0]
        rl.append(f'("{k}", {which}, {sizes}, {lim})')
        w = whole(s, lim)
        exp[k] = w if k[0] == "s" else str(functools.reduce(lambda h, x: (h * 31 + ord(x)) % 1000000007, w, 7))
    for i in range(0, len(rl), 400):
        m3 += "val _ = List.app (fn (k, s, z, n) => let val r = chunked Buf.main n s z in print (k ^ \"\\t\" ^ (if String.sub (k, 0) = #\"s\" then r else Int.toString (hash r)) ^ \"\\n\") end) [" + ",\n".join(rl[i:i + 400]) + "]\n"
    m3 += r'''
(* whole-string lexers of long inputs: no limit on the length of a token *)
val _ = Vector.appi (fn (i, s) => print ("w" ^ Int.toString i ^ "\t" ^ Int.toString (hash (toks Buf.main (size s) 5000 (Lexing.createLexerString s))) ^ "\n")) longs
val big = CharVector.tabulate (70000, fn _ => #"k")
val _ = print ("big\t" ^ Int.toString (size (#2 (Buf.main (Lexing.createLexerString big)))) ^ "\n")
(* two lexers taken turns with *)
fun reader s k = let val pos = ref 0 in fn buf => fn n => let val m = Int.min (k, size s - !pos) in CharArray.copyVec {src = String.substring (s, !pos, m), dst = buf, di = 0}; pos := !pos + m; m end end
fun turns (k1, k2) = let val s1 = "ab 12 cd => 34" and s2 = "xyz 9.5===q" val l1 = Lexing.createLexer (reader s1 k1) val l2 = Lexing.createLexer (reader s2 k2)
   fun go 0 = [] | go n = let val a = #2 (Buf.main l1) val b = #2 (Buf.main l2) in a :: b :: go (n-1) end in String.concatWith "," (go 6) end
val _ = List.app (fn k1 => List.app (fn k2 => print ("turn" ^ Int.toString k1 ^ "_" ^ Int.toString k2 ^ "\t" ^ turns (k1, k2) ^ "\n")) [1,2,3,5,1024]) [1,2,3,5,1024]
(* entry points that call one another *)
fun deep s = show (Buf.skip (Lexing.createLexerString s)) handle Fail _ => "!"
val _ = List.app (fn (k, s) => print ("deep" ^ k ^ "\t" ^ deep s ^ "\n")) [("0", "ab1cd!"), ("1", "(* x (* y *) z *)ab2(**)c!"), ("2", "ab"), ("3", ""), ("4", "a1"), ("5", "a1(* (*")]
val _ = print "DONE\n"
'''
    # a comment that is not closed reaches the end of the input, where `_` does not match: an error
    exp.update({f"w{i}": str(functools.reduce(lambda h, x: (h * 31 + ord(x)) % 1000000007, whole(s, 5000), 7)) for i, s in enumerate(longs)})
    exp["big"] = "70000"
    for k1, k2 in itertools.product((1, 2, 3, 5, 1024), repeat=2):
        exp[f"turn{k1}_{k2}"] = "ab,xyz, , ,12,9.5, ,===,cd,q, ,\\000".replace("\\000", "\0")
    hexs = lambda s: s.encode().hex()
    exp.update({"deep0": "7:5-6:" + hexs("!"), "deep1": "7:25-26:" + hexs("!"), "deep2": "!", "deep3": "6:0-1:00", "deep4": "6:2-3:00", "deep5": "!"})
    e3 = build(c, "buf", [("Buf", HEAD + body)], m3)
    n3 = compare(c, "chunks", e3, exp, lambda k: "reader chunks / positions") if e3 else 0

    # ---- 4 actions and header are copied faithfully
    acts = ['"}"', '"{"', '"\\"}"', '"(*"', '"*)"', '(* } *) "x"', '(* { *) "y"', '(* (* } *) } *) "z"', 'let val {a, b} = {a = "1", b = "2"} in a ^ b end', '(fn {x} => x) {x = "r"}', '"\\\\"', '"a\\\n  \\b"',
            'String.str #"}"', 'String.str #"{"', 'String.str #"\\""', '"`"', '"$1"', '"' + "n" * 1010 + '"', '"' + "m" * 1023 + '"', '"' + "p" * 1024 + '"', '"' + "q" * 2047 + '"', '"' + "s" * 5000 + '"', "(* " + "c" * 3000 + ' *) "after"']
    vals = ["}", "{", '"}', "(*", "*)", "x", "y", "z", "12", "r", "\\", "ab", "}", "{", '"', "`", "$1", "n" * 1010, "m" * 1023, "p" * 1024, "q" * 2047, "s" * 5000, "after"]
    for pad in (0, 1, 500, 1000, 1023, 1024):
        ents4 = ["rule a = parse\n    " + "\n  | ".join(f"`{chr(65 + k)}` {{ {a} }}" for k, a in enumerate(acts))]
        text = "(* " + "h" * pad + " *)\n{ (* header } *) val hd = \"{\" ^ \"}\"; }\n" + "\n".join(ents4) + "\n  | eof { hd }\n;\n"
        m4 = CASE_PRELUDE + "".join(f'val _ = print ("{k}\\t" ^ String.toString (Act.a (Lexing.createLexerString "{chr(65 + k)}")) ^ "\\n")\n' for k in range(len(acts))) + \
            'val _ = print ("h\\t" ^ Act.a (Lexing.createLexerString "") ^ "\\n")\nval _ = print "DONE\\n"\n'
        e4 = build(c, f"act{pad}", [("Act", text)], m4)
        if e4:
            n3 += compare(c, f"action text, offset {pad}", e4, {**{str(k): smlesc(v) for k, v in enumerate(vals)}, "h": "{}"}, lambda k: f"action {acts[int(k)][:60] if k != 'h' else 'header'}")
    # ill-formed definitions are refused
    bads = ["rule a = parse `a` { 1 }", "rule a = parse `a { 1 } ;", 'rule a = parse "a { 1 } ;', "rule a = parse `a` { 1 ;", "rule a = parse q { 1 } ;", "let q = q `a`\nrule a = parse q { 1 } ;", "rule a = parse ( `a` { 1 } ;", "rule a = parse `a` * * ) { 1 } ;",
            "rule a parse `a` { 1 } ;", "rule a = parse [`a` { 1 } ;", "(* rule a = parse `a` { 1 } ;", "rule a = parse `ab` { 1 } ;", "rule a = parse `\\q` { 1 } ;", 'rule a = parse "\\q" { 1 } ;', "rule a = parse | `a` { 1 } ;", "rule a = parse `a` ;", "rule a = parse `\\999` { 1 } ;", "rule a = parse `a` { (* } ;", 'rule a = parse `a` { " } ;', ""]
    bd = c.dir("bad")
    for k, t in enumerate(bads):
        c.write(f"{bd}/b{k}.lex", t)
        r = run(["mosmllex", f"b{k}.lex"], cwd=bd, env=c.env, timeout=30, merge=True)
        n3 += 1
        if r.rc == 0 or r.died:
            c.fail(f"ill-formed definition {t!r}", f"status {r.rc}, output {r.out[-200:]}")
    c.sample("rules a b* / (a|b)+ on 'abacb' -> tokens with positions")
    c.sample(f"{len(ents)} rule lists x {len(inputs)} inputs")
    c.finish({"states": len(ents) + len(fents), "transitions": n1 + n2 + n3, "traces_validated_against_impl": n1 + n2 + n3, "exhaustive": True, "lexers": len(ents) + len(fents), "lexer_runs": n1, "notation_runs": n2, "buffer_runs": n3,
              "bound": f"expressions of up to 5 constructors over two letters, pairs of expressions of 3, triples of 2; inputs over 3 letters to length {L}; tokens to 1024 characters with a reading function"},
             ["a NUL character in the input counts as end of file, as documented", "a token longer than 1024 characters read through a reading function may raise Fail"])


main()
