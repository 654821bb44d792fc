#!/usr/bin/env python3
"""C04: int, word and word8 arithmetic is exact or raises Overflow/Div, in every form the compiler can meet it.

Alphabet: boundary values of the 63-bit int/word and 8-bit word8 domains; every ordered pair; every operation;
forms: operator on variables, operator with a literal on the left/right/both sides, operator as a value, the
structure's function.  Oracle: Python's unbounded integers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI, M = (1 << 62) - 1, -(1 << 62), 1 << 63
MASK = M - 1


def ovf(x):
    return x if MINI <= x <= MAXI else "Overflow"


def quot(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cmpname(a, b):
    return "LESS" if a < b else "GREATER" if a > b else "EQUAL"


B = lambda x: "true" if x else "false"
INT = {
    "+": lambda a, b: ovf(a + b), "-": lambda a, b: ovf(a - b), "*": lambda a, b: ovf(a * b),
    "div": lambda a, b: "Div" if b == 0 else ovf(a // b), "mod": lambda a, b: "Div" if b == 0 else a - b * (a // b),
    "<": lambda a, b: B(a < b), "<=": lambda a, b: B(a <= b), ">": lambda a, b: B(a > b), ">=": lambda a, b: B(a >= b),
    "=": lambda a, b: B(a == b), "<>": lambda a, b: B(a != b)}
INTF = {
    "quot": lambda a, b: "Div" if b == 0 else ovf(quot(a, b)), "rem": lambda a, b: "Div" if b == 0 else a - b * quot(a, b),
    "min": min, "max": max, "compare": cmpname, "sameSign": lambda a, b: B(((a > 0) - (a < 0)) == ((b > 0) - (b < 0)))}
INT1 = {"~": lambda a: ovf(-a), "abs": lambda a: ovf(abs(a)), "sign": lambda a: (a > 0) - (a < 0)}


def w(x, bits):
    return x & ((1 << bits) - 1)


def sx(x, bits):
    return x - (1 << bits) if x >> (bits - 1) else x


def wordops(n):
    return {"+": lambda a, b: w(a + b, n), "-": lambda a, b: w(a - b, n), "*": lambda a, b: w(a * b, n),
            "div": lambda a, b: "Div" if b == 0 else a // b, "mod": lambda a, b: "Div" if b == 0 else a % b,
            "<": lambda a, b: B(a < b), "<=": lambda a, b: B(a <= b), ">": lambda a, b: B(a > b), ">=": lambda a, b: B(a >= b),
            "=": lambda a, b: B(a == b), "<>": lambda a, b: B(a != b)}


def wordfns(n):
    return {"min": min, "max": max, "compare": cmpname, "andb": lambda a, b: a & b, "orb": lambda a, b: a | b, "xorb": lambda a, b: a ^ b}


def shifts(n):   # second argument is a word (63 bits)
    return {"<<": lambda a, k: w(a << k, n) if k < n else 0, ">>": lambda a, k: a >> k if k < n else 0,
            "~>>": lambda a, k: w(sx(a, n) >> min(k, n), n)}


def lit(x, k):
    return smlint(x) if k == "int" else f"0wx{x:X}"


def plit(x, k):
    return f"({lit(x, k)})"


def main():
    c = Check("C04")
    th = c.thorough
    ints = {0, 1, 2, 3, 5, 7, 10, 16, 100}
    for b in (7, 8, 15, 16, 30, 31, 32, 33, 61, 62):
        for d in (-1, 0, 1):
            ints.add((1 << b) + d)
    for b in ((6, 24, 29, 47, 48, 53, 60) if th else ()):
        for d in (-1, 0, 1):
            ints.add((1 << b) + d)
    ints |= {3037000499, 3037000500, 2147483648 * 1000000, 3 ** 20, MAXI // 2, MAXI // 2 + 1, MAXI // 3 + 1, MAXI - 2}
    ints = sorted({x for y in ints for x in (y, -y) if MINI <= x <= MAXI} | {MINI, MINI + 1})
    words = sorted({w(x, 63) for x in ints})
    few = sorted({0, 1, -1, 2, -2, 3, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, (1 << 30) - 1, 1 << 30, -(1 << 30), -(1 << 30) - 1,
                  (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, MAXI, MAXI - 1, MINI, MINI + 1})
    w8 = list(range(256)) if th else sorted({x % 256 for x in list(range(-20, 21)) + list(range(120, 136)) + [50, 64, 85, 100, 170, 192, 200]})
    w8few = [0, 1, 2, 7, 127, 128, 129, 200, 254, 255]
    kinds = {"int": ints, "word": words, "word8": w8}
    fewk = {"int": few, "word": [w(x, 63) for x in few], "word8": w8few}
    ops = {"int": INT, "word": wordops(63), "word8": wordops(8)}
    show = {"int": "(fn x => Int.toString x)", "word": "(fn x => Word.toString x)", "word8": "(fn x => Word8.toString x)"}
    pre = ('fun p s = TextIO.print (s ^ "\\n")\n'
           'fun ex f = f () handle Overflow => "Overflow" | Div => "Div" | e => "exn " ^ exnName e\n'
           'val b2s = fn true => "true" | false => "false"\n'
           'val o2s = fn LESS => "LESS" | EQUAL => "EQUAL" | GREATER => "GREATER"\n')
    progs = []     # (name, text, [(key, expected)])

    def pairs_prog(name, kind, entries, xs, ys=None, ykind=None):
        """entries: (label, sml function of type kind*ykind->string, oracle)"""
        ykind = ykind or kind
        ys = ys or xs
        t = pre + f"val xs = [{','.join(lit(x, kind) for x in xs)}] : {kind} list\nval ys = [{','.join(lit(y, ykind) for y in ys)}] : {ykind} list\n"
        t += "fun run (f : " + kind + " * " + ykind + " -> string) = app (fn x => app (fn y => p (ex (fn () => f (x,y)))) ys) xs\n"
        exp = []
        for i, (label, code, orc) in enumerate(entries):
            t += f"val _ = run ({code})\n"
            for x in xs:
                for y in ys:
                    exp.append((f"{kind}:{label}({lit(x, kind)},{lit(y, ykind)})", orc(x, y)))
        progs.append((name, t + 'val _ = p "DONE"\n', exp))

    def list_prog(name, items):
        """items: (key, sml unit->string expression body, expected)"""
        t = pre
        for key, code, _ in items:
            t += f"val _ = p (ex (fn () => {code}))\n"
        progs.append((name, t + 'val _ = p "DONE"\n', [(k, e) for k, _, e in items]))

    res = lambda kind, op: "b2s" if op in ("<", "<=", ">", ">=", "=", "<>") or op == "sameSign" else "o2s" if op == "compare" else show[kind]
    struct = {"int": "Int", "word": "Word", "word8": "Word8"}
    for kind in kinds:
        e = []
        for op, orc in ops[kind].items():
            e.append((f"a{op}b", f"fn (a,b) => {res(kind, op)} (a {op} b)", orc))
            e.append((f"op{op}", f"let val f = (op {op} ) : {kind}*{kind}->{'bool' if res(kind, op) == 'b2s' else kind} val g = ref f in fn (a,b) => {res(kind, op)} (!g (a,b)) end", orc))
            if op not in ("=", "<>"):
                e.append((f"{struct[kind]}.{op}", f"fn ab => {res(kind, op)} ({struct[kind]}.{op} ab)", orc))
            if res(kind, op) == "b2s":
                e.append((f"if{op}", f"fn (a,b) => if a {op} b then \"true\" else \"false\"", orc))
                e.append((f"ifnot{op}", f"fn (a,b) => if not (a {op} b) then \"false\" else \"true\"", orc))
            e.append((f"let{op}", f"fn (a,b) => let val c = a {op} b val d = [c] in {res(kind, op)} (hd d) end", orc))
        fns = INTF if kind == "int" else wordfns(63 if kind == "word" else 8)
        for op, orc in fns.items():
            e.append((f"{struct[kind]}.{op}", f"fn ab => {res(kind, op)} ({struct[kind]}.{op} ab)", orc))
        h = (len(e) + 2) // 3
        for i in range(0, len(e), h):
            pairs_prog(f"p{kind}{i}", kind, e[i:i + h], kinds[kind])
        # literal on one side
        xs = fewk[kind]
        for side in "LR":
            t, exp = pre, []
            t += f"val xs = [{','.join(lit(x, kind) for x in kinds[kind])}] : {kind} list\n"
            t += "fun run (f : " + kind + " -> string) = app (fn x => p (ex (fn () => f x))) xs\n"
            for op, orc in ops[kind].items():
                for l in xs:
                    ll = plit(l, kind) if kind != "word8" else f"({lit(l, kind)}:word8)"
                    t += f"val _ = run (fn a => {res(kind, op)} ({ll + ' ' + op + ' a' if side == 'L' else 'a ' + op + ' ' + ll}))\n"
                    for x in kinds[kind]:
                        a, b = (l, x) if side == "L" else (x, l)
                        exp.append((f"{kind}:literal-{side}:{lit(a, kind)} {op} {lit(b, kind)}", orc(a, b)))
            progs.append((f"lit{kind}{side}", t + 'val _ = p "DONE"\n', exp))
        # literals on both sides
        items = []
        for op, orc in ops[kind].items():
            for a in xs:
                for b in xs:
                    ty = "" if kind != "word8" else ":word8"
                    items.append((f"{kind}:literals:{lit(a, kind)} {op} {lit(b, kind)}",
                                  f"{res(kind, op)} (({lit(a, kind)}{ty}) {op} ({lit(b, kind)}{ty}))", orc(a, b)))
        for i in range(0, len(items), 2600):
            list_prog(f"ll{kind}{i}", items[i:i + 2600])
    # shifts
    ks = sorted(set(range(0, 10)) | {29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 127, 128, 255, 256, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, M - 1, M - 63})
    for kind, n in (("word", 63), ("word8", 8)):
        e = [(f"{struct[kind]}.{op}", f"fn ab => {show[kind]} ({struct[kind]}.{op} ab)", orc) for op, orc in shifts(n).items()]
        pairs_prog(f"sh{kind}", kind, e, kinds[kind], ks, "word")
    # unary operations and conversions, over the full alphabet
    items = []
    for a in ints:
        L = plit(a, "int")
        for op, orc in INT1.items():
            items.append((f"int:Int.{op} {L}", f"{show['int']} (Int.{op} {L})", orc(a)))
            if op != "sign":
                items.append((f"int:{op} {L}", f"let val x = ref {L} in {show['int']} ({op} (!x)) end", orc(a)))
        for f in ("Word.fromInt", "Word.fromLargeInt"):
            items.append((f"{f} {L}", f"{show['word']} ({f} {L})", w(a, 63)))
        for f in ("Word8.fromInt", "Word8.fromLargeInt"):
            items.append((f"{f} {L}", f"{show['word8']} ({f} {L})", w(a, 8)))
        items.append((f"Int.toInt/fromInt {L}", f"{show['int']} (Int.fromInt (Int.toInt {L}))", a))
        items.append((f"Int.toLarge/fromLarge {L}", f"{show['int']} (Int.fromLarge (Int.toLarge {L}))", a))
        items.append((f"literal {L}", f"{show['int']} {L}", a))
        if a >= 0:
            items.append((f"hex literal {L}", f"{show['int']} 0x{a:x}", a))
        else:
            items.append((f"hex literal {L}", f"{show['int']} ~0x{-a:X}", a))
        items.append((f"literal in constructed data {L}", f"case [({L}, #\"a\", {L})] of [(x,_,y)] => {show['int']} (if x=y then x else 0) | _ => \"?\"", a))
    for a in words:
        L = plit(a, "word")
        items.append((f"Word.toInt {L}", f"{show['int']} (Word.toInt {L})", ovf(a)))
        items.append((f"Word.toIntX {L}", f"{show['int']} (Word.toIntX {L})", sx(a, 63)))
        items.append((f"Word.toLargeIntX {L}", f"{show['int']} (Word.toLargeIntX {L})", sx(a, 63)))
        items.append((f"Word.notb {L}", f"{show['word']} (Word.notb {L})", a ^ MASK))
        items.append((f"Word.~ {L}", f"{show['word']} (Word.~ {L})", w(-a, 63)))
        items.append((f"literal {L}", f"{show['word']} {L}", a))
        items.append((f"decimal literal {L}", f"{show['word']} 0w{a}", a))
        for f in ("toLargeWord", "toLargeWordX", "toLargeX", "toLarge", "fromLarge", "fromLargeWord"):
            items.append((f"Word.{f} {L}", f"{show['word']} (Word.{f} {L})", a))
        for f in ("fromLarge", "fromLargeWord"):
            items.append((f"Word8.{f} {L}", f"{show['word8']} (Word8.{f} {L})", a & 255))
    for a in range(256):
        L = f"(0w{a}:word8)"
        for f, r, k in (("toInt", a, "int"), ("toIntX", sx(a, 8), "int"), ("toLargeInt", a, "int"), ("toLargeIntX", sx(a, 8), "int"),
                        ("toLarge", a, "word"), ("toLargeWord", a, "word"), ("toLargeX", w(sx(a, 8), 63), "word"), ("toLargeWordX", w(sx(a, 8), 63), "word"),
                        ("notb", a ^ 255, "word8"), ("~", w(-a, 8), "word8")):
            items.append((f"Word8.{f} {L}", f"{show[k]} (Word8.{f} {L})", r))
        items.append((f"Byte {L}", f"{show['word8']} (Byte.charToByte (Byte.byteToChar {L}))", a))
    items.append(("Int.precision", "Int.toString (valOf Int.precision)", 63))
    items.append(("Int.minInt", "Int.toString (valOf Int.minInt)", MINI))
    items.append(("Int.maxInt", "Int.toString (valOf Int.maxInt)", MAXI))
    items.append(("Word.wordSize", "Int.toString Word.wordSize", 63))
    items.append(("Word8.wordSize", "Int.toString Word8.wordSize", 8))
    for i in range(0, len(items), 2000):
        list_prog(f"un{i}", items[i:i + 2000])
    # literals that do not fit must be rejected, by name of the literal
    bad = []
    for l in [str(MAXI + 1), "~" + str(-MINI + 1), hex(MAXI + 1), "~0x4000000000000001", "9" * 30, "0x" + "F" * 16, "0x" + "f" * 40, "0w" + str(M), hex(M).replace("0x", "0wx"), "0w" + "9" * 30, "0wx" + "F" * 17,
              "18446744073709551616", "18446744073709551617", "9223372036854775808", "0w18446744073709551617", "0w9223372036854775809",
              "(0w256:word8)", "(0wx100:word8)", "(0w511 : Word8.word)"]:
        bad.append((f"literal {l} must be rejected", l))

    def go(p):
        name, text, exp = p
        r = c.harness(c.compile(name, text), timeout=200)
        if r is None:
            return 0
        lines = r.out.split("\n")
        for (key, want), got in zip(exp, lines):
            if isinstance(want, int):
                asint = key.startswith("int:") or "toInt" in key or "toLargeInt" in key or "hex literal" in key or "wordSize" in key or (key.startswith(("literal", "Int.")) and "(0w" not in key)
                want = smlint(want) if asint else f"{want:X}"
            if got != want:
                c.fail(key, f"{key}: expected {want}, got {got}")
        if len(lines) != len(exp) + 2:
            c.fail(f"lines:{name}", f"{len(exp)} results expected, {len(lines) - 2} lines printed")
        return len(exp)

    def gobad(b):
        key, l = b
        d = c.dir(f"bad{abs(hash(l))}")
        c.write(f"{d}/b.sml", f"val x = {l}\n")
        r = run("mosmlc -c -toplevel b.sml 2>&1", cwd=d, env=c.env, timeout=60)
        if r.rc == 0 or os.path.exists(f"{d}/b.uo") or r.rc < 0:
            c.fail(key, f"val x = {l} is accepted (status {r.rc}): {r.out[-300:]}")
        return 1

    n = sum(pmap(go, progs)) + sum(pmap(gobad, bad))
    pts = sum(len(v) ** 2 for v in kinds.values()) + sum(len(kinds[k]) * len(ks) for k in ("word", "word8"))
    c.sample({"program": "pint0", "first cases": [k for k, _ in progs[0][2][:4]]})
    c.sample({"literal case": progs[-1][2][0][0]})
    c.finish({"states": pts, "transitions": n, "traces_validated_against_impl": len(progs) + len(bad), "exhaustive": True,
              "alphabet": {k: len(v) for k, v in kinds.items()}, "shift_counts": len(ks),
              "bound": "all ordered pairs of the alphabets x all operations x forms (variables, op-value, structure function, literal left/right/both)"},
             ["states = distinct (kind, operand pair) points; transitions = results compared with the oracle",
              "values outside the boundary alphabets are not covered"])


main()
