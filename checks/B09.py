#!/usr/bin/env python3
"""B09: polymorphic equality is structural (identity for references and arrays) and hashing respects it.

For each of some forty types: a list of values (Python value + SML expression), built twice by the program, the first
copy promoted to the old heap, the second fresh; every ordered pair is compared by =, <>, through a polymorphic function,
inside a tuple, a list, an option, and by a fresh structural copy; every result is compared with Python's equality of the values.
Polyhash.hash and hash_param at every small (count, limit) must agree on equal values, before and after collections."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI = 2**62 - 1, -2**62


def ints():
    return [(smlint(v), v) for v in sorted({0, 1, 2, 3, -1, -2, 255, 256, 65535, 65536, 2**30, 2**30 - 1, -2**30, 2**31, 2**31 - 1, 2**32, 2**32 + 1, -2**31, -2**32, 2**61, 2**61 + 1, MAXI, MAXI - 1, MINI, MINI + 1})]


def ints3():
    return [(smlint(v), v) for v in (0, 1, -1)]


def strings(deep):
    out = [""]
    for l in range(0, 3):
        out += ["".join(w) for w in itertools.product("\0ab\xff", repeat=l) if l]
    for l in (3, 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 127, 128, 129, 130, 200, 257):
        base = "".join(chr(97 + i % 26) for i in range(l))
        out.append(base)
        for p in sorted({0, 1, l // 2, l - 2, l - 1} | (set(range(l)) if l <= 25 or deep else set())):
            if 0 <= p < l:
                for ch in ("\0", "Z") if l <= 25 else ("Z",):
                    out.append(base[:p] + ch + base[p + 1:])
    out = list(dict.fromkeys(out))
    return [(smlstr(s), s) for s in out]


def tup(*us):
    return [("(" + ",".join(e for e, _ in c) + ")", tuple(v for _, v in c)) for c in itertools.product(*us)]


def rec(names, *us):
    return [("{" + ",".join(f"{n} = {e}" for n, (e, _) in zip(names, c)) + "}", tuple(sorted(zip(names, (v for _, v in c))))) for c in itertools.product(*us)]


def lists(u, n):
    out = []
    for l in range(n + 1):
        for c in itertools.product(u, repeat=l):
            out.append(("[" + ",".join(e for e, _ in c) + "]", ("list",) + tuple(v for _, v in c)))
    return out


def vecs(u, n):
    return [("#[" + e[1:], ("vec",) + v[1:]) for e, v in lists(u, n)]


def opts(u):
    return [("NONE", None)] + [(f"(SOME {e})", ("SOME", v)) for e, v in u]


def con(name, u):
    return [(f"({name} {e})", (name, v)) for e, v in u]


def nul(*names):
    return [(n, (n,)) for n in names]


BOOL = [("false", False), ("true", True)]
CH = [(f'#"{e}"', ("c", v)) for e, v in (("\\000", 0), ("\\001", 1), ("a", 97), ("b", 98), ("\\127", 127), ("\\128", 128), ("\\255", 255))]
W8 = [(f"(Word8.fromInt {v})", ("w8", v)) for v in (0, 1, 127, 128, 254, 255)]
WD = [(f"0w{v}", ("w", v)) for v in (0, 1, 2, 2**31, 2**32, 2**62, 2**62 - 1, 2**63 - 1)]
I3 = ints3()
SH = [('""', ""), ('"a"', "a"), ('"b"', "b"), ('"aa"', "aa")]

DECLS = r'''
datatype color = Red | Green | Blue
datatype shape = Dot | Circle of int | Square of int | Rect of int * int | Name of string | Line of int list
datatype one = One of int
datatype both = Pair of int * string
datatype tree = Lf | Br of tree * int * tree
datatype alt = A0 | B0 | A1 of int | B1 of int | A2 of int * int | B2 of int * int | C3 of {x : int, y : bool, z : string} | D of color | E of alt option
datatype 'a rose = Rose of 'a * 'a rose list
datatype big = K0 | K1 | K2 | K3 | K4 | K5 | K6 | K7 | K8 | K9 | J0 of int | J1 of int | J2 of int | J3 of int | J4 of int | J5 of int | J6 of int | J7 of int | J8 of int | J9 of int
datatype long = Nil' | Cons' of int * long
val theRefs : int ref list = [ref 0, ref 0, ref 1, ref 1]
val theRefs2 : string list ref list = [ref [], ref [], ref ["x"], ref ["x"]]
val theArrs : int array list = [Array.fromList [], Array.fromList [], Array.fromList [0], Array.fromList [0], Array.fromList [0,1]]
val theBytes : Word8Array.array list = [Word8Array.array (0, Word8.fromInt 0), Word8Array.array (0, Word8.fromInt 0), Word8Array.array (3, Word8.fromInt 7), Word8Array.array (3, Word8.fromInt 7)]
'''


def trees(d, labels):
    if d == 0:
        return nul("Lf")
    sub = trees(d - 1, labels)
    return nul("Lf") + [(f"(Br({a},{smlint(x)},{b}))", ("Br", va, x, vb)) for a, va in sub for x in labels for b, vb in sub]


def roses(d):
    if d == 0:
        return [(f"(Rose({i},[]))", ("Rose", i, ())) for i in (0, 1)]
    sub = roses(d - 1)
    ls = [c for l in range(3) for c in itertools.product(sub, repeat=l)]
    return [(f"(Rose({i},[{','.join(e for e, _ in c)}]))", ("Rose", i, tuple(v for _, v in c))) for i in (0, 1) for c in ls]


def universes(deep):
    U = {}
    alts = nul("A0", "B0") + con("A1", I3) + con("B1", I3) + con("A2", tup(I3[:2], I3[:2])) + con("B2", tup(I3[:2], I3[:2])) + \
        con("C3", rec("xyz", I3[:2], BOOL, SH[:2])) + con("D", nul("Red", "Green", "Blue"))
    U["unit"] = [("()", ())]
    U["bool"] = BOOL
    U["int"] = ints()
    U["word"] = WD
    U["Word8.word"] = W8
    U["char"] = CH
    U["string"] = strings(deep)
    U["int * int"] = tup(ints()[::4], ints()[::4])
    U["bool * int * string"] = tup(BOOL, I3, SH)
    U["int * int * int * int * int"] = tup(I3[:2], I3[:2], I3[:2], I3[:2], I3[:2])
    U["{b : int, a : bool, c : char}"] = rec("bac", I3, BOOL, CH[:3])
    U["int list"] = lists(I3, 4)
    U["bool list"] = lists(BOOL, 6)
    U["string list"] = lists(SH, 3)
    U["int list list"] = lists(lists(I3[:2], 2), 2)
    U["char list option"] = opts(lists(CH[:3], 3))
    U["int option"] = opts(ints())
    U["int option option"] = opts(opts(I3))
    U["string option * bool option"] = tup(opts(SH), opts(BOOL))
    U["int vector"] = vecs(I3, 4)
    U["string vector"] = vecs(SH, 2)
    U["int vector list"] = lists(vecs(I3[:2], 2), 2)
    U["Word8Vector.vector"] = [(f"(Word8Vector.fromList (map Word8.fromInt {list(v)}))", ("w8v",) + v) for l in range(4) for v in itertools.product((0, 1, 255), repeat=l)]
    U["color"] = nul("Red", "Green", "Blue")
    U["shape"] = nul("Dot") + con("Circle", I3) + con("Square", I3) + con("Rect", tup(I3, I3)) + con("Name", SH) + con("Line", lists(I3, 2))
    U["one"] = con("One", ints())
    U["both"] = con("Pair", tup(I3, SH))
    U["tree"] = trees(2, (0, 1)) + ([] if not deep else [(f"(Br({a},7,Lf))", ("Br", v, 7, ("Lf",))) for a, v in trees(2, (0, 1))])
    U["alt"] = alts + con("E", opts(alts))
    U["int rose"] = roses(2) if deep else roses(1) + roses(2)[::5]
    U["big"] = nul(*[f"K{i}" for i in range(10)]) + [x for i in range(10) for x in con(f"J{i}", I3[:2])]
    U["long"] = []
    for l in lists(I3, 4):
        e, v = "Nil'", ("Nil'",)
        for x in reversed(l[1][1:]):
            e, v = f"Cons'({smlint(x)},{e})", (x, v)
        U["long"].append((f"({e})", v))
    U["string * (int * (bool * char list))"] = tup(SH, tup(I3, tup(BOOL, lists(CH[:2], 2))))
    refs = [(f"(List.nth (theRefs,{i}))", ("ref", i)) for i in range(4)]
    refs2 = [(f"(List.nth (theRefs2,{i}))", ("ref2", i)) for i in range(4)]
    arrs = [(f"(List.nth (theArrs,{i}))", ("arr", i)) for i in range(5)]
    U["int ref"] = refs
    U["string list ref"] = refs2
    U["int array"] = arrs
    U["Word8Array.array"] = [(f"(List.nth (theBytes,{i}))", ("bytes", i)) for i in range(4)]
    U["int ref list"] = lists(refs, 3)
    U["int * int ref"] = tup(I3, refs)
    U["int array option"] = opts(arrs)
    U["(int ref * int array) list"] = lists(tup(refs[:2], arrs[:3]), 2)
    U["int ref vector"] = vecs(refs, 2)
    return U


LIB = r'''
fun peq (x : ''a, y : ''a) = x = y
fun pne (x : ''a, y : ''a) = x <> y
fun b2c true = "1" | b2c false = "0"
fun churn () = let fun h 0 acc = length acc | h n acc = h (n-1) ((n, [n]) :: (if n mod 1000 = 0 then [] else acc)) in h 60000 [] end
fun hashes xs = List.concat (map (fn x => [Polyhash.hash x, Polyhash.hash_param 1 1 x, Polyhash.hash_param 1 3 x, Polyhash.hash_param 2 5 x, Polyhash.hash_param 3 7 x, Polyhash.hash_param 10 100 x, Polyhash.hash_param 50 500 x]) xs)
fun show is = String.concatWith " " (map Int.toString is)
'''


def main():
    c = Check("B09")
    U = universes(c.thorough)
    tot = [0, 0]

    def go(it):
        k, (ty, us) = it
        eqforms = [("=", "fn (x : T, y : T) => x = y"), ("poly =", "fn p : T * T => peq p"), ("op =", "op = : T * T -> bool"),
                   ("tuple", "fn (x : T, y) => (1, x, \"k\") = (1, y, \"k\")"), ("first of a tuple", "fn (x : T, y) => (x, [3]) = (y, [3])"), ("list", "fn (x : T, y) => [x] = [y]"), ("second in a list", "fn (x : T, y) => peq ([x, x], [x, y])"),
                   ("option", "fn (x : T, y) => SOME x = SOME y"), ("vector", "fn (x : T, y) => peq (#[x], #[y])"), ("List.exists", "fn (x : T, y) => List.exists (fn z => z = y) [x]")]
        neforms = [("<>", "fn (x : T, y : T) => x <> y"), ("poly <>", "fn p : T * T => pne p"), ("op <>", "op <> : T * T -> bool"), ("option <>", "fn (x : T, y) => SOME x <> SOME y"), ("tuple <>", "fn (x : T, y) => (x, 2) <> (y, 2)")]
        if ty not in ("int", "word", "Word8.word", "char", "string", "bool", "int * int", "shape", "int option"):
            eqforms, neforms = eqforms[:2] + eqforms[3:6], neforms[:2]
        lst = lambda: "[" + ",\n".join(e for e, _ in us) + "]"
        t = LIB + DECLS + f"type T = {ty}\nfun mk () : T list = {lst()}\nval xs = mk ()\nval hx0 = hashes xs\nval _ = churn ()\nval ys = mk ()\nval hx1 = hashes xs and hy = hashes ys\n"
        for nm, f in eqforms + neforms:
            t += f'val f = {f}\nval _ = app (fn x => print ("R " ^ String.concat (map (fn y => b2c (f (x, y))) ys) ^ "\\n")) xs\n'
        t += 'val _ = print ("H " ^ show hx0 ^ "\\nH " ^ show hx1 ^ "\\nH " ^ show hy ^ "\\n")\nval _ = print "DONE\\n"\n'
        r = c.harness(c.compile(f"eq{k}", t), timeout=200)
        if r is None:
            return
        R = [l[2:] for l in r.out.split("\n") if l.startswith("R ")]
        H = [[int(x.replace("~", "-")) for x in l[2:].split()] for l in r.out.split("\n") if l.startswith("H ")]
        n = len(us)
        if len(R) != n * len(eqforms + neforms) or len(H) != 3:
            c.fail(f"{ty}: output", r.out[-300:])
            return
        want = ["".join("1" if us[i][1] == us[j][1] and type(us[i][1]) == type(us[j][1]) else "0" for j in range(n)) for i in range(n)]
        inv = ["".join("1" if ch == "0" else "0" for ch in row) for row in want]
        for a, (nm, f) in enumerate(eqforms + neforms):
            for i in range(n):
                tot[0] += n
                w = want[i] if a < len(eqforms) else inv[i]
                g = R[a * n + i]
                if g != w:
                    j = next(j for j in range(n) if g[j:j + 1] != w[j])
                    c.fail(f"{ty}: {us[i][0][:80]} {nm} {us[j][0][:80]}", f"{us[i][0]} {nm} {us[j][0]}: expected {w[j] == '1'}")
        byv = {}
        for i in range(n):
            hs = [h[7 * i:7 * i + 7] for h in H]
            tot[1] += 21
            if ty in ("int array", "int array option", "Word8Array.array") or "ref" in ty or "array" in ty:
                if hs[0] != hs[1]:
                    c.fail(f"hash {ty}: {us[i][0][:80]}", f"changed over time: {hs}")
                continue
            if not hs[0] == hs[1] == hs[2]:
                c.fail(f"hash {ty}: {us[i][0][:80]}", f"equal values hash differently: {hs}")
            if any(not 0 <= x < 2**30 for x in hs[0]):
                c.fail(f"hash {ty}: {us[i][0][:80]}", f"hash out of range: {hs[0]}")
    pmap(go, list(enumerate(U.items())))

    # long lists and strings, equal and differing in the last place
    its = []
    for n in (1000, 100000):
        its += [(f"long list {n}", f"b2s (List.tabulate ({n}, fn i => i) = List.tabulate ({n}, fn i => i))", "true"),
                (f"long list {n} last differs", f"b2s (List.tabulate ({n}, fn i => i) = List.tabulate ({n}, fn i => if i = {n - 1} then 0 else i))", "false"),
                (f"long list {n} shorter", f"b2s (List.tabulate ({n}, fn i => i) = List.tabulate ({n - 1}, fn i => i))", "false"),
                (f"long string {n}", f"b2s (CharVector.tabulate ({n}, fn i => Char.chr (i mod 256)) = CharVector.tabulate ({n}, fn i => Char.chr (i mod 256)))", "true"),
                (f"long string {n} last differs", f"b2s (CharVector.tabulate ({n}, fn i => Char.chr (i mod 256)) = CharVector.tabulate ({n}, fn i => if i = {n - 1} then #\"x\" else Char.chr (i mod 256)))", "false"),
                (f"long list hash {n}", f"b2s (Polyhash.hash (List.tabulate ({n}, fn i => i)) = Polyhash.hash (List.tabulate ({n}, fn i => i)))", "true"),
                (f"long string hash {n}", f"b2s (Polyhash.hash (CharVector.tabulate ({n}, fn i => #\"q\")) = Polyhash.hash (CharVector.tabulate ({n}, fn i => #\"q\")))", "true")]
    m = c.cases("long", "", its)
    # assignment changes neither the identity nor the hash of what contains the cell
    MUT = [("int ref", "ref 1", "r := ~17"), ("string ref", 'ref "a"', 'r := "zz\\000"'), ("string ref", 'ref ""', 'r := String.concat ["x", "y"]'), ("int list ref", "ref []", "r := [1,2,3]"), ("int ref ref", "ref (ref 0)", "(r := ref 5)"), ("int ref ref", "ref (ref 0)", "(!r := 5)"),
           ("bool option ref", "ref NONE", "r := SOME true"), ("(int -> int) ref", "ref (fn x => x)", "r := (fn x => x + 1)"), ("real ref", "ref 1.0", "r := 2.5"), ("(int * string) ref", 'ref (1, "a")', 'r := (2, "b")')]
    WR = [("itself", "fn r => r", ""), ("pair", "fn r => (r, 5)", ""), ("deep", 'fn r => [(1, SOME r, "k"), (2, NONE, "l")]', ""), ("vector", "fn r => #[r, r]", ""), ("inner ref", "fn r => ref r", ""), ("record", "fn r => {a = r, b = #\"x\"}", "")]
    its = []
    for ty, mk_, asg in MUT:
        for nm, w, _ in WR:
            for minor in ("", "churn ();"):
                its.append((f"hash of {nm} with {ty} {mk_} before and after {asg} {minor}",
                            f'let val r : {ty} = {mk_} val x = ({w}) r val h = hashes [x] val _ = {minor[:-1] or "()"} val _ = {asg} val h1 = hashes [x] val _ = {minor[:-1] or "()"} in b2s (h = h1 andalso hashes [x] = h) end', "true"))
    eqt = [m for m in MUT if "->" not in m[0] and "real" not in m[0]]
    for ty, mk_, asg in eqt:
        for minor in ("", "churn ();"):
            its.append((f"identity {ty} {mk_} {asg} {minor}", f'let val r : {ty} = {mk_} val q : {ty} = {mk_} val x = (r, [r]) val y = (r, [r]) val z = (q, [q]) val _ = {minor[:-1] or "()"} val _ = {asg} in String.concat (map b2s [x = y, x = z, r = r, r = q, (r, [q]) = (r, [r])]) end', "truefalsetruefalsefalse"))
    m += c.cases("mut", LIB, its)
    c.sample("(Br(Lf,0,Lf)) = (Br(Lf,1,Lf)) : false, both generations")
    c.sample("[ref 0 #0, ref 0 #1] = [ref 0 #0, ref 0 #0] : false")
    c.finish({"states": sum(len(u) for u in U.values()), "transitions": tot[0] + tot[1] + m, "traces_validated_against_impl": tot[0] + m, "exhaustive": True, "types": len(U),
              "bound": "all ordered pairs of the values of some 40 types, 5-15 syntactic forms each, first operand in the old heap and second in the young"},
             ["equality on left-deep structures of more than a million levels recurses on the C stack and is outside the bound"])


main()
