#!/usr/bin/env python3
"""B02: Array, Vector, their Char and Word8 instances, and all slices, behave as (sub)sequences.

Every base sequence of the list below, every valid slice of it, every index/length argument around the bounds (and the
extreme ints), every operation, with callback traces and callbacks that raise at each element; every copy
(slice, destination offset) into the same and into another array; every history of two mutations.  Oracle: Python lists."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI = (1 << 62) - 1, -(1 << 62)
PRE = r'''
exception E
fun sA a = l2s (i2s o d) (A.foldr (op ::) [] a)
fun sV v = l2s (i2s o d) (V.foldr (op ::) [] v)
fun sAS s = l2s (i2s o d) (AS.foldr (op ::) [] s)
fun sVS s = l2s (i2s o d) (VS.foldr (op ::) [] s)
fun mkA xs = A.fromList (map e xs)
fun mkV xs = V.fromList (map e xs)
fun mkAS (xs,i,n) = AS.slice (mkA xs, i, SOME n)
fun mkVS (xs,i,n) = VS.slice (mkV xs, i, SOME n)
fun F x = (tr (i2s (d x)); e ((d x + 1) mod 6))
fun Fi (j,x) = (tr (i2s j ^ ":" ^ i2s (d x)); e ((d x + j) mod 6))
fun G (x,a) = (tr (i2s (d x)); (a * 3 + d x) mod 1000)
fun Gi (j,x,a) = (tr (i2s j ^ ":" ^ i2s (d x)); (a * 3 + d x + 7 * j) mod 1000)
fun B k f x = if d x = k then raise E else f x
fun Bi k f (j,x) = if d x = k then raise E else f (j,x)
fun P m x = (tr (i2s (d x)); d x mod 3 = m)
fun Pi m (j,x) = (tr (i2s j ^ ":" ^ i2s (d x)); d x mod 3 = m)
val C0 = fn (x,y) => Int.compare (d x, d y)
val C1 = fn (x,y) => Int.compare (d y, d x)
val C2 = fn (x,y) => Int.compare (d x mod 2, d y mod 2)
fun xp (j,x) = "(" ^ i2s j ^ "," ^ i2s (d x) ^ ")"
'''
INST = {
    "poly": ("structure A = Array structure V = Vector structure AS = ArraySlice structure VS = VectorSlice\nfun e (k:int) = k fun d (k:int) = k", "int"),
    "boxed": ("structure A = Array structure V = Vector structure AS = ArraySlice structure VS = VectorSlice\nfun e (k:int) = [k,k+1] fun d (x:int list) = hd x", "int list"),
    "word8": ("structure A = Word8Array structure V = Word8Vector structure AS = Word8ArraySlice structure VS = Word8VectorSlice\nfun e k = Word8.fromInt k fun d x = Word8.toInt x", "Word8.word"),
    "char": ("structure A = CharArray structure V = CharVector structure AS = CharArraySlice structure VS = CharVectorSlice\nfun e k = Char.chr k fun d x = Char.ord x", "char"),
}
b = lambda x: "true" if x else "false"


def trace(seq, stop=None, idx=None):
    return "".join((f"{j}:{x};" if idx else f"{x};") for j, x in seq)


def gen(inst, thorough):
    items = []
    etype = INST[inst][1]

    def add(code, want):
        items.append((f"{inst}: {code}", code, want))
    bases = [[], [0], [1, 0], [2, 0, 1], [1, 1, 3, 0], [4, 3, 5, 1, 2]]
    if thorough:
        bases += [[5, 4, 3, 2, 1, 0], [0, 1, 2, 3, 4, 5, 1]]
    views = []          # (struct, mk expr, base list, i, n, is_array, is_slice)
    for l in bases:
        views.append(("A", f"mkA {sl(l)}", l, 0, len(l)))
        views.append(("V", f"mkV {sl(l)}", l, 0, len(l)))
        for i in range(len(l) + 1):
            for n in range(len(l) - i + 1):
                if len(l) >= 5 and not thorough and (i * 7 + n) % 3:
                    continue
                views.append(("AS", f"mkAS ({sl(l)},{i},{n})", l, i, n))
                views.append(("VS", f"mkVS ({sl(l)},{i},{n})", l, i, n))
    for S, mk, l, i, n in views:
        w = l[i:i + n]
        seq = list(enumerate(l))[i:i + n]
        X = f"({mk})"
        arr = S[0] == "A"
        slc = len(S) == 2
        add(f"i2s ({S}.length {X})", str(n))
        add(f"s{S} {X}", sl(w))
        for k in [-1, MINI, MAXI] + list(range(n + 2)):
            ok = 0 <= k < n
            add(f"i2s (d ({S}.sub ({X},{smlint(k)})))", str(w[k]) if ok else "!Subscript")
            if S == "V":
                nw = list(w)
                if ok:
                    nw[k] = 5
                add(f"let val v = {X} val u = V.update (v,{smlint(k)},e 5) in sV u ^ sV v end", sl(nw) + sl(w) if ok else "!Subscript")
            if arr:
                nl = list(l)
                if ok:
                    nl[i + k] = 5
                if slc:
                    add(f"let val s = {X} val (a,_,_) = AS.base s in (AS.update (s,{smlint(k)},e 5); \"\") handle x => exnName x ^ sA a; AS.update (s,{smlint(k)},e 5); sA a end", sl(nl) if ok else "!Subscript")
                else:
                    add(f"let val a = {X} in (A.update (a,{smlint(k)},e 5); sA a) handle Subscript => \"S\" ^ sA a end", sl(nl) if ok else "S" + sl(l))
        # traversals
        T, Ti = trace(seq), trace(seq, idx=True)
        R, Ri = trace(seq[::-1]), trace(seq[::-1], idx=True)

        def fold(s, f):
            a = 7
            for j, x in s:
                a = f(j, x, a) % 1000
            return str(a)
        g, gi = (lambda j, x, a: a * 3 + x), (lambda j, x, a: a * 3 + x + 7 * j)
        add(f"tr2 (fn s => i2s ({S}.foldl G 7 s)) {X}", fold(seq, g) + "|" + T)
        add(f"tr2 (fn s => i2s ({S}.foldr G 7 s)) {X}", fold(seq[::-1], g) + "|" + R)
        add(f"tr2 (fn s => i2s ({S}.foldli Gi 7 s)) {X}", fold(seq, gi) + "|" + Ti)
        add(f"tr2 (fn s => i2s ({S}.foldri Gi 7 s)) {X}", fold(seq[::-1], gi) + "|" + Ri)
        for k in [None] + sorted(set(w)):
            cut = w.index(k) if k is not None else n
            pre, exn = seq[:cut], k is not None
            f, fi = ("F", "Fi") if k is None else (f"(B {k} F)", f"(Bi {k} Fi)")
            t, ti = trace(pre), trace(pre, idx=True)
            add(f"tr2 (fn s => u2s ({S}.app (ignore o {f}) s)) {X}", ("!E" if exn else "()") + "|" + t)
            add(f"tr2 (fn s => u2s ({S}.appi (ignore o {fi}) s)) {X}", ("!E" if exn else "()") + "|" + ti)
            if not arr:
                add(f"tr2 (fn s => sV ({S}.map {f} s)) {X}", ("!E" if exn else sl([(x + 1) % 6 for x in w])) + "|" + t)
                add(f"tr2 (fn s => sV ({S}.mapi {fi} s)) {X}", ("!E" if exn else sl([(x + j) % 6 for j, x in seq])) + "|" + ti)
            else:
                m1, m2 = list(l), list(l)
                for j, x in pre:
                    m1[j], m2[j] = (x + 1) % 6, (x + j) % 6
                arrof = "#1 (AS.base s)" if slc else "s"
                add(f"tr2 (fn s => (({S}.modify {f} s; \"\") handle E => \"!E\") ^ sA ({arrof})) {X}", ("!E" if exn else "") + sl(m1) + "|" + t)
                add(f"tr2 (fn s => (({S}.modifyi {fi} s; \"\") handle E => \"!E\") ^ sA ({arrof})) {X}", ("!E" if exn else "") + sl(m2) + "|" + ti)
        for m in range(4):
            hit = [q for q in range(n) if w[q] % 3 == m]
            q = hit[0] if hit else None
            t, ti = (trace(seq[:q + 1]), trace(seq[:q + 1], idx=True)) if hit else (T, Ti)
            add(f"tr2 (fn s => op2s (i2s o d) ({S}.find (P {m}) s)) {X}", (f"SOME {w[q]}" if hit else "NONE") + "|" + t)
            add(f"tr2 (fn s => op2s xp ({S}.findi (Pi {m}) s)) {X}", (f"SOME ({i + q},{w[q]})" if hit else "NONE") + "|" + ti)
            add(f"tr2 (fn s => b2s ({S}.exists (P {m}) s)) {X}", b(hit) + "|" + t)
            miss = [q for q in range(n) if w[q] % 3 != m]
            add(f"tr2 (fn s => b2s ({S}.all (P {m}) s)) {X}", b(not miss) + "|" + (trace(seq[:miss[0] + 1]) if miss else T))
        if arr:
            add(f"sV ({S}.vector {X})", sl(w))
            add(f"let val s = {X} val v = {S}.vector s in {S}.modify (fn _ => e 5) s; sV v end", sl(w))   # a copy, not an alias
        if slc:
            add(f"b2s ({S}.isEmpty {X})", b(n == 0))
            sbase = {"AS": "sA", "VS": "sV"}[S]
            add(f"let val (a,i,n) = {S}.base {X} in {sbase} a ^ i2s i ^ \",\" ^ i2s n end", f"{sl(l)}{i},{n}")
            add(f"op2s (fn (x,r) => i2s (d x) ^ s{S} r) ({S}.getItem {X})", f"SOME {w[0]}{sl(w[1:])}" if n else "NONE")
            full = {"AS": "mkA", "VS": "mkV"}[S]
            if i == 0 and n == len(l):
                add(f"s{S} ({S}.full ({full} {sl(l)}))", sl(l))
                rng = [-1, MINI, MAXI] + list(range(len(l) + 2))
                for i2 in rng:
                    add(f"s{S} ({S}.slice ({full} {sl(l)},{smlint(i2)},NONE))", sl(l[i2:]) if 0 <= i2 <= len(l) else "!Subscript")
                    for n2 in rng:
                        add(f"s{S} ({S}.slice ({full} {sl(l)},{smlint(i2)},SOME {smlint(n2)}))", sl(l[i2:i2 + n2]) if 0 <= i2 and 0 <= n2 and i2 + n2 <= len(l) else "!Subscript")
            rng = [-1, MINI, MAXI] + list(range(n + 2))
            for i2 in rng:
                add(f"s{S} ({S}.subslice ({X},{smlint(i2)},NONE))", sl(w[i2:]) if 0 <= i2 <= n else "!Subscript")
                for n2 in rng:
                    ok = 0 <= i2 and 0 <= n2 and i2 + n2 <= n
                    add(f"let val t = {S}.subslice ({X},{smlint(i2)},SOME {smlint(n2)}) in s{S} t ^ i2s (#2 ({S}.base t)) end", sl(w[i2:i2 + n2]) + str(i + i2) if ok else "!Subscript")
    # copy: every source slice, every destination offset; same array and another one
    for l in bases:
        L = len(l)
        for i in range(L + 1):
            for n in range(L - i + 1):
                for di in [-1, MAXI, MAXI - 1, MINI] + list(range(L + 2)):
                    ok = 0 <= di and di + n <= L
                    nl = list(l)
                    if ok:
                        nl[di:di + n] = l[i:i + n]
                    D = smlint(di)
                    if L <= 4 or thorough:
                        dst = [9, 8, 7, 9, 8, 7, 9, 8][:L]
                        nd = list(dst)
                        if ok:
                            nd[di:di + n] = l[i:i + n]
                        add(f"let val a = mkA {sl(dst)} in (AS.copy {{src=mkAS ({sl(l)},{i},{n}),dst=a,di= {D}}}; sA a) handle Subscript => \"S\" ^ sA a end", sl(nd) if ok else "S" + sl(dst))
                        add(f"let val a = mkA {sl(dst)} in (AS.copyVec {{src=mkVS ({sl(l)},{i},{n}),dst=a,di= {D}}}; sA a) handle Subscript => \"S\" ^ sA a end", sl(nd) if ok else "S" + sl(dst))
                        if i == 0 and n == L:
                            pass
                    add(f"let val a = mkA {sl(l)} in (AS.copy {{src=AS.slice(a,{i},SOME {n}),dst=a,di= {D}}}; sA a) handle Subscript => \"S\" ^ sA a end", sl(nl) if ok else "S" + sl(l))
        for M in range(5):
            dst = [9, 8, 7, 6][:M]
            for di in [-1, MAXI, MINI] + list(range(M + 2)):
                ok = 0 <= di and di + L <= M
                nd = list(dst)
                if ok:
                    nd[di:di + L] = l
                add(f"let val a = mkA {sl(dst)} in (A.copy {{src=mkA {sl(l)},dst=a,di= {smlint(di)}}}; sA a) handle Subscript => \"S\" ^ sA a end", sl(nd) if ok else "S" + sl(dst))
                add(f"let val a = mkA {sl(dst)} in (A.copyVec {{src=mkV {sl(l)},dst=a,di= {smlint(di)}}}; sA a) handle Subscript => \"S\" ^ sA a end", sl(nd) if ok else "S" + sl(dst))
        add(f"let val a = mkA {sl(l)} in A.copy {{src=a,dst=a,di=0}}; sA a end", sl(l))
    # collate
    cs = [[], [0], [1], [0, 1], [1, 0], [0, 0], [2, 1], [0, 1, 2], [0, 1, 1]]
    for x in cs:
        for y in cs:
            for ci, key in enumerate((lambda z: z, lambda z: -z, lambda z: z % 2)):
                kx, ky = [key(z) for z in x], [key(z) for z in y]
                r = "LESS" if kx < ky else "GREATER" if kx > ky else "EQUAL"
                add(f"o2s (A.collate C{ci} (mkA {sl(x)}, mkA {sl(y)}))", r)
                add(f"o2s (V.collate C{ci} (mkV {sl(x)}, mkV {sl(y)}))", r)
                add(f"o2s (AS.collate C{ci} (mkAS ({sl([3] + x + [0])},1,{len(x)}), mkAS ({sl([0, 4] + y)},2,{len(y)})))", r)
                add(f"o2s (VS.collate C{ci} (mkVS ({sl([3] + x + [0])},1,{len(x)}), mkVS ({sl([0, 4] + y)},2,{len(y)})))", r)
            add(f"b2s (mkV {sl(x)} = mkV {sl(y)})", b(x == y))
            add(f"b2s (mkA {sl(x)} = mkA {sl(y)})", "false")
        add(f"let val a = mkA {sl(x)} in b2s (a = a) end", "true")
    # construction
    for n in [-1, MINI, 0, 1, 2, 5]:
        N = smlint(n)
        add(f"sA (A.array ({N}, e 3))", sl([3] * n) if n >= 0 else "!Size")
        for k in [None, 0, 2]:
            f = "(fn j => F (e j))" if k is None else f"(fn j => if j = {k} then raise E else F (e j))"
            ok = k is None or k >= n
            for S in "AV":
                want = "!Size|" if n < 0 else (sl([(j + 1) % 6 for j in range(n)]) if ok else "!E") + "|" + "".join(f"{j};" for j in range(n if ok else k))
                add(f"tr2 (fn n => s{S} ({S}.tabulate (n, {f}))) ({N})", want)
    for S in "AV":
        add(f"tr2 (fn n => s{S} ({S}.tabulate (n, fn j => F (e j)))) ({S}.maxLen + 1)", "!Size|")
    add("sA (A.array (A.maxLen + 1, e 3))", "!Size")
    for n in range(4):
        for t in itertools.product([[], [0], [1, 2], [2, 2, 0]], repeat=n):
            add(f"sV (V.concat {sl(t, lambda z: 'mkV ' + sl(z))})", sl([x for y in t for x in y]))
            add(f"sV (VS.concat {sl(t, lambda z: f'mkVS ({sl([5] + z + [4])},1,{len(z)})')})", sl([x for y in t for x in y]))
    # a callback that writes ahead is seen by the traversal
    add(f"tr2 (fn a => (A.appi (fn (j,x) => (tr (i2s (d x)); if j < 3 then A.update (a,j+1,e ((d x + 2) mod 6)) else ())) a; sA a)) (mkA [0,5,5,5])", "[0,2,4,0]|0;2;4;0;")
    add(f"tr2 (fn a => i2s (A.foldl (fn (x,j) => (tr (i2s (d x)); (if j < 3 then A.update (a,j+1,e (d x + 1)) else ()); j+1)) 0 a)) (mkA [1,5,5,5])", "4|1;2;3;4;")
    # histories of two (three) mutations on one array with a live slice and a vector snapshot
    L0 = [0, 1, 2, 3]
    muts = [("A.update(a,0,e 5)", lambda l: l.__setitem__(0, 5)), ("A.update(a,3,e 4)", lambda l: l.__setitem__(3, 4)),
            ("AS.update(s,0,e 3)", lambda l: l.__setitem__(1, 3)), ("AS.copy{src=s,dst=a,di=0}", lambda l: l.__setitem__(slice(0, 2), l[1:3])),
            ("AS.copy{src=s,dst=a,di=2}", lambda l: l.__setitem__(slice(2, 4), l[1:3])), ("AS.modify F s", lambda l: l.__setitem__(slice(1, 3), [(x + 1) % 6 for x in l[1:3]])),
            ("A.modifyi Fi a", lambda l: l.__setitem__(slice(0, 4), [(x + j) % 6 for j, x in enumerate(l)])),
            ("A.copyVec{src=v,dst=a,di=0}", lambda l: l.__setitem__(slice(0, 4), L0)),
            ("AS.copyVec{src=VS.slice(v,1,SOME 2),dst=a,di=2}", lambda l: l.__setitem__(slice(2, 4), L0[1:3]))]
    for h in itertools.product(muts, repeat=3):
        l = list(L0)
        o = ""
        for _, f in h:
            f(l)
            o += sl(l) + sl(l[1:3])
        code = " ".join(f"val _ = {m} val r = r ^ sA a ^ sAS s" for m, _ in h)
        add(f"let val a = mkA {sl(L0)} val s = AS.slice(a,1,SOME 2) val v = A.vector a val r = \"\" {code} in r ^ sV v end", o + sl(L0))
    # sizes at which the allocator changes path
    for n in (255, 256, 257, 1000, 40000):
        q = [(j * 7) % 6 for j in range(n)]
        h = str(sum(x * (j + 1) for j, x in enumerate(q)) % 1000003)
        hash_ = lambda S: f"{S}.foldli (fn (j,x,a) => (a + d x * (j+1)) mod 1000003) 0"
        add(f"i2s ({hash_('A')} (A.tabulate ({n}, fn j => e ((j*7) mod 6))))", h)
        add(f"i2s ({hash_('V')} (V.tabulate ({n}, fn j => e ((j*7) mod 6))))", h)
        add(f"i2s ({hash_('A')} (A.fromList (List.tabulate ({n}, fn j => e ((j*7) mod 6)))))", h)
        add(f"i2s ({hash_('V')} (V.fromList (List.tabulate ({n}, fn j => e ((j*7) mod 6)))))", h)
        add(f"i2s ({hash_('V')} (V.concat [V.tabulate ({n - 3}, fn j => e ((j*7) mod 6)), V.tabulate (3, fn j => e (((j+{n - 3})*7) mod 6))]))", h)
        add(f"i2s ({hash_('V')} (A.vector (A.tabulate ({n}, fn j => e ((j*7) mod 6)))))", h)
        add(f"i2s ({hash_('V')} (V.map (fn x => e ((d x + 5) mod 6)) (V.tabulate ({n}, fn j => e ((j*7+1) mod 6)))))", h)
        add(f"let val a = A.array ({n}, e 1) in A.modifyi (fn (j,_) => e ((j*7) mod 6)) a; i2s ({hash_('A')} a) end", h)
        add(f"let val a = A.array ({n + 10}, e 1) in A.copy {{src=A.tabulate ({n}, fn j => e ((j*7) mod 6)),dst=a,di=10}}; i2s ({hash_('VS')} (VS.full (AS.vector (AS.slice (a,10,NONE))))) end", h)
    return items


# every length up to HI and every element code: filling, building, and moving blocks at every pair of offsets
BLOCK = r'''
val [HI, M] = map (valOf o Int.fromString) (CommandLine.arguments ())
val bads = ref 0 and cnt = ref 0
fun bad k = (bads := !bads + 1; if !bads < 20 then print ("MISMATCH " ^ k ^ "\n") else ())
fun chk k b = (cnt := !cnt + 1; if b then () else bad k)
fun isA (a, n, f) = A.length a = n andalso A.foldli (fn (i, x, t) => t andalso d x = f i) true a
fun isV (a, n, f) = V.length a = n andalso V.foldli (fn (i, x, t) => t andalso d x = f i) true a
fun upto (a, b) f = if a > b then () else (f a; upto (a + 1, b) f)
val codes = [0, 1, 10, 127, 128, 129, 170, 200, 254, 255]
val _ = upto (0, HI) (fn n => (
  List.app (fn x => let val nm = NAME ^ " length " ^ i2s n ^ " element " ^ i2s x fun k _ = x
     val a = A.array (n, e x)
   in chk (nm ^ " array") (isA (a, n, k));
      chk (nm ^ " vector") (isV (A.vector a, n, k));
      chk (nm ^ " tabulate") (isA (A.tabulate (n, fn _ => e x), n, k));
      if n > 0 then (A.update (a, n - 1, e 5); A.update (a, n div 2, e 6);
         chk (nm ^ " update") (isA (a, n, fn i => if i = n div 2 then 6 else if i = n - 1 then 5 else x))) else ()
   end) codes;
  let fun k i = (i * 37 + n * 11 + 128) mod 256 fun ek i = e (k i) val v = V.tabulate (n, ek) val nm = NAME ^ " length " ^ i2s n
  in chk (nm ^ " tabulate") (isV (v, n, k) andalso isA (A.tabulate (n, ek), n, k));
     chk (nm ^ " fromList") (isV (V.fromList (List.tabulate (n, ek)), n, k) andalso isA (A.fromList (List.tabulate (n, ek)), n, k));
     chk (nm ^ " map") (isV (V.map (fn x => e (255 - d x)) v, n, fn i => 255 - k i));
     upto (0, n) (fn i => (
       chk (nm ^ " concat " ^ i2s i) (isV (V.concat [V.tabulate (i, ek), V.tabulate (n - i, fn j => ek (i + j))], n, k));
       chk (nm ^ " slice vector " ^ i2s i) (isV (VS.vector (VS.slice (v, i, NONE)), n - i, fn j => k (i + j)));
       chk (nm ^ " slice vector 0.." ^ i2s i) (isV (VS.vector (VS.slice (v, 0, SOME i)), i, k))))
  end))
val _ = let fun k i = (i * 89 + 100) mod 256 fun ek i = e (k i) val v = V.tabulate (M, ek) in
  upto (0, M) (fn si => upto (0, M - si) (fn len => upto (0, M - len) (fn di => let
     val nm = NAME ^ " copy " ^ i2s len ^ " from " ^ i2s si ^ " to " ^ i2s di
     fun after src = fn i => if i >= di andalso i < di + len then src (si + i - di) else k i
     val a = A.tabulate (M, ek) val b = A.tabulate (M, fn i => ek (i + 7)) val c = A.tabulate (M, ek) val dd = A.tabulate (M, ek)
   in AS.copy {src = AS.slice (a, si, SOME len), dst = a, di = di}; chk (nm ^ " within") (isA (a, M, after k));
      AS.copy {src = AS.slice (b, si, SOME len), dst = c, di = di}; chk (nm ^ " between") (isA (c, M, after (fn i => k (i + 7))) andalso isA (b, M, fn i => k (i + 7)));
      AS.copyVec {src = VS.slice (V.tabulate (M, fn i => ek (i + 3)), si, SOME len), dst = dd, di = di}; chk (nm ^ " from a vector") (isA (dd, M, after (fn i => k (i + 3))))
   end))) end
val _ = print ("COUNT n " ^ i2s (!cnt) ^ "\nDONE\n")
'''


def main():
    c = Check("B02")
    tot, distinct, views = 0, set(), 0
    jobs = [(k, gen(k, c.thorough)) for k in INST]
    ns = []
    for k, items in jobs:
        ns.append(c.cases(k, INST[k][0] + "\n" + PRE, items, shard=1600))
        distinct |= {x[0] for x in items}
        c.sample(items[len(items) // 2][0])
    bargs = [75, 19] if not c.thorough else [300, 27]
    nblock = sum(pmap(lambda k: c.take([r for r in [c.harness(c.compile("block_" + k, CASE_PRELUDE + INST[k][0] + f'\nval NAME = "{k}"\n' + BLOCK), bargs)] if r]).get("n", 0), list(INST)))
    c.finish({"states": len(distinct) + nblock, "transitions": sum(ns) + nblock, "block_cases": nblock, "traces_validated_against_impl": len(distinct) - sum(1 for d in distinct if "val r = r" not in d), "exhaustive": True,
              "per_structure": dict(zip(INST, ns)),
              "bound": "six base sequences (length <= 5), all their slices, all arguments in and around the bounds and the extreme ints, all histories of 3 of 9 mutations; every length to 75 with ten element codes; every block move within 19 elements"},
             ["states = distinct calls/histories; traces = three-step mutation histories replayed on a live array, slice and vector"])


main()
