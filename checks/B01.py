#!/usr/bin/env python3
"""B01: List, ListPair and Option functions against list semantics: result, exception and order of applications.

Every list over {0,1,2} up to a length (every pair of lists for binary functions), every predicate on {0,1,2}, every
index around the bounds, and callbacks that raise at each position."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


class Sml(Exception):
    pass


def res(f):
    """f() -> str, or '!Exn'"""
    try:
        return f()
    except Sml as e:
        return "!" + str(e)


def traced(f):
    log = []
    r = res(lambda: f(log.append))
    return r + "|" + "".join(x + ";" for x in log)


def opt(x, f=smlint):
    return "NONE" if x is None else "SOME " + f(x[0])


def raise_(e):
    raise Sml(e)


def main():
    c = Check("B01")
    L = 5 if c.thorough else 4
    lists = [list(t) for n in range(L + 1) for t in itertools.product((0, 1, 2), repeat=n)]
    small = [x for x in lists if len(x) <= (3 if c.thorough else 2)] + [[0, 1, 2], [2, 1, 0, 1], [1, 1, 1, 1, 1]]
    preds = [frozenset(s) for n in range(4) for s in itertools.combinations((0, 1, 2), n)]
    pname = lambda p: "P" + "".join(str(int(i in p)) for i in range(3))
    b = lambda x: "true" if x else "false"
    pre = "\n".join(f"fun {pname(p)} (x:int) = (tr (i2s x); {' orelse '.join(f'x={i}' for i in p) or 'false'})" for p in preds)
    pre += '''
val il = l2s i2s
exception E
fun B k f (x:int) = if x = k then raise E else f x   (* fails on element k *)
fun F (x:int) = (tr (i2s x); x * 10 + 1)
fun G (x:int, a) = (tr (i2s x); (a * 3 + x) mod 1000)
fun GS (x:int, a) = (tr (i2s x); "(" ^ i2s x ^ a ^ ")")
fun H (x:int,y:int) = (tr (i2s x ^ i2s y); x * 10 + y)
fun HS (x:int,y:int,a) = (tr (i2s x ^ i2s y); "(" ^ i2s x ^ i2s y ^ a ^ ")")
val ipl = l2s (p2s (i2s,i2s))
'''
    ex = [None, 0, 1, 2]   # element on which the callback raises

    def cb(k, name):       # SML callback
        return name if k is None else f"(B {k} {name})"

    def chk(k, x):
        if k is not None and x == k:
            raise Sml("E")

    items = []

    def add(code, want):
        items.append((code, code, want))

    for xs in lists:
        S = sl(xs)
        add(f"b2s (List.null {S})", b(not xs))
        add(f"i2s (List.hd {S})", smlint(xs[0]) if xs else "!Empty")
        add(f"il (List.tl {S})", sl(xs[1:]) if xs else "!Empty")
        add(f"i2s (List.last {S})", smlint(xs[-1]) if xs else "!Empty")
        add(f"i2s (List.length {S})", str(len(xs)))
        add(f"il (List.rev {S})", sl(xs[::-1]))
        add(f"op2s (p2s (i2s, il)) (List.getItem {S})", "NONE" if not xs else f"SOME ({xs[0]},{sl(xs[1:])})")
        for n in (-2, -1, 0, 1, 2, 3, 4, 5, 6, 7):
            add(f"i2s (List.nth ({S},{smlint(n)}))", str(xs[n]) if 0 <= n < len(xs) else "!Subscript")
            add(f"il (List.take ({S},{smlint(n)}))", sl(xs[:n]) if 0 <= n <= len(xs) else "!Subscript")
            add(f"il (List.drop ({S},{smlint(n)}))", sl(xs[n:]) if 0 <= n <= len(xs) else "!Subscript")
        if len(xs) <= L - 1 or xs == [2, 0, 1, 2]:
            for k in ex:
                def each(f, log, k=k):
                    for x in xs:
                        chk(k, x)
                        log(str(x))
                        f(x)
                add(f"tr2 (fn xs => u2s (List.app {cb(k, '(ignore o F)')} xs)) {S}", traced(lambda log: (each(lambda x: None, log), "()")[1]))

                def m(log):
                    r = []
                    each(lambda x: r.append(x * 10 + 1), log)
                    return sl(r)
                add(f"tr2 (fn xs => il (List.map {cb(k, 'F')} xs)) {S}", traced(m))

                def fl(log):
                    a = 7
                    for x in xs:
                        chk(k, x)
                        log(str(x))
                        a = (a * 3 + x) % 1000
                    return str(a)
                g = "G" if k is None else f"(fn (x,a) => if x = {k} then raise E else G (x,a))"
                add(f"tr2 (fn xs => i2s (List.foldl {g} 7 xs)) {S}", traced(fl))

                def fr(log):
                    a = 7
                    for x in reversed(xs):
                        chk(k, x)
                        log(str(x))
                        a = (a * 3 + x) % 1000
                    return str(a)
                add(f"tr2 (fn xs => i2s (List.foldr {g} 7 xs)) {S}", traced(fr))
            for p in preds:
                P = pname(p)

                def cut(stop, log):
                    for x in xs:
                        log(str(x))
                        if (x in p) == stop:
                            return x
                    return None
                add(f"tr2 (fn xs => b2s (List.exists {P} xs)) {S}", traced(lambda log: b(cut(True, log) is not None)))
                add(f"tr2 (fn xs => b2s (List.all {P} xs)) {S}", traced(lambda log: b(cut(False, log) is None)))
                add(f"tr2 (fn xs => op2s i2s (List.find {P} xs)) {S}", traced(lambda log: (lambda r: "NONE" if r is None else f"SOME {r}")(cut(True, log))))
                al = "".join(f"{x};" for x in xs)
                add(f"tr2 (fn xs => il (List.filter {P} xs)) {S}", sl([x for x in xs if x in p]) + "|" + al)
                add(f"tr2 (fn xs => p2s (il,il) (List.partition {P} xs)) {S}", f"({sl([x for x in xs if x in p])},{sl([x for x in xs if x not in p])})|" + al)
                add(f"tr2 (fn xs => il (List.mapPartial (fn x => if {P} x then SOME (x+5) else NONE) xs)) {S}", sl([x + 5 for x in xs if x in p]) + "|" + al)
    # binary and list-of-lists
    for xs in small:
        for ys in small:
            A, Bq = sl(xs), sl(ys)
            add(f"il ({A} @ {Bq})", sl(xs + ys))
            add(f"il (List.revAppend ({A},{Bq}))", sl(xs[::-1] + ys))
            for nm, cmpf, key in (("Int.compare", "Int.compare", lambda x: x), ("rev", "(fn (x,y) => Int.compare(y:int,x))", lambda x: -x), ("par", "(fn (x,y) => Int.compare(x mod 2,y mod 2))", lambda x: x % 2)):
                def coll():
                    for x, y in zip(xs, ys):
                        if key(x) != key(y):
                            return "LESS" if key(x) < key(y) else "GREATER"
                    return "LESS" if len(xs) < len(ys) else "GREATER" if len(xs) > len(ys) else "EQUAL"
                add(f"o2s (List.collate {cmpf} ({A},{Bq}))", coll())
            n = min(len(xs), len(ys))
            zs = list(zip(xs, ys))
            sp = lambda ps: sl(ps, lambda q: f"({q[0]},{q[1]})")
            eq = len(xs) == len(ys)
            T = "".join(f"{x}{y};" for x, y in zs)
            add(f"ipl (ListPair.zip ({A},{Bq}))", sp(zs))
            add(f"ipl (ListPair.zipEq ({A},{Bq}))", sp(zs) if eq else "!UnequalLengths")
            add(f"tr2 (fn a => il (ListPair.map H a)) ({A},{Bq})", sl([10 * x + y for x, y in zs]) + "|" + T)
            add(f"tr2 (fn a => il (ListPair.mapEq H a)) ({A},{Bq})", (sl([10 * x + y for x, y in zs]) if eq else "!UnequalLengths") + "|" + T)
            add(f"tr2 (fn a => u2s (ListPair.app (ignore o H) a)) ({A},{Bq})", "()|" + T)
            add(f"tr2 (fn a => u2s (ListPair.appEq (ignore o H) a)) ({A},{Bq})", ("()" if eq else "!UnequalLengths") + "|" + T)
            l = r = ""
            for x, y in zs:
                l = f"({x}{y}{l})"
            for x, y in reversed(zs):
                r = f"({x}{y}{r})"
            R = "".join(f"{x}{y};" for x, y in reversed(zs))
            add(f"tr2 (fn a => (ListPair.foldl HS \"\" a)) ({A},{Bq})", l + "|" + T)
            add(f"tr2 (fn a => (ListPair.foldr HS \"\" a)) ({A},{Bq})", r + "|" + R)
            add(f"tr2 (fn a => (ListPair.foldlEq HS \"\" a)) ({A},{Bq})", (l if eq else "!UnequalLengths") + "|" + T)
            add(f"tr2 (fn a => (ListPair.foldrEq HS \"\" a)) ({A},{Bq})", (r + "|" + R) if eq else "!UnequalLengths|")
            for q, qs in (("x<y", lambda x, y: x < y), ("x=y", lambda x, y: x == y), ("x+y<>2", lambda x, y: x + y != 2), ("true", lambda x, y: True), ("false", lambda x, y: False)):
                f = f"(fn (x:int,y) => (H (x,y); {q}))"

                def upto(stop):
                    o = ""
                    for x, y in zs:
                        o += f"{x}{y};"
                        if qs(x, y) == stop:
                            return True, o
                    return False, o
                e, t = upto(True)
                add(f"tr2 (fn a => b2s (ListPair.exists {f} a)) ({A},{Bq})", b(e) + "|" + t)
                e, t = upto(False)
                add(f"tr2 (fn a => b2s (ListPair.all {f} a)) ({A},{Bq})", b(not e) + "|" + t)
                add(f"tr2 (fn a => b2s (ListPair.allEq {f} a)) ({A},{Bq})", b(not e and eq) + "|" + t)
    for ps in itertools.chain.from_iterable(itertools.product([(0, 1), (1, 2), (2, 0)], repeat=n) for n in range(5)):
        add(f"p2s (il,il) (ListPair.unzip {sl(ps, lambda q: f'({q[0]},{q[1]})')})", f"({sl([x for x, _ in ps])},{sl([y for _, y in ps])})")
    for n in range(5 if c.thorough else 4):
        for t in itertools.product([[], [0], [1, 2], [2, 2, 0]], repeat=n):
            add(f"il (List.concat {sl(t, sl)})", sl([x for y in t for x in y]))
    for n in (-5, -1, 0, 1, 2, 3, 7):
        for k in ex:
            def tab(log):
                if n < 0:
                    raise Sml("Size")
                r = []
                for i in range(n):
                    chk(k, i)
                    log(str(i))
                    r.append(10 * i + 1)
                return sl(r)
            add(f"tr2 (fn n => il (List.tabulate (n, {cb(k, 'F')}))) ({smlint(n)})", traced(tab))
    # Option
    os_ = [None, (0,), (1,), (2,)]
    O = lambda o: "NONE" if o is None else f"(SOME {o[0]})"
    for o in os_:
        add(f"b2s (Option.isSome {O(o)})", b(o is not None))
        add(f"i2s (Option.valOf {O(o)})", "!Option" if o is None else str(o[0]))
        for d in range(3):
            add(f"i2s (Option.getOpt ({O(o)},{d}))", str(o[0] if o else d))
        lg = f"{o[0]};" if o else ""
        add(f"tr2 (fn x => op2s i2s (Option.map F x)) {O(o)}", (f"SOME {o[0] * 10 + 1}" if o else "NONE") + "|" + lg)
        add(f"tr2 (fn x => u2s (Option.app (ignore o F) x)) {O(o)}", "()|" + lg)
        add(f"op2s i2s (Option.join (SOME {O(o)}))", opt(o))
        for p in preds:
            P = pname(p)
            add(f"tr2 (fn x => op2s i2s (Option.mapPartial (fn x => if {P} x then SOME (x+5) else NONE) x)) {O(o)}",
                ("NONE" if o is None or o[0] not in p else f"SOME {o[0] + 5}") + "|" + lg)
    add("op2s i2s (Option.join NONE)", "NONE")
    for x in range(3):
        for p in preds:
            P = pname(p)
            add(f"tr2 (fn x => op2s i2s (Option.filter {P} x)) {x}", ("SOME %d" % x if x in p else "NONE") + f"|{x};")
            for q in preds:
                G = f"(fn x => if {P} x then SOME ((x+1) mod 3) else NONE)"
                y = (x + 1) % 3
                add(f"tr2 (fn x => op2s i2s (Option.compose (F, {G}) x)) {x}", (f"SOME {10 * y + 1}|{x};{y};" if x in p else f"NONE|{x};"))
                add(f"tr2 (fn x => op2s i2s (Option.composePartial (fn x => if {pname(q)} x then SOME (x+5) else NONE, {G}) x)) {x}",
                    ((f"SOME {y + 5}" if y in q else "NONE") + f"|{x};{y};" if x in p else f"NONE|{x};"))
    # long lists: nothing depends on short lengths
    for n in (255, 256, 257, 1000, 40000):
        t = f"List.tabulate ({n}, fn i => i)"
        add(f"i2s (List.length ({t} @ {t}))", str(2 * n))
        add(f"i2s (List.nth (List.rev ({t}), 3))", str(n - 4))
        add(f"i2s (List.foldr (op -) 0 ({t}))", smlint(sum(i if i % 2 == 0 else -i for i in range(n))))
        add(f"i2s (List.last (List.map (fn x => x + 1) (List.drop ({t}, {n - 5}))))", str(n))
        add(f"i2s (List.length (List.filter (fn x => x mod 7 = 3) ({t})))", str(len([i for i in range(n) if i % 7 == 3])))
        add(f"i2s (List.length (List.concat [{t},[],{t},[1]]))", str(2 * n + 1))
    n = c.cases("cases", pre, items)
    # the same functions reachable unqualified / through the pervasives are the same functions
    c.sample(items[len(items) // 2][0])
    c.sample(items[len(items) // 3][0])
    c.finish({"states": len(lists) + len(small) ** 2, "transitions": n, "traces_validated_against_impl": len({i[0] for i in items}), "exhaustive": True,
              "bound": f"all lists over {{0,1,2}} of length <= {L}; all pairs of {len(small)} lists; all 8 predicates; callbacks raising at each element"},
             ["element values outside {0,1,2} matter only through the callbacks (the functions are parametric)"])


main()
