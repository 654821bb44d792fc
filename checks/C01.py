#!/usr/bin/env python3
"""C01: programs evaluate as the Definition says: values, effects in order, exceptions.

A typed grammar of Core expressions (every expression form, with binders) is composed with itself: every production with
every leaf combination; every production inside every hole of every production; every spine of three productions; all
under several contexts (toplevel thunk, function parameters, captured variables, local structure).  Leaves are traced
values, raising calls, constants and the variables in scope.  Oracle: a Python interpreter with SML's left-to-right
call-by-value semantics; the trace of effects, the value and the exception are compared."""
import functools, itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

MAXI, MINI = (1 << 62) - 1, -(1 << 62)


class Exn(Exception):
    def __init__(self, name, arg=None):
        self.name, self.arg = name, arg


class Ref:
    def __init__(self, v):
        self.v = v


TRACE = []
FUEL = [0]


def tick():
    FUEL[0] += 1
    if FUEL[0] > 3000:
        raise RecursionError


def ck(n):
    if MINI <= n <= MAXI:
        return n
    raise Exn("Overflow")


def divz(a, b):
    if b == 0:
        raise Exn("Div")
    return ck(a // b)


def modz(a, b):
    if b == 0:
        raise Exn("Div")
    return a % b


def log(k):
    TRACE.append(str(k).replace("-", "~"))


# ---- productions: (result type, template, holes [(type, {binder: type})], evaluator)
# In templates @ is replaced by a fresh number; {i} is hole i.  An evaluator gets one callable per hole, called with the
# values of the hole's binders in order.  Types: I int B bool U unit L int list P int*int F int->int S string R int ref
# E exn O int option D datatype C char W word X real G int->int->int V int vector
P = []


def p(res, tpl, holes, ev):
    hs = []
    for h in holes:
        if isinstance(h, str):
            hs.append((h, []))
        else:
            hs.append((h[0], h[1]))
    P.append((res, tpl, hs, ev))


def boolop(f):
    return lambda a, b: f(a(), b())


def handle(body, pat):
    try:
        return body()
    except Exn as e:
        r = pat(e)
        if r is None:
            raise
        return r()


def build():
    # arithmetic and comparison
    p("I", "({0} + {1})", "II", lambda a, b: ck(a() + b()))
    p("I", "({0} - {1})", "II", lambda a, b: ck(a() - b()))
    p("I", "({0} * {1})", "II", lambda a, b: ck(a() * b()))
    p("I", "({0} div {1})", "II", lambda a, b: divz(a(), b()))
    p("I", "({0} mod {1})", "II", lambda a, b: modz(a(), b()))
    p("I", "(~ {0})", "I", lambda a: ck(-a()))
    p("I", "({0} + 1)", "I", lambda a: ck(a() + 1))
    p("I", "(op- ({0}, {1}))", "II", lambda a, b: ck(a() - b()))
    for o, f in (("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y), (">=", lambda x, y: x >= y),
                 ("=", lambda x, y: x == y), ("<>", lambda x, y: x != y)):
        p("B", "({0} : int) %s {1}" % o, "II", lambda a, b, f=f: f(a(), b()))
    p("B", "({0} : int) = 1", "I", lambda a: a() == 1)
    p("B", "({0} < 2)", "I", lambda a: a() < 2)
    # control
    for t in "IBFLU":
        p(t, "(if {0} then {1} else {2})", "B" + t + t, lambda a, b, c: b() if a() else c())
    p("B", "({0} andalso {1})", "BB", lambda a, b: a() and b())
    p("B", "({0} orelse {1})", "BB", lambda a, b: a() or b())
    p("B", "(not {0})", "B", lambda a: not a())
    p("I", "(if not {0} then {1} else {2})", "BII", lambda a, b, c: b() if not a() else c())
    p("I", "(if {0} andalso {1} orelse {2} then {3} else 9)", "BBBI", lambda a, b, c, d: d() if (a() and b()) or c() else 9)
    p("I", "(if {0} < {1} then {2} else {3})", "IIII", lambda a, b, c, d: c() if a() < b() else d())
    p("I", "(if ({0} : int) = {1} then {2} else {3})", "IIII", lambda a, b, c, d: c() if a() == b() else d())
    p("I", "({0}; {1})", "UI", lambda a, b: (a(), b())[1])
    p("I", "({0} : int; {1}; {2})", "IUI", lambda a, b, c: (a(), b(), c())[2])
    p("I", "({0} before {1})", "IU", lambda a, b: (a(), b())[0])
    p("U", "(ignore {0})", "I", lambda a: (a(), None)[1])
    p("U", "app t1 {0}", "L", lambda a: [log(x) for x in a()] and None)

    def whil(b0, b1):
        k = 0
        while k < 2 and b0(k):
            k += 1
            b1(k)
        return k
    p("I", "let val c@ = ref 0 in (while !c@ < 2 andalso (let val k@ = !c@ in {0} end) do (c@ := !c@ + 1; let val k@ = !c@ in {1} end)); !c@ end",
      [("B", [("k@", "I")]), ("U", [("k@", "I")])], whil)
    # bindings
    p("I", "let val v@ = {0} in {1} end", ["I", ("I", [("v@", "I")])], lambda a, b: b(a()))
    p("F", "let val v@ = {0} in {1} end", ["I", ("F", [("v@", "I")])], lambda a, b: b(a()))
    p("I", "let val v@ = {0} val w@ = {1} in {2} end", ["I", ("I", [("v@", "I")]), ("I", [("w@", "I"), ("v@", "I")])],
      lambda a, b, c: (lambda v: (lambda w: c(w, v))(b(v)))(a()))
    p("I", "let val v@ = {0} and w@ = {1} in {2} end", ["I", "I", ("I", [("v@", "I"), ("w@", "I")])],
      lambda a, b, c: (lambda v: (lambda w: c(v, w))(b()))(a()))
    p("I", "let val (v@, w@) = {0} in {1} end", ["P", ("I", [("v@", "I"), ("w@", "I")])], lambda a, b: b(*a()))
    p("I", "let val _ = {0} in {1} end", ["I", "I"], lambda a, b: (a(), b())[1])

    def vlist(a, b):
        l = a()
        if not l:
            raise Exn("Bind")
        return b(l[0], l[1:])
    p("I", "let val v@ :: w@ = {0} in {1} end", ["L", ("I", [("v@", "I"), ("w@", "L")])], vlist)
    p("I", "let local val v@ = {0} in val w@ = v@ + 1 end in {1} end", ["I", ("I", [("w@", "I")])], lambda a, b: b(ck(a() + 1)))
    p("I", "let structure Q@ = struct val v@ = {0} fun f@ x = x + v@ end open Q@ in f@ {1} end", ["I", ("I", [("v@", "I")])],
      lambda a, b: (lambda v: ck(b(v) + v))(a()))
    p("I", "let fun f@ v@ = {0} in f@ {1} end", [("I", [("v@", "I")]), "I"], lambda a, b: a(b()))

    def recf(a, b, c):
        def f(n):
            tick()
            return b(n) if n <= 0 else ck(a(n) + f(n - 1))
        return f(c())
    p("I", "let fun f@ v@ = if v@ <= 0 then {1} else {0} + f@ (v@ - 1) in f@ {2} end", [("I", [("v@", "I")]), ("I", [("v@", "I")]), "I"], recf)

    def tailf(a, b):
        n, acc = b(), 0
        while n > 0:
            tick()
            acc = ck(acc * 2 + a(n, acc))
            n -= 1
        return acc
    p("I", "let fun f@ (v@, w@) = if v@ <= 0 then w@ else f@ (v@ - 1, w@ * 2 + {0}) in f@ ({1}, 0) end", [("I", [("v@", "I"), ("w@", "I")]), "I"], tailf)

    def mut(a, b, c):
        def ev(n):
            tick()
            return a(n) if n <= 0 else od(n - 1)

        def od(n):
            tick()
            return b(n) if n <= 0 else ev(n - 1)
        return ev(c())
    p("I", "let fun e@ v@ = if v@ <= 0 then {0} else o@ (v@ - 1) and o@ v@ = if v@ <= 0 then {1} else e@ (v@ - 1) in e@ {2} end",
      [("I", [("v@", "I")]), ("I", [("v@", "I")]), "I"], mut)
    p("I", "let val rec f@ = fn 0 => {0} | v@ => f@ (v@ div 2) + v@ in f@ {1} end", ["I", "I"],
      lambda a, b: (lambda n: (lambda f: f(f, n))(lambda f, n: a() if n == 0 else (tick(), ck(f(f, n // 2) + n))[1]))(b()))
    # functions
    p("I", "(fn v@ => {0}) {1}", [("I", [("v@", "I")]), "I"], lambda a, b: a(b()))
    p("F", "(fn v@ => {0})", [("I", [("v@", "I")])], lambda a: (lambda v: a(v)))
    p("I", "({0} {1})", "FI", lambda a, b: (lambda f: f(b()))(a()))
    p("F", "({0} o {1})", "FF", lambda a, b: (lambda f, g: (lambda x: f(g(x))))(a(), b()))
    p("I", "(let val f@ = {0} in f@ {1} + f@ {2} end)", "FII", lambda a, b, c: (lambda f: ck(f(b()) + f(c())))(a()))
    p("I", "(cur2 {0} {1})", "II", lambda a, b: (lambda x, y: (log("c2"), ck(x - y))[1])(a(), b()))
    p("I", "(cur3 {0} {1} {2})", "III", lambda a, b, c: (lambda x, y, z: (log("c3"), ck(ck(x * 100 + y * 10) + z))[1])(a(), b(), c()))
    p("I", "(cur5 {0} {1} 3 4 {2})", "III", lambda a, b, c: (lambda x, y, z: (log("c5"), ck(ck(x * 100 + y * 10) + z + 7))[1])(a(), b(), c()))
    p("I", "(tup3 ({0}, {1}, {2}))", "III", lambda a, b, c: (lambda x, y, z: (log("p3"), ck(ck(x * 100 + y * 10) + z))[1])(a(), b(), c()))
    p("F", "(cur2 {0})", "I", lambda a: (lambda x: (lambda y: (log("c2"), ck(x - y))[1]))(a()))
    p("I", "(steps {0} {1} {2})", "III", lambda a, b, c: steps(a(), b(), c()))
    p("F", "(fn v@ => fn w@ => {0}) {1}", [("I", [("v@", "I"), ("w@", "I")]), "I"], lambda a, b: (lambda v: (lambda w: a(v, w)))(b()))
    p("I", "(fn v@ => fn w@ => fn y@ => {0}) {1} {2} 7", [("I", [("v@", "I"), ("w@", "I"), ("y@", "I")]), "I", "I"], lambda a, b, c: a(b(), c(), 7))
    p("I", "let fun f@ v@ w@ = {0} val g@ = f@ {1} in g@ {2} + g@ 5 end", [("I", [("v@", "I"), ("w@", "I")]), "I", "I"],
      lambda a, b, c: (lambda v: (lambda l: ck(l + a(v, 5)))(a(v, c())))(b()))
    p("I", "foldl (fn (v@, w@) => {0}) {1} {2}", [("I", [("v@", "I"), ("w@", "I")]), "I", "L"], lambda a, b, c: foldl(a, b(), c()))
    p("L", "map {0} {1}", "FL", lambda a, b: (lambda f, l: [f(x) for x in l])(a(), b()))
    p("I", "twice {0} {1}", "FI", lambda a, b: (lambda f, x: f(f(x)))(a(), b()))
    # data
    p("P", "({0}, {1})", "II", lambda a, b: (a(), b()))
    p("P", "let val x@ = {b = {0}, a = {1}} in (#a x@, #b x@) end".replace("{b", "{{b").replace("{1}}", "{1}}}"), "II", lambda a, b: (lambda y, x: (x, y))(a(), b()))
    p("I", "#1 {0}", "P", lambda a: a()[0])
    p("I", "#2 ({0}, {1}, {2})", "III", lambda a, b, c: (a(), b(), c())[1])
    p("L", "({0} :: {1})", "IL", lambda a, b: (lambda x, y: [x] + y)(a(), b()))
    p("L", "[{0}, {1}, {2}]", "III", lambda a, b, c: [a(), b(), c()])
    p("L", "(op`at` ({0}, {1}))", "LL", lambda a, b: a() + b())
    p("I", "hd {0}", "L", lambda a: (lambda l: l[0] if l else raise_("Empty"))(a()))
    p("L", "tl {0}", "L", lambda a: (lambda l: l[1:] if l else raise_("Empty"))(a()))
    p("I", "length {0}", "L", lambda a: len(a()))
    p("B", "{0} = {1}", "LL", lambda a, b: a() == b())
    p("B", "{0} = {1}", "PP", lambda a, b: a() == b())
    p("B", "null {0}", "L", lambda a: not a())
    p("O", "SOME {0}", "I", lambda a: ("SOME", a()))
    p("I", "getOpt ({0}, {1})", "OI", lambda a, b: (lambda o, d: d if o is None else o[1])(a(), b()))
    p("I", "valOf {0}", "O", lambda a: (lambda o: raise_("Option") if o is None else o[1])(a()))
    p("D", "K2 ({0}, {1})", "II", lambda a, b: ("K2", a(), b()))
    p("D", "K1 {0}", "I", lambda a: ("K1", a()))
    p("D", "KD ({0}, {1})", "DI", lambda a, b: ("KD", a(), b()))
    p("S", "({0} ^ {1})", "SS", lambda a, b: a() + b())
    p("I", "size {0}", "S", lambda a: len(a()))
    p("B", "{0} < {1}", "SS", lambda a, b: a() < b())
    p("S", "Int.toString {0}", "I", lambda a: smlint(a()))
    # case
    p("I", "(case {0} of 0 => {1} | 1 => {2} | v@ => {3})", ["I", "I", "I", ("I", [("v@", "I")])],
      lambda a, b, c, d: (lambda n: b() if n == 0 else c() if n == 1 else d(n))(a()))
    p("I", "(case {0} of [] => {1} | [v@] => {2} | v@ :: w@ => {3})", ["L", "I", ("I", [("v@", "I")]), ("I", [("v@", "I"), ("w@", "L")])],
      lambda a, b, c, d: (lambda l: b() if not l else c(l[0]) if len(l) == 1 else d(l[0], l[1:]))(a()))
    p("I", "(case {0} of NONE => {1} | SOME v@ => {2})", ["O", "I", ("I", [("v@", "I")])],
      lambda a, b, c: (lambda o: b() if o is None else c(o[1]))(a()))

    def kd(a, b, c, d):
        v = a()
        return b() if v[0] == "K0" else c(v[1]) if v[0] == "K1" else d(v[1], v[2]) if v[0] == "K2" else 44
    p("I", "(case {0} of K0 => {1} | K1 v@ => {2} | K2 (v@, w@) => {3} | KD _ => 44)", ["D", "I", ("I", [("v@", "I")]), ("I", [("v@", "I"), ("w@", "I")])], kd)
    p("I", "(case ({0}, {1}) of (0, v@) => {2} | (v@, 0) => {3} | (v@, w@) => v@ - w@)", ["I", "I", ("I", [("v@", "I")]), ("I", [("v@", "I")])],
      lambda a, b, c, d: (lambda x, y: c(y) if x == 0 else d(x) if y == 0 else ck(x - y))(a(), b()))
    p("I", "(case {0} of \"\" => {1} | \"a\" => {2} | _ => 8)", "SII", lambda a, b, c: (lambda s: b() if s == "" else c() if s == "a" else 8)(a()))
    p("I", "(case {0} of (v@ as (w@, 1)) => {1} | (1, v@) => {2})", ["P", ("I", [("v@", "P"), ("w@", "I")]), ("I", [("v@", "I")])],
      lambda a, b, c: (lambda q: b(q, q[0]) if q[1] == 1 else c(q[1]) if q[0] == 1 else raise_("Match"))(a()))
    p("I", "(fn 0 => {0} | v@ => {1}) {2}", ["I", ("I", [("v@", "I")]), "I"], lambda a, b, c: (lambda n: a() if n == 0 else b(n))(c()))

    def fcl(a, b, c, d):
        x, y = c(), d()
        return a(y) if x == [] else b(x[0], x[1:], y) if y != 0 else raise_("Match")
    p("I", "let fun f@ [] v@ = {0} | f@ (v@ :: w@) 0 = raise Match | f@ (v@ :: w@) y@ = {1} in f@ {2} {3} end",
      [("I", [("v@", "I")]), ("I", [("v@", "I"), ("w@", "L"), ("y@", "I")]), "L", "I"], fcl)
    # exceptions
    p("I", "({0} handle E v@ => {1})", ["I", ("I", [("v@", "I")])], lambda a, b: handle(a, lambda e: (lambda: b(e.arg)) if e.name == "E" else None))
    p("L", "({0} handle E v@ => {1})", ["L", ("L", [("v@", "I")])], lambda a, b: handle(a, lambda e: (lambda: b(e.arg)) if e.name == "E" else None))
    p("F", "({0} handle _ => {1})", ["F", "F"], lambda a, b: handle(a, lambda e: b))
    p("U", "({0} handle E _ => {1})", "UU", lambda a, b: handle(a, lambda e: b if e.name == "E" else None))
    p("I", "({0} handle E 1 => {1} | E 2 => {2} | Div => 77 | E0 => 78)", "III",
      lambda a, b, c: handle(a, lambda e: b if (e.name, e.arg) == ("E", 1) else c if (e.name, e.arg) == ("E", 2) else (lambda: 77) if e.name == "Div"
                             else (lambda: 78) if e.name == "E0" else None))
    p("I", "({0} handle Overflow => {1} | Empty => {2})", "III", lambda a, b, c: handle(a, lambda e: b if e.name == "Overflow" else c if e.name == "Empty" else None))
    p("I", "(raise {0})", "E", lambda a: raise_e(a()))
    p("E", "E {0}", "I", lambda a: Exn("E", a()))
    p("I", "(1 + ({0} handle Bind => {1} | E v@ => {2}))", ["I", "I", ("I", [("v@", "I")])],
      lambda a, b, c: ck(1 + handle(a, lambda e: b if e.name == "Bind" else (lambda: c(e.arg)) if e.name == "E" else None)))

    def locex(a, b):
        ex = Exn("L")
        try:
            return b()
        except Exn as e:
            raise
    p("I", "let exception L of int in ({0} handle L v@ => {1}) + ((raise L 3) handle L v@ => v@) end", ["I", ("I", [("v@", "I")])],
      lambda a, b: ck(a() + 3))
    p("I", "let exception L of int in (raise L {0}) handle L v@ => {1} end", ["I", ("I", [("v@", "I")])], lambda a, b: b(a()))
    p("I", "(case {0} of E v@ => {1} | E0 => 5 | _ => 6)", ["E", ("I", [("v@", "I")])],
      lambda a, b: (lambda e: b(e.arg) if e.name == "E" else 5 if e.name == "E0" else 6)(a()))
    # references
    p("I", "(! {0})", "R", lambda a: a().v)
    p("R", "(ref {0})", "I", lambda a: Ref(a()))

    def assign(a, b):
        r = a()
        r.v = b()
    p("U", "({0} := {1})", "RI", assign)
    p("I", "let val r@ = {0} in {1}; !r@ end", ["R", ("U", [("r@", "R")])], lambda a, b: (lambda r: (b(r), r.v)[1])(a()))
    p("B", "({0} = {1})", "RR", lambda a, b: a() is b())

    def refs(a, b):
        r = Ref(a())
        f = lambda x: (setattr(r, "v", ck(r.v + x)), r.v)[1]
        return ck(f(b(r)) * 100 + f(1))
    p("I", "let val r@ = ref {0} fun f@ x = (r@ := !r@ + x; !r@) in f@ {1} * 100 + f@ 1 end", ["I", ("I", [("r@", "R")])], refs)
    # vectors, arrays
    p("I", "let val v@ = #[{0}, {1}, {2}] in Vector.sub (v@, 0) * 100 + Vector.sub (v@, 1) * 10 + Vector.sub (v@, 2) end", "III",
      lambda a, b, c: (lambda x, y, z: ck(ck(ck(x * 100) + ck(y * 10)) + z))(a(), b(), c()))

    def arr(a, b, c):
        i, x = a(), b()
        if not 0 <= i < 3:
            raise Exn("Subscript")
        l = [5, 6, 7]
        l[i] = x
        j = c()
        if not 0 <= j < 3:
            raise Exn("Subscript")
        return l[j]
    p("I", "let val a@ = Array.fromList [5, 6, 7] in Array.update (a@, {0}, {1}); Array.sub (a@, {2}) end", "III", arr)


def steps(x, y, z):
    # doc/bugs: all arguments of a curried application are evaluated, left to right, before the function is applied to any
    log("s1"), log("s2"), log("s3")
    return ck(ck(x * 100 + y * 10) + z)


def foldl(f, acc, l):
    for x in l:
        acc = f(x, acc)
    return acc


def raise_(n):
    raise Exn(n)


def raise_e(e):
    raise Exn(e.name, e.arg)


# ---- leaves by type: (text, evaluator(env))
def lv(text, v):
    return (text, lambda env: v)


def traced(k, text, v):
    return (f"t ({k}, {text})", lambda env: (log(k), v() if callable(v) and not isinstance(v, FunV) else v)[1])


class FunV:
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)


VALS = {
    "I": [("2", 2), ("0", 0), ("~1", -1), ("1", 1)],
    "B": [("true", True), ("false", False)],
    "U": [("()", None)],
    "L": [("[4, 5]", [4, 5]), ("[]", []), ("[1]", [1])],
    "P": [("(3, 1)", (3, 1)), ("(1, 4)", (1, 4)), ("(2, 2)", (2, 2))],
    "F": [("inc", FunV(lambda x: (log("i"), ck(x + 1))[1])), ("dbl", FunV(lambda x: ck(x + x)))],
    "S": [('"a"', "a"), ('"bc"', "bc"), ('""', "")],
    "E": [("E 1", ("E", 1)), ("E0", ("E0", None)), ("Div", ("Div", None))],
    "O": [("SOME 6", ("SOME", 6)), ("NONE", None)],
    "D": [("K0", ("K0",)), ("K1 3", ("K1", 3)), ("K2 (1, 2)", ("K2", 1, 2))],
    "R": [("gr", "gr")],
}
GLOB = {}
TY = {"I": "int", "B": "bool", "U": "unit", "L": "int list", "P": "int * int", "F": "int -> int", "S": "string", "E": "exn", "O": "int option", "D": "d", "R": "int ref"}


def mkval(t, v):
    if t == "E":
        return Exn(*v)
    if t == "R":
        return GLOB["gr"]
    return v


def leaves(t, k, scope):
    """All leaf choices for a hole of type t; k numbers the trace; scope: [(name, type)] innermost first."""
    out = []
    for s, v in VALS[t]:
        out.append((f"(t ({k}, {s}))", lambda env, v=v: (log(k), mkval(t, v))[1]))
    out.append((f"(x {k % 3} : {TY[t]})", lambda env: (log("x"), raise_e(Exn("E", k % 3)))))
    for n, ty in scope:
        if ty == t:
            out.append((n, lambda env, n=n: env[n]))
    for s, v in VALS[t][:1]:
        out.append((f"({s})", lambda env, v=v: mkval(t, v)))
    if t == "I":
        out.append(("gi", lambda env: 10))
    return out


def short(t, k, scope):
    """A few representative leaves."""
    a = leaves(t, k, scope)
    n = len(VALS[t])
    res = [a[0], a[n]]
    v = [x for x in a[n + 1:-1 if t != "I" else -2]]
    if v:
        res.append(v[0])
    if t == "B":
        res.insert(1, a[1])
    elif t == "L":
        res.insert(1, a[1])
    elif t in "OD":
        res.insert(1, a[1])
    elif t == "I" and not v:
        res.insert(1, a[1])
    return res


def default(t, k, scope):
    a = leaves(t, k, scope)
    n = len(VALS[t])
    v = a[n + 1:-1 if t != "I" else -2]
    return v[0] if v else a[0]


UID = itertools.count(1)


def inst(prod, fills, scope):
    """fills: per hole a function (type, k, scope) -> node; returns (text, evaluator)"""
    res, tpl, holes, ev = prod
    u = str(next(UID))
    texts, hv = [], []
    for i, (t, bs) in enumerate(holes):
        names = [(n.replace("@", u), bt) for n, bt in bs]
        node = fills[i](t, i + 1, names + scope)
        texts.append(node[0])
        hv.append((node[1], [n for n, _ in names]))
    text = tpl.replace("@", u).replace("`at`", "@").format(*texts)

    def run(env):
        hs = []
        for f, ns in hv:
            if ns:
                hs.append(lambda *vs, f=f, ns=ns: f({**env, **dict(zip(ns, vs))}))
            else:
                hs.append(lambda f=f: f(env))
        return ev(*hs)
    return "(" + text + ")", run


SHOW = {"I": "i2s", "B": "b2s", "U": "u2s", "L": "l2s i2s", "P": "p2s (i2s, i2s)", "F": "(fn f => i2s (f 3))", "S": "(fn s => s)",
        "E": "xs", "O": "op2s i2s", "D": "ds", "R": "(i2s o !)"}


def show(t, v):
    if t == "I":
        return smlint(v)
    if t == "B":
        return "true" if v else "false"
    if t == "U":
        return "()"
    if t == "L":
        return sl(v)
    if t == "P":
        return f"({smlint(v[0])},{smlint(v[1])})"
    if t == "F":
        return smlint(v(3))
    if t == "S":
        return v
    if t == "E":
        return xs(v)
    if t == "O":
        return "NONE" if v is None else "SOME " + smlint(v[1])
    if t == "D":
        return ds(v)
    return smlint(v.v)


def xs(e):
    return "E" + smlint(e.arg) if e.name == "E" else e.name


def ds(v):
    if v[0] == "KD":
        return "KD(" + ds(v[1]) + "," + smlint(v[2]) + ")"
    return v[0] + ",".join(smlint(x) for x in v[1:])


PRE = r'''
exception E of int
exception E0
datatype d = K0 | K1 of int | K2 of int * int | KD of d * int
fun xs (E n) = "E" ^ i2s n | xs e = exnName e
fun ds K0 = "K0" | ds (K1 n) = "K1" ^ i2s n | ds (K2 (a, b)) = "K2" ^ i2s a ^ "," ^ i2s b | ds (KD (d, n)) = "KD(" ^ ds d ^ "," ^ i2s n ^ ")"
fun t (k : int, v) = (tr (i2s k); v)
fun t1 (k : int) = tr (i2s k)
fun x (k : int) = (tr "x"; raise E k)
val gi = 10
val gr = ref 20
fun inc n = (tr "i"; n + 1)
fun dbl (n : int) = n + n
fun cur2 (a : int) b = (tr "c2"; a - b)
fun cur3 (a : int) b c = (tr "c3"; a * 100 + b * 10 + c)
fun cur5 (a : int) b c d e = (tr "c5"; a * 100 + b * 10 + c + d + e)
fun tup3 (a : int, b, c) = (tr "p3"; a * 100 + b * 10 + c)
fun steps (a : int) = (tr "s1"; fn b => (tr "s2"; fn c => (tr "s3"; a * 100 + b * 10 + c)))
fun twice f (x : int) = f (f x)
fun id x = x
fun run f = (log_ := ""; gr := 20; let val r = f () handle e => "!" ^ xs e in r ^ "|" ^ !log_ ^ i2s (!gr) end)
'''


def wrap(kind, t, text):
    s = SHOW[t]
    if kind == "top":
        return f"run (fn () => {s} ({text}))"
    if kind == "param":     # variables are parameters of a curried and a tupled function
        return f"run (fn () => (fn pa => fn (pb, pc : int) => {s} ({text})) 11 (12, 13))"
    if kind == "closure":   # variables are captured at two depths
        return f"run (let val pa = id 11 in fn () => let val pb = id 12 val pc = id 13 val f = fn () => {s} ({text}) in f () end end)"
    if kind == "tail":      # the expression is in tail position of a local function called from a handler
        return f"run (fn () => let fun go (pa, pb) pc = {text} in ({s} (go (11, 12) 13)) end)"
    if kind == "struct":
        return f"run (fn () => let structure S = struct val pa = 11 val pb = 12 val pc = 13 val r = {text} end in {s} S.r end)"
    if kind == "handled":
        return f"run (fn () => ({s} (let val pa = 11 val pb = 12 val pc = 13 in {text} end)) handle E n => \"h\" ^ i2s n)"
    raise ValueError(kind)


SCOPE = [("pa", "I"), ("pb", "I"), ("pc", "I")]


def expect(kind, t, node):
    TRACE.clear()
    FUEL[0] = 0
    GLOB["gr"] = Ref(20)
    env = {"pa": 11, "pb": 12, "pc": 13}
    try:
        r = show(t, node[1](env))
    except Exn as e:
        r = ("h" + smlint(e.arg)) if kind == "handled" and e.name == "E" else "!" + xs(e)
    except RecursionError:
        return None
    return r + "|" + "".join(x + ";" for x in TRACE) + smlint(GLOB["gr"].v)


def families(thorough):
    """Parametric families: positions of locals, captured variables, fields, arguments, constructors; constants."""
    N = 14 if thorough else 9
    out = []

    def add(code, want):
        out.append((f"family:{code}", f"run (fn () => {code})", want + "|" + "20"))
    for n in range(1, N + 1):
        vs = [f"v{i}" for i in range(n)]
        decs = " ".join(f"val {v} = id {i * 3 + 1}" for i, v in enumerate(vs))
        val = [i * 3 + 1 for i in range(n)]
        tup = lambda xs: "(" + ", ".join(xs) + ")" if len(xs) != 1 else xs[0]
        for i in range(n):
            add(f"let {decs} in i2s v{i} end", str(val[i]))
            add(f"i2s (let {decs} val f = fn x => (x + v{i}) * {' + '.join(vs)} in f v{(i + 1) % n} end)",
                str((val[(i + 1) % n] + val[i]) * val[0] + sum(val[1:])))
            add(f"i2s (let {decs} fun f x = if x = 0 then v{i} else g (x - 1) and g x = if x = 0 then v{n - 1 - i} else f (x - 1) in f {i} * 100 + g {i} end)",
                str((val[i] if i % 2 == 0 else val[n - 1 - i]) * 100 + (val[n - 1 - i] if i % 2 == 0 else val[i])))
            add(f"i2s (let {decs} in ((x 1) handle E _ => v{i}) + v{n - 1} end)", "")
            out[-1] = (out[-1][0], out[-1][1], f"{val[i] + val[n - 1]}|x;20")
            if n > 1:
                add(f"i2s (#{i + 1} {tup([f'id {x}' for x in val])})", str(val[i]))
                add(f"i2s (case {tup([f'id {x}' for x in val])} of {tup(vs)} => v{i} - v{(i + 1) % n})", smlint(val[i] - val[(i + 1) % n]))
                perm = [(j * 5 + i) % n for j in range(n)] if n % 5 else [(j * 3 + i) % n for j in range(n)] if n % 3 else list(range(n))[::-1]
                rec = ", ".join(f"f{j} = t ({j}, {val[j]})" for j in perm)
                out.append((f"family:rec{n}.{i}", f"run (fn () => i2s (#f{i} {{{rec}}}))", f"{val[i]}|" + "".join(f"{j};" for j in perm) + "20"))
                rec = ", ".join(f"{j + 1} = t ({j}, {val[j]})" for j in perm)
                out.append((f"family:num{n}.{i}", f"run (fn () => i2s (#{i + 1} {{{rec}}}))", f"{val[i]}|" + "".join(f"{j};" for j in perm) + "20"))
            # n curried arguments: applied all at once, in two steps split at i, and over-applied
            args = [f"(t ({j}, {x}))" for j, x in enumerate(val)]
            res = val[0]
            for x in val[1:]:
                res = (res * 7 + x) % 10007
            body = "v0" if n == 1 else "(" * (n - 1) + "v0" + "".join(f" * 7 + v{j}) mod 10007" for j in range(1, n))
            f = f"fun f {' '.join(vs)} = {body}"
            tr = "".join(f"{j};" for j in range(n))
            out.append((f"family:cur{n}.{i}", f"run (fn () => let {f} in i2s (f {' '.join(args[:i + 1])} {' '.join(args[i + 1:])}) end)", f"{res}|{tr}20"))
            if i + 1 < n:
                out.append((f"family:part{n}.{i}", f"run (fn () => let {f} val g = f {' '.join(args[:i + 1])} val h = g {' '.join(args[i + 1:])} val k = g {' '.join(args[i + 1:])} in i2s (h * 2 - k) end)",
                            f"{res}|{tr}{''.join(f'{j};' for j in range(i + 1, n))}20"))
                # fewer formal parameters than actual: the rest goes to the result
                f2 = f"fun f {' '.join(vs[:i + 1])} = fn v{i + 1} => " + "".join(f"fn v{j} => " for j in range(i + 2, n)) + body
                out.append((f"family:over{n}.{i}", f"run (fn () => let {f2} in i2s (f {' '.join(args)}) end)", f"{res}|{tr}20"))
                out.append((f"family:tail{n}.{i}", f"run (fn () => let {f2} fun g k = if k = 0 then f {' '.join(args)} else g (k - 1) in i2s (g 3) end)", f"{res}|{tr}20"))
            # datatype with n constant and n unary constructors, switch on each
            cons = " | ".join([f"A{j}" for j in range(n)] + [f"B{j} of int" for j in range(n)])
            cl = " | ".join([f"A{j} => {j}" for j in range(n)] + [f"B{j} x => x + {100 * j}" for j in range(n)])
            out.append((f"family:con{n}.{i}", f"run (fn () => let datatype u = {cons} fun f y = case y of {cl} in i2s (f A{i} * 10000 + f (B{i} 5)) end)", f"{i * 10000 + 100 * i + 5}|20"))
            some = " | ".join([f"A{j} => {j}" for j in range(0, n, 2)] + [f"B{j} x => x + {100 * j}" for j in range(1, n, 2)] + ["_ => 9"])
            va, vb = (i if i % 2 == 0 else 9), (100 * i + 5 if i % 2 else 9)
            out.append((f"family:some{n}.{i}", f"run (fn () => let datatype u = {cons} fun f y = case y of {some} in i2s (f A{i} * 10000 + f (B{i} 5)) end)", f"{va * 10000 + vb}|20"))
            # nesting depth: variable of level i seen from level n
            lev = "".join(f"let val v{j} = id {val[j]} fun g{j} u = " for j in range(n)) + f"u + v{i}" + "".join(f" in g{j} {'u' if j else '1'} end" for j in range(n - 1, -1, -1))
            out.append((f"family:nest{n}.{i}", f"run (fn () => let val u = 0 in i2s ({lev}) end)", f"{val[i] + 1}|20"))
            # mutual recursion in groups of n: f_i calls f_{i+1}
            grp = " and ".join(f"f{j} (k, a) = if k = 0 then a * 10 + {j} else f{(j + 1) % n} (k - 1, a + v{j})" for j in range(n))
            k, a, j = 2 * n + i, 0, i
            while k:
                a += val[j]
                j, k = (j + 1) % n, k - 1
            out.append((f"family:rec-group{n}.{i}", f"run (fn () => let {decs} fun {grp} in i2s (f{i} ({2 * n + i}, 0)) end)", f"{a * 10 + j}|20"))
    es = (0, 5, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 29, 30, 31, 32, 33, 47, 48, 61, 62)
    ks = sorted(x for x in {sg * (1 << e) + d for e in es for sg in (1, -1) for d in (-2, -1, 0, 1, 2)} | {0, MAXI, MINI} if MINI <= x <= MAXI)
    for k in ks:
        s_ = smlint(k)
        out.append((f"const:{k}", f"run (fn () => i2s {s_} ^ b2s (id {s_} = {s_}) ^ b2s (id {s_} < {s_}) ^ i2s (case id {s_} of {s_} => 1 | _ => 2) ^ i2s (#2 (1, {s_}, 3)))",
                    f"{s_}truefalse1{s_}|20"))
        if k >= 0:
            out.append((f"hex:{k}", f"run (fn () => i2s 0x{k:x} ^ i2s ~0x{k:X} ^ Word.toString 0wx{k:x} ^ Word.toString 0w{k})", f"{k}{smlint(-k)}{k:X}{k:X}|20"))
    return out


def sizes():
    """the same forms with many components: (name, n -> (program, printed result)); limits of operands and of formats"""
    def out(e):
        return f'val _ = print (Int.toString ({e}))\n'

    def many(f, sep, n):
        return sep.join(f(i) for i in range(n))
    ints = lambda n: many(str, ", ", n)
    incs = lambda n: many(lambda i: f"r := !r + {i % 7}", "; ", n)
    total = lambda n: sum(i % 7 for i in range(n))
    pick = lambda n: (0, n - 1, n // 2, n // 3)
    yield "tuple", lambda n: (f"val t = ({ints(n)})\n" + out(" + ".join(f"#{i + 1} t" for i in pick(n))), sum(pick(n)))
    yield "tuple of variables", lambda n: (f"fun f x = ({many(lambda i: f'x + {i}', ', ', n)})\nval t = f 1\n" + out(" + ".join(f"#{i + 1} t" for i in pick(n))), sum(pick(n)) + 4)
    yield "tuple pattern", lambda n: (f"fun f ({many(lambda i: f'v{i}', ', ', n)}) = {' + '.join(f'v{i}' for i in pick(n))}\n" + out(f"f ({ints(n)})"), sum(pick(n)))
    yield "record", lambda n: ("val t = {" + many(lambda i: f"a{i} = {i}", ", ", n) + "}\n" + out(" + ".join(f"#a{i} t" for i in pick(n))), sum(pick(n)))
    yield "record of effects", lambda n: ("val r = ref 0\nval t = {" + many(lambda i: f"a{i} = (r := !r + 1; !r)", ", ", n) + "}\n" + out(" + ".join(f"#a{i} t" for i in pick(n))), sum(pick(n)) + 4)
    yield "list", lambda n: (f"val t = [{ints(n)}]\n" + out("List.foldl (fn (x, s) => (s * 7 + x) mod 1000003) 0 t"), functools.reduce(lambda s, x: (s * 7 + x) % 1000003, range(n), 0))
    yield "vector", lambda n: (f"val t = #[{ints(n)}]\n" + out("Vector.foldl (fn (x, s) => (s * 7 + x) mod 1000003) 0 t"), functools.reduce(lambda s, x: (s * 7 + x) % 1000003, range(n), 0))
    yield "vector of variables", lambda n: (f"fun f x = #[{many(lambda i: f'x + {i}', ', ', n)}]\n" + out("Vector.foldl (fn (x, s) => (s * 7 + x) mod 1000003) 0 (f 0)"), functools.reduce(lambda s, x: (s * 7 + x) % 1000003, range(n), 0))
    lets = lambda n: many(lambda i: f"val v{i} = x + {i}", " ", n)
    vsum = lambda n: many(lambda i: f"v{i}", " + ", n)
    tri = lambda n: n * (n - 1) // 2
    yield "locals", lambda n: (f"fun f x = let {lets(n)} in {' + '.join(f'v{i}' for i in pick(n))} end\n" + out("f 1"), sum(pick(n)) + 4)
    yield "nested locals", lambda n: ("fun f x = " + many(lambda i: f"let val v{i} = x + {i} in ", "", n) + vsum(n) + " end" * n + "\n" + out("f 1"), tri(n) + n)
    yield "globals", lambda n: (many(lambda i: f"val v{i} = {i} + 0", "\n", n) + "\n" + out(vsum(n)), tri(n))
    yield "captured variables", lambda n: (f"fun mk x = let {lets(n)} in fn y => y + {vsum(n)} end\n" + out("mk 1 5"), 5 + tri(n) + n)
    yield "captured by a recursive function", lambda n: (f"fun mk x = let {lets(n)} fun g y = if y = 0 then 0 else g (y - 1) + {vsum(n)} in g end\n" + out("mk 1 2"), 2 * (tri(n) + n))
    yield "captured by an inner function", lambda n: (f"fun mk x = let {lets(n)} in fn y => let fun h z = z + {vsum(n)} in h (y + 1) + h y end end\n" + out("mk 1 2"), 2 * (tri(n) + n) + 5)
    yield "curried arguments", lambda n: ("fun f " + many(lambda i: f"v{i}", " ", n) + f" = {' + '.join(f'v{i}' for i in pick(n))}\n" + out("f " + many(str, " ", n)), sum(pick(n)))
    yield "partial application", lambda n: ("fun f " + many(lambda i: f"v{i}", " ", n) + f" = {' + '.join(f'v{i}' for i in pick(n))}\nval g = f " + many(str, " ", n // 2) + "\n" + out("g " + many(lambda i: str(n // 2 + i), " ", n - n // 2)), sum(pick(n)))
    yield "constant cases", lambda n: ("fun f x = case x of " + many(lambda i: f"{i} => {i * 3}", " | ", n) + " | _ => ~1\n" + out(" + ".join(f"f {i}" for i in pick(n)) + f" + f {n} + f ~1"), 3 * sum(pick(n)) - 2)
    yield "constant cases far apart", lambda n: ("fun f x = case x of " + many(lambda i: f"{i * 1003} => {i * 3}", " | ", n) + " | _ => ~1\n" + out(" + ".join(f"f {i * 1003}" for i in pick(n)) + f" + f {n * 1003} + f 1"), 3 * sum(pick(n)) - 2)
    yield "string cases", lambda n: ("fun f x = case x of " + many(lambda i: f'"s{i}" => {i * 3}', " | ", n) + " | _ => ~1\n" + out(" + ".join(f'f "s{i}"' for i in pick(n)) + f' + f "s{n}" + f "s"'), 3 * sum(pick(n)) - 2)
    yield "cases with long code", lambda n: ("fun g y = y + 1\nfun f x = case x of " + many(lambda i: f"{i} => g (g (g (g (g {i * 3}))))", " | ", n) + " | _ => ~1\n" + out(" + ".join(f"f {i}" for i in pick(n)) + f" + f {n}"), 3 * sum(pick(n)) + 19)
    yield "constructors", lambda n: ("datatype t = " + many(lambda i: f"C{i} of int", " | ", n) + "\nfun f t = case t of " + many(lambda i: f"C{i} x => x + {i}", " | ", n) + "\n" + out(" + ".join(f"f (C{i} 1)" for i in pick(n))), sum(pick(n)) + 4)
    yield "constant constructors", lambda n: ("datatype t = " + many(lambda i: f"C{i}", " | ", n) + "\nfun f t = case t of " + many(lambda i: f"C{i} => {i}", " | ", n) + "\n" + out(" + ".join(f"f C{i}" for i in pick(n))), sum(pick(n)))
    yield "some constructors", lambda n: ("datatype t = " + many(lambda i: f"C{i}", " | ", n) + f"\nfun f C{n - 1} = 1 | f C{n // 2} = 2 | f _ = 3\n" + out(f"f C{n - 1} + 10 * f C{n // 2} + 100 * f C0"), 321 if n > 3 else None)
    yield "exceptions", lambda n: (many(lambda i: f"exception E{i} of int", "\n", n) + "\nfun f e = (raise e) handle " + many(lambda i: f"E{i} x => x + {i}", " | ", n) + "\n" + out(" + ".join(f"f (E{i} 1)" for i in pick(n))), sum(pick(n)) + 4)
    yield "sequence", lambda n: (f"val r = ref 0\nfun f x = ({incs(n)}; !r)\n" + out("f 2"), total(n))
    yield "long conditional", lambda n: (f"val r = ref 0\nfun f x = if x then ({incs(n)}; !r) else ({incs(n)}; 7)\n" + out("f false + f true"), 7 + 2 * total(n))
    yield "long loop", lambda n: (f"val r = ref 0 val k = ref 0\nfun f x = (while !k < 3 do (k := !k + 1; {incs(n)}); !r)\n" + out("f 0"), 3 * total(n))
    yield "long handler", lambda n: (f"val r = ref 0 exception E\nfun f x = ({incs(n)}; raise E) handle E => ({incs(n)}; !r)\n" + out("f 0 + f 1"), 6 * total(n))
    yield "mutual recursion", lambda n: ("fun f0 x = x\n" + "".join(f"and f{i} x = f{i - 1} (x + {i})\n" for i in range(1, n)) + out(f"f{n - 1} 0"), tri(n))
    yield "local mutual recursion", lambda n: ("fun h k = let fun f0 x = x + k\n" + "".join(f"and f{i} x = f{i - 1} (x + k)\n" for i in range(1, n)) + f" in f{n - 1} 0 end\n" + out("h 2"), 2 * n)
    yield "long sum", lambda n: ("fun f x = " + many(lambda i: "x", " + ", n) + "\n" + out("f 3"), 3 * n)
    yield "functions", lambda n: ("fun f x = [" + many(lambda i: f"fn y => x + y + {i}", ", ", n) + "]\n" + out("List.foldl (fn (g, s) => g s) 0 (f 2)"), tri(n) + 2 * n)
    yield "conjunction", lambda n: ("fun f x = if " + many(lambda i: f"x > {i}", " andalso ", n) + " then 1 else 0\n" + out(f"f {n} + f {n - 1} + f {n // 2}"), 1)
    yield "disjunction", lambda n: ("fun f x = if " + many(lambda i: f"x = {i}", " orelse ", n) + " then 1 else 0\n" + out(f"f {n} + f {n - 1} + f {n // 2}"), 2)
    yield "string", lambda n: ('val s = "' + "ab\\n\\255" * n + '"\n' + out("CharVector.foldl (fn (x, s) => (s * 7 + Char.ord x) mod 1000003) 0 s"), functools.reduce(lambda s, x: (s * 7 + x) % 1000003, [97, 98, 10, 255] * n, 0))
    yield "structure", lambda n: ("structure S = struct " + many(lambda i: f"val v{i} = {i} + 0", " ", n) + " end\nstructure T = S\n" + out(" + ".join(f"T.v{i}" for i in pick(n))), sum(pick(n)))
    yield "functor", lambda n: ("functor F (X : sig " + many(lambda i: f"val v{i} : int", " ", n) + f" end) = struct val z = {' + '.join(f'X.v{i}' for i in pick(n))} end\nstructure S = F (struct " + many(lambda i: f"val v{i} = {i} + 0", " ", n) + " end)\n" + out("S.z"), sum(pick(n)))
    yield "signature constraint", lambda n: ("structure S : sig " + many(lambda i: f"val v{i} : int", " ", n) + " end = struct " + many(lambda i: f"val w{i} = 0 val v{n - 1 - i} = {n - 1 - i} + 0", " ", n) + " end\n" + out(" + ".join(f"S.v{i}" for i in pick(n))), sum(pick(n)))


def big(c):
    """every form of `sizes` around 256 (byte operands) and at 1000: the result is right, or the compiler says that the program is too large"""
    jobs = [(k, nm, f, n) for k, (nm, f) in enumerate(sizes()) for n in ([8, 100, 127, 128, 247, 248, 249, 250, 252, 253, 254, 255, 256, 257, 258, 300, 512, 1000] + ([2000, 3000] if c.thorough else []))]

    def one(job):
        k, nm, f, n = job
        text, want = f(n)
        d = c.dir(f"big{k}.{n}")
        c.write(f"{d}/t.sml", text)
        r = run("mosmlc -toplevel t.sml -o t.exe 2>&1", cwd=d, env=c.env, timeout=200)
        if not os.path.exists(f"{d}/t.exe"):
            if n < 250 or not ("Too many" in r.out or "mplementation restriction" in r.out):
                c.fail(f"size:{nm}:{n}", f"a program with {n} components ({nm}) does not compile: {errors_of(r.out)[-400:]}")
            return 0
        h = run("./t.exe 2>&1", cwd=d, env=c.env, timeout=60)
        if h.rc or h.out != smlint(want):
            c.fail(f"size:{nm}:{n}", f"a program with {n} components ({nm}): expected {smlint(want)}, got {h.out[-300:]!r}, status {h.rc}\n  {text[:200]} ...")
        shutil.rmtree(d)
        return 1
    return len(jobs), sum(pmap(one, jobs))


def main():
    c = Check("C01")
    build()
    byres = {}
    for q in P:
        byres.setdefault(q[0], []).append(q)
    items, seen, outcomes = [], set(), set()

    def add(kind, t, node):
        want = expect(kind, t, node)
        if want is None:
            return
        code = wrap(kind, t, node[0])
        outcomes.add(want)
        items.append((f"{kind}:{node[0]}", code, want))
    # depth 1: every production, every leaf combination (capped per production by using representatives when large)
    n1 = 0
    for q in P:
        hs = q[2]

        def combos(mk):
            # the scope depends only on the production; choose by index
            sizes = [len(mk(t, 1, [(n, bt) for n, bt in bs] + SCOPE)) for t, bs in hs]
            return itertools.product(*[range(s) for s in sizes])
        tot = 1
        for t, bs in hs:
            tot *= len(leaves(t, 1, [(n, bt) for n, bt in bs] + SCOPE))
        mk = leaves if tot <= (3000 if c.thorough else 500) else short
        for ch in combos(mk):
            node = inst(q, [lambda t, k, s, i=i, mk=mk: mk(t, k, s)[i] for i in ch], SCOPE)
            add("param" if n1 % 2 else "closure", q[0], node)
            n1 += 1
    # depth 2: every production in every hole of every production, inner leaves varied
    n2 = 0
    for q in P:
        for i, (t, bs) in enumerate(q[2]):
            for q2 in byres.get(t, []):
                sizes = [len(short(t2, 1, [(n, bt) for n, bt in bs2] + [(n, bt) for n, bt in bs] + SCOPE)) for t2, bs2 in q2[2]]
                prod = list(itertools.product(*[range(s) for s in sizes]))
                if not c.thorough and len(prod) > 12:
                    # one inner leaf away from the defaults at a time, plus all defaults
                    prod = [tuple(0 for _ in sizes)] + [tuple(v if j == k else 0 for j in range(len(sizes))) for k in range(len(sizes)) for v in range(1, sizes[k])]
                for ch in prod:
                    def inner(t_, k_, s_, q2=q2, ch=ch):
                        return inst(q2, [lambda a, b_, s2, ix=ix: short(a, b_ + 4, s2)[ix] for ix in ch], s_)
                    fills = [inner if j == i else (lambda t_, k_, s_: default(t_, k_, s_)) for j in range(len(q[2]))]
                    node = inst(q, fills, SCOPE)
                    add(("top", "tail", "struct", "handled")[n2 % 4] if not ("pa" in node[0] or "pb" in node[0]) or n2 % 4 else "tail", q[0], node)
                    n2 += 1
    # fix contexts that need the parameters
    # depth 3 spines: default leaves
    n3 = 0
    core = P if c.thorough else [q for q in P if len(q[2]) <= 2 or "handle" in q[1] or "case" in q[1] or "fun f@" in q[1]]
    for q in P:
        for i, (t, _) in enumerate(q[2]):
            for q2 in [z for z in byres.get(t, []) if z in core]:
                for j, (t2, _) in enumerate(q2[2]):
                    for q3 in [z for z in byres.get(t2, []) if z in core]:
                        if not c.thorough and (P.index(q) + P.index(q2) * 3 + P.index(q3) * 7 + i + j) % 23:
                            continue
                        def inner3(t_, k_, s_, q3=q3):
                            return inst(q3, [lambda a, b_, s2: default(a, b_ + 7, s2) for _ in q3[2]], s_)

                        def inner2(t_, k_, s_, q2=q2, j=j):
                            return inst(q2, [inner3 if m == j else (lambda a, b_, s2: default(a, b_ + 4, s2)) for m in range(len(q2[2]))], s_)
                        node = inst(q, [inner2 if m == i else (lambda a, b_, s2: default(a, b_, s2)) for m in range(len(q[2]))], SCOPE)
                        add(("closure", "param", "tail")[n3 % 3], q[0], node)
                        n3 += 1
    fam = families(c.thorough)
    items += fam
    # contexts: `top` has no parameters in scope
    items[:] = [(k, code.replace("run (fn () => ", "run (fn () => let val pa = 11 val pb = 12 val pc = 13 in (", 1)[:-1] + ") end)"
                 if k.startswith("top:") else code, w) for k, code, w in items]
    n = c.cases("e", PRE, items, shard=220, opts="-liberal")
    c.sample(items[0][1])
    c.sample(items[len(items) // 2][1])
    c.sample(items[-1][1])
    nb, nr = big(c)
    c.finish({"states": len(items) + nb, "transitions": n + nr, "large_programs": nb, "traces_validated_against_impl": n, "productions": len(P), "depth1": n1, "depth2": n2,
              "depth3": n3, "families": len(fam), "distinct_outcomes": len(outcomes), "exhaustive_depth2": True, "exhaustive_depth3": c.thorough},
             ["the Python interpreter is the reference semantics; it agrees with the implementation on every point of the explored space"])


main()
