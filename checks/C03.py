#!/usr/bin/env python3
"""C03: type inference accepts exactly the well-typed phrases and reports their principal types.

Every term up to a size over several small grammars (functions and let-polymorphism; references and the value
restriction; equality types; overloading; explicit type variables and their scope; flexible records; recursion; datatypes;
exceptions) is given to the toplevel.  Oracle: an independent Hindley-Milner implementation in Python.  Acceptance, the
type, which variables are generalised, and equality attributes are compared."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

sys.setrecursionlimit(10000)


class Ill(Exception):
    pass


class Skip(Exception):
    pass


class TV:
    __slots__ = ("link", "level", "eq", "ov", "rigid", "fields")

    def __init__(s, level, eq=False, ov=None, rigid=False, fields=None):
        s.link, s.level, s.eq, s.ov, s.rigid, s.fields = None, level, eq, ov, rigid, fields


def con(n, *args):
    return ("con", n, list(args))


def rec(d):
    ls = sorted(d)
    return ("rec", tuple(ls), [d[l] for l in ls])


INT, BOOL, REAL, STR, UNIT, EXN, WORD = (con(x) for x in ("int", "bool", "real", "string", "unit", "exn", "word"))


def arrow(a, b):
    return con("->", a, b)


def pair(*ts):
    return ("rec", tuple(str(i + 1) for i in range(len(ts))), list(ts))


def lst(t):
    return con("list", t)


def rf(t):
    return con("ref", t)


def prune(t):
    while isinstance(t, TV) and t.link is not None:
        t = t.link
    return t


NOEQ = {"->", "exn", "nt"}          # nt: a datatype with a function inside


def seteq(t):
    t = prune(t)
    if isinstance(t, TV):
        if t.eq:
            return
        if t.rigid:
            raise Ill
        t.eq = True
        for x in (t.fields or {}).values():
            seteq(x)
        return
    if t[0] == "con":
        if t[1] in NOEQ:
            raise Ill
        if t[1] == "ref":
            return
    for a in t[2]:
        seteq(a)


def adjust(v, t, lim):
    """occurs check and level adjustment"""
    t = prune(t)
    if t is v:
        raise Ill
    if isinstance(t, TV):
        if t.level > lim:
            if t.rigid:
                raise Ill       # an explicit variable would escape its scope
            t.level = lim
        for x in (t.fields or {}).values():
            adjust(v, x, lim)
    else:
        for a in t[2]:
            adjust(v, a, lim)


def unify(a, b):
    a, b = prune(a), prune(b)
    if a is b:
        return
    if isinstance(a, TV) and a.rigid and isinstance(b, TV) and not b.rigid or not isinstance(a, TV):
        a, b = b, a
    if isinstance(a, TV):
        if a.rigid:
            raise Ill
        if isinstance(b, TV):
            if b.rigid:
                if a.eq and not b.eq or a.ov or a.fields is not None or b.level > a.level:
                    raise Ill
                a.link = b
                return
            if a.fields is not None or b.fields is not None:
                if a.ov or b.ov:
                    raise Ill
                if b.fields is None:
                    a, b = b, a
                # b has fields
                adjust(a, b, a.level)
                if a.eq:
                    seteq(b)
                fa = a.fields
                a.link = b
                for l, t in (fa or {}).items():
                    if l in b.fields:
                        unify(t, b.fields[l])
                    else:
                        adjust(b, t, b.level)
                        b.fields[l] = t
                        if b.eq:
                            seteq(t)
                return
            if a.ov and b.ov:
                o = a.ov & b.ov
                if not o:
                    raise Ill
                b.ov = o
            elif a.ov:
                b.ov = a.ov
            b.eq = b.eq or a.eq
            b.level = min(a.level, b.level)
            a.link = b
            return
        adjust(a, b, a.level)
        if a.ov and (b[0] != "con" or b[1] not in a.ov):
            raise Ill
        if a.fields is not None:
            if b[0] != "rec":
                raise Ill
            d = dict(zip(b[1], b[2]))
            fs = a.fields
            a.link = b
            for l, t in fs.items():
                if l not in d:
                    raise Ill
                unify(t, d[l])
        a.link = b
        if a.eq:
            seteq(b)
        return
    if a[0] != b[0] or a[1] != b[1] or len(a[2]) != len(b[2]):
        raise Ill
    for x, y in zip(a[2], b[2]):
        unify(x, y)


class Sch:
    def __init__(s, vs, t):
        s.vs, s.t = vs, t


def inst(s, lvl):
    m = {id(v): TV(lvl, v.eq) for v in s.vs}
    if not m:
        return s.t

    def go(t):
        t = prune(t)
        if isinstance(t, TV):
            return m.get(id(t), t)
        if not t[2]:
            return t
        return (t[0], t[1], [go(x) for x in t[2]])
    return go(s.t)


def ftv(t, out):
    t = prune(t)
    if isinstance(t, TV):
        if t not in out:
            out.append(t)
        for x in (t.fields or {}).values():
            ftv(x, out)
    else:
        for a in t[2]:
            ftv(a, out)
    return out


def gen(t, lvl):
    # what an unresolved flexible record or overloaded type reaches stays monomorphic
    for v in ftv(t, []):
        if v.level > lvl and (v.ov or v.fields is not None):
            adjust(None, v, lvl)
    return Sch([v for v in ftv(t, []) if v.level > lvl and not v.ov and v.fields is None], t)


# ---- explicit types: strings to types, with the tyvars in scope
TYS = {
    "int": lambda s: INT, "'a": lambda s: s("'a"), "'b": lambda s: s("'b"), "''a": lambda s: s("''a"), "'a list": lambda s: lst(s("'a")),
    "'a -> 'a": lambda s: arrow(s("'a"), s("'a")), "'a -> 'b": lambda s: arrow(s("'a"), s("'b")), "''a -> int": lambda s: arrow(s("''a"), INT),
    "int -> 'a": lambda s: arrow(INT, s("'a")), "{a:int,b:'a}": lambda s: rec({"a": INT, "b": s("'a")}),
    "int ref": lambda s: rf(INT), "int list": lambda s: lst(INT), "'a ref": lambda s: rf(s("'a")), "int -> int": lambda s: arrow(INT, INT), "real": lambda s: REAL,
}


def tyvars_of(s):
    return set(re.findall(r"''?[ab]\b", s))


def scope_tyvars(e, decl):
    """Annotates every declaration node with the explicit type variables scoped there (Definition 4.6): those occurring in
    it unguarded (not inside a smaller declaration) and not already scoped outside."""
    # returns the set of unguarded tyvars of an expression
    k = e[0]
    if k in ("var", "lit"):
        return set()
    if k == "fnt":
        return tyvars_of(e[2]) | scope_tyvars(e[3], decl)
    if k == "ann":
        return tyvars_of(e[1]) | scope_tyvars(e[2], decl)
    if k in ("let", "letfun", "letp"):
        decl[id(e)] = scope_tyvars(e[2], decl)      # candidates; those scoped outside are removed in infer
        return scope_tyvars(e[-1], decl)
    out = set()
    for x in e[1:]:
        if isinstance(x, tuple):
            out |= scope_tyvars(x, decl)
        elif isinstance(x, list):
            for y in x:
                out |= scope_tyvars(y, decl)
    return out


def nonexp(e):
    k = e[0]
    if k in ("var", "lit", "fn", "fnt", "fnp", "fnrec", "sel", "fncase", "fnS", "fnab"):
        return True
    if k == "ann":
        return nonexp(e[2])
    if k in ("pair", "cons", "rec", "rec3"):
        return all(nonexp(x) for x in e[1:])
    if k == "conapp":
        return nonexp(e[2])
    return False


class Inf:
    def __init__(self):
        self.flex, self.ovs = [], []

    def lookup(self, env, n, lvl):
        return inst(env[n], lvl)

    def tv(self, lvl, **k):
        v = TV(lvl, **k)
        if k.get("ov"):
            self.ovs.append(v)
        if k.get("fields") is not None:
            self.flex.append(v)
        return v

    def bind_tyvars(self, e, sc, lvl):
        mine = self.decl[id(e)] - set(sc)
        return {**sc, **{n: TV(lvl, eq=n.startswith("''"), rigid=True) for n in mine}}, bool(mine)

    def infer(self, e, env, lvl, sc):
        k = e[0]
        I = lambda x, en=env: self.infer(x, en, lvl, sc)
        tv = lambda: TV(lvl)
        if k == "var":
            return self.lookup(env, e[1], lvl)
        if k == "lit":
            return e[2](lvl, self)
        if k == "fn":
            a = tv()
            return arrow(a, I(e[2], {**env, e[1]: Sch([], a)}))
        if k == "fnt":
            a = TYS[e[2]](lambda n: sc[n])
            return arrow(a, I(e[3], {**env, e[1]: Sch([], a)}))
        if k == "fnp":
            a, b = tv(), tv()
            return arrow(pair(a, b), I(e[3], {**env, e[1]: Sch([], a), e[2]: Sch([], b)}))
        if k == "app":
            # Moscow ML elaborates the function first
            f, a, r = I(e[1]), I(e[2]), tv()
            unify(f, arrow(a, r))
            return r
        if k == "pair":
            return pair(I(e[1]), I(e[2]))
        if k == "cons":
            a = I(e[1])
            unify(lst(a), I(e[2]))
            return lst(a)
        if k == "if":
            unify(I(e[1]), BOOL)
            a = I(e[2])
            unify(a, I(e[3]))
            return a
        if k == "eq":
            a = I(e[1])
            unify(a, I(e[2]))
            seteq(a)
            return BOOL
        if k in ("plus", "less"):
            v = self.tv(lvl, ov=frozenset({"int", "real", "word", "word8"} | ({"char", "string"} if k == "less" else set())))
            unify(v, I(e[1]))
            unify(v, I(e[2]))
            return v if k == "plus" else BOOL
        if k == "neg":
            v = self.tv(lvl, ov=frozenset({"int", "real"}))
            unify(v, I(e[1]))
            return v
        if k == "assign":
            a = tv()
            unify(I(e[1]), rf(a))
            unify(a, I(e[2]))
            return UNIT
        if k == "deref":
            a = tv()
            unify(I(e[1]), rf(a))
            return a
        if k == "mkref":
            return rf(I(e[1]))
        if k == "seq":
            I(e[1])
            return I(e[2])
        if k == "ann":
            t = TYS[e[1]](lambda n: sc[n])
            unify(I(e[2]), t)
            return t
        if k == "let":
            sc2, mine = self.bind_tyvars(e, sc, lvl + 1)
            t = self.infer(e[2], env, lvl + 1, sc2)
            if nonexp(e[2]):
                s = gen(t, lvl)
            else:
                if mine:
                    raise Skip
                adjust(None, t, lvl)
                s = Sch([], t)
            return I(e[3], {**env, e[1]: s})
        if k == "letp":         # let val (x, y) = e in e' end
            sc2, mine = self.bind_tyvars(e, sc, lvl + 1)
            t = self.infer(e[2], env, lvl + 1, sc2)
            a, b = TV(lvl + 1), TV(lvl + 1)
            unify(pair(a, b), t)
            if nonexp(e[2]):
                sa, sb = gen(a, lvl), gen(b, lvl)
            else:
                if mine:
                    raise Skip
                adjust(None, t, lvl)
                sa, sb = Sch([], a), Sch([], b)
            return I(e[4], {**env, e[1]: sa, e[3]: sb})
        if k == "letfun":       # let fun f x = e in e' end
            sc2, _ = self.bind_tyvars(e, sc, lvl + 1)
            f, a = TV(lvl + 1), TV(lvl + 1)
            r = TV(lvl + 1)
            unify(f, arrow(a, r))
            unify(r, self.infer(e[2], {**env, e[1]: Sch([], f), e[3]: Sch([], a)}, lvl + 1, sc2))
            return I(e[4], {**env, e[1]: gen(f, lvl)})
        if k == "rec":
            return rec({"a": I(e[1]), "b": I(e[2])})
        if k == "rec3":
            return rec({"a": I(e[1]), "c": I(e[2])})
        if k == "sel":
            a = tv()
            return arrow(self.tv(lvl, fields={e[1]: a}), a)
        if k == "fnrec":        # fn {a = x, ...} => e
            a = tv()
            r = self.tv(lvl, fields={"a": a})
            return arrow(r, I(e[2], {**env, e[1]: Sch([], a)}))
        if k == "fnab":         # fn {a = x, b = y} => x
            a, b = tv(), tv()
            return arrow(rec({"a": a, "b": b}), a)
        if k == "conapp":
            c = inst(CONS[e[1]](lvl), lvl)
            r = tv()
            unify(c, arrow(I(e[2]), r))
            return r
        if k == "case":         # case e of A x => e1 | _ => e2   with constructor e[1]
            s, body = I(e[3]), None
            a = tv()
            c = inst(CONS[e[1]](lvl), lvl)
            unify(c, arrow(a, s))
            t = I(e[4], {**env, e[2]: Sch([], a)})
            unify(t, I(e[5]))
            return t
        if k == "handle":       # e1 handle X x => e2, X of the current local exception
            t = I(e[2])
            a = inst(CONS[e[3]](lvl), lvl)
            v = tv()
            unify(a, arrow(v, EXN))
            unify(t, I(e[4], {**env, e[1]: Sch([], v)}))
            return t
        if k == "raise":
            unify(I(e[1]), EXN)
            return tv()
        raise ValueError(k)


def poly(f):
    """constructor type scheme"""
    def mk(lvl):
        a = TV(99)
        return Sch([a], f(a))
    return mk


CONS = {
    "SOME": poly(lambda a: arrow(a, con("option", a))),
    "Cd": poly(lambda a: arrow(a, con("dt", a))),
    "Cf": poly(lambda a: arrow(arrow(a, a), con("nt", a))),
    "Cr": poly(lambda a: arrow(rf(a), con("rt", a))),
    "Cn": poly(lambda a: arrow(lst(con("dt", a)), con("dt", a))),
    "EI": poly(lambda a: arrow(INT, EXN)),
    "EF": poly(lambda a: arrow(arrow(INT, BOOL), EXN)),
}
# Cn and Cd construct the same datatype dt; nt contains a function, rt a reference
LIT = {
    "1": ("lit", "1", lambda l, s: INT), "true": ("lit", "true", lambda l, s: BOOL), "[]": ("lit", "[]", lambda l, s: lst(TV(l))),
    "1.0": ("lit", "1.0", lambda l, s: REAL), '"s"': ("lit", '"s"', lambda l, s: STR), "()": ("lit", "()", lambda l, s: UNIT),
    "ref": ("lit", "ref", lambda l, s: (lambda a: arrow(a, rf(a)))(TV(l))), "!": ("lit", "!", lambda l, s: (lambda a: arrow(rf(a), a))(TV(l))),
    "op=": ("lit", "(op=)", lambda l, s: (lambda a: arrow(pair(a, a), BOOL))(TV(l, eq=True))),
    "op+": ("lit", "(op+)", lambda l, s: (lambda a: arrow(pair(a, a), a))(s.tv(l, ov=frozenset({"int", "real", "word", "word8"})))),
    "op::": ("lit", "(op::)", lambda l, s: (lambda a: arrow(pair(a, lst(a)), lst(a)))(TV(l))),
    "NONE": ("lit", "NONE", lambda l, s: con("option", TV(l))), "0w1": ("lit", "0w1", lambda l, s: WORD),
}


def text(e):
    k = e[0]
    if k == "var":
        return e[1]
    if k == "lit":
        return e[1]
    if k == "fn":
        return f"(fn {e[1]} => {text(e[2])})"
    if k == "fnt":
        return f"(fn ({e[1]} : {e[2]}) => {text(e[3])})"
    if k == "fnp":
        return f"(fn ({e[1]}, {e[2]}) => {text(e[3])})"
    if k == "app":
        return f"({text(e[1])} {text(e[2])})"
    if k == "pair":
        return f"({text(e[1])}, {text(e[2])})"
    if k == "cons":
        return f"({text(e[1])} :: {text(e[2])})"
    if k == "if":
        return f"(if {text(e[1])} then {text(e[2])} else {text(e[3])})"
    if k in ("eq", "plus", "less", "assign"):
        return f"({text(e[1])} {dict(eq='=', plus='+', less='<', assign=':=')[k]} {text(e[2])})"
    if k == "neg":
        return f"(~ {text(e[1])})"
    if k == "deref":
        return f"(! {text(e[1])})"
    if k == "mkref":
        return f"(ref {text(e[1])})"
    if k == "seq":
        return f"({text(e[1])}; {text(e[2])})"
    if k == "ann":
        return f"({text(e[2])} : {e[1]})"
    if k == "let":
        return f"let val {e[1]} = {text(e[2])} in {text(e[3])} end"
    if k == "letp":
        return f"let val ({e[1]}, {e[3]}) = {text(e[2])} in {text(e[4])} end"
    if k == "letfun":
        return f"let fun {e[1]} {e[3]} = {text(e[2])} in {text(e[4])} end"
    if k == "rec":
        return f"{{a = {text(e[1])}, b = {text(e[2])}}}"
    if k == "rec3":
        return f"{{a = {text(e[1])}, c = {text(e[2])}}}"
    if k == "sel":
        return f"#{e[1]}"
    if k == "fnrec":
        return f"(fn {{a = {e[1]}, ...}} => {text(e[2])})"
    if k == "fnab":
        return "(fn {a = x, b = y} => x)"
    if k == "conapp":
        return f"({e[1]} {text(e[2])})"
    if k == "case":
        return f"(case {text(e[3])} of {e[1]} {e[2]} => {text(e[4])} | _ => {text(e[5])})"
    if k == "handle":
        return f"({text(e[2])} handle {e[3]} {e[1]} => {text(e[4])})"
    if k == "raise":
        return f"(raise {text(e[1])})"
    raise ValueError(k)


def terms(prods, lits, size, nv, memo):
    """All terms of exactly `size` nodes with variables v0..v{nv-1} in scope."""
    key = (size, nv)
    if key in memo:
        return memo[key]
    out = []
    if size == 1:
        out += [("var", f"v{i}") for i in range(nv)] + [LIT[l] for l in lits]
        out += [("sel", "a"), ("sel", "b")] if "sel" in prods else []
        for p in prods:
            if isinstance(p, tuple) and p[0] == "on":
                for m in p[1]:
                    if MACRO[m][0] == 1:
                        out += [MACRO[m][1](("var", f"v{i}")) for i in range(nv)]
                    else:
                        out += [MACRO[m][1](("var", f"v{i}"), ("var", f"v{j}")) for i in range(nv) for j in range(nv) if i != j]
    T = lambda s, n: terms(prods, lits, s, n, memo)
    v = f"v{nv}"
    w = f"v{nv + 1}"

    def two(n1, n2, total):
        for s in range(1, total):
            for a in T(s, n1):
                for b in T(total - s, n2):
                    yield a, b
    r = size - 1
    if r >= 1:
        for p in prods:
            if p == "fn":
                out += [("fn", v, b) for b in T(r, nv + 1)]
            elif p == "fnp":
                out += [("fnp", v, w, b) for b in T(r, nv + 2)]
            elif p == "fnrec":
                out += [("fnrec", v, b) for b in T(r, nv + 1)]
            elif isinstance(p, tuple) and p[0] == "fnt":
                out += [("fnt", v, t, b) for t in p[1] for b in T(r, nv + 1)]
            elif isinstance(p, tuple) and p[0] == "ann":
                out += [("ann", t, b) for t in p[1] for b in T(r, nv)]
            elif isinstance(p, tuple) and p[0] == "conapp":
                out += [("conapp", c, b) for c in p[1] for b in T(r, nv)]
            elif p in ("neg", "deref", "mkref", "raise"):
                out += [(p, a) for a in T(r, nv)]
            elif p in ("app", "pair", "cons", "eq", "plus", "less", "assign", "seq", "rec", "rec3"):
                out += [(p, a, b) for a, b in two(nv, nv, r)]
            elif p == "let":
                out += [("let", v, a, b) for a, b in two(nv, nv + 1, r)]
            elif p == "letp":
                out += [("letp", v, a, w, b) for a, b in two(nv, nv + 2, r)]
            elif p == "letfun":
                out += [("letfun", v, a, w, b) for a, b in two(nv + 2, nv + 1, r)]
            elif p == "if" and r >= 3:
                for s in range(1, r - 1):
                    for a in T(s, nv):
                        out += [("if", a, b, c) for b, c in two(nv, nv, r - s)]
            elif isinstance(p, tuple) and p[0] == "case" and r >= 3:
                for c in p[1]:
                    for s in range(1, r - 1):
                        for a in T(s, nv):
                            out += [("case", c, v, a, b, d) for b, d in two(nv + 1, nv, r - s)]
            elif isinstance(p, tuple) and p[0] == "handle":
                for c in p[1]:
                    out += [("handle", v, a, c, b) for a, b in two(nv, nv + 1, r)]
    memo[key] = out
    return out


ONE = LIT["1"]
MACRO = {       # a constraint on one or two variables in scope, counted as one node
    "#a v": (1, lambda v: ("app", ("sel", "a"), v)), "#b v": (1, lambda v: ("app", ("sel", "b"), v)), "#a v 1": (1, lambda v: ("app", ("app", ("sel", "a"), v), ONE)),
    "#b v 1": (1, lambda v: ("app", ("app", ("sel", "b"), v), ONE)), "v = v": (1, lambda v: ("eq", v, v)), "v = w": (2, lambda v, w: ("eq", v, w)),
    "(fn {a = x, ...} => x) v": (1, lambda v: ("app", ("fnrec", "x", ("var", "x")), v)), "v + v": (1, lambda v: ("plus", v, v)), "v < v": (1, lambda v: ("less", v, v)),
    "v : {a:int,b:'a}": (1, lambda v: ("ann", "{a:int,b:'a}", v)), "let #b v 1": (1, lambda v: ("let", "y", ("app", ("app", ("sel", "b"), v), ONE), ONE)), "let #a v": (1, lambda v: ("let", "y", ("app", ("sel", "a"), v), ONE)),
    "let fn #a v": (1, lambda v: ("let", "y", ("fn", "z", ("app", ("sel", "a"), v)), ("app", ("var", "y"), ONE))),
    "(fn {a, b} => a) v": (1, lambda v: ("app", ("fnab",), v)),
    "[v, w]": (2, lambda v, w: ("cons", v, ("cons", w, LIT["[]"]))), "v w": (2, lambda v, w: ("app", v, w)),
    "v 1": (1, lambda v: ("app", v, ONE)), "v : 'a": (1, lambda v: ("ann", "'a", v)), "v : ''a": (1, lambda v: ("ann", "''a", v)), "v : int": (1, lambda v: ("ann", "int", v)),
    "v : real": (1, lambda v: ("ann", "real", v)), "!v": (1, lambda v: ("deref", v)), "v := w": (2, lambda v, w: ("assign", v, w)), "[v]": (1, lambda v: ("cons", v, LIT["[]"])),
    "~v": (1, lambda v: ("neg", v)), "(v, w)": (2, lambda v, w: ("pair", v, w)), "v v": (1, lambda v: ("app", v, v)), "ref v": (1, lambda v: ("mkref", v)),
}
ANN1 = ("fnt", ["int", "'a", "''a", "'a -> 'b"])
# name, productions, literals, sizes (quick, thorough), wrapper
GR = [
    ("ml", ["fn", "app", "let", "pair"], ["1"], (6, 7), "val"),
    ("mlp", ["fn", "fnp", "app", "letp", "pair"], [], (6, 7), "val"),
    ("ref", ["fn", "app", "let"], ["[]", "ref", "!", "1"], (5, 6), "val"),
    ("assign", ["fn", "let", "mkref", "deref", "assign", "cons", "seq"], ["[]", "1"], (5, 6), "val"),
    ("equal", ["fn", "app", "let", "eq", "pair"], ["1", "op="], (5, 6), "val"),
    ("equal2", ["fn", "fnp", "if", "eq", "mkref", "cons"], ["[]", "true"], (5, 6), "val"),
    ("over", ["fn", "app", "let", "plus", "pair"], ["1", "1.0"], (5, 6), "val"),
    ("over2", ["fn", "less", "eq", "neg", "let", "if"], ["1.0", '"s"', "op+"], (5, 6), "val"),
    ("tyvar", [ANN1, "fn", "app", "let"], ["1"], (5, 6), "val"),
    ("tyvar2", [("ann", ["'a", "'a -> 'a", "int -> 'a", "''a", "int"]), "fn", "let", "app", "pair"], ["[]", "1"], (5, 6), "val"),
    ("tyvar3", [("ann", ["'a list", "'a ref"]), ("fnt", ["'a", "'b"]), "let", "pair", "mkref"], ["[]"], (5, 7), "val"),
    ("flex", ["sel", "fnrec", "rec", "rec3", "app", "let", "fn"], ["1"], (5, 6), "val"),
    ("flex2", ["sel", ("fnt", ["{a:int,b:'a}", "'a", "int"]), "app", "pair", "let", "fn"], [], (5, 6), "val"),
    ("fun", ["letfun", "app", "fn", "pair"], ["1"], (6, 7), "thunk"),
    ("rec", ["app", "fn", "pair", "if", "let"], ["1", "true"], (5, 6), "fun"),
    ("rect", [("ann", ["'a", "int", "'a -> 'a"]), "app", "fn", "let"], ["1"], (5, 6), "fun"),
    ("data", [("conapp", ["Cd", "Cf", "Cr", "Cn"]), "eq", "fn", "let", "pair"], ["1", "[]"], (5, 6), "val"),
    ("case", [("conapp", ["SOME", "Cf"]), ("case", ["SOME", "Cf"]), "fn", "app", "let"], ["1", "NONE"], (5, 6), "val"),
    ("flexeq", ["fn", "seq", ("on", ["#a v", "#b v", "#a v 1", "#b v 1", "v = v", "(fn {a, b} => a) v", "v : {a:int,b:'a}"])], [], (6, 8), "val"),
    ("flexlev", ["fn", "seq", ("on", ["#a v", "let #b v 1", "v = v", "(fn {a, b} => a) v"])], [], (8, 9), "val"),
    ("flexlev2", ["fn", "seq", ("on", ["#b v", "let fn #a v", "let #b v 1", "v = v", "(fn {a, b} => a) v", "let #a v"])], [], (6, 8), "val"),
    ("flexlet", ["fn", "let", "pair", ("on", ["#a v", "#b v 1", "v = v", "v = w", "(fn {a, b} => a) v"])], [], (5, 6), "val"),
    ("cons1", ["fn", "seq", ("on", ["v + v", "v < v", "v = v", "v 1", "v : 'a", "v : ''a", "v : int", "v : real", "!v", "[v]", "~v", "v v"])], [], (6, 8), "val"),
    ("cons2", ["fn", "seq", ("on", ["v = w", "[v, w]", "v w", "v := w", "v + v", "v : ''a", "v : 'a", "!v"])], [], (5, 7), "val"),
    ("cons3", ["fn", "let", "pair", ("on", ["v w", "[v]", "ref v", "v < v", "v = w", "(v, w)", "v : 'a"])], [], (5, 6), "val"),
    ("exn", [("conapp", ["EI", "EF"]), ("handle", ["EI", "EF"]), "raise", "fn", "app", "let"], ["1", "true"], (5, 6), "thunk"),
]
DECL = '''datatype 'a dt = Cd of 'a | Cn of 'a dt list;
datatype 'a nt = Cf of 'a -> 'a;
datatype 'a rt = Cr of 'a ref;
exception EI of int;
exception EF of int -> bool;
'''


def toplevel(e, wrapper):
    """(phrase body, scheme or None) ; raises Skip"""
    inf = Inf()
    inf.decl = {}
    if wrapper == "fun":
        # fun x v0 = e, with x bound to the recursive function (variable v1 is x)
        body = e
        top = ("letfun", "x", body, "v0", ("lit", "1", lambda l, s: INT))
        phrase = f"fun x v0 = {text(body)}"
        tyv = scope_tyvars(body, inf.decl)
    else:
        body = ("fn", "u_", e) if wrapper == "thunk" else e
        phrase = f"val x = {'fn u_ => ' if wrapper == 'thunk' else ''}{text(e)}"
        tyv = scope_tyvars(body, inf.decl)
    sc = {n: TV(1, eq=n.startswith("''"), rigid=True) for n in tyv}
    try:
        if wrapper == "fun":
            f, a, r = TV(1), TV(1), TV(1)
            unify(f, arrow(a, r))
            unify(r, inf.infer(body, {"v1": Sch([], f), "v0": Sch([], a)}, 1, sc))
            t, ne = f, True
        else:
            t = inf.infer(body, {}, 1, sc)
            ne = nonexp(body)
        if not ne and tyv:
            raise Skip
        for v in inf.ovs:
            v = prune(v)
            if isinstance(v, TV) and v.ov:
                if v.rigid:
                    raise Ill
                v.link = INT
        for v in inf.flex:
            if isinstance(prune(v), TV):
                raise Ill
        s = gen(t, 0) if ne else Sch([], t)
    except Ill:
        return phrase, None
    return phrase, s


def canon(t, names):
    t = prune(t)
    if isinstance(t, TV):
        if id(t) not in names:
            names[id(t)] = ("''" if t.eq else "'") + str(len(names))
        return names[id(t)]
    if t[0] == "rec":
        if not t[1]:
            return "unit"
        return "{" + ",".join(f"{l}:{canon(x, names)}" for l, x in zip(t[1], t[2])) + "}"
    if t[1] == "->":
        return f"({canon(t[2][0], names)}->{canon(t[2][1], names)})"
    return "(" + ",".join(canon(x, names) for x in t[2]) + ")" + t[1] if t[2] else t[1]


TOK = re.compile(r"''?[\w']+|->|[\w.]+|[(){},:*]")


def parse_type(s):
    toks, pos = TOK.findall(s), [0]
    names = {}

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        pos[0] += 1
        return toks[pos[0] - 1]

    def atom():
        x = nxt()
        if x == "(":
            ts = [ty()]
            while peek() == ",":
                nxt()
                ts.append(ty())
            assert nxt() == ")"
            r = ts if len(ts) > 1 else ts[0]
        elif x == "{":
            fs = []
            while peek() != "}":
                l = nxt()
                assert nxt() == ":"
                fs.append((l, ty()))
                if peek() == ",":
                    nxt()
            nxt()
            r = "{" + ",".join(f"{l}:{t}" for l, t in sorted(fs)) + "}"
        elif x[0] == "'":
            if x not in names:
                names[x] = ("''" if x.startswith("''") else "'") + str(len(names))
            r = names[x]
        else:
            r = x
        while peek() and re.match(r"[\w.]", peek()):
            n = nxt()
            r = "(" + (",".join(r) if isinstance(r, list) else r) + ")" + n
        return r

    def tup():
        ts = [atom()]
        while peek() == "*":
            nxt()
            ts.append(atom())
        return ts[0] if len(ts) == 1 else "{" + ",".join(f"{i + 1}:{t}" for i, t in enumerate(ts)) + "}"

    def ty():
        a = tup()
        if peek() == "->":
            nxt()
            return f"({a}->{ty()})"
        return a
    r = ty()
    assert pos[0] == len(toks), s
    return r, names


def observed(chunk):
    """(type, generalised variables) or None when the phrase was rejected; 'exn' when it raised"""
    m = re.search(r"> val (?:(\(?''?[^)=]*?\)?) )?x = (.*)\Z", chunk.strip(), re.S)
    if not m:
        return "exn" if "Uncaught exception" in chunk else None
    flat = " ".join(m[2].split())
    typ = flat.rsplit(" : ", 1)
    # a record type contains " : " itself; take the shortest suffix that parses
    best = None
    parts = flat.split(" : ")
    for i in range(len(parts) - 1, 0, -1):
        try:
            best = parse_type(" : ".join(parts[i:]))
            break
        except (AssertionError, IndexError):
            continue
    if best is None:
        return ("unparsed", flat)
    t, names = best
    g = sorted(names.get(v.strip(), "?" + v.strip()) for v in re.findall(r"''?[\w']+", m[1] or ""))
    return t, [x for x in g if not x.startswith("?")]


def main():
    c = Check("C03")
    jobs, seen = [], set()
    per = {}
    for name, prods, lits, sizes, wrapper in GR:
        memo, n = {}, 0
        batch = []
        top = sizes[1 if c.thorough else 0]
        for sz in range(1, top + 1):
            for e in terms(prods, lits, sz, {"val": 0, "thunk": 0, "fun": 2}[wrapper], memo):
                try:
                    ph, s = toplevel(e, wrapper)
                except Skip:
                    continue
                if s is None:
                    want = None
                else:
                    nm = {}
                    t = canon(s.t, nm)
                    want = (t, sorted(nm[id(v)] for v in s.vs if id(v) in nm))
                ph = ph.replace("v1", "x") if wrapper == "fun" else ph
                if ph in seen:
                    continue
                seen.add(ph)
                batch.append((ph, want))
                n += 1
        per[name] = n
        for i in range(0, len(batch), 300):
            jobs.append((name, batch[i:i + 300]))
    acc = [0]

    def go(job):
        name, batch = job
        src = DECL + "".join(ph + ";\n" for ph, _ in batch)
        r = run(["mosml", "-P", "full"], env=c.env, cwd=c.work, input=src, timeout=300)
        chunks = re.split(r"(?m)^- ", r.out)
        chunks = chunks[1 + 5:]
        if r.timed_out or r.rc or len(chunks) != len(batch) + 1:
            k = max(0, min(len(chunks) - 2, len(batch) - 1))
            c.fail(f"toplevel-died:{name}:{batch[k][0]}", f"status {r.rc}, timed out {r.timed_out}; {len(chunks)} responses to {len(batch)} phrases; last: {chunks[-1][-300:]} {r.err[-300:]}")
            return 0
        for (ph, want), ch in zip(batch, chunks):
            got = observed(ch)
            if want:
                acc[0] += 1
            if got == "exn" and want is not None:
                continue
            if got != want:
                c.fail(ph, f"expected {'a type error' if want is None else f'type {want[0]} generalised over {want[1]}'}\n  got {got}\n{ch[:600]}")
        return len(batch)
    n = sum(pmap(go, jobs))
    for j in jobs[:: max(1, len(jobs) // 6)]:
        c.sample(j[1][len(j[1]) // 2][0])
    c.finish({"states": len(seen), "transitions": n, "traces_validated_against_impl": len(jobs), "well_typed": acc[0], "ill_typed": n - acc[0],
              "terms_per_grammar": per, "exhaustive": True},
             ["the Python type checker is the reference; programs whose explicit type variables meet the value restriction are left out"])


main()
