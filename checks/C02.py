#!/usr/bin/env python3
"""C02: pattern matching selects the first clause that matches and binds its variables; Match/Bind and the compiler's
warnings (not exhaustive, unused cases) are exactly right.

For each of several type universes: every list of clauses (every pattern up to a depth, every list up to a length), as
`fn`, `fun`, curried `fun`, `case`, `val` and `handle`, applied to every value of the universe.  Oracle: a direct
first-match interpreter in Python; exhaustiveness and redundancy decided by enumerating the values."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# patterns: ("_",) ("v",) ("k", const) ("c", con, sub or None) ("t", [subs]) ("as", sub) ("l", [..]) ("cons", h, t) ("r", {lab: sub})
# ("ref", sub) ("vec", [subs]).  values: Python constants; ("c", con, v); tuples ("t", [..]); lists ("L", [..]); ("ref", v); ("vec", [...]); ("exn", name, v)


def match(p, v, out):
    k = p[0]
    if k == "_":
        return True
    if k == "v":
        out.append(v)
        return True
    if k == "as":
        out.append(v)
        return match(p[1], v, out)
    if k == "k":
        return p[1] == v
    if k == "c":
        return v[1] == p[1] and (p[2] is None or match(p[2], v[2], out))
    if k == "t":
        return all([match(a, b, out) for a, b in zip(p[1], v[1])]) if True else False
    if k == "r":
        return all([match(p[1][l], v[1][l], out) for l in sorted(p[1])])
    if k == "l":
        return len(v[1]) == len(p[1]) and all([match(a, b, out) for a, b in zip(p[1], v[1])])
    if k == "cons":
        return len(v[1]) > 0 and match(p[1], v[1][0], out) and match(p[2], ("L", v[1][1:]), out)
    if k == "ref":
        return match(p[1], v[1], out)
    if k == "vec":
        return len(v[1]) == len(p[1]) and all([match(a, b, out) for a, b in zip(p[1], v[1])])
    raise ValueError(k)


def ptext(p, names):
    k = p[0]
    if k == "_":
        return "_"
    if k == "v":
        names.append(f"x{len(names)}")
        return names[-1]
    if k == "as":
        names.append(f"x{len(names)}")
        n = names[-1]
        return f"({n} as {ptext(p[1], names)})"
    if k == "k":
        return const(p[1])
    if k == "c":
        if p[2] is None:
            return p[1]
        return f"({p[1]} {ptext(p[2], names)})"
    if k == "t":
        return "(" + ", ".join(ptext(q, names) for q in p[1]) + ")"
    if k == "r":
        return "{" + ", ".join(f"{l} = {ptext(p[1][l], names)}" for l in sorted(p[1])) + (", ..." if p[2] and p[1] else "..." if p[2] else "") + "}"
    if k == "l":
        return "[" + ", ".join(ptext(q, names) for q in p[1]) + "]"
    if k == "cons":
        h = ptext(p[1], names)
        return f"({h} :: {ptext(p[2], names)})"
    if k == "ref":
        return f"(ref {ptext(p[1], names)})"
    return "#[" + ", ".join(ptext(q, names) for q in p[1]) + "]"


class W(int):
    pass


def const(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, W):
        return f"0w{int(x)}"
    if isinstance(x, int):
        return smlint(x)
    if isinstance(x, bytes):
        return "#" + smlstr(x.decode("latin-1"))
    return smlstr(x)


def vtext(v):
    if not isinstance(v, tuple):
        return const(v)
    k = v[0]
    if k == "c":
        return v[1] if v[2] is None else f"({v[1]} {vtext(v[2])})"
    if k == "t":
        return "(" + ", ".join(map(vtext, v[1])) + ")"
    if k == "r":
        return "{" + ", ".join(f"{l} = {vtext(x)}" for l, x in v[1].items()) + "}"
    if k == "L":
        return "[" + ", ".join(map(vtext, v[1])) + "]"
    if k == "ref":
        return f"(ref {vtext(v[1])})"
    return "#[" + ", ".join(map(vtext, v[1])) + "]"


def rename(p, mode):
    """mode 0: wildcards as they are; 1: variables instead"""
    k = p[0]
    if k == "_":
        return ("v",) if mode else p
    if k in ("v", "k"):
        return p
    if k in ("as", "ref"):
        return (k, rename(p[1], mode))
    if k == "c":
        return (k, p[1], p[2] and rename(p[2], mode))
    if k in ("t", "l", "vec"):
        return (k, [rename(q, mode) for q in p[1]])
    if k == "r":
        return (k, {l: rename(q, mode) for l, q in p[1].items()}, p[2])
    return (k, rename(p[1], mode), rename(p[2], mode))


_ = ("_",)
K = lambda *xs: [_] + [("k", x) for x in xs]
bools = [False, True]
c_ = lambda n, s=None: ("c", n, s)


def tuples(*ps):
    return [("t", list(q)) for q in itertools.product(*ps)]


def vtuples(*vs):
    return [("t", list(q)) for q in itertools.product(*vs)]


Kc = [_, c_("A"), c_("B"), c_("C", _), c_("C", ("k", True)), c_("C", ("k", False))]
Vc = [c_("A"), c_("B"), c_("C", True), c_("C", False)]
tree = [_, c_("L"), c_("N", ("t", [_, _])), c_("N", ("t", [c_("L"), _])), c_("N", ("t", [_, c_("L")])), c_("N", ("t", [c_("L"), c_("L")])),
        c_("N", ("t", [c_("N", ("t", [_, _])), _])), c_("N", ("t", [_, c_("N", ("t", [_, _]))]))]
t0 = [c_("L")]
t1 = t0 + [c_("N", ("t", [a, b])) for a in t0 for b in t0]
t2 = [c_("L")] + [c_("N", ("t", [a, b])) for a in t1 for b in t1]
lists = [_, ("l", []), ("l", [_]), ("cons", _, _), ("cons", ("k", 0), _), ("l", [("k", 0)]), ("cons", _, ("l", [])), ("cons", ("k", 0), ("cons", ("k", 1), _)),
         ("cons", _, ("cons", _, _)), ("l", [_, _]), ("cons", _, ("cons", ("k", 1), _)), ("as", ("cons", _, _))]
vlists = [("L", list(q)) for n in range(4) for q in itertools.product([0, 1, 7], repeat=n)]
recs = [("r", dict(zip("abc", q)), False) for q in itertools.product([_, ("k", True)], repeat=3)] + \
       [("r", {}, True), ("r", {"b": ("k", True)}, True), ("r", {"c": _, "a": ("k", False)}, True), ("r", {"a": ("k", True)}, True), ("r", {"c": ("k", True)}, True)]
vrecs = [("r", dict(zip("abc", q))) for q in itertools.product(bools, repeat=3)]
exns = [_, c_("E1"), c_("E2", _), c_("E2", ("k", True)), c_("A1"), c_("A2", ("k", False)), c_("E3", ("t", [_, ("k", 1)])), c_("S.E4", _)]
vexns = [c_("E1"), c_("E2", True), c_("E2", False), c_("E3", ("t", [5, 1])), c_("E3", ("t", [1, 5])), c_("S.E4", 3), c_("E5")]
alias = {"A1": "E1", "A2": "E2"}
opts = [_, c_("NONE"), c_("SOME", _), c_("SOME", ("l", [])), c_("SOME", ("cons", _, _)), c_("SOME", ("cons", ("k", True), _)), ("as", c_("SOME", _))]
vopts = [c_("NONE")] + [c_("SOME", ("L", list(q))) for n in range(3) for q in itertools.product(bools, repeat=n)]
refs = [_, ("ref", _), ("ref", ("k", True)), ("ref", ("k", False))]
vecs = [_, ("vec", []), ("vec", [_]), ("vec", [("k", 0)]), ("vec", [_, ("k", 0)]), ("vec", [_, _]), ("vec", [("k", 0), _])]
vvecs = [("vec", list(q)) for n in range(4) for q in itertools.product([0, 7], repeat=n)]
big = [_] + [c_(f"K{i}") for i in (0, 1, 3, 5)] + [c_("P2", _), c_("P2", ("k", 1)), c_("P4", ("t", [_, ("k", True)])), c_("P4", ("t", [("k", 0), _]))]
vbig = [c_(f"K{i}") for i in (0, 1, 3, 5)] + [c_("P2", 1), c_("P2", 9)] + [c_("P4", ("t", [a, b])) for a in (0, 9) for b in bools]
ints = [_] + [("k", x) for x in (0, 1, 2, -1)] + [("as", ("k", 3)), ("v",)]
vints = [0, 1, 2, -1, 3, 8, -8]
dd = lambda i: {"quick": i[0], "thorough": i[1]}

MAXI, MINI, MAXW = (1 << 62) - 1, -(1 << 62), (1 << 63) - 1
xints = [0, 1, 255, 256, -255, 32767, -32769, (1 << 30) - 1, 1 << 30, -(1 << 30) - 1, (1 << 32), 5 - (1 << 32), MAXI, MINI, MINI + 1]
xwords = [0, 1, 254, 255, 65536, (1 << 31), (1 << 62) - 1, 1 << 62, MAXW, MAXW - 1]
subints = [0, 1, 2, 5, 9, 100, 254, 255, 600, -3]


def subsets(pats):
    """every subset of the constants, ascending and descending, with and without a final wildcard"""
    n = len(pats) - 1
    out = []
    for m in range(1, 1 << n):
        ch = [i + 1 for i in range(n) if m >> i & 1]
        out += [ch + [0], ch[::-1]] if m & 1 else [ch[::-1] + [0], ch[len(ch) // 2:] + ch[:len(ch) // 2] + [0]]
    return out


NS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 51, 52, 53, 60, 61, 63, 64, 65, 70, 80]


def dense(pats):
    """switches of many sizes and densities: constants lo, lo+d, lo+2d, ... in the pattern list (which is [_] + a range)"""
    out, top = [], len(pats) - 1
    for lo in (0, 1, 5):
        for d in (1, 2, 3, 4, 5):
            for n in NS:
                ch = [1 + lo + i * d for i in range(n) if lo + i * d < top]
                out.append(ch + [0] if n % 3 else ch[::-1])
    for hole in range(top):
        if top <= 80:
            out.append([i + 1 for i in range(top) if i != hole] + [0] * (hole % 2))
    seen = set()
    return [x for x in out if x and not (tuple(x) in seen or seen.add(tuple(x)))]


# strings that agree with others up to a NUL, a high byte, a word boundary or the end
STRB = ["a\0b", "a\0c", "a", "\0", "\0\0", "abcdefg\xff", "abcdefgh\0jklmnopq", "a\0", "a\0b\0", "b\0b", "\xff", "abcdefg\x7f", "abcdefg", "abcdefgh\0jklmnopr", "abcdefgh\0jklmnop", "abcdefgi\0jklmnopq", "A\0b", ""]

# name, SML type, patterns, values (complete for the patterns), clause-list length (quick, thorough), infinite?, form list
U = [
    ("bb", "bool * bool", tuples(K(*bools), K(*bools)), vtuples(bools, bools), (4, 5), ("fn", "curry", "case")),
    ("bbb", "bool * bool * bool", tuples(K(*bools), K(*bools), K(*bools)), vtuples(bools, bools, bools), (2, 3), ("case", "curry")),
    ("c", "c", Kc, Vc, (4, 5), ("fn", "case", "val")),
    ("cb", "c * bool", tuples(Kc, K(*bools)), vtuples(Vc, bools), (3, 3), ("fn", "curry")),
    ("cc", "c * c", tuples(Kc[:5], Kc[:5]), vtuples(Vc, Vc), (2, 3), ("fn", "curry")),
    ("tree", "tr", tree, t2, (4, 5), ("case", "fn")),
    ("list", "int list", lists, vlists, (3, 4), ("fn", "case", "fun")),
    ("ilist", "int * int list", tuples(K(0), lists[:7]), vtuples([0, 7], vlists), (3, 3), ("curry", "fn")),
    ("int", "int", ints, vints, (4, 5), ("fn", "case", "fun")),
    ("intx", "int", K(*xints), xints + [2, -1, (1 << 33)], (2, 3), ("fn", "case", "fun")),
    ("wordx", "word", K(*map(W, xwords)), list(map(W, xwords + [2, 1 << 33])), (3, 4), ("fn", "case")),
    ("intsub", "int", K(*subints), subints + [3, 101, -1, 601], subsets, ("fn", "case", "fun")),
    ("dense", "int", K(*range(-3, 290)), list(range(-6, 294)), dense, ("fn", "case")),
    ("wdense", "word", K(*map(W, range(0, 100))), list(map(W, range(0, 102))), dense, ("fn",)),
    ("cdense", "char", K(*(bytes([x]) for x in range(256))), [bytes([x]) for x in range(256)], dense, ("fn", "case")),
    ("d70", "d70", [_] + [c_(f"D{i}") for i in range(70)], [c_(f"D{i}") for i in range(70)], dense, ("fn", "case")),
    ("charsub", "char", K(*(bytes([x]) for x in (0, 1, 10, 65, 66, 128, 254, 255))), [bytes([x]) for x in (0, 1, 2, 10, 64, 65, 66, 127, 128, 253, 254, 255)], subsets, ("fn", "case")),
    ("consub", "d9", [_] + [c_(f"Q{i}") for i in range(9)], [c_(f"Q{i}") for i in range(9)], subsets, ("fn", "case")),
    ("conargs", "d7", [_] + [c_(f"R{i}", _ if i % 2 else None) for i in range(7)], [c_(f"R{i}", 1 if i % 2 else None) for i in range(7)], subsets, ("fn", "case")),
    ("strsub", "string", K("", "a", "aa", "aaaaaaa", "aaaaaaaa", "aaaaaaaaaaaaaaaaa", "aaaaaaab"), ["", "a", "aa", "aaaaaaa", "aaaaaaaa", "aaaaaaaaaaaaaaaaa", "aaaaaaab", "aaaaaaaaa", "b"], subsets, ("fn", "case")),
    ("strbyte", "string", K(*STRB[:7]), STRB, subsets, ("fn", "case")),
    ("string", "string", K("", "a", "b", "ab"), ["", "a", "b", "ab", "ba", "abc"], (4, 5), ("fn", "case")),
    ("char", "char", K(b"\0", b"a", b"b", b"\xff"), [b"\0", b"a", b"b", b"\xff", b"z"], (3, 4), ("fn", "case")),
    ("word", "word", K(W(0), W(1), W(255)), [W(0), W(1), W(255), W(9)], (3, 4), ("fn",)),
    ("rec", "{a : bool, b : bool, c : bool}", recs, vrecs, (3, 4), ("case", "fn")),
    ("exn", "exn", exns, vexns, (3, 4), ("fn", "handle", "case")),
    ("lexn", "exn", [p for p in exns if p[1:2] != ("S.E4",)], [v for v in vexns if v[1] != "S.E4"], (3, 4), ("lfn", "lhandle")),
    ("opt", "bool list option", opts, vopts, (4, 5), ("fn", "case")),
    ("ref", "bool ref", refs, [("ref", False), ("ref", True)], (3, 4), ("fn", "case")),
    ("vec", "int vector", vecs, vvecs, (3, 4), ("fn", "case")),
    ("big", "big", big, vbig, (3, 4), ("case", "fn")),
    ("one", "w1", [_, c_("W", _), c_("W", ("k", True))], [c_("W", True), c_("W", False)], (3, 3), ("fn", "val")),
    ("unit", "unit", [_, ("t", []), ("v",)], [("t", [])], (3, 3), ("fn", "case")),
]
DECLS = "datatype d70 = " + " | ".join(f"D{i}" for i in range(70)) + r'''
datatype c = A | B | C of bool
datatype tr = L | N of tr * tr
datatype big = K0 | K1 | P2 of int | K3 | P4 of int * bool | K5
datatype w1 = W of bool
datatype d9 = Q0 | Q1 | Q2 | Q3 | Q4 | Q5 | Q6 | Q7 | Q8
datatype d7 = R0 | R1 of int | R2 | R3 of int | R4 | R5 of int | R6
exception E1 exception E2 of bool exception E3 of int * int exception E5
structure S = struct exception E4 of int end
exception A1 = E1 exception A2 = E2
'''
LEXN = "exception E1 exception E2 of bool exception E3 of int * int exception E5 exception A1 = E1 exception A2 = E2"
SHOWS = {
    "bool": "b2s", "int": "i2s", "char": "c2s", "string": "s2s", "word": "Word.toString", "bool list": "(l2s b2s)", "int list": "(l2s i2s)",
}


def con(n):
    return alias.get(n, n)


def norm(p):
    """Resolves exception aliases."""
    if p[0] == "c":
        return ("c", con(p[1]), p[2] and norm(p[2]))
    if p[0] in ("t", "l", "vec"):
        return (p[0], [norm(q) for q in p[1]])
    if p[0] in ("as", "ref"):
        return (p[0], norm(p[1]))
    return p


def vshow(v):
    """How sh prints a bound value."""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, W):
        return f"{int(v):X}"
    if isinstance(v, int):
        return smlint(v)
    if isinstance(v, bytes):
        return '#"' + smlesc(v.decode("latin-1")) + '"'
    if isinstance(v, str):
        return '"' + smlesc(v) + '"'
    k = v[0]
    if k == "L":
        return "[" + ",".join(map(vshow, v[1])) + "]"
    return None


def vtype(p, v):
    pass


def typed_vars(p, ty):
    """The variables of a pattern with their SML types, in the order of ptext."""
    k = p[0]
    if k in ("_", "k"):
        return []
    if k == "v":
        return [ty]
    if k == "as":
        return [ty] + typed_vars(p[1], ty)
    if k == "c":
        sub = {"C": "bool", "N": "tr * tr", "P2": "int", "P4": "int * bool", "W": "bool", "E2": "bool", "A2": "bool", "E3": "int * int", "S.E4": "int",
               "SOME": "bool list", "R1": "int", "R3": "int", "R5": "int"}.get(p[1])
        return typed_vars(p[2], sub) if p[2] else []
    if k == "t":
        ts = ty.split(" * ") if p[1] else []
        return [x for q, t in zip(p[1], ts) for x in typed_vars(q, t)]
    if k == "r":
        return [x for l in sorted(p[1]) for x in typed_vars(p[1][l], "bool")]
    if k == "l":
        return [x for q in p[1] for x in typed_vars(q, ty[:-5])]
    if k == "vec":
        return [x for q in p[1] for x in typed_vars(q, "int")]
    if k == "cons":
        return typed_vars(p[1], ty[:-5]) + typed_vars(p[2], ty)
    if k == "ref":
        return typed_vars(p[1], "bool")
    raise ValueError(k)


def clause(i, p, ty):
    """(pattern text, right-hand side) of clause i; the right-hand side shows the variables whose type it can show."""
    names = []
    t = ptext(p, names)
    tys = typed_vars(p, ty)
    rhs = [f'"{i}"'] + [f"{SHOWS[y]} {n}" for n, y in zip(names, tys) if y in SHOWS]
    return t, ' ^ "," ^ '.join(rhs) if len(rhs) > 1 else rhs[0]


def main():
    c = Check("C02")
    idx = 1 if c.thorough else 0
    progs, total, outcomes = [], 0, set()
    for name, ty, pats, vals, ln, forms in U:
        lists_ = []
        if callable(ln):
            lists_ = ln(pats)
        else:
            for n in range(1, ln[idx] + 1):
                lists_ += itertools.product(range(len(pats)), repeat=n)
        cases = []
        for j, ch in enumerate(lists_):
            mode = j % 2
            ps = [rename(pats[i], mode) for i in ch]
            form = forms[j % len(forms)]
            if form == "val":
                ps = ps[:1]
            cases.append((form, ps))
        # forms "val" keep one pattern only: add every single pattern in every form
        for i in range(len(pats)):
            for f in forms:
                for m in (0, 1):
                    cases.append((f, [rename(pats[i], m)]))
        progs.append((name, ty, vals, cases))
    jobs = []
    for name, ty, vals, cases in progs:
        size = 250
        for s in range(0, len(cases), size):
            jobs.append((f"{name}{s}", ty, vals, cases[s:s + size]))
    wexh, wred = "pattern matching is not exhaustive", "some cases are unused in this match"

    def go(job):
        name, ty, vals, cases = job
        nm = [(norm_v, v) for norm_v, v in ((v, v) for v in vals)]
        lines, wants, warns = [], [], []
        curried = ty.count(" * ") and " list" not in ty.split(" * ")[0]
        for form, ps in cases:
            rows_, exh, used = [], True, [False] * len(ps)
            for v in vals:
                for i, p in enumerate(ps):
                    out = []
                    if match(norm(p), v, out):
                        used[i] = True
                        shown = [y for y, t in zip(out, typed_vars(p, ty)) if t in SHOWS]
                        rows_.append(str(i) + "".join("," + vshow(y) for y in shown))
                        break
                else:
                    exh = False
                    rows_.append("!")
            if ty == "exn" and not any(p[0] in ("_", "v") for p in ps):
                exh = False
            cl = [clause(i, p, ty) for i, p in enumerate(ps)]
            if form == "curry" and not all(p[0] == "t" for p in ps):
                form = "fn"
            local = form in ("lfn", "lhandle")
            form = form[1:] if local else form
            if form == "fn":
                code = "cat vals (fn " + " | ".join(f"{a} => {b}" for a, b in cl) + ")"
            elif form == "case":
                code = "cat vals (fn z => case z of " + " | ".join(f"{a} => {b}" for a, b in cl) + ")"
            elif form == "fun":
                code = "let fun f " + " | f ".join(f"{a} = {b}" for a, b in cl) + " in cat vals f end"
            elif form == "curry":
                n = len(ps[0][1])
                parts = []
                for i, p in enumerate(ps):
                    names = []
                    ts = [ptext(q, names) for q in p[1]]
                    parts.append(f"f {' '.join(ts)} = {cl[i][1]}")
                args = [f"y{k}" for k in range(n)]
                code = "let fun " + " | ".join(parts) + f" in cat vals (fn ({', '.join(args)}) => f {' '.join(args)}) end"
            elif form == "val":
                code = f"catb vals (fn z => let val {cl[0][0]} = z in {cl[0][1]} end)"
            else:       # handle: an unmatched exception propagates
                code = "cath vals (fn z => (raise z) handle " + " | ".join(f"{a} => {b}" for a, b in cl) + ")"
                exh = True
            if form == "val":
                used = [True]
            if local:
                code = f"let {LEXN} val vals = [{', '.join(map(vtext, vals))}] in {code} end"
            lines.append(f"val _ = print ({code})")
            wants.append("".join(r + ";" for r in rows_))
            warns.append((not exh, not all(used)))
        pre = CASE_PRELUDE + DECLS + f"\nval vals : ({ty}) list = [{', '.join(map(vtext, vals))}]\n" + r'''
fun cat vs (f : %s -> string) = String.concat (map (fn v => (f v handle Match => "!") ^ ";") vs) ^ "\n"
fun catb vs (f : %s -> string) = String.concat (map (fn v => (f v handle Bind => "!") ^ ";") vs) ^ "\n"
fun cath vs (f : %s -> string) = String.concat (map (fn v => (f v handle _ => "!") ^ ";") vs) ^ "\n"
''' % (ty, ty, ty)
        if ty == "bool ref":
            pass
        base = pre.count("\n") + 1
        d = c.dir("m" + name)
        c.write(f"{d}/m.sml", pre + "\n".join(lines) + '\nval _ = print "DONE\\n"\n')
        r = run("mosmlc -liberal -toplevel m.sml -o m.exe 2>&1", cwd=d, env=c.env, timeout=200)
        if r.rc or not os.path.exists(f"{d}/m.exe"):
            c.fail(f"does-not-compile:{name}", errors_of(r.out))
            return 0
        got_w = {}
        for m in re.finditer(r'File "m.sml", lines? (\d+)(?:-\d+)?, characters.*?(?=^File |\Z)', r.out, re.S | re.M):
            got_w.setdefault(int(m[1]), []).append(m[0])
        h = c.harness(f"{d}/m.exe", timeout=100)
        if h is None:
            return 0
        outl = h.out.split("\n")
        for k, (line, want, (we, wr)) in enumerate(zip(lines, wants, warns)):
            g = outl[k] if k < len(outl) else None
            if g != want:
                c.fail(f"match:{name[:4]}:{line[14:]}", f"values {[vtext(v) for v in vals][:40]}\n  expected {want}\n  got      {g}")
            w = "".join(got_w.get(base + k, []))
            if (wexh in w) != we:
                c.fail(f"exhaustive-warning:{line[14:]}", f"expected {'a' if we else 'no'} warning about exhaustiveness; compiler said {w[-300:]!r}")
            # exception constructors are generative and may be renamed: there the warning may be missing, never wrong
            if (wred in w) != wr and not (ty == 'exn' and wr):
                c.fail(f"unused-warning:{line[14:]}", f"expected {'a' if wr else 'no'} warning about unused cases; compiler said {w[-300:]!r}")
        outcomes.update(wants)
        if name.endswith("0"):
            c.sample(lines[len(lines) // 2][14:], 8)
        return len(lines)
    n = sum(pmap(go, jobs))

    # declarations at the top of a linked program: one that fails ends the program, whether its variables are used or not
    vals_ = {"1": ("int", 1), "2": ("int", 2), "SOME 1": ("opt", 1), "NONE": ("opt", None), "[]": ("list", ()), "[1]": ("list", (1,)), "[1, 2]": ("list", (1, 2)), "(1, 2)": ("pair", (1, 2)), "true": ("bool", True), '"a"': ("str", "a"),
             "ref 1": ("ref", 1)}
    pats_ = [("1", "int", lambda v: v == 1), ("2", "int", lambda v: v == 2), ("x as 1", "int", lambda v: v == 1), ("SOME _", "opt", lambda v: v is not None), ("SOME x", "opt", lambda v: v is not None), ("SOME 2", "opt", lambda v: v == 2),
             ("NONE", "opt", lambda v: v is None), ("[]", "list", lambda v: v == ()), ("x :: _", "list", lambda v: v != ()), ("[_]", "list", lambda v: len(v) == 1), ("[x, y]", "list", lambda v: len(v) == 2), ("_ :: 2 :: _", "list", lambda v: v == (1, 2)),
             ("(x, 2)", "pair", lambda v: True), ("(1, 1)", "pair", lambda v: False), ("x as (_, y)", "pair", lambda v: True), ("true", "bool", lambda v: v), ("false", "bool", lambda v: not v), ('"a"', "str", lambda v: True), ('"b"', "str", lambda v: False),
             ("ref 1", "ref", lambda v: True), ("ref 2", "ref", lambda v: False), ("ref x", "ref", lambda v: True)]
    tops = [(f"val {p} = {e}", f(v)) for p, t, f in pats_ for e, (t2, v) in vals_.items() if t == t2]
    tops += [(f"local val {p} = {e} in val z = 1 end", f(v)) for p, t, f in pats_ for e, (t2, v) in vals_.items() if t == t2 and t in ("opt", "list")]
    tops += [(f"val z = let val {p} = {e} in 1 end", f(v)) for p, t, f in pats_ for e, (t2, v) in vals_.items() if t == t2 and t in ("opt", "list")]
    tops += [(f"structure S = struct val {p} = {e} end", f(v)) for p, t, f in pats_ for e, (t2, v) in vals_.items() if t == t2 and t in ("opt", "list")]
    tops += [(f"val z = case {e} of {p} => 1", f(v)) for p, t, f in pats_ for e, (t2, v) in vals_.items() if t == t2 and t in ("opt", "list")]

    def top(job):
        k, (decl, ok) = job
        d = c.dir(f"t{k}")
        c.write(f"{d}/t.sml", f'val _ = print "A"\n{decl}\nval _ = print "B"\n')
        r = run("mosmlc -toplevel t.sml -o t.exe 2>&1", cwd=d, env=c.env, timeout=100)
        h = run("./t.exe 2>/dev/null", cwd=d, env=c.env, timeout=20) if os.path.exists(f"{d}/t.exe") else None
        if h is None or h.out != ("AB" if ok else "A") or (h.rc == 0) != ok:
            c.fail(f"top:{decl}", f"a linked program with the top-level declaration\n  {decl}\nbetween printing A and printing B: expected {'AB, status 0' if ok else 'A, then an uncaught exception'}; got {(h.out, h.rc) if h else errors_of(r.out)}")
    pmap(top, list(enumerate(tops)))
    tot = sum(len(x[3]) * len(x[2]) for x in jobs)
    c.finish({"states": sum(len(x[3]) for x in jobs), "transitions": tot + 2 * n, "traces_validated_against_impl": n + len(tops), "linked_programs": len(tops), "distinct_outcomes": len(outcomes),
              "universes": len(U), "exhaustive": True},
             ["patterns deeper than the listed ones and longer clause lists are not enumerated"])


main()
