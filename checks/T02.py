#!/usr/bin/env python3
"""T02: parsers generated by mosmlyac accept exactly the grammar's language and run the right semantic actions.

Grammars are enumerated (all small two-nonterminal grammars; all precedence/associativity assignments of operator
grammars; grammars with many tokens, rules and symbols; several entry points), given to the real mosmlyac, compiled with
the generated lexer and run by the real parsing engine on every token string up to a length.  Values, order of the semantic
actions, source positions, the number of tokens read at an error, and the reported conflict counts are compared with an
independent LALR(1) construction in Python."""
import itertools, multiprocessing, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from lalr import Grammar

LEX = r'''
{ open Lexing }
rule tok = parse
    [` ` `\n`]  { tok lexbuf }
  | [`a`-`z` `A`-`Z` `0`-`9` `(` `)` `,` `;` `$`] { getLexemeChar lexbuf 0 }
  | eof { #"?" }
;
'''

RUN = r'''
val log = ref ([] : string list)
fun node r kids = (log := Int.toString r :: !log; "(" ^ Int.toString r ^ String.concat kids ^ ")")
fun nodep r kids s e = (log := Int.toString r :: !log; "(" ^ Int.toString r ^ ":" ^ Int.toString s ^ "-" ^ Int.toString e ^ String.concat kids ^ ")")
fun pos n = "@" ^ Int.toString n
(* token i is preceded by i mod 3 spaces *)
fun text cs = let fun h i [] = [] | h i (c :: r) = (if i mod 3 = 0 then "" else if i mod 3 = 1 then " " else "  ") :: String.str c :: h (i+1) r in String.concat (h 0 cs) end
fun run id entry conv (cs : char list) =
  let val lb = Lexing.createLexerString (text cs ^ "$")
      val n = ref 0
      fun lexer lb = (n := !n + 1; conv (L.tok lb, Lexing.getLexemeStart lb))
      val _ = log := []
      val res = (entry lexer lb ^ " " ^ String.concatWith "," (rev (!log))) handle Parsing.ParseError _ => "!" ^ Int.toString (!n) | e => "exn " ^ exnName e
      val _ = Parsing.clearParser ()
  in print (id ^ " " ^ String.implode cs ^ "\t" ^ res ^ "\n") end
fun words alpha l f = let fun h 0 acc = f acc | h n acc = app (fn c => h (n-1) (c :: acc)) alpha in h l [] end
fun all id entry conv alpha maxl = let fun u i = if i > maxl then () else (words alpha i (run id entry conv); u (i+1)) in u 0 end
'''


class G:
    """One grammar: letters are the tokens (one character each); capital multi-letter names nonterminals."""

    def __init__(self, gid, letters, rules, prec=(), starts=("s",), maxlen=4, inputs=None, args="", extra="", order=None, pretokens=()):
        self.gid, self.letters, self.maxlen, self.inputs, self.args, self.extra = gid, letters, maxlen, inputs, args, extra
        self.starts = list(starts)
        self.rules = rules                      # (lhs, [symbols], prec name or None)
        self.prec = list(prec)                  # [(assoc, [names])...] lowest first
        self.pretokens = list(pretokens)        # names used only in precedence declarations
        P = {}
        for lvl, (a, names) in enumerate(self.prec, 1):
            for x in names:
                P[x] = (lvl, a)
        mains = [f"m{s}" for s in self.starts]
        full = [(m, [s, "$"], None) for m, s in zip(mains, self.starts)] + list(rules)
        self.full = full
        self.P, self._ref = P, None
        assert not ({r[0] for r in full} & set(self.letters)), gid
        self.mains = mains
        self.eps = any(not r[1] for r in rules)
        # a rule whose leftmost symbol may be empty has no defined start
        self.pos = not self.eps

    @property
    def ref(self):
        if self._ref is None:
            self._ref = Grammar(list(self.letters) + ["$"], self.P, self.full, self.mains)
        return self._ref

    def loops(self):
        """A cyclic grammar whose conflicts are resolved towards the cycle makes any yacc parser loop."""
        return self.inputs is None and any(self.ref.parse(list(w) + ["$"], m)[0] == "loop" for m in self.mains for w in self.words())

    def tok(self, ch):
        return "EOI" if ch == "$" else f"T{ord(ch):03}"

    def sym(self, s):
        return self.tok(s) if (len(s) == 1 and s in self.letters) or s == "$" else s

    def text(self):
        o = ["%{", "fun here x = x (* the header *)", "%}"]
        for ch in self.letters:
            o.append(f"%token {'<string> ' if ch in self.args else ''}{self.tok(ch)}")
        o.append("%token EOI")
        for a, names in self.prec:
            o.append({"L": "%left", "R": "%right", "N": "%nonassoc"}[a] + " " + " ".join(self.sym(n) for n in names))
        o += [f"%start {m}" for m in self.mains]
        nts = list(dict.fromkeys(r[0] for r in self.full))
        for n in nts:
            o.append(f"%type <string> {n}")
        o.append(self.extra)
        o.append("%%")
        byl = {}
        for i, r in enumerate(self.full, 1):
            byl.setdefault(r[0], []).append((i, r))
        assert [i for l in byl for i, _ in byl[l]] == list(range(1, len(self.full) + 1))
        for l, rs in byl.items():
            alts = []
            for i, (_, rhs, p) in rs:
                kids = []
                for k, s in enumerate(rhs, 1):
                    if s in self.letters or s == "$":
                        if s in self.args:
                            kids.append(f"${k}")
                        else:
                            kids.append(f"\"{s}\"")
                    else:
                        kids.append(f"${k}")
                    if self.pos and k in (1, len(rhs)):
                        kids.append(f"pos (itemStart {k})")
                        kids.append(f"pos (itemEnd {k})")
                act = f"nodep {i} [{', '.join(kids)}] (symbolStart ()) (symbolEnd ())" if self.pos else f"node {i} [{', '.join(kids)}]"
                alts.append(" ".join(self.sym(s) for s in rhs) + (f" %prec {self.sym(p)}" if p else "") + " { " + act + " }")
            o.append(f"{l} :\n    " + "\n  | ".join(alts) + "\n;")
        return "\n".join(o) + "\n"

    def conv(self, st):
        return "(fn " + " | ".join(f'(#"{ch}", p) => {st}.{self.tok(ch)}' + (f' ("{ch}" ^ Int.toString p)' if ch in self.args else "") for ch in self.letters) + f' | (_, p) => {st}.EOI)'

    def words(self):
        if self.inputs is not None:
            return self.inputs
        return ["".join(w) for l in range(self.maxlen + 1) for w in itertools.product(self.letters, repeat=l)]

    def harness(self, st, mains=None):
        o = []
        for m in self.mains:
            if self.inputs is not None:
                o.append(f'val _ = app (fn s => run "{self.gid} {m}" {st}.{m} {self.conv(st)} (String.explode s)) [' + ", ".join(f'"{w}"' for w in self.inputs) + "]")
            else:
                o.append(f'val _ = all "{self.gid} {m}" {st}.{m} {self.conv(st)} (String.explode "{self.letters}") {self.maxlen}')
        return "\n".join(o)

    def expected(self):
        for m in self.mains:
            for w in self.words():
                yield f"{self.gid} {m} {w}", self.expect(m, w)

    def expect(self, m, w):
        at, p = [], 0
        for i in range(len(w)):
            p += i % 3
            at.append(p)
            p += 1
        at.append(p)            # $
        args = self.args

        def node(r, x, i):
            if r == 0:
                return ((x + str(at[i])) if x in args else x, at[i], at[i] + 1)
            if not self.pos:
                return (f"({r}{''.join(k[0] for k in x)})", 0, 0)
            s, e = x[0][1], x[-1][2]
            t = ""
            for j, k in enumerate(x):
                t += k[0]
                if j in (0, len(x) - 1):
                    t += f"@{k[1]}@{k[2]}"
            return (f"({r}:{s}-{e}{t})", s, e)
        res = self.ref.parse(list(w) + ["$"], m, node)
        if res[0] == "ok":
            return f"{res[1][0]} {','.join(map(str, res[2]))}"
        return f"!{res[1]}"


def useful(rules, start):
    prod, ch = set(), True
    while ch:
        ch = False
        for l, rhs, _ in rules:
            if l not in prod and all(s in prod or s.islower() and len(s) == 1 for s in rhs):
                prod.add(l)
                ch = True
    reach, work = {start}, [start]
    while work:
        x = work.pop()
        for l, rhs, _ in rules:
            if l == x:
                for s in rhs:
                    if s.startswith("n") and s not in reach:
                        reach.add(s)
                        work.append(s)
    nts = {r[0] for r in rules}
    return nts <= prod and nts <= reach


def small(deep):
    """All grammars over nonterminals n1, n2 and tokens a, b: n1 with one or two right-hand sides, n2 with one or two."""
    syms = ["n1", "n2", "a", "b"]
    r2 = [[]] + [[x] for x in syms] + [[x, y] for x in syms for y in syms]
    r3 = [[x, y, z] for x in syms for y in syms for z in syms]
    k = 0
    for one in [c for n in (1, 2) for c in itertools.combinations(range(len(r2)), n)]:
        for two in range(len(r2)):
            k += 1
            rules = [("n1", r2[i], None) for i in one] + [("n2", r2[two], None)]
            if useful(rules, "n1") and (deep or k % 2 == 0):
                yield G(f"A{k}", "ab", rules, starts=["n1"], maxlen=4)
    # three-symbol right-hand sides: n1 alone and with one more rule
    for i, t in enumerate(r3):
        for j, u in enumerate(r2):
            rules = [("n1", t, None), ("n1", u, None)]
            if all("n2" not in r[1] for r in rules) and useful(rules, "n1"):
                yield G(f"B{i}.{j}", "ab", rules, starts=["n1"], maxlen=6)
            rules = [("n1", u, None), ("n2", t, None), ("n2", ["a"], None)]
            if useful(rules, "n1") and (deep or (i + j) % 4 == 0):
                yield G(f"C{i}.{j}", "ab", rules, starts=["n1"], maxlen=4)
    # more rules for n2
    for i, (p, q) in enumerate(itertools.combinations(range(len(r2)), 2)):
        for j, (u, v) in enumerate(itertools.combinations(range(len(r2)), 2)):
            if (i * 210 + j) % (3 if deep else 29):
                continue
            rules = [("n1", r2[p], None), ("n1", r2[q], None), ("n2", r2[u], None), ("n2", r2[v], None)]
            if useful(rules, "n1"):
                yield G(f"D{i}.{j}", "ab", rules, starts=["n1"], maxlen=4)


def rows_and_cycles(deep):
    """Lookahead sets through cycles of right-recursive nonterminals, and states whose reductions differ only in some tokens."""
    for k in (2, 3, 4):
        toks = "abcd"[:k]
        for first in (0, 1):
            for ctx in range(1, 2 ** k):
                js = [j for j in range(k) if ctx >> j & 1]
                for back in (1, k - 1) if k > 2 else (1,):
                    rules = []
                    for n, j in enumerate(js if first == 0 else js[::-1]):
                        # n-th context: n + 1 opening f's, closed by its own token
                        rules.append(("s", ["f"] * n + [f"x{j}", "ghij"[n]], None))
                    for i in range(k):
                        rules.append((f"x{i}", [toks[i], f"x{(i + back) % k}"], None))
                        rules.append((f"x{i}", [toks[i]], None) if i == 0 else (f"x{i}", ["e", toks[i]], None))
                    use = {0}
                    lets = toks + "ef"[:2] + "ghij"[:len(js)]
                    ins = []
                    for n, j in enumerate(js if first == 0 else js[::-1]):
                        for l in range(5):
                            w, i = "f" * n, j
                            for _ in range(l):
                                w += toks[i]
                                i = (i + back) % k
                            w += toks[i] if i == 0 else "e" + toks[i]
                            ins += [w + t for t in "ghij"[:len(js)]] + [w]
                    yield G(f"Cy{k}.{first}.{ctx}.{back}", lets, rules, inputs=list(dict.fromkeys(ins)))
    # after "x f" and after "y f", tokens a..e choose between reductions to u, to v, or nothing; further items keep the states apart
    opts = [p for p in itertools.product("uv-", repeat=3)]
    sides = [("u",) + p + (q,) for p in opts for q in "uv" if "v" in p + (q,)]
    for i, px in enumerate(sides):
        for j, py in enumerate(sides):
            if not deep and (i * len(sides) + j) % 7:
                continue
            if sum(c != "-" for c in px) != sum(c != "-" for c in py) and not deep and (i + j) % 3:
                continue
            rules = []
            for c, p in (("x", px), ("y", py)):
                rules += [("s", [c, "nu" if q == "u" else "nv", t], None) for t, q in zip("abcde", p) if q != "-"]
            rules += [("s", ["x", "nz", "a"], None), ("s", ["y", "nw", "a"], None), ("nu", ["f"], None), ("nv", ["f"], None), ("nz", ["f", "g"], None), ("nw", ["f", "h"], None)]
            yield G(f"Rw{i}.{j}", "abcdefghxy", rules, inputs=[c + "f" + t for c in "xy" for t in "abcdefgh"] + ["xfga", "yfha", "xfha", "yfga"])


def triples(deep):
    """Three nonterminals and three tokens: a stride through all grammars with right-hand sides of length at most two
    (n1: two rules, n2: two rules, n3: two rules)."""
    syms = ["n1", "n2", "n3", "a", "b", "c"]
    rhs = [[]] + [[x] for x in syms] + [[x, y] for x in syms for y in syms]
    m = len(rhs)
    prs = list(itertools.combinations(range(m), 2))
    tot, n, k = len(prs) ** 3, 0, 0
    want = 8000 if deep else 700
    step = 612953
    while n < want:
        k = (k + step) % tot
        i, j, l = k // len(prs) ** 2, k // len(prs) % len(prs), k % len(prs)
        rules = [(nt, rhs[x], None) for nt, q in (("n1", i), ("n2", j), ("n3", l)) for x in prs[q]]
        if useful(rules, "n1") and len({r[0] for r in rules}) == 3:
            n += 1
            yield G(f"T{k}", "abc", rules, starts=["n1"], maxlen=4)


def precs(deep):
    """e : e a e | e b e | c e | x  with every assignment of levels and associativities to a, b, c and of %prec to the rules."""
    toks = "abc"
    seen = set()
    for lv in itertools.product((0, 1, 2, 3), repeat=3):
        used = sorted(set(lv) - {0})
        if used != list(range(1, len(used) + 1)):
            continue
        for asc in itertools.product("LRN", repeat=len(used)):
            prec = [(asc[i - 1], [t for t, l in zip(toks, lv) if l == i]) for i in used]
            for pr in (None, "neg-low", "neg-high", "a-as-b"):
                p, extra = list(prec), []
                rules = [("e", ["e", "a", "e"], None), ("e", ["e", "b", "e"], None), ("e", ["c", "e"], None), ("e", ["x"], None)]
                if pr == "neg-low":
                    p = [("N", ["NEG"])] + p
                    rules[2] = ("e", ["c", "e"], "NEG")
                elif pr == "neg-high":
                    p = p + [("R", ["NEG"])]
                    rules[2] = ("e", ["c", "e"], "NEG")
                elif pr == "a-as-b":
                    rules[0] = ("e", ["e", "a", "e"], "b")
                k = "".join(map(str, lv)) + "".join(asc) + (pr or "")
                if k in seen or (pr and not deep and hash_(k) % 4):
                    continue
                seen.add(k)
                yield G(f"P{k}", "abcx", rules, prec=p, starts=["e"], maxlen=5)
    # postfix and ternary operators, dangling else, function application
    for asc in "LRN":
        for asc2 in "LRN":
            yield G(f"Q{asc}{asc2}", "abcx", [("e", ["e", "a"], None), ("e", ["b", "e"], None), ("e", ["e", "c", "e"], None), ("e", ["x"], None)], prec=[(asc, ["c"]), (asc2, ["a", "b"])], starts=["e"], maxlen=5)
            yield G(f"R{asc}{asc2}", "abcx", [("e", ["e", "a", "e", "b", "e"], None), ("e", ["e", "c", "e"], None), ("e", ["x"], None)], prec=[(asc, ["a", "b"]), (asc2, ["c"])], starts=["e"], maxlen=5)
            yield G(f"S{asc}{asc2}", "aexc", [("s", ["a", "x", "s"], None), ("s", ["a", "x", "s", "e", "s"], None), ("s", ["c"], None)], prec=[(asc, ["a"]), (asc2, ["e"])], maxlen=5)
            yield G(f"Sr{asc}{asc2}", "aexc", [("s", ["a", "x", "s"], None), ("s", ["a", "x", "s", "e", "s"], None), ("s", ["c"], None)], prec=[(asc, ["e"]), (asc2, ["a"])], maxlen=5)
    yield G("S0", "aexc", [("s", ["a", "x", "s"], None), ("s", ["a", "x", "s", "e", "s"], None), ("s", ["c"], None)], maxlen=5)
    yield G("App", "x()", [("e", ["e", "at"], None), ("e", ["at"], None), ("at", ["x"], None), ("at", ["(", "e", ")"], None)], starts=["e"], maxlen=6)
    # reduce/reduce conflicts resolved by the precedence of the rules (Moscow ML extension) and by order
    for p in ([], [("L", ["P1"]), ("L", ["P2"])], [("L", ["P2"]), ("L", ["P1"])], [("N", ["P1", "P2"])], [("R", ["P1"])]):
        nm = "".join(x[0] + "".join(x[1]) for x in p)
        names = {n for _, ns in p for n in ns}
        yield G(f"RR{nm}", "ax", [("e", ["t"], None), ("e", ["u"], None), ("e", ["e", "a", "e"], None), ("t", ["x"], "P1" if "P1" in names else None), ("u", ["x"], "P2" if "P2" in names else None)], prec=p, starts=["e"], maxlen=5)
        yield G(f"RS{nm}", "axb", [("e", ["t", "a"], None), ("e", ["u", "a"], None), ("e", ["u", "b"], None), ("e", ["x", "a", "a"], None), ("t", ["x"], "P1" if "P1" in names else None), ("u", ["x"], "P2" if "P2" in names else None)], prec=p, starts=["e"], maxlen=4)


def hash_(s):
    h = 0
    for ch in s:
        h = (h * 31 + ord(ch)) % 1000003
    return h


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def big(deep):
    # classic LALR-but-not-SLR, not-LALR, nullable chains, right/left/mutual recursion, deep lists
    yield G("lalr1", "abcx", [("s", ["l", "a", "r"], None), ("s", ["r"], None), ("l", ["b", "r"], None), ("l", ["x"], None), ("r", ["l"], None)], maxlen=5)
    yield G("lr1notlalr", "abcde", [("s", ["a", "n1", "d"], None), ("s", ["b", "n2", "d"], None), ("s", ["a", "n2", "e"], None), ("s", ["b", "n1", "e"], None), ("n1", ["c"], None), ("n2", ["c"], None)], maxlen=4)
    yield G("nullable", "abcd", [("s", ["n1", "n2", "n3", "d"], None), ("n1", [], None), ("n1", ["a"], None), ("n2", [], None), ("n2", ["b"], None), ("n3", [], None), ("n3", ["c"], None)], maxlen=4)
    yield G("nullchain", "ab", [("s", ["n1", "a"], None), ("n1", ["n2", "n2"], None), ("n2", ["n3"], None), ("n3", [], None), ("n3", ["b"], None)], maxlen=5)
    yield G("mutual", "abc", [("s", ["t", "a"], None), ("s", ["c"], None), ("t", ["s", "b"], None), ("t", ["c", "c"], None)], maxlen=6)
    yield G("args", "abx", [("s", ["s", "a", "x"], None), ("s", ["x", "b"], None), ("s", ["x"], None)], maxlen=5, args="xb")
    yield G("argsall", "abx", [("e", ["e", "a", "e"], None), ("e", ["b", "e"], None), ("e", ["x"], None)], prec=[("L", ["a"]), ("N", ["b"])], starts=["e"], maxlen=5, args="abx")
    yield G("entries", "abc", [("s", ["a", "t"], None), ("s", ["c"], None), ("t", ["b", "s"], None), ("t", ["s", "b"], None), ("u", ["s", "t", "u"], None), ("u", ["c", "b"], None)], starts=["s", "t", "u"], maxlen=5)
    yield G("entries6", "abc", [(f"n{i}", [x, f"n{(i * 2 + 1) % 6}"], None) for i in range(6) for x in ("abc"[i % 3],)] + [], starts=["n0"], maxlen=3) if False else G("entries3", "abc", [("n1", ["a"], None), ("n2", ["n1", "b"], None), ("n3", ["n2", "n1"], None), ("n3", ["c"], None)], starts=["n3", "n1", "n2"], maxlen=4)
    # long right-hand sides and long inputs (the parser's stacks grow beyond 100, 200, 400)
    for n in (2, 5, 9, 17, 33, 64):
        yield G(f"long{n}", "ab", [("s", ["a"] * n, None), ("s", ["b", "s"], None)], inputs=["a" * k for k in (n - 1, n, n + 1)] + ["b" * k + "a" * n for k in (1, 3)])
    lens = [0, 1, 2, 48, 49, 50, 51, 96, 97, 98, 99, 100, 101, 102, 103, 150, 196, 197, 198, 199, 200, 201, 202, 396, 397, 398, 399, 400, 401, 402, 403, 801, 1000]
    yield G("rightrec", "ab", [("s", ["a", "s"], None), ("s", ["b"], None)], inputs=["a" * k + "b" for k in lens])
    yield G("rightrecnull", "ab", [("s", ["a", "s"], None), ("s", [], None)], inputs=["a" * k for k in lens])
    yield G("middle", "abc", [("s", ["a", "s", "b"], None), ("s", ["c"], None)], inputs=["a" * k + "c" + "b" * k for k in lens] + ["a" * k + "c" + "b" * (k - 1) for k in lens if k])
    yield G("leftrec", "ab", [("s", ["s", "a"], None), ("s", ["b"], None)], inputs=["b" + "a" * k for k in lens])
    yield G("nulls", "ab", [("s", ["a", "o", "o", "o", "s"], None), ("s", ["b"], None), ("o", [], None)], inputs=["a" * k + "b" for k in (0, 1, 23, 24, 25, 26, 32, 33, 34, 49, 50, 51, 99, 100)])
    # many tokens, nonterminals, rules: sentences of bounded depth
    for nt in (8, 15, 16, 17, 30, 31, 32, 33, 34, 47, 48, 49, 60):
        L = ALPHA[:nt]
        yield G(f"many{nt}", L, [("ss", [ch], None) for ch in L] + [("ss", ["ss", L[0], L[-1]], None)], inputs=list(L) + [x + L[0] + L[-1] for x in L] + [x + y for x in L[:4] for y in L], starts=["ss"])
        # each token starts its own nonterminal; the follow sets differ per token
        rules = [("ss", [f"k{i}"], None) for i in range(nt)] + [("ss", ["ss", L[-1], f"k{0}"], None)]
        for i, ch in enumerate(L):
            rules.append((f"k{i}", [ch, L[(i + 1) % nt]], None))
        ins = [a + b for a in L for b in (L[(ALPHA.index(a) + 1) % nt], L[(ALPHA.index(a) + 2) % nt], a)] + [L[3] + L[4] + L[-1] + L[0] + L[1]]
        yield G(f"kinds{nt}", L, rules, inputs=ins, starts=["ss"])
        # follow-dependent reductions: x reduces to p when an even token follows, to q when an odd one does
        rules = [("ss", ["pp", ch], None) if i % 2 == 0 else ("ss", ["qq", ch], None) for i, ch in enumerate(L[:-1])] + [("pp", [L[-1]], None), ("qq", [L[-1]], None)]
        yield G(f"follow{nt}", L, rules, inputs=[L[-1] + ch for ch in L] + [L[-1]], starts=["ss"])
        # chain of unit productions: lookaheads travel through nt levels
        rules = [(f"c{i}", [f"c{i + 1}"], None) for i in range(nt - 1)]
        rl = []
        for i in range(nt - 1):
            rl.append((f"c{i}", [f"c{i + 1}"], None))
            rl.append((f"c{i}", [f"c{i}", L[i], f"c{i + 1}"], None))
        rl.append((f"c{nt - 1}", [L[-1]], None))
        ins = [L[-1]] + [L[-1] + L[i] + L[-1] + L[j] + L[-1] for i in range(0, nt - 1, max(1, nt // 8)) for j in range(0, nt - 1, max(1, nt // 8))]
        yield G(f"levels{nt}", L, rl, starts=["c0"], inputs=ins)
        # the same levels by precedence: left, right and nonassociative in turn
        pr = [("LRN"[i % 3], [L[i]]) for i in range(nt - 1)]
        rl = [("ee", ["ee", L[i], "ee"], None) for i in range(nt - 1)] + [("ee", [L[-1]], None)]
        st = max(1, nt // 7)
        ins = [L[-1]] + [L[-1] + L[i] + L[-1] + L[j] + L[-1] for i in range(0, nt - 1, st) for j in range(0, nt - 1, st)] + [L[-1] + L[i] + L[-1] + L[j] + L[-1] + L[k] + L[-1] for i in range(0, nt - 1, 2 * st) for j in range(0, nt - 1, 2 * st) for k in range(0, nt - 1, 2 * st)]
        yield G(f"plevels{nt}", L, rl, prec=pr, starts=["ee"], inputs=ins)
        # optional parts: nullability through many symbols
        rl = [("ss", [f"o{i}" for i in range(nt)], None)]
        for i, ch in enumerate(L):
            rl += [(f"o{i}", [], None), (f"o{i}", [ch], None)]
        ins = ["", L, L[:3], L[-3:], L[0] + L[-1], L[1::2], L[0::2], L[1] + L[0], L + L[-1]] + list(L) + [L[i] + L[(i * 7 + 3) % nt] for i in range(nt)]
        yield G(f"opts{nt}", L, rl, inputs=ins, starts=["ss"])


FRAGS = [('"$1"', "$1"), ('"$2$3"', "$2$3"), ('"}"', "}"), ('"{"', "{"), (r'"\\""', '"'), (r'"\\\\"', "\\"), (r'"\\"}$2{\\""', '"}$2{"'), ('"(*"', "(*"), ('"*)"', "*)"), ('"/*"', "/*"), ('"*/"', "*/"), ('"//"', "//"), ('"%%"', "%%"), ('"%}"', "%}"),
         ('String.str #"}"', "}"), ('String.str #"{"', "{"), (r'String.str #"\\""', '"'), ('String.str #"$"', "$"), ("\"'\"", "'"), ("\"`\"", "`"), ("(* $2 } *) \"c\"", "c"), ("\"c\" (* { $9 *)", "c"), ('(* " *) "c"', "c"), ("(* ' *) \"c\"", "c"), ('(* * ) ** *) "c"', "c"), ("(**) \"c\"", "c"), ("(***) \"c\"", "c"),
         ("#x {x = $2}", "P"), ("#x {y = {z = 1}, x = $3}", "Q"), ("(fn {x, ...} => x) {x = $2, y = $3}", "P"), ("let val {a, b = {c}} = {a = $2, b = {c = $3}} in c ^ a end", "QP"), ("$2 ^$3", "PQ"), ("(fn x=>x)$2", "P"), ("String.concat[$2,$3,$2]", "PQP"), ("(let val d_2 = $3 and d' = $2 in d_2 ^ d' end)", "QP"),
         ("h $2", "<P>"), ("h(h $3)", "<<Q>>"), ("(if $2 = \"P\" then \n   $3\n else\n $2)", "Q"), ("(* two\n lines } $2 *) $3", "Q"), ("\"tab\\\\tx\"", "tab\tx"), ("(case [$2] of [x] => x | _ => $3)", "P"), ("let fun x_$ y = y in $2 end" if False else "(op ^) ($3, $2)", "QP"), (r'"\\^A\\065\\"" ^ $2', '\x01A"P')]
FRAGS = [(a.replace("\\\\", "\\"), b) for a, b in FRAGS]


def texts(c):
    """Semantic actions with every pair of lexically awkward fragments around the $-references."""
    n = 0
    pairs = [(a, b) for a in FRAGS for b in FRAGS]
    per = 120
    jobs = []
    for ci in range(0, len(pairs), per):
        chunk = pairs[ci:ci + per]
        d = c.dir(f"text{ci}")
        g = ["%{", '(* a header with a brace } and a " quote *)' if False else "(* a header *)", 'fun h s = "<" ^ s ^ ">"', "%}", "%token " + " ".join(f"K{i}" for i in range(len(chunk))), "%token <string> W", "%token END", "%start main", "%type <string> main s w", "%%", "main : s END { $1 }", ";", "w : W { $1 } ;", "s :"]
        for i, (a, b) in enumerate(chunk):
            g.append(("  | " if i else "    ") + f"K{i} w W {{ {a[0]} ^ \".\" ^ $2 ^ $3 ^ {b[0]} }}")
        g += [";", "%%", 'fun t s = "/" ^ h s']
        c.write(f"{d}/t.grm", "\n".join(g) + "\n")
        o = ["open T Lexing", "fun go (k, toks) = let val r = ref toks; val lb = createLexerString \"\" val s = (main (fn _ => case !r of [] => END | x :: y => (r := y; x)) lb) handle e => \"exn \" ^ exnName e in print (Int.toString k ^ \"\\t\" ^ String.toString (t s) ^ \"\\n\") end"]
        o += [f'val _ = go ({i}, [K{i}, W "P", W "Q"])' for i in range(len(chunk))]
        c.write(f"{d}/m.sml", "\n".join(o) + "\n")
        jobs.append((d, chunk))

    def one(j):
        d, chunk = j
        return chunk, run(f"'{c.inst.tool('mosmlyac')}' t.grm && rm -f t.sig; mv t.sml T.sml 2>/dev/null; mosmlc -liberal -toplevel T.sml m.sml -o t.exe && ./t.exe", cwd=d, env=c.env, timeout=200)
    for chunk, r in pmap(one, jobs):
        got = dict(l.split("\t", 1) for l in r.out.split("\n") if "\t" in l)
        for i, (a, b) in enumerate(chunk):
            n += 1
            want = sml_escape("/<" + a[1] + ".PQ" + b[1] + ">")
            x = got.get(str(i))
            if x != want:
                c.fail(f"action text {a[0]!r} with {b[0]!r}", f"expected {want}\n  got      {x}\n{errors_of(r.out + r.err)[:600] if x is None else ''}")
    return n


def sml_escape(s):
    o = ""
    for ch in s:
        if ch in '"\\':
            o += "\\" + ch
        elif ch == "\t":
            o += "\\t"
        elif ord(ch) < 32:
            o += "\\^" + chr(ord(ch) + 64)
        else:
            o += ch
    return o


def call(x):
    return GO(x)


def main():
    c = Check("T02")
    L = c.dir("lexer")
    c.write(f"{L}/L.lex", LEX)
    r = run("mosmllex L.lex && mosmlc -c L.sml", cwd=L, env=c.env, timeout=100)
    if not os.path.exists(f"{L}/L.uo"):
        c.fail("lexer", f"mosmllex/mosmlc fail on the token lexer: {r.out[-500:]}{r.err[-500:]}")
        c.finish({"states": 0, "transitions": 0, "traces_validated_against_impl": 0})
    gs = list(small(c.thorough)) + list(rows_and_cycles(c.thorough)) + list(triples(c.thorough)) + list(precs(c.thorough)) + list(big(c.thorough))
    ids = set()
    for g in gs:
        assert g.gid not in ids, g.gid
        ids.add(g.gid)
    per = 16
    groups, heavy = [], [g for g in gs if g.inputs is not None]
    light = [g for g in gs if g.inputs is None]
    groups = [light[i:i + per] for i in range(0, len(light), per)] + [heavy[i:i + 1] for i in range(0, len(heavy), 1)]
    def go(it):
        gi, grp = it
        cnt = {"grammars": 0, "parses": 0, "accepted": 0, "conflicts": 0}
        c.fails, c.nfail = {}, 0
        work(gi, grp, cnt)
        return c.fails, cnt

    def work(gi, grp, cnt):
        grp = [g for g in grp if not g.loops()]
        cnt["grammars"] += len(grp)
        d = c.dir(f"g{gi}")
        parts = [RUN]
        live = []
        for k, g in enumerate(grp):
            c.write(f"{d}/g{k}.grm", g.text())
            r = run([c.inst.tool("mosmlyac"), "-v", f"g{k}.grm"], cwd=d, env=c.env, timeout=60)
            if r.rc != 0 or not os.path.exists(f"{d}/g{k}.sml"):
                c.fail(f"{g.gid}: mosmlyac", f"status {r.rc}: {r.err[-800:]}\n{g.text()}")
                continue
            m = re.search(r"(\d+) shift/reduce", r.err)
            sr = int(m[1]) if m else 0
            m = re.search(r"(\d+) reduce/reduce", r.err)
            rr = int(m[1]) if m else 0
            m = re.search(r"(\d+) rules? never reduced", r.err)
            nv = int(m[1]) if m else 0
            if (sr, rr, nv) != (g.ref.sr, g.ref.rr, len(g.ref.never)):
                c.fail(f"{g.gid}: report", f"mosmlyac reports {sr} s/r, {rr} r/r, {nv} never reduced; the grammar has {g.ref.sr}, {g.ref.rr}, {len(g.ref.never)}\n{g.text()}")
            out = open(f"{d}/g{k}.output", encoding="latin-1").read()
            nst = len(re.findall(r"(?m)^state \d+$", out))
            if nst != len(g.ref.kern) - 1:     # the accepting state is not listed
                c.fail(f"{g.gid}: automaton", f"{nst} states reported; the LALR(1) automaton has {len(g.ref.kern) - 1}\n{g.text()}")
            cnt["conflicts"] += sr + rr
            parts.append(f"structure G{k} = struct\n" + open(f"{d}/g{k}.sml", encoding="latin-1").read().replace("fun here x", "fun here x") + "\nend")
            parts.append(f"local open Parsing in\n{g.harness(f'G{k}')}\nend")
            live.append(g)
        # the actions' helpers must be visible inside the structures
        c.write(f"{d}/p{gi}.sml", "\n".join(parts) + '\nval _ = print "DONE\\n"\n')
        r = run(f"mosmlc -liberal -I {L} L.uo -toplevel p{gi}.sml -o p{gi}.exe 2>&1", cwd=d, env=c.env, timeout=200)
        if r.rc != 0:
            c.fail(f"group {grp[0].gid}...: compile", errors_of(r.out))
            return
        r = c.harness(f"{d}/p{gi}.exe", timeout=120)
        if r is None:
            return
        got = dict(l.split("\t", 1) for l in r.out.split("\n") if "\t" in l)
        for g in live:
            for k, w in g.expected():
                cnt["parses"] += 1
                cnt["accepted"] += w[0] != "!"
                x = got.pop(k, None)
                if x != w:
                    c.fail(k, f"expected {w[:600]}\n  got      {str(x)[:600]}\n{g.text()}")
        for k in list(got)[:3]:
            c.fail("unexpected " + k, got[k])
    groups = sorted(enumerate(groups), key=lambda ig: -max(len(g.letters) for g in ig[1]))
    tot = {}
    global GO
    GO = go
    with multiprocessing.get_context("fork").Pool(NCPU) as pool:
        for fails, cn in pool.imap_unordered(call, groups):
            for k, v in fails.items():
                c.fail(k, v)
            for k, v in cn.items():
                tot[k] = tot.get(k, 0) + v
    nt = texts(c)
    tot["parses"] += nt
    c.sample(f"{len(gs)} grammars; e.g. e : e a e | e b e | c e | x with every level/associativity assignment")
    c.finish({"states": tot["grammars"], "transitions": tot["parses"], "traces_validated_against_impl": tot["parses"], "exhaustive": True, "accepted": tot["accepted"], "conflicts": tot["conflicts"],
              "bound": "grammars over two nonterminals and two tokens with right-hand sides of length <= 2 (3); operator grammars over three operators; all inputs of length <= 4-6"},
             ["positions are compared in grammars without empty rules only"])


main()
