"""An independent LALR(1) construction and parser with yacc's conflict resolution (reference for mosmlyac)."""


class Grammar:
    """tokens: list of names (order = number); prec: token -> (level, 'L'|'R'|'N'); rules: [(lhs, [symbols], prec token or None)];
    starts: start symbols."""

    def __init__(self, tokens, prec, rules, starts):
        self.tokens, self.prec, self.rules, self.starts = tokens, prec, rules, starts
        self.T = set(tokens)
        self.nts = {r[0] for r in rules}
        # yacc-style augmentation: rule numbers 1..n, one entry rule per start symbol after them
        self.aug = [("$acc", ["%e", "$end"])] + [(l, list(r)) for l, r, _ in rules] + [("%e", [f"\x01{s}", s]) for s in starts]
        self.byl = {}
        for i, (l, _) in enumerate(self.aug):
            self.byl.setdefault(l, []).append(i)
        self._first()
        self._states()
        self._table()

    def rprec(self, r):
        if r == 0 or r > len(self.rules):
            return None
        _, rhs, p = self.rules[r - 1]
        if p is not None:
            return self.prec.get(p)
        last = None
        for s in rhs:
            if s in self.T:
                last = s
        return self.prec.get(last) if last is not None else None

    def _first(self):
        self.null, self.fst = set(), {n: set() for n in self.byl}
        ch = True
        while ch:
            ch = False
            for l, rhs in self.aug:
                ok = True
                for s in rhs:
                    f = self.fst[s] if s in self.fst else {s}
                    if not f <= self.fst[l]:
                        self.fst[l] |= f
                        ch = True
                    if s not in self.null:
                        ok = False
                        break
                if ok and l not in self.null:
                    self.null.add(l)
                    ch = True

    def first_of(self, syms, las):
        out = set()
        for s in syms:
            out |= self.fst[s] if s in self.fst else {s}
            if s not in self.null:
                return out
        return out | las

    def closure(self, kern):
        """kern: {(rule, dot): set of lookaheads}"""
        items = {k: set(v) for k, v in kern.items()}
        work = list(items)
        while work:
            it = work.pop()
            r, d = it
            rhs = self.aug[r][1]
            if d < len(rhs) and rhs[d] in self.byl:
                f = self.first_of(rhs[d + 1:], items[it])
                for q in self.byl[rhs[d]]:
                    k = (q, 0)
                    if k not in items:
                        items[k] = set(f)
                        work.append(k)
                    elif not f <= items[k]:
                        items[k] |= f
                        work.append(k)
        return items

    def _states(self):
        self.kern, self.idx, self.goto = [{(0, 0): set()}], {frozenset([(0, 0)]): 0}, [{}]
        work = [0]
        while work:
            s = work.pop(0)
            nxt = {}
            for (r, d), la in self.closure(self.kern[s]).items():
                rhs = self.aug[r][1]
                if d < len(rhs):
                    nxt.setdefault(rhs[d], {})[(r, d + 1)] = la
            for x, k in nxt.items():
                core = frozenset(k)
                if core not in self.idx:
                    self.idx[core] = len(self.kern)
                    self.kern.append({i: set(l) for i, l in k.items()})
                    self.goto.append({})
                    work.append(self.idx[core])
                    t = self.idx[core]
                else:
                    t = self.idx[core]
                    grew = False
                    for i, l in k.items():
                        if not l <= self.kern[t][i]:
                            self.kern[t][i] |= l
                            grew = True
                    if grew and t not in work:
                        work.append(t)
                self.goto[s][x] = t

    def _table(self):
        self.sr = self.rr = 0
        self.act, self.defred = [], []
        used = set()
        for s in range(len(self.kern)):
            reds = {}
            for (r, d), la in self.closure(self.kern[s]).items():
                if d == len(self.aug[r][1]):
                    for t in la:
                        reds.setdefault(t, []).append(r)
            row = {}
            for t in set(reds) | {x for x in self.goto[s] if x not in self.byl}:
                acts = ([("s", None)] if t in self.goto[s] else []) + [("r", r) for r in sorted(reds.get(t, []))]
                dead = set()
                pref = 0
                pr = [self.prec.get(t) if a == "s" else self.rprec(r) for a, r in acts]
                for i in range(1, len(acts)):
                    p, q = pr[pref], pr[i]
                    if p and q:
                        if p[0] < q[0]:
                            dead.add(pref)
                            pref = i
                        elif p[0] > q[0]:
                            dead.add(i)
                        elif acts[pref][0] == "s":
                            if p[1] == "L":
                                dead.add(pref)
                                pref = i
                            elif p[1] == "R":
                                dead.add(i)
                            else:
                                dead |= {pref, i}
                        else:
                            self.rr += 1
                            dead.add(i)
                    else:
                        if acts[pref][0] == "s":
                            self.sr += 1
                        else:
                            self.rr += 1
                        dead.add(i)
                live = [a for i, a in enumerate(acts) if i not in dead]
                if live:
                    row[t] = live[0]
                    for a in live:
                        if a[0] == "r":
                            used.add(a[1])
            self.act.append(row)
            sole = {a[1] for a in row.values() if a[0] == "r"}
            # a state that can only reduce, and by one rule, reduces without looking at the next token
            self.defred.append(sole.pop() if len(sole) == 1 and not any(x not in self.byl for x in self.goto[s]) else None)
        self.never = sorted(set(range(1, len(self.rules) + 1)) - used)

    def parse(self, toks, start=None, node=None):
        """toks: token names.  Returns ('ok', value, reductions) or ('error', number of tokens read)."""
        start = start or self.starts[0]
        st, vals, pos, log = [0], [], -1, []
        st.append(self.goto[0]["\x01" + start])
        pos = steps = 0
        while True:
            steps += 1
            if steps > 400 * (len(toks) + 5):
                return ("loop",)
            s = st[-1]
            # the entry rule is reduced without lookahead when it is the only possibility
            t = toks[pos] if pos < len(toks) else None
            done = [r for (r, d) in self.kern[s] if r > len(self.rules) and d == 2]
            if done and len(self.kern[s]) == 1:
                return ("ok", vals[-1], log)
            a = self.act[s].get(t)
            if self.defred[s] is not None:
                a = ("r", self.defred[s])
            if a is None:
                return ("error", pos + 1)
            if a[0] == "s":
                st.append(self.goto[s][t])
                vals.append(node(0, t, pos) if node else t)
                pos += 1
            else:
                r = a[1]
                l, rhs = self.aug[r]
                n = len(rhs)
                kids = vals[len(vals) - n:]
                del vals[len(vals) - n:]
                del st[len(st) - n:]
                log.append(r)
                vals.append(node(r, kids, pos) if node else (r, kids))
                st.append(self.goto[st[-1]][l])
