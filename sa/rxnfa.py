"""Regular expressions as position automata: character classes as interval sets, ambiguity, and language comparison."""
from __future__ import annotations

import functools
import re

try:
    from re import _parser as sp, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

MAXCP = 0x10FFFF


# ---- interval sets: sorted tuples of (lo, hi)
def norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def neg(iv):
    out, at = [], 0
    for lo, hi in iv:
        if lo > at:
            out.append((at, lo - 1))
        at = hi + 1
    if at <= MAXCP:
        out.append((at, MAXCP))
    return tuple(out)


def inter(a, b):
    out, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def sub(a, b):
    return inter(a, neg(b))


def has(iv, c):
    return any(lo <= c <= hi for lo, hi in iv)


ANY = ((0, MAXCP),)


@functools.lru_cache(None)
def category(name, ascii_only):
    test = {"SPACE": str.isspace, "DIGIT": str.isdecimal, "WORD": lambda c: c.isalnum() or c == "_"}[name]
    out, start = [], None
    for i in range(128 if ascii_only else MAXCP + 1):
        c = chr(i)
        t = test(c)
        if name == "SPACE" and ascii_only:
            t = c in " \t\n\r\f\v"
        if t and start is None:
            start = i
        elif not t and start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, 127 if ascii_only else MAXCP))
    return tuple(out)


def cat_set(av, ascii_only):
    n = str(av).replace("CATEGORY_", "").replace("UNI_", "").replace("LOC_", "")
    if n.startswith("NOT_"):
        return neg(category(n[4:], ascii_only))
    return category(n, ascii_only)


def fold(iv):
    extra = []
    for lo, hi in iv:
        if hi - lo > 5000:
            continue
        for i in range(lo, hi + 1):
            c = chr(i)
            for d in (c.lower(), c.upper()):
                if len(d) == 1:
                    extra.append((ord(d), ord(d)))
    return norm(list(iv) + extra)


class NFA:
    """Position automaton: classes[i] the characters position i takes; follow[i] = {j: number of ways}; start, last sets."""

    def __init__(self, pattern, flags=0, cap=20, seq=None):
        self.is_bytes = isinstance(pattern, bytes)
        if self.is_bytes:
            pattern = pattern.decode("latin-1")
        self.pattern = pattern
        self.tree = sp.parse(pattern, flags & ~re.DEBUG)
        fl = self.tree.state.flags
        self.ascii = bool(fl & re.ASCII) or self.is_bytes
        self.icase, self.dotall = bool(fl & re.IGNORECASE), bool(fl & re.DOTALL)
        self.classes, self.asserted = [], []
        self.cap = cap
        self.exact = True  # whether the automaton's language is exactly the pattern's
        # eps-NFA
        self.eps, self.sym, self.guards = [], [], set()
        seq = list(self.tree) if seq is None else list(seq)
        self.tail = self.head = None
        if seq and seq[-1][0] is sc.AT and str(seq[-1][1]) in ("AT_END", "AT_END_STRING") and not fl & re.MULTILINE and len(seq) > 1:
            self.tail = str(seq.pop()[1])
        if len(seq) > 1 and seq[0][0] is sc.AT and str(seq[0][1]) in ("AT_BEGINNING", "AT_BEGINNING_STRING") and not fl & re.MULTILINE:
            self.head = str(seq.pop(0)[1])
        s, e = self.build(seq)
        if self.tail:
            n = self.node()
            self.guards.add(n)
            self.eps[e].append(n)
            e = n
        self.s, self.e = s, e
        self._positions()

    # ---- construction
    def node(self):
        self.eps.append([])
        self.sym.append(None)
        return len(self.eps) - 1

    def leaf(self, cls):
        if self.icase:
            cls = fold(cls)
        a, b = self.node(), self.node()
        self.sym[a] = (cls, b)
        return a, b

    def build(self, seq):
        a = cur = self.node()
        for op, av in seq:
            s, e = self.item(op, av)
            self.eps[cur].append(s)
            cur = e
        return a, cur

    def cls(self, items):
        negate, out = False, []
        for op, av in items:
            if op is sc.NEGATE:
                negate = True
            elif op is sc.LITERAL:
                out.append((av, av))
            elif op is sc.RANGE:
                out.append(av)
            elif op is sc.CATEGORY:
                out += cat_set(av, self.ascii)
        out = norm(out)
        if self.icase:
            out = fold(out)
        return neg(out) if negate else out

    def item(self, op, av):
        if op is sc.LITERAL:
            return self.leaf(((av, av),))
        if op is sc.NOT_LITERAL:
            c = ((av, av),)
            return self.leaf(neg(fold(c) if self.icase else c))
        if op is sc.ANY:
            return self.leaf(ANY if self.dotall else neg(((10, 10),)))
        if op is sc.IN:
            return self.leaf(self.cls(av))
        if op is sc.BRANCH:
            a, b = self.node(), self.node()
            for x in av[1]:
                s, e = self.build(x)
                self.eps[a].append(s)
                self.eps[e].append(b)
            return a, b
        if op is sc.SUBPATTERN:
            d, i = self.dotall, self.icase
            self.dotall = (d or bool(av[1] & re.DOTALL)) and not av[2] & re.DOTALL
            self.icase = (i or bool(av[1] & re.IGNORECASE)) and not av[2] & re.IGNORECASE
            r = self.build(av[3])
            self.dotall, self.icase = d, i
            return r
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
            if str(op) == "POSSESSIVE_REPEAT":
                self.exact = False
            lo, hi, x = av
            if lo > self.cap:
                lo, self.exact = self.cap, False
            if hi is not sc.MAXREPEAT and hi > self.cap + lo:
                hi, self.exact = sc.MAXREPEAT, False
            a = cur = self.node()
            for _ in range(lo):
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            if hi is sc.MAXREPEAT:
                s, e = self.build(x)
                n, end = self.node(), self.node()
                self.eps[cur].append(n)
                self.eps[n] += [s, end]
                self.eps[e].append(n)
                cur = end
            else:
                end = self.node()
                for _ in range(hi - lo):
                    s, e = self.build(x)
                    self.eps[cur] += [s, end]
                    cur = e
                self.eps[cur].append(end)
                cur = end
            return a, cur
        if str(op) == "ATOMIC_GROUP":
            self.exact = False
            return self.build(av)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            self.exact = False
            self.asserted.append(av[1])
            n = self.node()
            self.guards.add(n)
            return n, n
        if op is sc.AT:
            self.exact = False
            n = self.node()
            self.guards.add(n)
            return n, n
        if op in (sc.GROUPREF, sc.GROUPREF_EXISTS):
            self.exact = False
            if op is sc.GROUPREF_EXISTS:
                a, b = self.node(), self.node()
                for x in (av[1], av[2]):
                    if x is None:
                        self.eps[a].append(b)
                    else:
                        s, e = self.build(x)
                        self.eps[a].append(s)
                        self.eps[e].append(b)
                return a, b
            return self.leaf(ANY)
        raise ValueError(f"regex construct {op}")

    def _positions(self):
        self.pos = [i for i, s in enumerate(self.sym) if s is not None]
        ix = {p: i for i, p in enumerate(self.pos)}
        self.classes = [self.sym[p][0] for p in self.pos]

        def ways(n):
            """positions (and the end) reached by simple eps paths, with their number (capped at 2)"""
            out = {}

            def go(x, seen, free):
                budget[0] -= 1
                if budget[0] < 0:
                    raise ValueError("regex too large")
                free = free and x not in self.guards
                if x == self.e:
                    out["end"] = min(2, out.get("end", 0) + 1)
                    if free:
                        out["free"] = 1
                if self.sym[x] is not None:
                    out[ix[x]] = min(2, out.get(ix[x], 0) + 1)
                for y in self.eps[x]:
                    if (x, y) not in seen:
                        go(y, seen | {(x, y)}, free)

            budget = [200000]
            go(n, frozenset(), True)
            return out

        self.first = ways(self.s)
        self.follow = [ways(self.sym[p][1]) for p in self.pos]
        self.nullable = "end" in self.first
        free = [f.pop("free", 0) for f in self.follow]
        self.first.pop("free", 0)
        self.last = {i for i, f in enumerate(free) if f}  # positions after which the match can end whatever comes next

    # ---- exponential ambiguity
    def eda(self, full=False):
        """Positions of a loop some of whose words can be matched in two ways, or None.  Loops all of whose states
        may end the match are not backtracked into (unless the whole text has to match)."""
        n = len(self.classes)
        adj = [[j for j in f if isinstance(j, int) and self.classes[j]] for f in self.follow]
        comp = scc(n, adj)
        members = {}
        for i, c in enumerate(comp):
            members.setdefault(c, []).append(i)
        for c, ms in members.items():
            ms_set = set(ms)
            if not any(j in ms_set for i in ms for j in adj[i]):
                continue
            if not full and all(i in self.last for i in ms):
                continue
            for i in ms:
                for j, k in self.follow[i].items():
                    if j in ms_set and k >= 2:
                        return [i, j]
            # product within the component
            pairs = {}

            def pid(a, b):
                return pairs.setdefault((a, b), len(pairs))

            edges, todo, done = {}, [(i, i) for i in ms], set()
            while todo:
                a, b = todo.pop()
                if (a, b) in done:
                    continue
                done.add((a, b))
                out = edges.setdefault(pid(a, b), [])
                for x in adj[a]:
                    if x not in ms_set:
                        continue
                    for y in adj[b]:
                        if y in ms_set and inter(self.classes[x], self.classes[y]):
                            out.append(pid(x, y))
                            if (x, y) not in done:
                                todo.append((x, y))
            m = len(pairs)
            cc = scc(m, [edges.get(i, []) for i in range(m)])
            diag, off = {}, {}
            for (a, b), i in pairs.items():
                (diag if a == b else off).setdefault(cc[i], (a, b))
            for k in off:
                if k in diag:
                    return [diag[k][0], *off[k]]
        return None

    def describe(self, i):
        c = self.classes[i]
        f = lambda x: chr(x) if 32 < x < 127 else f"U+{x:04X}"  # noqa: E731
        return "[" + " ".join(f(lo) if lo == hi else f"{f(lo)}-{f(hi)}" for lo, hi in c[:6]) + (" …" if len(c) > 6 else "") + "]"


def scc(n, adj):
    """Tarjan, iteratively: component number of each node."""
    index, low, comp, on, stack = [None] * n, [0] * n, [None] * n, [False] * n, []
    c = k = 0
    for root in range(n):
        if index[root] is not None:
            continue
        work = [(root, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                index[v] = low[v] = c
                c += 1
                stack.append(v)
                on[v] = True
            pushed = False
            a = adj[v]
            while i < len(a):
                w = a[i]
                i += 1
                if index[w] is None:
                    work.append((v, i))
                    work.append((w, 0))
                    pushed = True
                    break
                if on[w]:
                    low[v] = min(low[v], index[w])
            if pushed:
                continue
            if low[v] == index[v]:
                while True:
                    w = stack.pop()
                    on[w] = False
                    comp[w] = k
                    if w == v:
                        break
                k += 1
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[v])
    return comp


class Sim:
    """The words a pattern accepts under re.fullmatch ("full"), re.match ("prefix") or re.search ("search"), as a deterministic automaton."""

    def __init__(self, nfa, mode="full"):
        if not nfa.exact:
            raise ValueError("the language of the pattern is not regular in this form")
        self.n, self.mode = nfa, mode
        if nfa.head and mode == "search":
            self.mode = "prefix"
        self.first = frozenset(k for k in nfa.first if k != "end")
        self.memo = {}

    def start(self):
        return self.first, self.n.nullable, self.n.nullable and self.mode != "full" and not self.n.tail, False

    def settled(self, st):
        """True or False if that is the answer whatever comes next, else None."""
        return True if st[2] else False if not st[0] and not st[1] and not st[3] and (self.mode != "search") else None

    def accepts(self, st):
        # st: positions, ended exactly here, ended anywhere, ended just before a final line break
        return st[1] or st[2] or st[3] and self.mode != "full"

    def cuts(self, st):
        for p in st[0]:
            for lo, hi in self.n.classes[p]:
                yield lo
                yield hi + 1
        if self.n.tail == "AT_END":
            yield 10
            yield 11

    def step(self, st, c):
        r = self.memo.get((st, c))
        if r is None:
            r = self.memo[st, c] = self.step1(st, c)
        return r

    def step1(self, st, c):
        nxt, acc = set(), False
        for p in st[0]:
            if has(self.n.classes[p], c):
                for q in self.n.follow[p]:
                    if q == "end":
                        acc = True
                    else:
                        nxt.add(q)
        if self.mode == "search":
            nxt |= self.first
            acc = acc or self.n.nullable
        always = st[2] or acc and self.mode != "full" and not self.n.tail
        if always:
            return EVER
        return frozenset(nxt), acc, always, st[1] and c == 10 and self.n.tail == "AT_END"


EVER = (frozenset(), True, True, False)


class Union:
    """What any of several automata accepts."""

    def __init__(self, sims):
        self.sims = sims
        self.n = type("", (), {"classes": [c for s in sims for c in s.n.classes], "pattern": " | ".join(s.n.pattern for s in sims)})()

    def start(self):
        return tuple(s.start() for s in self.sims)

    def step(self, st, c):
        return tuple(s.step(q, c) for s, q in zip(self.sims, st))

    def settled(self, st):
        r = [s.settled(q) for s, q in zip(self.sims, st)]
        return True if True in r else None if None in r else False

    def accepts(self, st):
        return any(s.accepts(q) for s, q in zip(self.sims, st))

    def cuts(self, st):
        for s, q in zip(self.sims, st):
            yield from s.cuts(q)


def automaton(pattern, flags=0, mode="full"):
    """The automaton of a pattern; alternatives with anchors of their own are taken one by one."""
    n = NFA(pattern, flags)
    if n.exact:
        return Sim(n, mode)
    seq = list(n.tree)
    while len(seq) == 1 and seq[0][0] is sc.SUBPATTERN and not seq[0][1][1] and not seq[0][1][2]:
        seq = list(seq[0][1][3])
    alts = seq[0][1][1] if len(seq) == 1 and seq[0][0] is sc.BRANCH else [seq]
    sims = [Sim(NFA(pattern, flags, seq=y), mode) for x in alts for y in (edges(list(x), n) if mode == "search" else [x])]
    return sims[0] if len(sims) == 1 else Union(sims)


def edges(seq, n):
    """What to search for instead of a sequence with assertions at its ends."""
    out = [seq]
    if len(seq) > 1 and seq[0][0] is sc.ASSERT and seq[0][1][0] < 0:
        out = [list(seq[0][1][1]) + seq[1:]]
    elif len(seq) > 1 and seq[0][0] is sc.ASSERT_NOT and seq[0][1][0] < 0 and len(seq[0][1][1]) == 1:
        other = complement(seq[0][1][1][0], n)
        if other:
            out = [[(sc.AT, sc.AT_BEGINNING_STRING), *seq[1:]], [other, *seq[1:]]]
    last = seq[-1]
    if len(seq) > 1 and last[0] is sc.ASSERT and last[1][0] > 0:
        out = [x[:-1] + list(last[1][1]) for x in out]
    elif len(seq) > 1 and last[0] is sc.ASSERT_NOT and last[1][0] > 0 and len(last[1][1]) == 1:
        other = complement(last[1][1][0], n)
        if other:
            out = [y for x in out for y in ([*x[:-1], (sc.AT, sc.AT_END_STRING)], [*x[:-1], other])]
    return out


def complement(item, n):
    """The characters that one of a pattern's items does not match."""
    op, av = item
    if n.icase:
        return None
    if op is sc.LITERAL:
        return sc.NOT_LITERAL, av
    if op is sc.NOT_LITERAL:
        return sc.LITERAL, av
    if op is sc.IN:
        return sc.IN, [x for x in av if x[0] is not sc.NEGATE] if any(x[0] is sc.NEGATE for x in av) else [(sc.NEGATE, None), *av]
    return None


def bare(seq):
    """A sequence without the assertions at its ends."""
    seq = list(seq)
    while seq and seq[0][0] in (sc.ASSERT, sc.ASSERT_NOT):
        seq.pop(0)
    while seq and seq[-1][0] in (sc.ASSERT, sc.ASSERT_NOT):
        seq.pop()
    return seq


def witness(sims, pred, limit=200000):
    """A shortest word whose membership in the languages of the automata satisfies pred, or None."""
    st = tuple(x.start() for x in sims)
    seen, todo = {st}, [(st, "")]
    while todo:
        new = []
        for st, w in todo:
            if pred(*[x.accepts(s) for x, s in zip(sims, st)]):
                return w
            cuts = {0}
            for x, s in zip(sims, st):
                cuts.update(c for c in x.cuts(s) if c <= MAXCP)
            for c in sorted(cuts):
                k = tuple(x.step(s, c) for x, s in zip(sims, st))
                if k not in seen:
                    seen.add(k)
                    new.append((k, w + chr(c)))
            if len(seen) > limit:
                raise ValueError("automaton too large")
        todo = new
    return None


def difference(a, b):
    """A shortest word that exactly one of two patterns matches in full: (word, in_a), or None."""
    w = witness([Sim(a), Sim(b)], lambda x, y: x != y)
    return None if w is None else (w, witness([Sim(a)], lambda x: x) is not None and _in(a, w))


def _in(a, w):
    s = Sim(a)
    st = s.start()
    for c in w:
        st = s.step(st, ord(c))
    return s.accepts(st)
