"""Finite transducers over classes of characters: what a chain of string operations may do to a string.

A stage reads one character at a time; step(q, c) and end(q) give the possible outcomes.  Every stage over-approximates the
operation it stands for only in the ways its docstring says.
"""
from __future__ import annotations

import functools

import re

from .rxnfa import MAXCP, NFA, Sim, has, sc, sp

CAP = 7  # characters looked at to decide a match of unbounded width; longer matches are not followed


class Unsupported(ValueError):
    pass


class Stage:
    def start(self):
        return 0

    def step(self, q, c):
        return [(q, c)]

    def end(self, q):
        return [""]

    def cuts(self):
        return ()


class Map(Stage):
    def __init__(self, tab):
        self.tab = dict(tab)

    def step(self, q, c):
        r = self.tab.get(ord(c), c)
        return [(q, "" if r is None else chr(r) if isinstance(r, int) else r)]

    def cuts(self):
        return [((k, k),) for k in self.tab]


class Case(Stage):
    def __init__(self, name):
        self.name = name

    def step(self, q, c):
        return [(q, getattr(c, self.name)())]

    def cuts(self):
        return [((65, 90),), ((97, 122),)]


def lookaround(pattern, flags):
    """(characters before, characters after) a match that its assertions may look at."""
    back = ahead = 0

    def go(seq):
        nonlocal back, ahead
        for op, av in seq:
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                w = av[1].getwidth()[1]
                if av[0] < 0:
                    back = max(back, w)
                else:
                    if w > 4:
                        raise Unsupported("a long lookahead")
                    ahead = max(ahead, w)
                go(av[1])
            elif op is sc.AT:
                if "END" in str(av):
                    ahead = max(ahead, 2)
                else:
                    back, ahead = max(back, 1), max(ahead, 1)
            elif op is sc.BRANCH:
                for x in av[1]:
                    go(x)
            elif op is sc.SUBPATTERN:
                go(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                go(av[2])
            elif op is sc.GROUPREF or op is sc.GROUPREF_EXISTS:
                raise Unsupported("a group reference")

    go(sp.parse(pattern, flags))
    return back, ahead


def classes_of(pattern, flags):
    """All the character classes of a pattern, those of its assertions included."""
    n = NFA(pattern, flags)
    out = list(n.classes)
    todo = list(n.asserted)
    while todo:
        t = todo.pop()
        m = NFA.__new__(NFA)
        m.ascii, m.icase, m.dotall = n.ascii, n.icase, n.dotall

        def go(seq):
            for op, av in seq:
                if op is sc.LITERAL:
                    out.append(((av, av),))
                elif op is sc.NOT_LITERAL:
                    out.append(((av, av),))
                elif op is sc.IN:
                    out.append(m.cls(av))
                elif op is sc.BRANCH:
                    for x in av[1]:
                        go(x)
                elif op is sc.SUBPATTERN:
                    go(av[3])
                elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                    go(av[2])
                elif op in (sc.ASSERT, sc.ASSERT_NOT):
                    go(av[1])
        go(t)
    return out


class RegexSub(Stage):
    """re.sub, exactly, for matches of at most CAP characters (5 if they may be of any length)."""

    def __init__(self, pattern, flags, repl, count=0):
        if count:
            raise Unsupported("sub with a count")
        self.rx = re.compile(pattern, flags)
        self.nfa = NFA(pattern, flags)
        self.repl = repl
        self.memo = {}
        w = self.nfa.tree.getwidth()[1]
        self.cap = max(CAP, w) if w < 20 else min(CAP, 5)
        self.back, self.ahead = lookaround(pattern, flags)
        self._cls = classes_of(pattern, flags)
        if self.nfa.nullable or self.rx.match("") is not None:
            raise Unsupported("a pattern that matches the empty string")

    def start(self):
        return "", ""  # what is before, what is looked at

    def cuts(self):
        return self._cls

    def alive(self, buf):
        n = self.nfa
        cur = {k for k in n.first if k != "end"}
        for c in buf:
            nxt = set()
            for p in cur:
                if has(n.classes[p], ord(c)):
                    nxt |= {k for k in n.follow[p] if k != "end"}
            cur = nxt
            if not cur:
                return False
        return True

    def run(self, ctx, buf, ended):
        out = []
        while buf:
            if not ended:
                head = buf[:len(buf) - self.ahead] if self.ahead else buf
                if len(buf) <= self.ahead or self.alive(head):
                    if len(buf) > self.cap + self.ahead:
                        return None
                    break
            m = self.rx.match(ctx + buf, len(ctx))
            if m is not None:
                out.append(self.repl(m))
                n = m.end() - len(ctx)
            else:
                out.append(buf[0])
                n = 1
            ctx = (ctx + buf[:n])[-max(self.back, 1):] if self.back or ctx or self.rx.pattern.startswith("^") else ""
            buf = buf[n:]
        return ctx, buf, "".join(out)

    def step(self, q, c):
        r = self.memo.get((q, c))
        if r is None:
            x = self.run(q[0], q[1] + c, False)
            r = self.memo[q, c] = [((x[0], x[1]), x[2])] if x is not None else []
        return r

    def end(self, q):
        return [self.run(q[0], q[1], True)[2]]


class Strip(Stage):
    def __init__(self, side, chars=None):
        self.side, self.chars = side, chars

    def has(self, c):
        return c.isspace() if self.chars is None else c in self.chars

    def cuts(self):
        from .rxnfa import category
        return [category("SPACE", False)] if self.chars is None else [((ord(c), ord(c)),) for c in self.chars]

    def start(self):
        return "L" if self.side in ("l", "b") else "N"

    def step(self, q, c):
        s = self.has(c)
        if q == "L":
            return [("L", "")] if s else [("N", c)]
        if self.side == "l":
            return [(q, c)]
        if q == "N":
            return [("K", c), ("D", "")] if s else [("N", c)]
        if q == "K":
            return [("K", c)] if s else [("N", c)]
        return [("D", "")] if s else []

    def end(self, q):
        return [] if q == "K" else [""]


class Filter(Stage):
    """Lets those strings pass that are (or are not) in a language, with something before and after them."""

    def __init__(self, sim, truth, pre="", post=""):
        self.sim, self.truth, self.pre, self.post = sim, truth, pre, post

    def start(self):
        q = self.sim.start()
        for c in self.pre:
            q = self.sim.step(q, ord(c))
        return q

    def step(self, q, c):
        if q == "settled":
            return [(q, c)]
        n = self.sim.step(q, ord(c))
        s = self.sim.settled(n)
        if s is not None:
            return [("settled", c)] if s == self.truth else []
        return [(n, c)]

    def end(self, q):
        if q == "settled":
            return [""]
        for c in self.post:
            q = self.sim.step(q, ord(c))
        return [""] if bool(self.sim.accepts(q)) == self.truth else []

    def cuts(self):
        return self.sim.n.classes


class Side(Stage):
    """Lets those strings pass for which another chain has an outcome."""

    def __init__(self, stages):
        self.stages = Chain(stages)
        self.spread = any(getattr(s, "spread", False) for s in stages)
        self.memo = {}

    def start(self):
        return pstart(self.stages)

    def step(self, q, c):
        if (q, c) not in self.memo:
            self.memo[q, c] = [(n, c) for n in dict.fromkeys(n for n, _ in pstep(self.stages, q, c))]
        return self.memo[q, c]

    def end(self, q):
        return [""] if pend(self.stages, q) else []

    def cuts(self):
        return [c for s in self.stages.stages for c in s.cuts()]


class Factor(Stage):
    """Any part of the string."""

    def __init__(self, first=False, last=False):
        self.first, self.last = first, last

    def start(self):
        return 1 if self.first else 0

    def step(self, q, c):
        if q == 0:
            return [(0, ""), (1, c)]
        if q == 1:
            return [(1, c)] + ([] if self.last else [(2, "")])
        return [(2, "")]

    def end(self, q):
        return [""]


class Take(Stage):
    """s[:n] for n > 0, s[n:] for n > 0, s[:-1] and s[-1:]."""

    def __init__(self, i, j):
        self.i, self.j = i or 0, j
        if self.i < 0 and not (self.i == -1 and j is None) or j is not None and j < 0 and not (j == -1 and self.i >= 0):
            raise Unsupported("slice")
        if max(self.i, j or 0) > 6:
            raise Unsupported("slice")

    def start(self):
        return 0, None

    def step(self, q, c):
        n, held = q
        if self.i == -1:
            return [((1, None), c)] if n == 0 and False else [((0, c), "")]
        nn = min(n + 1, 8)
        if n < self.i:
            return [((nn, None), "")]
        if self.j == -1:
            return [((nn, c), held or "")]
        if self.j is None or n < self.j:
            return [((nn, None), c)]
        return [((nn, None), "")]

    def end(self, q):
        return [q[1] or ""] if self.i == -1 else [""]


class Any(Stage):
    """A pattern replaced with a constant in any way: any part of the string may be replaced."""

    def __init__(self, to):
        self.to = to

    def start(self):
        return 0

    def step(self, q, c):
        return [(0, c), (1, self.to)] if q == 0 else [(1, ""), (0, c), (1, self.to)]


class TooLarge(ValueError):
    pass


work = total = 0  # steps since the last reset, and since the last full reset


def reset(full=False):
    global work, total
    total = 0 if full else total + work
    work = 0


def did(n=1, limit=6_000_000):
    global work
    work += n
    if work > limit or total + work > 4 * limit:
        raise TooLarge("too many steps")


# ---- chains
def pstart(stages):
    return tuple(s.start() for s in (stages.stages if isinstance(stages, Chain) else stages))


class Chain:
    """A chain of stages; the steps of each beginning of it are remembered."""

    def __init__(self, stages):
        self.stages = list(stages)
        self.memo = [{} for _ in self.stages]
        self.texts = [{} for _ in self.stages]

    def on(self, i, q, text):
        """[(state, output)] of one stage on a text."""
        if len(text) == 1:
            return self.stages[i].step(q, text)
        m = self.texts[i]
        r = m.get((q, text))
        if r is None:
            s = self.stages[i]
            r = [(q, "")]
            for ch in text:
                r = [(b, o + p) for a, o in r for b, p in s.step(a, ch)]
            m[q, text] = r
        return r

    def step(self, q, c, k=None):
        k = len(self.stages) if k is None else k
        if k == 0:
            return [((), c)]
        m = self.memo[k - 1]
        r = m.get((q, c))
        if r is None:
            did()
            last = q[-1]
            r = [(st + (a,), o) for st, text in self.step(q[:-1], c, k - 1) for a, o in self.on(k - 1, last, text)]
            if len(r) > 1:
                r = list(dict.fromkeys(r))
            did(len(r))
            m[q, c] = r
        return r


def chain(stages):
    return stages if isinstance(stages, Chain) else Chain(stages)


def pstep(stages, q, c):
    """[(state, output)] of a chain on one character."""
    return chain(stages).step(q, c)


def pend(stages, q):
    """The possible last outputs of a chain."""
    cur = [(q, "")]
    for i, s in enumerate(stages.stages if isinstance(stages, Chain) else stages):
        nxt = []
        for st, text in cur:
            part = [(st[i], "")]
            for ch in text:
                part = [(b, o + p) for a, o in part for b, p in s.step(a, ch)]
            for a, o in part:
                for e in s.end(a):
                    nxt.append((st, o + e))
        cur = nxt
    return [o for _, o in cur]


def representatives(sets, spread=False):
    """Characters for each of the classes that the given sets of intervals tell apart."""
    return _representatives(tuple(dict.fromkeys(tuple(s) for s in sets)), spread)


@functools.lru_cache(None)
def _representatives(sets, spread):
    bounds = {0, MAXCP + 1}
    for s in sets:
        for lo, hi in s:
            bounds |= {lo, hi + 1}
    if spread:
        bounds |= {0x100, 0x10000, 0xD800, 0xE000}
    b = sorted(x for x in bounds if x <= MAXCP + 1)
    groups = {}
    at = {x: i for i, x in enumerate(b)}
    sig = [0] * len(b)
    for k, s in enumerate(sets):
        bits = set()
        for lo, hi in s:
            bits.update(range(at[lo], at[min(hi, MAXCP) + 1]))
        for i in bits:
            sig[i] |= 1 << k
    for i, (lo, nxt) in enumerate(zip(b, b[1:])):
        groups.setdefault(sig[i], []).append((lo, nxt - 1))
    out = []
    for iv in groups.values():
        def ok(x):
            return x < 0x10F000
        best = [lo for lo, hi in iv if 33 <= lo < 127] or [next((x for x in range(max(lo, 33), min(hi, 126) + 1)), None) for lo, hi in iv if hi >= 33]
        best = [x for x in best if x is not None] or [iv[0][0]]
        pick = [best[0]]
        if spread:
            # each interval's ends, for replacement functions that see the character itself
            for lo, hi in iv[:40]:
                pick += [lo, hi]
            pick += [x for x in (0xFF, 0x100, 0xFFFF, 0x10000) if any(lo <= x <= hi for lo, hi in iv)]
        out += [x for x in pick if ok(x) and not 0xD800 <= x <= 0xDFFF]
    return [chr(x) for x in sorted(set(out))]


def nonempty(stages, spread=False):
    """Whether a chain has any outcome at all."""
    reps = representatives([c for s in stages for c in s.cuts()], spread)
    stages = Chain(stages)
    q = pstart(stages)
    seen, todo = {q}, [q]
    while todo:
        q = todo.pop()
        if pend(stages, q):
            return True
        for c in reps:
            for n, _ in pstep(stages, q, c):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        if len(seen) > 20000:
            return True
    return False


def search(segments, good, limit=200000):
    """A text some outcome of the segments (constant strings and chains) has that is not accepted by good, or None.

    Returned as (what the unknown strings were, the whole text)."""
    cuts = list(good.n.classes)
    spread = False
    for s in segments:
        if not isinstance(s, str):
            for x in s:
                cuts += x.cuts()
                spread = spread or getattr(x, "spread", False)
        else:
            cuts += [((ord(c), ord(c)),) for c in s]
    reps = representatives(cuts, spread)
    segments = [s if isinstance(s, str) else Chain(s) for s in segments]

    def feed(g, text):
        for c in text:
            g = good.step(g, ord(c))
        return g

    first = (0, pstart(segments[0]) if segments and not isinstance(segments[0], str) else None, good.start())
    seen, todo = {first: None}, [first]
    how, ends, moves = {}, {}, {}

    def put(n, prev, ins, out):
        if n not in seen:
            seen[n] = prev
            how[n] = (ins, out)
            new.append(n)

    while todo:
        new = []
        for node in todo:
            i, q, g = node
            if i == len(segments):
                if not good.accepts(g):
                    ins, out, at = [], [], node
                    while seen[at] is not None:
                        a, b = how[at]
                        ins.append(a)
                        out.append(b)
                        at = seen[at]
                    return "".join(reversed(ins)), "".join(reversed(out))
                continue
            s = segments[i]
            nq = pstart(segments[i + 1]) if i + 1 < len(segments) and not isinstance(segments[i + 1], str) else None
            if isinstance(s, str):
                put((i + 1, nq, feed(g, s)), node, "", s)
                continue
            if (i, q) not in ends:
                ends[i, q] = pend(s, q)
                moves[i, q] = [(n, o, c) for (n, o), c in {x: c for c in reversed(reps) for x in pstep(s, q, c)}.items()]
            for o in ends[i, q]:
                put((i + 1, nq, feed(g, o)), node, "|", o)
            for n, o, c in moves[i, q]:
                put((i, n, feed(g, o)), node, c, o)
        if len(seen) > limit:
            raise TooLarge("automaton too large")
        todo = new
    return None


def differs(enc, dec, limit=60000, pre="", post="", before="", after=""):
    """An input that the chain dec does not get back, between before and after, from what the chain enc, between pre and post,
    makes of it; or None."""
    cuts, spread = [], False
    for x in list(enc) + list(dec):
        cuts += x.cuts()
        spread = spread or getattr(x, "spread", False)
    cuts += [((ord(c), ord(c)),) for c in pre + post + before + after]
    reps = representatives(cuts, spread)
    enc, dec = Chain(enc), Chain(dec)

    def through(states, text):
        out = [(states, "")]
        for c in text:
            out = [(s2, o + p) for s, o in out for s2, p in pstep(dec, s, c)]
        return out

    moves, dmoves, ends, dends, live, can = {}, {}, {}, {}, {}, {}

    def estep(e):
        if e not in moves:
            moves[e] = [(e2, o, c) for e2, o, c in raw(e) if lives(e2)]
        return moves[e]

    raws = {}

    def raw(e):
        if e not in raws:
            raws[e] = [(e2, o, c) for c in reps for e2, o in pstep(enc, e, c)]
        return raws[e]

    def lives(e):
        """Whether the first chain can still come to an end."""
        if e not in can:
            seen, todo = {e}, [e]
            ok = False
            while todo and not ok:
                x = todo.pop()
                ok = can.get(x) or bool(end(x))
                for n, _, _ in raw(x) if not ok else ():
                    if n not in seen and can.get(n) is not False:
                        seen.add(n)
                        todo.append(n)
                        if can.get(n):
                            ok = True
                            break
            for x in () if ok else seen:
                can[x] = False
            can[e] = ok
        return can[e]

    def dstep(d, text):
        if (d, text) not in dmoves:
            dmoves[d, text] = through(d, text)
        return dmoves[d, text]

    def end(e):
        if e not in ends:
            ends[e] = pend(enc, e)
        return ends[e]

    def dend(d):
        if d not in dends:
            dends[d] = pend(dec, d)
        return dends[d]

    def alive(e, d):
        """Whether both chains can still come to an end."""
        first = e, d
        if first in live:
            return live[first]
        seen, todo = {first}, [first]
        ok = False
        while todo and not ok:
            e, d = todo.pop()
            if live.get((e, d)):
                ok = True
                break
            for o in end(e):
                if any(dend(d2) for d2, _ in dstep(d, o + post)):
                    ok = True
            for e2, o, _ in estep(e):
                for d2, _ in dstep(d, o):
                    if (e2, d2) not in seen and live.get((e2, d2)) is not False:
                        seen.add((e2, d2))
                        todo.append((e2, d2))
            if len(seen) > limit:
                raise TooLarge("automaton too large")
        for x in seen if not ok else ():
            live[x] = False
        live[first] = ok
        return ok

    seen, todo = {}, []
    for d, o in through(pstart(dec), pre):
        if not before.startswith(o):
            if alive(pstart(enc), d):
                return "", (o, before)
        else:
            n = pstart(enc), d, before[len(o):]
            seen[n] = ""
            todo.append(n)
    while todo:
        new = []
        for node in todo:
            e, d, pend_in = node
            for o in end(e):
                for d2, p in dstep(d, o + post):
                    for z in dend(d2):
                        if p + z != pend_in + after:
                            return seen[node], (p + z, pend_in + after)
            for e2, o, c in estep(e):
                for d2, p in dstep(d, o):
                    want = pend_in + c
                    if not want.startswith(p):
                        if alive(e2, d2):
                            return seen[node] + c, (p, want)
                        continue
                    n = (e2, d2, want[len(p):])
                    if len(n[2]) > 14:
                        continue
                    if n not in seen:
                        seen[n] = seen[node] + c
                        new.append(n)
        if len(seen) > limit:
            raise TooLarge("automaton too large")
        todo = new
    return None
