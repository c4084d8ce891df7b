"""Abstract values, heap objects and states of the interpreter."""
from __future__ import annotations

EMPTY = frozenset()
MAX_CONST = 10
MAX_TUPLES = 6
MAX_TUPLE_LEN = 6
MAX_MUST = 48
# "?" any, "T" non-empty, "S" with a non-space character, "W" a word of ASCII letters, "N" a word equal to no constant
STR_RANK = {"?": 4, "T": 3, "S": 2, "W": 1, "N": 0}
SOLIDK = ("S", "W", "N")
WORDK = ("W", "N")


class V:
    __slots__ = ("atoms", "may", "must", "_h", "_o")

    def __init__(self, atoms, may=EMPTY, must=EMPTY):
        self.atoms = atoms
        self.may = may
        self.must = must
        self._h = None
        self._o = None

    def oids(self):
        """Heap objects referred to directly (through tuples and bound methods too)."""
        r = self._o
        if r is None:
            out = None
            for a in self.atoms:
                k = a[0]
                if k == "o":
                    x = (a[1],)
                elif k == "t":
                    x = [y for v in a[1] for y in v.oids()]
                elif k == "tn":
                    x = a[1].oids()
                elif k in ("bm", "bx"):
                    x = a[2].oids()
                else:
                    continue
                if x:
                    if out is None:
                        out = set()
                    out.update(x)
            r = self._o = frozenset(out) if out else EMPTY
        return r

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.may, self.must))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, V) and hash(self) == hash(o)
            and self.atoms == o.atoms and self.may == o.may and self.must == o.must
        )

    def __repr__(self):
        s = "{" + ", ".join(sorted(map(str, self.atoms))) + "}"
        if self.may:
            s += f" may={sorted(self.may)} must={sorted(self.must)}"
        return s

    def labelled(self, may, must=None):
        must = may if must is None else must
        if may <= self.may and must <= self.must:
            return self
        return V(self.atoms, self.may | may, self.must | must)

    def only(self, pred):
        a = frozenset(x for x in self.atoms if pred(x))
        return V(a, self.may, self.must)


def mk(*atoms, may=EMPTY, must=EMPTY):
    return V(frozenset(atoms), may, must)


def const(v):
    if isinstance(v, tuple):
        return mk(("t", tuple(const(x) for x in v)))
    return mk(("c", type(v).__name__, v))


TOP = mk(("top",))
NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = V(TRUE.atoms | FALSE.atoms)
STR = mk(("s", "?"))
STR_T = mk(("s", "T"))
SOLID = mk(("s", "S"))
NOVEL = mk(("s", "N"))
INT = mk(("i",))
POS = mk(("i", "+"))
BOTTOM = V(EMPTY)


def strv(kind, may=EMPTY, must=EMPTY):
    return V(frozenset([("s", kind)]), may, must)


def is_str_atom(a):
    return a[0] == "s" or (a[0] == "c" and a[1] == "str")


def _norm(atoms):
    if ("top",) in atoms and len(atoms) > 1:
        # keep functions, classes and objects beside TOP, so that what is known stays known
        atoms = frozenset(a for a in atoms if a[0] in ("top", "o", "f", "bm"))
        return atoms
    ss = [a for a in atoms if a[0] == "s"]
    if len(ss) > 1:
        w = max(ss, key=lambda a: STR_RANK[a[1]])
        atoms = frozenset(a for a in atoms if a[0] != "s") | {w}
        ss = [w]
    if ss and ss[0][1] == "?":
        atoms = frozenset(a for a in atoms if not (a[0] == "c" and a[1] == "str"))
    if ("i",) in atoms:
        atoms = frozenset(a for a in atoms if not (a[0] == "c" and a[1] == "int" or a == ("i", "+")))
    elif ("i", "+") in atoms:
        atoms = frozenset(a for a in atoms if not (a[0] == "c" and a[1] == "int" and a[2] > 0))
    cs = [a for a in atoms if a[0] == "c" and a[1] == "str"]
    if len(cs) > MAX_CONST:
        allt = all(c[2] for c in cs) and all(s[1] != "?" for s in ss)
        atoms = frozenset(a for a in atoms if not is_str_atom(a)) | {("s", "T" if allt else "?")}
    ci = [a for a in atoms if a[0] == "c" and a[1] == "int"]
    if len(ci) > 6:
        if all(a[2] >= 0 for a in ci):
            atoms = frozenset(a for a in atoms if a not in ci or a[2] == 0) | {("i", "+")}
        else:
            atoms = frozenset(a for a in atoms if a not in ci) | {("i",)}
    ts = [a for a in atoms if a[0] == "t"]
    tn = [a for a in atoms if a[0] == "tn"]
    if len(ts) > 1:
        # join same-length tuples componentwise when they only differ in strings/ints (keeps sets small)
        groups = {}
        for a in ts:
            groups.setdefault(tuple_tag(a), []).append(a)
        if any(len(g) > 3 for g in groups.values()) or len(ts) > MAX_TUPLES >= len(groups):
            new = []
            for g in groups.values():
                t = g[0][1]
                for a in g[1:]:
                    t = tuple(join(x, y) for x, y in zip(t, a[1]))
                new.append(("t", t))
            atoms = frozenset(a for a in atoms if a[0] != "t") | set(new)
            ts = new
    if len(ts) > MAX_TUPLES or len(tn) > 1 or any(len(a[1]) > MAX_TUPLE_LEN for a in ts) or (ts and tn):
        el = BOTTOM
        ne = True
        for a in ts:
            if not a[1]:
                ne = False
            for x in a[1]:
                el = join(el, x) if el is not BOTTOM else x
        for a in tn:
            el = join(el, a[1]) if el is not BOTTOM else a[1]
            ne = ne and a[2]
        atoms = frozenset(a for a in atoms if a[0] not in ("t", "tn")) | {("tn", el, ne)}
    return atoms


def tuple_tag(a):
    """What tells tuples apart: their length, and a member of an enumeration they begin with."""
    if a[1] and len(a[1][0].atoms) == 1:
        (x,) = a[1][0].atoms
        if x[0] == "e":
            return len(a[1]), x
    return len(a[1])


def by_tag(v):
    """The value as one value for each kind of tuple in it, if it is nothing but tuples of several kinds."""
    if len(v.atoms) < 2 or any(a[0] != "t" for a in v.atoms):
        return [v]
    g = {}
    for a in v.atoms:
        g.setdefault(tuple_tag(a), []).append(a)
    if len(g) < 2 or not all(isinstance(k, tuple) for k in g):
        return [v]
    return [V(frozenset(x), v.may, v.must) for _, x in sorted(g.items(), key=lambda i: repr(i[0]))]


def join(a, b):
    if a is b or b.atoms is EMPTY and not b.atoms:
        return a
    if not a.atoms:
        return b
    if not b.atoms:
        return a
    if a == b:
        return a
    return V(_norm(a.atoms | b.atoms), a.may | b.may, a.must & b.must)


def join_all(vs):
    r = BOTTOM
    for v in vs:
        r = join(r, v)
    return r


class Obj:
    """An abstract heap object.  Treated as immutable: use `.w(...)`."""
    __slots__ = ("kind", "cls", "attrs", "elem", "must", "ekey", "items", "owner", "summary", "cmay", "cmust", "flags", "_h", "_o")

    def __init__(self, kind, cls=None, attrs=None, elem=None, must=(), ekey=None, items=None,
                 owner="fresh", summary=False, cmay=EMPTY, cmust=EMPTY, flags=EMPTY):
        self.kind, self.cls, self.attrs = kind, cls, attrs or {}
        self.elem, self.must, self.ekey, self.items = elem, must, ekey, items or {}
        self.owner, self.summary, self.cmay, self.cmust, self.flags = owner, summary, cmay, cmust, flags
        self._h = None
        self._o = None

    def w(self, **kw):
        g = kw.get
        return Obj(g("kind", self.kind), g("cls", self.cls), g("attrs", self.attrs), g("elem", self.elem), g("must", self.must),
                   g("ekey", self.ekey), g("items", self.items), g("owner", self.owner), g("summary", self.summary),
                   g("cmay", self.cmay), g("cmust", self.cmust), g("flags", self.flags))

    def oids(self):
        r = self._o
        if r is None:
            out = set()
            for v in self.attrs.values():
                out |= v.oids()
            for v in self.items.values():
                out |= v.oids()
            if self.elem is not None:
                out |= self.elem.oids()
            if self.ekey is not None:
                out |= self.ekey.oids()
            for x in self.must:
                for v in (x if isinstance(x, tuple) else (x,)):
                    out |= v.oids()
            r = self._o = frozenset(out) if out else EMPTY
        return r

    def key(self):
        if self._h is None:
            self._h = (self.kind, self.cls, tuple(sorted(self.attrs.items(), key=lambda i: i[0])), self.elem, self.must,
                       self.ekey, tuple(sorted(self.items.items(), key=lambda i: repr(i[0]))), self.owner, self.summary,
                       self.cmay, self.cmust, self.flags)
        return self._h

    def __eq__(self, o):
        return self is o or self.key() == o.key()

    def __repr__(self):
        return (f"Obj({self.kind},{self.cls},attrs={self.attrs},elem={self.elem},must={self.must},items={self.items},"
                f"{self.owner}{',summary' if self.summary else ''},cmay={set(self.cmay)},cmust={set(self.cmust)},{set(self.flags)})")


def jopt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b)


def join_must(m1, m2):
    """Elements definitely present on both sides; the rest is returned as leftovers."""
    if m1 == m2:
        return m1, []
    l1, l2 = list(m1), list(m2)
    common = []
    for x in list(l1):
        if x in l2:
            l1.remove(x)
            l2.remove(x)
            common.append(x)

    def lab(x):
        if isinstance(x, tuple):
            return x[0].must | x[1].must
        return x.must

    for x in list(l1):
        for y in l2:
            if lab(x) & lab(y):
                l1.remove(x)
                l2.remove(y)
                common.append(tuple(join(p, q) for p, q in zip(x, y)) if isinstance(x, tuple) else join(x, y))
                break
    # definitely-nonempty survives even when the elements differ
    if not common and l1 and l2:
        x, y = l1.pop(), l2.pop()
        common.append(tuple(join(p, q) for p, q in zip(x, y)) if isinstance(x, tuple) else join(x, y))
    return tuple(common), l1 + l2


def has_token(s):
    """Whether a constant string contains a placeholder for an unknown string (see tokens.py)."""
    return isinstance(s, str) and not s.isascii() and any("\U0010F000" <= c for c in s)


_UN = frozenset(["unordered"])


def join_obj(a, b):
    if a is b or a == b:
        return a
    kind = a.kind if a.kind == b.kind else "any"
    cls = a.cls if a.cls == b.cls else None
    attrs = {}
    for k in set(a.attrs) | set(b.attrs):
        attrs[k] = jopt(a.attrs.get(k), b.attrs.get(k))
    elem, ekey = jopt(a.elem, b.elem), jopt(a.ekey, b.ekey)
    must, rest = join_must(a.must, b.must)
    items = {}
    for k in set(a.items) | set(b.items):
        if k in a.items and k in b.items:
            items[k] = join(a.items[k], b.items[k])
        else:
            rest.append((const(k), a.items.get(k) or b.items.get(k)))
    for r in rest:
        if isinstance(r, tuple):
            ekey, elem = jopt(ekey, r[0]), jopt(elem, r[1])
        else:
            elem = jopt(elem, r)
    owner = a.owner if a.owner == b.owner else ("input" if "input" in (a.owner, b.owner) else "fresh")
    return Obj(kind, cls, attrs, elem, must, ekey, items, owner, a.summary or b.summary,
               a.cmay | b.cmay, a.cmust & b.cmust,
               a.flags & b.flags | (a.flags | b.flags | (frozenset() if a.must == b.must else _UN)) & _UN if kind == "list" else a.flags & b.flags)


class State:
    __slots__ = ("frames", "heap", "emitted", "facts")

    def __init__(self, frames=None, heap=None, emitted=EMPTY, facts=EMPTY):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}
        self.emitted = emitted
        self.facts = facts  # must-facts (typestate): survive a join only when on both sides

    def copy(self):
        return State(dict(self.frames), dict(self.heap), self.emitted, self.facts)

    def set(self, o):
        self.frames, self.heap, self.emitted, self.facts = o.frames, o.heap, o.emitted, o.facts

    def __eq__(self, o):
        if self.emitted != o.emitted or self.facts != o.facts:
            return False
        if self.frames.keys() != o.frames.keys() or self.heap.keys() != o.heap.keys():
            return False
        for k, f in self.frames.items():
            g = o.frames[k]
            if f is not g and f != g:
                return False
        for k, x in self.heap.items():
            y = o.heap[k]
            if x is not y and x != y:
                return False
        return True


UNDEF = mk(("undef",))


def join_state(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    frames = dict(a.frames)
    for k, g in b.frames.items():
        f = frames.get(k)
        if f is g:
            continue
        if f is None:
            frames[k] = g
            continue
        r = None
        for v, y in g.items():
            x = f.get(v)
            if x is y:
                continue
            if r is None:
                r = dict(f)
            r[v] = join(x if x is not None else UNDEF, y)
        if len(f) != len(g) or f.keys() != g.keys():
            for v, x in f.items():
                if v not in g:
                    if r is None:
                        r = dict(f)
                    r[v] = join(x, UNDEF)
        if r is not None:
            frames[k] = r
    heap = dict(a.heap)
    for k, y in b.heap.items():
        x = heap.get(k)
        if x is y:
            continue
        heap[k] = y if x is None else join_obj(x, y)
    return State(frames, heap, a.emitted & b.emitted, a.facts & b.facts)
