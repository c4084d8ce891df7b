"""Abstract interpreter for the Python subset the repository uses.

Flow-sensitive, context-sensitive (functions are analysed at each call), joins at merges, fixpoints at loops.
Strings, numbers and external objects are abstracted; nothing of the analysed program is executed.
"""
from __future__ import annotations

import ast
import builtins as _b

from .domain import *
from .domain import V, Obj, State, _norm
from . import extsigs
from .rxw import nonletter
from .project import AnalysisBroken, ClassInfo, FuncInfo, Project

NONE_A = ("c", "NoneType", None)
MAX_DEPTH = 60
MAX_REC = 3
MAX_ITER = 14


class Dead(Exception):
    """The current abstract path cannot continue."""


class Budget(AnalysisBroken):
    pass


class Hooks:
    def mutate(self, I, F, node, oid, obj, how): pass
    def call_ext(self, I, F, node, dotted, args, kwargs, st): return None
    def call_func(self, I, F, node, fi, args, kwargs, st): return None
    def enter(self, I, F, fi, node, st): pass
    def store_name(self, I, F, node, name, v, st): pass
    def global_write(self, I, F, node, name): pass
    def raised(self, I, F, node, exc, st): pass
    def implicit(self, I, F, node, exc, what): pass
    def iter_set(self, I, F, node, v, st): pass
    def with_enter(self, I, F, node, v, st): pass
    def with_exit(self, I, F, node, v, st): pass
    def truth_test(self, I, F, node, v, st): pass
    def branch(self, I, F, node, v, t, f): pass
    def gen_body(self, I, F, node, fi, st): return None
    def iter_obj(self, I, F, node, oid, obj, st): pass
    def set_ext(self, I, F, node, oid, obj, attr, v, st): pass
    def joined(self, I, F, node, sep, elem, must): return EMPTY
    def token_eq(self, a, b): return None
    def token_truth(self, s): return None
    def token_in(self, a, b): return None
    def token_slice(self, s, i, j): return None
    def token_item(self, s, idx): return None
    def match_group(self, match, idx): return None
    def for_loop(self, I, F, node, it, st): pass
    events = 0  # raised by hooks during an evaluation that must not happen lazily


class Frame:
    """Context of one function activation (not part of the abstract state)."""

    def __init__(self, fi, module, fid, parent_fids, depth, caller=None, call_node=None):
        self.fi, self.module, self.fid, self.parents, self.depth = fi, module, fid, parent_fids, depth
        self.returns = []
        self.loops = []  # (breaks, continues)
        self.caller, self.call_node = caller, call_node
        self.self_cls = None
        self.split = False  # called as a test: keep the returns apart

    def where(self, node=None):
        ln = getattr(node, "lineno", 0) if node is not None else 0
        q = self.fi.qual if self.fi else "<module>"
        return f"{self.module.rel}:{ln} ({q})"

    def chain(self):
        out, f = [], self
        while f is not None:
            out.append(f.fi.qual if f.fi else "<module>")
            f = f.caller
        return " <- ".join(out)


class RegexFlags:
    NAMES = {"ASCII": 256, "A": 256, "IGNORECASE": 2, "I": 2, "MULTILINE": 8, "M": 8, "DOTALL": 16, "S": 16,
             "UNICODE": 32, "U": 32, "VERBOSE": 64, "X": 64}


SOLID_METHODS = {"strip", "rstrip", "lstrip", "lower", "upper", "replace", "translate", "expandtabs", "title",
                 "capitalize", "casefold", "swapcase", "format", "encode", "decode", "zfill", "ljust", "rjust", "center",
                 "removeprefix", "removesuffix", "__str__"}
STR_BOOL = {"startswith", "endswith", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isidentifier",
            "isnumeric", "isdecimal", "isascii", "isprintable", "__contains__"}
STR_INT = {"find", "index", "rfind", "rindex", "count", "__len__"}
STR_LIST = {"split", "rsplit", "splitlines"}
STR_TUP = {"partition", "rpartition"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__",
            "add", "discard", "update", "setdefault", "popitem", "appendleft", "difference_update", "intersection_update",
            "symmetric_difference_update", "__iadd__", "__ior__"}
XML_ATTACH = {"append", "insert", "addnext", "addprevious", "extend", "__setitem__", "replace"}


class Interp:
    def __init__(self, project: Project, hooks=None, budget=3_000_000):
        self.p = project
        self.hooks = hooks or Hooks()
        self.funcs = {}      # id -> FuncInfo
        self.node_funcs = {}  # ast node -> FuncInfo
        self.classes = {}    # full -> ClassInfo
        self.defaults = {}   # (func id, frame id) -> dict param -> V
        self.handlers = []
        self.active = []
        self.steps = 0
        self.budget = budget
        self.call_count = 0
        self.track_emission = True
        self.base = State()
        self.mod_done = {}
        self.visited_funcs = set()
        self.ext_seen = {}
        self.top_frame = None
        self.cow = 0
        self.uncaught = []
        self.missing = frozenset()  # top-level packages taken not to be installed
        self.failed = {}            # module -> why its import fails in that case

    # ------------------------------------------------------------------ modules
    def load_all(self):
        for name in sorted(self.p.modules):
            self.load_module(name)
        return self

    def load_module(self, name):
        if self.missing:
            pkg = name.rpartition(".")[0]
            if pkg in self.p.modules:
                self.load_module(pkg)
                if pkg in self.failed:
                    self.failed.setdefault(name, self.failed[pkg])
        if name in self.mod_done or name in self.failed:
            return
        mod = self.p.modules[name]
        self.mod_done[name] = "running"
        fid = "M:" + name
        st = self.base
        st.frames.setdefault(fid, {})
        st.frames[fid]["__name__"] = const(name)
        F = Frame(None, mod, fid, [], 0)
        hs = self.handlers
        self.handlers = [[]]
        try:
            r = self.exec_block(mod.tree.body, st, F)
            if r is None:
                raise Dead()
            if r is not st:
                st.set(r)
        except Dead:
            if not self.missing:
                raise AnalysisBroken(f"module {name} cannot complete its import")
            ids, _, node, fr = self.handlers[0][-1] if self.handlers[0] else (["?"], None, None, F)
            self.failed[name] = f"{fr.where(node)} raises {', '.join(sorted(ids))}"
        finally:
            self.handlers = hs
        self.mod_done[name] = "done"

    # ------------------------------------------------------------------ helpers: variables
    def lookup(self, name, st, F):
        fr = st.frames.get(F.fid)
        if fr is not None and name in fr and (F.fi is None or name in F.fi.locals or name in getattr(F, "extra", ())):
            return self._undef(fr[name], name)
        if F.fi is not None and name in F.fi.locals and not (fr and name in fr):
            # comprehension-scope or unbound
            for pf in F.parents:
                if name in st.frames.get(pf, {}):
                    return self._undef(st.frames[pf][name], name)
            raise Dead()
        for pf in F.parents:
            f2 = st.frames.get(pf)
            if f2 is not None and name in f2:
                return self._undef(f2[name], name)
        if fr is not None and name in fr:
            return self._undef(fr[name], name)
        mf = st.frames.get("M:" + F.module.name) or self.base.frames.get("M:" + F.module.name, {})
        if name in mf:
            return self._undef(mf[name], name)
        if hasattr(_b, name):
            return mk(("x", "builtins." + name))
        return TOP

    def _undef(self, v, name):
        if ("undef",) in v.atoms:
            v = V(v.atoms - {("undef",)}, v.may, v.must)
            if not v.atoms:
                raise Dead()
        return v

    def frame_of(self, name, st, F):
        if F.fi is None or name in F.fi.locals:
            return F.fid
        if name in F.fi.globals:
            return "M:" + F.module.name
        for pf in F.parents:
            if pf in st.frames and name in st.frames[pf]:
                return pf
        return F.fid

    def bind(self, name, v, st, F, node=None):
        fid = self.frame_of(name, st, F)
        if F.fi is not None and fid.startswith("M:"):
            self.hooks.global_write(self, F, node, name)
        self.hooks.store_name(self, F, node, name, v, st)
        fr = dict(st.frames.get(fid, {}))
        fr[name] = v
        st.frames[fid] = fr

    # ------------------------------------------------------------------ helpers: heap
    def alloc(self, st, site, obj):
        oid = site
        if oid in st.heap:
            old = st.heap[oid]
            new = oid + "~"
            if self.generations:
                n = 1
                while n < self.generations and f"{oid}~{n}" in st.heap:
                    n += 1
                if n < self.generations:
                    st.heap[f"{oid}~{n}"] = obj
                    return mk(("o", f"{oid}~{n}"))
            self.rename(st, oid, new)
            if new in st.heap:
                st.heap[new] = join_obj(st.heap[new], old.w(summary=True)).w(summary=True)
            else:
                st.heap[new] = old.w(summary=True)
            # references inside renamed object itself
        st.heap[oid] = obj
        return mk(("o", oid))

    def rename(self, st, old, new):
        memo = {}

        def rv(v):
            if v is None or old not in v.oids():
                return v
            if v in memo:
                return memo[v]
            changed = False
            atoms = set()
            for a in v.atoms:
                b = ra(a)
                changed = changed or b is not a
                atoms.add(b)
            r = V(frozenset(atoms), v.may, v.must) if changed else v
            memo[v] = r
            return r

        def ra(a):
            k = a[0]
            if k == "o":
                return ("o", new) if a[1] == old else a
            if k == "t":
                t = tuple(rv(x) for x in a[1])
                return ("t", t) if any(x is not y for x, y in zip(t, a[1])) else a
            if k == "tn":
                x = rv(a[1])
                return ("tn", x, a[2]) if x is not a[1] else a
            if k in ("bm", "bx"):
                x = rv(a[2])
                return (k, a[1], x) if x is not a[2] else a
            return a

        for fid, fr in list(st.frames.items()):
            if fid.startswith("M:"):
                continue
            ch = None
            for n, v in fr.items():
                r = rv(v)
                if r is not v:
                    ch = ch or dict(fr)
                    ch[n] = r
            if ch:
                st.frames[fid] = ch
        for oid, o in list(st.heap.items()):
            if old not in o.oids():
                continue
            ch = {}
            for n in ("elem", "ekey"):
                r = rv(getattr(o, n))
                if r is not getattr(o, n):
                    ch[n] = r
            if o.must:
                t = tuple(tuple(rv(y) for y in x) if isinstance(x, tuple) else rv(x) for x in o.must)
                if any((any(p is not q for p, q in zip(x, y)) if isinstance(x, tuple) else x is not y) for x, y in zip(t, o.must)):
                    ch["must"] = t
            for n in ("attrs", "items"):
                d = getattr(o, n)
                nd = None
                for k, v in d.items():
                    r = rv(v)
                    if r is not v:
                        nd = nd or dict(d)
                        nd[k] = r
                if nd is not None:
                    ch[n] = nd
            if ch:
                st.heap[oid] = o.w(**ch)

    def site(self, F, node, tag=""):
        return f"{F.fid}|{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}{tag}"

    def new_list(self, st, F, node, must=(), elem=None, kind="list", tag="", may=EMPTY, cmust=EMPTY):
        v = self.alloc(st, self.site(F, node, tag or kind[0]), Obj(kind, elem=elem, must=tuple(must)[:MAX_MUST], cmay=may, cmust=cmust))
        return v

    def new_ext(self, st, F, node, cls, args=(), kwargs=None, flags=EMPTY, tag=""):
        may = must = EMPTY
        attrs = {}
        refs = BOTTOM
        sig = extsigs.SIGS.get(extsigs.canon(cls)) if cls else None
        if sig is not None and "*" not in (kwargs or {}) and "**" not in (kwargs or {}):
            for p, a in zip(sig, args):
                attrs[p.rstrip("*")] = a
            attrs.update(kwargs or {})
            for p in sig:
                if p.rstrip("*") not in attrs:
                    attrs[p.rstrip("*")] = self.new_list(st, F, node, tag="d" + p) if p.endswith("*") else NONE
                elif p.endswith("*"):
                    v = attrs[p.rstrip("*")]
                    if NONE_A in v.atoms:
                        attrs[p.rstrip("*")] = join(v.only(lambda x: x != NONE_A), self.new_list(st, F, node, tag="d" + p))
            return self.alloc(st, self.site(F, node, tag or "x"), Obj("ext", extsigs.canon(cls), attrs, flags=frozenset(flags)))
        for a in list(args):
            m, n = self.labels(a, st)
            may, must = may | m, must | n
            refs = join(refs, a.only(lambda x: x[0] in ("o", "t", "tn"))) if any(x[0] in ("o", "t", "tn") for x in a.atoms) else refs
        for k, a in (kwargs or {}).items():
            m, n = self.labels(a, st)
            may, must = may | m, must | n
            attrs[k] = a
        return self.alloc(st, self.site(F, node, tag or "x"),
                          Obj("ext", cls, attrs, elem=refs if refs.atoms else None, cmay=may, cmust=must, flags=frozenset(flags)))

    def objs(self, v):
        return [a[1] for a in v.atoms if a[0] == "o"]

    live = False
    strict = False         # operations known to fail raise, where all values are known exactly
    generations = 0        # how many objects allocated at one place are kept apart
    explicit_only = False  # handlers are entered by explicitly raised exceptions only

    def live_labels(self, v, st):
        """May/must labels of what v refers to now, forgetting those it had when the reference was stored."""
        self.live = True
        try:
            return self.labels(v, st)
        finally:
            self.live = False

    def labels(self, v, st, seen=None):
        """May/must labels of everything reachable from v."""
        may, must = set(v.may), set(v.must)
        if self.live and v.oids():
            may, must = set(), set()
        seen = set() if seen is None else seen
        first = True
        inter = None
        for a in v.atoms:
            m, n = self._alabels(a, st, seen)
            may |= m
            inter = set(n) if inter is None else inter & n
        if inter:
            must |= inter
        return frozenset(may), frozenset(must)

    def _alabels(self, a, st, seen):
        k = a[0]
        if k == "o":
            oid = a[1]
            if oid in seen:
                return set(), set()
            seen = seen | {oid} if isinstance(seen, frozenset) else seen
            seen.add(oid)
            o = st.heap.get(oid)
            if o is None:
                return set(), set()
            may, must = set(o.cmay), set(o.cmust)
            for v in list(o.attrs.values()) + list(o.items.values()):
                m, n = self.labels(v, st, seen)
                may |= m
                must |= n
            for v in (o.elem, o.ekey):
                if v is not None:
                    may |= self.labels(v, st, seen)[0]
            for x in o.must:
                for v in (x if isinstance(x, tuple) else (x,)):
                    m, n = self.labels(v, st, seen)
                    may |= m
                    must |= n
            return may, must
        if k == "t":
            may, must = set(), set()
            for v in a[1]:
                m, n = self.labels(v, st, seen)
                may |= m
                must |= n
            return may, must
        if k == "tn":
            m, n = self.labels(a[1], st, seen)
            return set(m), (set(n) if a[2] else set())
        if k in ("bm", "bx"):
            m, n = self.labels(a[2], st, seen)
            return set(m), set(n)
        return set(), set()

    def snap(self, v, st):
        """v with the labels of its whole closure attached (survives later renaming)."""
        m, n = self.labels(v, st)
        return v.labelled(m, n)

    def emit(self, v, st):
        if self.track_emission:
            n = self.labels(v, st)[1]
            if n and not n <= st.emitted:
                st.emitted = st.emitted | n

    def reach(self, v, st):
        """All heap objects reachable from v."""
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            for a in x.atoms:
                if a[0] == "o" and a[1] not in seen:
                    seen.add(a[1])
                    o = st.heap.get(a[1])
                    if o is None:
                        continue
                    todo += list(o.attrs.values()) + list(o.items.values())
                    todo += [y for y in (o.elem, o.ekey) if y is not None]
                    for m in o.must:
                        todo += list(m) if isinstance(m, tuple) else [m]
                elif a[0] == "t":
                    todo += list(a[1])
                elif a[0] == "tn":
                    todo.append(a[1])
                elif a[0] in ("bm", "bx"):
                    todo.append(a[2])
        return seen

    def mutated(self, F, node, oid, st, how):
        o = st.heap.get(oid)
        if o is not None:
            self.hooks.mutate(self, F, node, oid, o, how)

    # ------------------------------------------------------------------ truth
    def atom_truth(self, a, st):
        k = a[0]
        if k == "c":
            if a[1] == "str" and a[2] and has_token(a[2]):
                r = self.hooks.token_truth(a[2])
                return {True} if r is None else {r}
            return {bool(a[2])}
        if k == "s":
            return {True, False} if a[1] == "?" else {True}
        if k == "i":
            return {True} if len(a) > 1 else {True, False}
        if k == "o":
            o = st.heap.get(a[1])
            if o is None:
                return {True, False}
            if o.kind in ("list", "dict", "set", "tuple", "any"):
                if o.must or o.items:
                    return {True}
                if o.elem is None and not o.cmay and "maybe" not in o.flags:
                    return {False}
                return {True, False}
            if o.kind == "inst":
                ci = self.classes.get(o.cls)
                if ci and (self.find_member(ci, "__bool__") is not None or self.find_member(ci, "__len__") is not None):
                    return {True, False}
                return {True}
            if o.kind == "ext":
                if "fresh" in o.flags and o.elem is None:
                    return {False}
                if "kids" in o.flags:
                    return {True}
                if o.cls and (o.cls.startswith("lxml") or o.cls.startswith("polib")):
                    return {True, False}
                return {True}
            return {True}
        if k == "t":
            return {bool(a[1])}
        if k == "tn":
            return {True} if a[2] else {True, False}
        if k in ("f", "bm", "bx", "k", "m", "e", "re"):
            return {True}
        if k == "xi":
            return {True} if a[2] == "T" else {True, False}
        return {True, False}

    def truth(self, v, st):
        r = set()
        for a in v.atoms:
            r |= self.atom_truth(a, st)
        return r

    # ------------------------------------------------------------------ places and refinement
    def get_place(self, e, st, F):
        if isinstance(e, ast.NamedExpr):
            return self.get_place(e.target, st, F)
        if isinstance(e, ast.Name):
            try:
                return self.lookup(e.id, st, F)
            except Dead:
                return None
        if isinstance(e, ast.Attribute):
            b = self.get_place(e.value, st, F)
            if b is None or len(b.atoms) != 1:
                return None
            (a,) = b.atoms
            if a[0] != "o":
                return None
            o = st.heap.get(a[1])
            if o is None or o.kind != "inst":
                return None
            return o.attrs.get(e.attr)
        return None

    def set_place(self, e, v, st, F):
        if isinstance(e, ast.NamedExpr):
            return self.set_place(e.target, v, st, F)
        if isinstance(e, ast.Name):
            fid = self.frame_of(e.id, st, F)
            if fid.startswith("M:") and F.fi is not None:
                return
            fr = st.frames.get(fid)
            if fr is None or e.id not in fr:
                return
            fr = dict(fr)
            fr[e.id] = v
            st.frames[fid] = fr
        elif isinstance(e, ast.Attribute):
            b = self.get_place(e.value, st, F)
            (a,) = b.atoms
            o = st.heap[a[1]]
            if o.summary:
                return
            at = dict(o.attrs)
            at[e.attr] = v
            st.heap[a[1]] = o.w(attrs=at)

    def refine(self, e, pol, st, F):
        """Assume truthiness `pol` of e in st (in place).  Raises Dead on contradiction."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not pol, st, F)
        if isinstance(e, (ast.Name, ast.Attribute, ast.NamedExpr)):
            v = self.get_place(e, st, F)
            if v is None:
                return
            atoms = set()
            for a in v.atoms:
                if pol in self.atom_truth(a, st):
                    if a[0] == "s" and a[1] == "?":
                        a = ("s", "T") if pol else ("c", "str", "")
                    elif a[0] == "tn" and not a[2]:
                        a = ("tn", a[1], True) if pol else ("t", ())
                    elif a[0] == "xi" and a[2] == "?" and pol:
                        a = ("xi", a[1], "T")
                    atoms.add(a)
            if not atoms:
                raise Dead()
            nv = V(frozenset(atoms), v.may, v.must)
            if nv != v:
                self.set_place(e, nv, st, F)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            v = self.get_place(e.args[0], st, F)
            if v is None:
                return
            cl = self.eval(e.args[1], st, F)
            atoms = set()
            for a in v.atoms:
                t = self.isinst(a, cl, st)
                if pol in t:
                    if a == ("top",) and pol:
                        na = self.top_as(cl)
                        atoms |= na
                        continue
                    atoms.add(a)
            if not atoms:
                raise Dead()
            nv = V(frozenset(atoms), v.may, v.must)
            if nv != v:
                self.set_place(e.args[0], nv, st, F)
            return
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                want_eq = isinstance(op, (ast.Is, ast.Eq)) == pol
                for x, y in ((l, r), (r, l)):
                    v = self.get_place(x, st, F)
                    if v is None:
                        continue
                    if isinstance(x, ast.NamedExpr):
                        pass
                    if isinstance(y, ast.Call):
                        continue
                    yv = self.get_place(y, st, F) if not isinstance(y, (ast.Constant, ast.Tuple)) else self.eval(y, st, F)
                    if yv is None:
                        if isinstance(y, ast.Attribute):
                            try:
                                yv = self.eval(y, st, F)
                            except Dead:
                                continue
                        else:
                            continue
                    single = len(yv.atoms) == 1 and next(iter(yv.atoms))[0] in ("c", "e")
                    atoms = set()
                    for a in v.atoms:
                        can = {self.eq_atoms(a, b, st) for b in yv.atoms}
                        res = set()
                        for c in can:
                            res |= {True, False} if c is None else {c}
                        if want_eq:
                            if True in res:
                                if single and a[0] in ("s", "top", "i") and len(yv.atoms) == 1:
                                    atoms.add(next(iter(yv.atoms)))
                                else:
                                    atoms.add(a)
                        else:
                            if False in res:
                                if single and a == ("s", "?") and next(iter(yv.atoms)) == ("c", "str", ""):
                                    a = ("s", "T")
                                atoms.add(a)
                    if not atoms:
                        raise Dead()
                    nv = V(frozenset(atoms), v.may, v.must)
                    if nv != v:
                        self.set_place(x, nv, st, F)
            elif isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List, ast.Set)):
                want = isinstance(op, ast.In) == pol
                v = self.get_place(l, st, F)
                if v is None:
                    return
                cs = []
                for x in r.elts:
                    xv = self.eval(x, st, F)
                    cs += list(xv.atoms)
                atoms = set()
                for a in v.atoms:
                    rs = [self.eq_atoms(a, c, st) for c in cs]
                    poss = any(x is not False for x in rs)
                    if want:
                        if not poss:
                            continue
                        if a[0] in ("s", "top"):
                            atoms |= {c for c in cs if self.eq_atoms(a, c, st) is not False}
                        else:
                            atoms.add(a)
                    else:
                        if any(x is True for x in rs):
                            continue
                        atoms.add(a)
                if not atoms:
                    raise Dead()
                nv = V(frozenset(atoms), v.may, v.must)
                if nv != v:
                    self.set_place(l, nv, st, F)
            return

    def top_as(self, clv):
        out = set()
        for a in clv.atoms:
            if a[0] == "t":
                for x in a[1]:
                    out |= self.top_as(x)
            elif a == ("x", "builtins.str"):
                out.add(("s", "?"))
            elif a == ("x", "builtins.int"):
                out.add(("i",))
            elif a == ("x", "builtins.bool"):
                out |= BOOL.atoms
            elif a[0] == "x":
                out.add(("xi", a[1], "?"))
            else:
                out.add(("top",))
        if ("top",) in out:
            return {("top",)}
        return out or {("top",)}

    def split(self, e, st, F):
        """-> (state if true, state if false); either may be None."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.split(e.operand, st, F)
            return f, t
        if isinstance(e, ast.BoolOp):
            cur = st
            out = None
            for i, x in enumerate(e.values):
                if cur is None:
                    break
                t, f = self.split(x, cur, F)
                if isinstance(e.op, ast.And):
                    out = join_state(out, f)
                    cur = t
                else:
                    out = join_state(out, t)
                    cur = f
            return (cur, out) if isinstance(e.op, ast.And) else (out, cur)
        if isinstance(e, ast.Call):
            r = self.split_callee(e, st, F)
            if r is not None:
                return r
        try:
            v = self.eval(e, st, F)
        except Dead:
            return None, None
        return self.split_value(e, v, st, F)

    split_call = None
    split_runs = ()

    def split_callee(self, e, st, F):
        """A test that calls one function of the project: what the function's own tests say about
        the arguments holds for the caller's variables as well."""
        saved = self.split_call, self.split_runs
        self.split_call, self.split_runs = e, []
        pre = {}
        try:
            for k, x in [*enumerate(e.args), *((kw.arg, kw.value) for kw in e.keywords)]:
                if isinstance(x, ast.Name):
                    pre[k] = x, self.get_place(x, st, F)
            v = self.eval(e, st, F)
            runs = self.split_runs
        except Dead:
            return None, None
        finally:
            self.split_call, self.split_runs = saved
        if len(runs) != 1 or F.fi is None:
            return self.split_value(e, v, st, F)
        fi, fid, bound, rets, before = runs[0]
        self.hooks.truth_test(self, F, e, v, st)
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        off = 1 if fi.cls is not None and isinstance(e.func, ast.Attribute) and "staticmethod" not in fi.decorators else 0
        stored = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        res = []
        for pol in (True, False):
            out = None
            for rv, s in rets:
                if pol not in self.truth(rv, s):
                    continue
                s = s.copy()
                fr = s.frames.get(fid, {})
                dead = False
                for k, (x, pv) in pre.items():
                    p = pos[k + off] if isinstance(k, int) and k + off < len(pos) else k
                    if pv is None or p in stored or bound.get(p) != pv or p not in fr or self.get_place(x, s, F) != pv:
                        continue
                    if not fr[p].atoms:
                        dead = True
                    elif fr[p] != pv:
                        self.set_place(x, fr[p], s, F)
                if not fi.has_nested:
                    s.frames.pop(fid, None)
                self.gc(s, rv, before)
                if not dead:
                    out = join_state(out, s)
            res.append(out)
        self.hooks.branch(self, F, e, v, res[0], res[1])
        return tuple(res)

    def split_value(self, e, v, st, F):
        self.hooks.truth_test(self, F, e, v, st)
        tr = self.truth(v, st)
        res = []
        for pol in (True, False):
            if pol not in tr:
                res.append(None)
                continue
            s = st.copy()
            try:
                self.refine(e, pol, s, F)
                res.append(s)
            except Dead:
                res.append(None)
        self.hooks.branch(self, F, e, v, res[0], res[1])
        return tuple(res)

    # ------------------------------------------------------------------ comparisons / isinstance
    def eq_atoms(self, a, b, st):
        """True/False/None(unknown) for a == b."""
        if a[0] == "c" and b[0] == "c":
            if a[1] == b[1] == "str" and a[2] != b[2] and (has_token(a[2]) or has_token(b[2])):
                return self.hooks.token_eq(a[2], b[2])
            return a[2] == b[2] if (a[1] == b[1] or {a[1], b[1]} <= {"int", "bool", "float"}) else False
        if a == NONE_A or b == NONE_A:
            o = b if a == NONE_A else a
            return None if o == ("top",) or o[0] == "undef" else (False if o[0] != "xi" else None if o[2] == "?" else False)
        if a[0] == "e" and b[0] == "e":
            return a == b
        for x, y in ((a, b), (b, a)):
            if x == ("i", "+") and y[0] == "c" and (not isinstance(y[2], (int, float)) or y[2] <= 0):
                return False
            if x[0] == "s":
                if y[0] == "c":
                    if y[1] != "str":
                        return False
                    if x[1] == "N":
                        return False
                    if x[1] in SOLIDK and not y[2].strip():
                        return False
                    if x[1] == "W" and nonletter(y[2]):
                        return False
                    if x[1] == "T" and y[2] == "":
                        return False
                    return None
                if y[0] == "s":
                    return None
                if y[0] == "top" or y[0] == "xi":
                    return None
                return False
        if a[0] == "t" and b[0] == "t":
            if len(a[1]) != len(b[1]):
                return False
            r = True
            for x, y in zip(a[1], b[1]):
                c = self.eq_vals(x, y, st)
                if c is False:
                    return False
                if c is None:
                    r = None
            return r
        for x, y in ((a, b), (b, a)):
            if x[0] == "t" and y[0] == "tn":
                return False if (not x[1] and y[2]) else None
            if x[0] in ("t", "tn") and y[0] in ("c", "e", "f", "k", "i"):
                return False
            if x[0] == "e" and y[0] in ("c", "i", "f", "k", "o"):
                return False
            if x[0] == "o" and y[0] in ("c", "e", "i", "f", "k", "t", "tn"):
                return False
            if x[0] in ("f", "k", "m") and y[0] == "c":
                return False
        if a[0] in ("f", "k", "m", "x") and a == b:
            return True
        if self.strict and a[0] == b[0] == "o":
            return self.eq_objs(a[1], b[1], st)
        return None

    def eq_objs(self, p, q, st):
        """Equality of objects whose contents are known."""
        if p == q:
            return None if st.heap[p].summary else True
        x, y = st.heap[p], st.heap[q]
        if x.kind != y.kind:
            return False if {x.kind, y.kind} <= {"list", "dict", "set", "inst"} else None
        if x.kind == "inst":
            ci, cj = self.classes.get(x.cls), self.classes.get(y.cls)
            if ci is None or cj is None or self.find_member(ci, "__eq__") is not None or self.find_member(cj, "__eq__") is not None:
                return None
            if not ci.is_dataclass or not cj.is_dataclass:
                return None
            if x.cls != y.cls:
                return False
            r = True
            for n, _, dflt in ci.fields:
                if isinstance(dflt, ast.Call) and any(k.arg == "compare" and isinstance(k.value, ast.Constant) and k.value.value is False
                                                      for k in dflt.keywords):
                    continue
                if n not in x.attrs or n not in y.attrs:
                    return None
                c = self.eq_vals(x.attrs[n], y.attrs[n], st)
                if c is False:
                    return False
                r = r and c
            return r
        if any(o.summary or o.elem is not None or o.flags & {"unordered", "split", "keys"} for o in (x, y)):
            return None
        if x.kind == "list":
            if len(x.must) != len(y.must):
                return False
            cs = [self.eq_vals(v, w, st) for v, w in zip(x.must, y.must)]
        elif x.kind == "dict":
            if x.must or y.must:
                return None
            if set(x.items) != set(y.items):
                return None if any(isinstance(k, str) and has_token(k) for k in set(x.items) ^ set(y.items)) else False
            cs = [self.eq_vals(x.items[k], y.items[k], st) for k in x.items]
        elif x.kind == "set" and not x.cmay and not y.cmay:
            cs = []
            for p, q in ((x, y), (y, x)):
                for v in p.must:
                    rs = [self.eq_vals(v, w, st) for w in q.must]
                    cs.append(True if True in rs else None if None in rs else False)
        else:
            return None
        return False if False in cs else None if None in cs else True

    def eq_vals(self, x, y, st):
        rs = {self.eq_atoms(a, b, st) for a in x.atoms for b in y.atoms}
        if len(rs) == 1:
            return rs.pop()
        return None

    def class_ids(self, clv):
        out = []
        for a in clv.atoms:
            if a[0] == "t":
                for x in a[1]:
                    out += self.class_ids(x)
            elif a[0] == "k":
                out.append(a[1])
            elif a[0] == "x":
                out.append(a[1])
            elif a[0] == "c" and a[2] is None:
                out.append("builtins.NoneType")
            else:
                out.append("?")
        return out

    BUILT = {"s": "str", "i": "int", "fl": "float", "by": "bytes", "t": "tuple", "tn": "tuple"}

    def isinst(self, a, clv, st):
        ids = self.class_ids(clv)
        if "?" in ids:
            return {True, False}
        k = a[0]
        tn = None
        if k == "c":
            tn = a[1]
        elif k in self.BUILT:
            tn = self.BUILT[k]
        elif k in ("f", "bm", "bx"):
            tn = "function"
        elif k in ("k",):
            tn = "type"
        if tn is not None:
            py = getattr(_b, tn, None)
            names = {c.__name__ for c in py.__mro__} if isinstance(py, type) else {tn}
            if tn in ("str", "tuple", "list"):
                names |= {"Sequence", "Iterable", "Collection"}
            if tn == "function":
                names |= {"Callable"}
            return {any(i.split(".")[-1] in names and not i.startswith("moz.") for i in ids)}
        if k == "e":
            return {a[1] in ids}
        if k == "o":
            o = st.heap.get(a[1])
            if o is None:
                return {True, False}
            if o.kind in ("list", "dict", "set", "tuple"):
                return {any(i.split(".")[-1] in self.CONT[o.kind] for i in ids)}
            if o.kind == "inst":
                ci = self.classes[o.cls]
                return {any(self.subclass(ci, i) for i in ids)}
            if o.kind == "gen":
                return {any(i.split(".")[-1] in ("Iterator", "Generator", "Iterable") for i in ids)}
            if o.kind == "ext":
                return self.ext_isinst(o.cls, ids)
            return {True, False}
        if k == "xi":
            return self.ext_isinst(a[1], ids)
        return {True, False}

    CONT = {"list": {"list", "Sequence", "Iterable", "Collection", "MutableSequence"},
            "dict": {"dict", "Mapping", "MutableMapping", "Iterable", "Collection", "defaultdict"},
            "set": {"set", "Set", "Collection", "Iterable", "MutableSet"},
            "tuple": {"tuple", "Sequence", "Iterable", "Collection"}}

    def ext_isinst(self, cls, ids):
        r = set()
        cls = extsigs.canon(cls) if cls else cls
        for i in ids:
            i = extsigs.canon(i)
            if cls in extsigs.SIGS and i.startswith("fluent.syntax.ast."):
                if i in extsigs.mro(cls):
                    return {True}
                r.add(False)
                continue
            if i == cls:
                return {True}
            if i.startswith("moz.") or (i.startswith("builtins.") and i.split(".")[1] in
                                        ("str", "int", "dict", "list", "tuple", "bool", "float", "bytes", "set", "NoneType")):
                r.add(False)
            elif cls and cls.split(".")[:-1] == i.split(".")[:-1] and cls.startswith("fluent."):
                base = {"BaseNode", "SyntaxNode", "Expression", "EntryType", "PatternElement", "BaseComment"}
                r |= {True, False} if i.split(".")[-1] in base else {False}
            else:
                r |= {True, False}
        return r or {False}

    def subclass(self, ci, target):
        return any((c.full if isinstance(c, ClassInfo) else c) == target for c in ci.mro) or target == "builtins.object"

    # ------------------------------------------------------------------ classes
    def find_member(self, ci, name):
        for c in ci.mro:
            if isinstance(c, ClassInfo) and name in c.members:
                return c.members[name]
        return None

    def def_class(self, node, st, F):
        qual = (F.fi.qual + "." if F.fi else "") + node.name
        ci = ClassInfo(node, F.module, qual)
        self.classes[ci.full] = ci
        mro = [ci]
        for b in node.bases:
            try:
                bv = self.eval(b, st, F)
            except Dead:
                continue
            for a in bv.atoms:
                if a[0] == "k":
                    for c in self.classes[a[1]].mro:
                        if c not in mro:
                            mro.append(c)
                elif a[0] == "x":
                    mro.append(a[1])
                    if a[1].endswith("Enum"):
                        ci.is_enum = True
        ci.mro = mro
        for c in mro[1:]:
            if isinstance(c, ClassInfo) and c.is_dataclass:
                ci.fields = [f for f in c.fields] + ci.fields
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                v = self.def_func(s, st, F, cls=ci)
                ci.members[s.name] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if ci.is_dataclass:
                    ci.fields = [f for f in ci.fields if f[0] != s.target.id] + [(s.target.id, s.annotation, s.value)]
                elif any(a.endswith("NamedTuple") for a in mro if isinstance(a, str)):
                    ci.fields.append((s.target.id, s.annotation, s.value))
                if s.value is not None and not ci.is_dataclass:
                    ci.members[s.target.id] = self.eval(s.value, st, F)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if ci.is_enum:
                            ci.members[t.id] = mk(("e", ci.full, t.id))
                        else:
                            ci.members[t.id] = self.eval(s.value, st, F)
        self.bind(node.name, mk(("k", ci.full)), st, F, node)

    def func_info(self, node, F, cls=None):
        fi = self.node_funcs.get(node)
        if fi is None:
            prefix = (F.fi.qual + "." if F.fi else "") + (cls.name + "." if cls and not F.fi else "")
            name = getattr(node, "name", None) or f"<lambda:{node.lineno}>"
            fi = FuncInfo(node, F.module, prefix + name, cls)
            self.node_funcs[node] = fi
            self.funcs[fi.id] = fi
        return fi

    def def_func(self, node, st, F, cls=None):
        fi = self.func_info(node, F, cls)
        d = {}
        a = node.args
        pos = a.posonlyargs + a.args
        for p, x in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(x, st, F)
        for p, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None:
                d[p.arg] = self.eval(x, st, F)
        self.defaults[(fi.id, F.fid)] = d
        return mk(("f", fi.id, F.fid))

    def instantiate(self, ci, args, kwargs, st, F, node):
        if ci.is_enum:
            return V(frozenset(("e", ci.full, n) for n in ci.members)) or TOP
        init = self.find_member(ci, "__init__")
        site = self.site(F, node, "i:" + ci.name)
        exc = any(isinstance(c, str) and (c.endswith("Error") or c.endswith("Exception")) for c in ci.mro)
        if init is not None:
            v = self.alloc(st, site, Obj("inst", ci.full))
            for a in init.atoms:
                if a[0] == "f":
                    self.call_func(a, [v] + args, kwargs, st, F, node)
            return v
        if (ci.is_dataclass or ci.fields) and not exc:
            attrs = {}
            names = [f[0] for f in ci.fields]
            rest = list(args)
            star = None
            if "*" in kwargs:
                star = kwargs["*"]
            for n, v in zip(names, rest):
                attrs[n] = v
            for k, v in kwargs.items():
                if k in names:
                    attrs[k] = v
            MF = Frame(None, ci.module, "M:" + ci.module.name, [], F.depth + 1, F, node)
            for n, ann, dflt in ci.fields:
                if n in attrs:
                    continue
                if dflt is None:
                    if star is not None:
                        attrs[n] = TOP.labelled(*self.labels(star, st))
                        continue
                    # a missing required argument is a TypeError at run time
                    if "**" in kwargs:
                        attrs[n] = TOP
                        continue
                    raise Dead()
                attrs[n] = self.field_default(dflt, st, F, node, n)
            v = self.alloc(st, site, Obj("inst", ci.full, attrs))
            post = self.find_member(ci, "__post_init__")
            if post is not None:
                for a in post.atoms:
                    if a[0] == "f":
                        self.call_func(a, [v], {}, st, F, node)
            return v
        may = must = EMPTY
        for x in list(args) + list(kwargs.values()):
            m, n = self.labels(x, st)
            may, must = may | m, must | n
        return self.alloc(st, site, Obj("inst", ci.full, cmay=may, cmust=must))

    def field_default(self, dflt, st, F, node, name):
        if isinstance(dflt, ast.Call) and ast.unparse(dflt.func).split(".")[-1] == "field":
            for kw in dflt.keywords:
                if kw.arg == "default":
                    return self.eval(kw.value, st, F)
                if kw.arg == "default_factory":
                    u = ast.unparse(kw.value)
                    kind = {"list": "list", "dict": "dict", "set": "set"}.get(u)
                    if kind:
                        return self.alloc(st, self.site(F, node, f"d:{name}"), Obj(kind))
                    return TOP
            return TOP
        if isinstance(dflt, ast.Constant):
            return const(dflt.value)
        return self.eval(dflt, st, F)

    # ------------------------------------------------------------------ exceptions
    def exc_ids(self, v, st):
        out = set()
        for a in v.atoms:
            if a[0] == "k":
                out.add(a[1])
            elif a[0] == "x":
                out.add(a[1])
            elif a[0] == "o":
                o = st.heap.get(a[1])
                out.add(o.cls if o is not None and o.cls else "?")
            elif a[0] == "xi":
                out.add(a[1])
            else:
                out.add("?")
        return out

    def exc_mro(self, cid):
        if cid in self.classes:
            out = []
            for c in self.classes[cid].mro:
                if isinstance(c, ClassInfo):
                    out.append(c.full)
                else:
                    out += self.exc_mro(c)
            return out
        if cid.startswith("builtins."):
            c = getattr(_b, cid[9:], None)
            if isinstance(c, type):
                return ["builtins." + x.__name__ for x in c.__mro__]
        KNOWN = {"json.JSONDecodeError": ["json.JSONDecodeError", "builtins.ValueError", "builtins.Exception"],
                 "json.decoder.JSONDecodeError": ["json.decoder.JSONDecodeError", "builtins.ValueError", "builtins.Exception"]}
        return KNOWN.get(cid, [cid, "builtins.Exception", "builtins.BaseException"])

    def exc_match(self, cid, handler_ids):
        """'yes' | 'no' | 'maybe'."""
        if handler_ids is None:
            return "yes"
        if cid == "?":
            if "builtins.Exception" in handler_ids or "builtins.BaseException" in handler_ids:
                return "yes"
            return "maybe"
        m = self.exc_mro(cid)
        r = "no"
        for h in handler_ids:
            if h in m:
                return "yes"
            if h == "?" or cid in self.exc_mro(h):
                r = "maybe"
        return r

    def do_raise(self, ids, st, node, F, implicit=False):
        self.hooks.raised(self, F, node, ids, st)
        if self.handlers:
            self.handlers[-1].append((frozenset(ids), st.copy(), node, F))
        raise Dead()

    def maybe_raise(self, ids, st, node, F, what):
        """An operation that may raise implicitly and otherwise continues."""
        self.hooks.implicit(self, F, node, ids, what)
        if self.handlers and getattr(self, "track_implicit", False):
            self.handlers[-1].append((frozenset(ids), st.copy(), node, F))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, F):
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget:
                raise Budget(f"analysis budget exceeded in {F.where(s)}")
            st = self.exec(s, st, F)
            if st is None:
                return None
        return st

    def exec(self, s, st, F):
        try:
            return getattr(self, "x_" + type(s).__name__)(s, st, F)
        except Dead:
            return None

    def x_Pass(self, s, st, F):
        return st

    def x_Expr(self, s, st, F):
        self.eval(s.value, st, F)
        return st

    def need_import(self, name, s, st, F):
        if self.missing and (name.split(".")[0] in self.missing or name in self.failed):
            self.do_raise({"builtins.ImportError"}, st, s, F)

    def x_Import(self, s, st, F):
        for al in s.names:
            if al.name in self.p.modules:
                self.load_module(al.name)
            self.need_import(al.name, s, st, F)
            top = al.name.split(".")[0]
            if al.asname:
                self.bind(al.asname, mk(("m", al.name)) if al.name in self.p.modules else mk(("x", al.name)), st, F, s)
            else:
                self.bind(top, mk(("x", top)), st, F, s)
        return st

    def x_ImportFrom(self, s, st, F):
        base = self.p.resolve_relative(F.module, s.level, s.module)
        if base in self.p.modules:
            self.load_module(base)
        self.need_import(base, s, st, F)
        for al in s.names:
            name = al.asname or al.name
            full = f"{base}.{al.name}"
            if full in self.p.modules and al.name not in self.base.frames.get("M:" + base, {}):
                self.load_module(full)
                self.need_import(full, s, st, F)
            if base in self.p.modules:
                fr = self.base.frames.get("M:" + base, {})
                mf = st.frames.get("M:" + base) or fr
                if al.name in mf:
                    v = mf[al.name]
                elif full in self.p.modules:
                    self.load_module(full)
                    v = mk(("m", full))
                else:
                    v = TOP
                    if self.mod_done.get(base) == "done":
                        if s.level or base.startswith("moz."):
                            raise AnalysisBroken(f"{F.module.rel}:{s.lineno}: cannot import {al.name} from {base}")
            elif full in self.p.modules:
                self.load_module(full)
                v = mk(("m", full))
            else:
                v = mk(("x", full))
            self.bind(name, v, st, F, s)
        return st

    def x_FunctionDef(self, s, st, F):
        v = self.def_func(s, st, F)
        self.bind(s.name, v, st, F, s)
        return st

    def x_ClassDef(self, s, st, F):
        self.def_class(s, st, F)
        return st

    def x_Assign(self, s, st, F):
        v = self.eval(s.value, st, F)
        for t in s.targets:
            self.assign(t, v, st, F)
        return st

    def x_AnnAssign(self, s, st, F):
        if s.value is not None:
            v = self.eval(s.value, st, F)
            self.assign(s.target, v, st, F)
        return st

    def x_AugAssign(self, s, st, F):
        t = s.target
        cur = self.eval(self.as_load(t), st, F)
        v = self.eval(s.value, st, F)
        lists = [o for o in self.objs(cur) if st.heap[o].kind in ("list", "set", "any")]
        if isinstance(s.op, (ast.Add, ast.BitOr)) and lists:
            elem, must, tl = self.iter_elems(v, st, F, s)
            for oid in lists:
                self.mutated(F, s, oid, st, "+=")
                self.list_extend(oid, elem, must, st, strong=len(cur.atoms) == 1)
            if not [a for a in cur.atoms if a[0] != "o"]:
                self.assign(t, cur, st, F)
                return st
        self.assign(t, self.binop(s.op, cur, v, st, F, s), st, F)
        return st

    def as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(t.id, ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)

    def x_Delete(self, s, st, F):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, F)
                key = self.eval(t.slice, st, F) if not isinstance(t.slice, ast.Slice) else None
                for oid in self.objs(b):
                    self.mutated(F, s, oid, st, "del []")
                    o = st.heap[oid]
                    if key is not None and len(b.atoms) == 1 and len(key.atoms) == 1 and o.kind == "dict" and not o.summary:
                        (k,) = key.atoms
                        if k[0] == "c" and k[2] in o.items and o.elem is None and not o.must:
                            st.heap[oid] = o.w(items={q: x for q, x in o.items.items() if q != k[2]})
                            continue
                    live = self.exact_list(b, st)
                    if live is not None and (key is not None or isinstance(t.slice, ast.Slice)):
                        if key is not None:
                            i = self.cint(key)
                            cut = (lambda l: l.pop(i)) if isinstance(i, int) else None
                        else:
                            ij = [self.cint(self.eval(x, st, F)) if x is not None else None for x in (t.slice.lower, t.slice.upper)]
                            cut = (lambda l: l.__delitem__(slice(*ij))) if "?" not in ij and t.slice.step is None else None
                        if cut is not None:
                            new = list(live)
                            try:
                                cut(new)
                            except IndexError:
                                self.do_raise({"builtins.IndexError"}, st, s, F)
                            st.heap[oid] = o.w(must=tuple(new))
                            continue
                    self.weaken(oid, st)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, F)
                for oid in self.objs(b):
                    self.mutated(F, s, oid, st, "del ." + t.attr)
        return st

    def exact_list(self, v, st):
        """The elements of a list in their order, when exactly known."""
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] != "o":
            return None
        o = st.heap.get(a[1])
        if o is None or o.kind != "list" or o.summary or o.elem is not None or o.cmay or o.flags & {"unordered", "split", "keys"}:
            return None
        return o.must

    @staticmethod
    def same_name(x, y):
        """Whether two values stand for the same named input ("name:" labels): True, False or None (unknown)."""
        a = [q for q in x.must if isinstance(q, str) and q.startswith("name:")]
        b = [q for q in y.must if isinstance(q, str) and q.startswith("name:")]
        if not a or not b or not all(is_str_atom(q) for q in x.atoms | y.atoms):
            return None
        if a != b:
            return False
        return True if x == y else None

    def remove_item(self, oid, x, st, strong):
        """list.remove() of an element of an exactly known list; whether it was decided."""
        o = st.heap[oid]
        if not strong or o.summary or o.elem is not None or o.flags & {"unordered", "split", "keys"}:
            return False
        for i, m in enumerate(o.must):
            t = self.same_name(m, x)
            if t is None and len(m.atoms) == 1 and len(x.atoms) == 1:
                t = self.eq_atoms(next(iter(m.atoms)), next(iter(x.atoms)), st)
            if t is None:
                return False
            if t:
                st.heap[oid] = o.w(must=o.must[:i] + o.must[i + 1:])
                return True
        return False

    def weaken(self, oid, st):
        """The container may have lost any of its elements."""
        o = st.heap[oid]
        elem, ekey = o.elem, o.ekey
        for m in o.must:
            if isinstance(m, tuple):
                ekey, elem = jopt(ekey, m[0]), jopt(elem, m[1])
            else:
                elem = jopt(elem, m)
        for k, v in o.items.items():
            ekey, elem = jopt(ekey, const(k)), jopt(elem, v)
        st.heap[oid] = o.w(must=(), items={}, elem=elem, ekey=ekey)

    def x_Return(self, s, st, F):
        if F.split and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)):
            for pol, r in zip((TRUE, FALSE), self.split(s.value, st, F)):
                if r is not None:
                    F.returns.append((pol, r, s))
            return None
        v = self.eval(s.value, st, F) if s.value is not None else NONE
        F.returns.append((v, st, s))
        return None

    def x_Raise(self, s, st, F):
        if s.exc is None:
            ids = getattr(F, "handling", None) or {"?"}
            self.do_raise(ids, st, s, F)
        v = self.eval(s.exc, st, F)
        if s.cause is not None:
            self.eval(s.cause, st, F)
        self.do_raise(self.exc_ids(v, st), st, s, F)

    def x_Assert(self, s, st, F):
        t, f = self.split(s.test, st, F)
        if f is not None:
            if s.msg is not None:
                try:
                    self.eval(s.msg, f, F)
                except Dead:
                    pass
            try:
                self.do_raise({"builtins.AssertionError"}, f, s, F)
            except Dead:
                pass
        return t

    def x_Nonlocal(self, s, st, F):
        return st

    x_Global = x_Nonlocal

    def x_If(self, s, st, F):
        t, f = self.split(s.test, st, F)
        if t is not None:
            t = self.exec_block(s.body, t, F)
        if f is not None:
            f = self.exec_block(s.orelse, f, F) if s.orelse else f
        return join_state(t, f)

    def x_Break(self, s, st, F):
        F.loops[-1][0].append(st)
        return None

    def x_Continue(self, s, st, F):
        F.loops[-1][1].append(st)
        return None

    def x_For(self, s, st, F):
        it = self.eval(s.iter, st, F)
        self.hooks.for_loop(self, F, s, it, st)
        elem, must, _ = self.iter_elems(it, st, F, s.iter)
        breaks = []

        def body(state, v):
            state = state.copy()
            F.loops.append(([], []))
            try:
                self.assign(s.target, v, state, F)
                out = self.exec_block(s.body, state, F)
            except Dead:
                out = None
            br, co = F.loops.pop()
            for c in co:
                out = join_state(out, c)
            for b in br:
                breaks.append(b)
            return out

        cur = st
        if elem is not None:
            cases = by_tag(elem)
            one = body

            def body(state, v):
                if v is not elem or len(cases) == 1:
                    return one(state, v)
                out = None
                for x in cases:
                    out = join_state(out, one(state, x))
                return out
            cur = self.fix(cur, lambda x: body(x, elem))
        live = self.exact_list(it, st)
        if live is not None and must == live:
            # a list is read as it is at each step: the body may change it
            i = 0
            while cur is not None:
                live = self.exact_list(it, cur)
                if live is None or i > MAX_MUST:
                    (a,) = it.atoms
                    o = cur.heap[a[1]]
                    cur = self.fix(cur, lambda x: body(x, join_all([y for y in [o.elem, *o.must] if y is not None])))
                    break
                if i >= len(live):
                    break
                cur = body(cur, live[i])
                i += 1
            must = ()
        for m in must:
            cur = body(cur, m)
            if cur is None:
                break
            if elem is not None:
                cur = self.fix(cur, lambda x: body(x, elem))
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur, F)
        for b in breaks:
            cur = join_state(cur, b)
        return cur

    def fix(self, st, step):
        L = st
        gens = self.generations
        for i in range(MAX_ITER):
            # any number of iterations: their objects are not told apart
            self.generations = 0
            try:
                out = step(L)
            finally:
                self.generations = gens
            if out is None:
                return L
            N = join_state(L, out)
            if i > 5:
                N = self.widen(L, N)
            if N == L:
                return L
            L = N
        raise Budget("loop fixpoint not reached")

    def widen(self, a, b):
        for fid, f in b.frames.items():
            g = a.frames.get(fid)
            if g is None or f is g:
                continue
            for k, v in list(f.items()):
                w = g.get(k)
                if w is not None and w != v:
                    f = dict(f)
                    f[k] = self.widen_v(v)
            b.frames[fid] = f
        for oid, o in list(b.heap.items()):
            p = a.heap.get(oid)
            if p is not None and p != o:
                b.heap[oid] = o.w(elem=self.widen_v(o.elem) if o.elem is not None else None,
                                  attrs={k: self.widen_v(v) for k, v in o.attrs.items()})
        return b

    def widen_v(self, v):
        atoms = set()
        for a in v.atoms:
            if a[0] == "c" and a[1] == "str":
                a = ("s", "?")
            elif a[0] == "c" and a[1] == "int":
                a = ("i", "+") if a[2] > 0 else ("i",) if a[2] < 0 else a
            elif a[0] == "t":
                e = BOTTOM
                for x in a[1]:
                    e = join(e, x)
                a = ("tn", e, bool(a[1])) if a[1] else a
            atoms.add(a)
        return V(_norm(frozenset(atoms)), v.may, v.must)

    def x_While(self, s, st, F):
        breaks = []
        exits = []

        def step(state):
            state = state.copy()
            t, f = self.split(s.test, state, F)
            if f is not None:
                exits.append(f)
            if t is None:
                return None
            F.loops.append(([], []))
            out = self.exec_block(s.body, t, F)
            br, co = F.loops.pop()
            for c in co:
                out = join_state(out, c)
            breaks.extend(br)
            return out

        if not isinstance(s.test, ast.Constant):
            # follow the iterations one by one for as long as the test is decided
            for _ in range(24):
                n = len(exits)
                out = step(st)
                if out is None or len(exits) > n:
                    break
                st = out
            else:
                out = st
            st, go = out, out is not None
        else:
            go = True
        if go:
            self.fix(st, step)
        cur = None
        for e in exits:
            cur = join_state(cur, e)
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur, F)
        for b in breaks:
            cur = join_state(cur, b)
        return cur

    def x_With(self, s, st, F):
        vs = []
        for item in s.items:
            v = self.eval(item.context_expr, st, F)
            vs.append(v)
            self.hooks.with_enter(self, F, item.context_expr, v, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, F)
        n_ret, n_loop = len(F.returns), [tuple(map(len, x)) for x in F.loops]
        H = []
        self.handlers.append(H)
        try:
            out = self.exec_block(s.body, st, F)
        finally:
            self.handlers.pop()
        ends = ([out] if out is not None else []) + [r[1] for r in F.returns[n_ret:]]
        for x, n in zip(F.loops, n_loop):
            for y, k in zip(x, n):
                ends += y[k:]
        for e in ends + [h[1] for h in H]:
            for v in reversed(vs):
                self.hooks.with_exit(self, F, s, v, e)
        if self.handlers:
            self.handlers[-1].extend(H)
        return out

    def x_Try(self, s, st, F):
        if not s.finalbody:
            return self.try_body(s, st, F)
        H = []
        self.handlers.append(H)
        try:
            r = self.try_body(s, st, F)
        finally:
            self.handlers.pop()
        if self.handlers:
            for ids, est, nd, fr in H:
                e = self.exec_block(s.finalbody, est.copy(), F)
                if e is not None:
                    self.handlers[-1].append((ids, e, nd, fr))
        return r

    def try_body(self, s, st, F):
        H = []
        self.handlers.append(H)
        snaps = [st.copy()]
        cur = st
        n_ret = len(F.returns)
        try:
            for x in s.body:
                cur = self.exec(x, cur, F)
                self.steps += 1
                if cur is None:
                    break
                snaps.append(cur.copy())
        finally:
            self.handlers.pop()
        # a statement that returned normally may also have raised: its pre-state is in snaps already
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur, F)
        import_only = all(isinstance(x, (ast.Import, ast.ImportFrom, ast.Assign)) and
                          not any(isinstance(y, ast.Call) for y in ast.walk(x)) for x in s.body)
        only_import = all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        outs = [cur]
        pending = list(H)
        implicit = None
        if not only_import and not self.explicit_only:
            for sn in snaps if cur is not None or True else []:
                implicit = join_state(implicit, sn)
        for h in s.handlers:
            hid = None
            if h.type is not None:
                try:
                    hv = self.eval(h.type, (implicit or st).copy(), F)
                except Dead:
                    continue  # the name is not bound wherever this handler is reached
                hid = set(self.class_ids(hv))
            entry = None
            ids_in = set()
            rest = []
            for ids, est, nd, fr in pending:
                keep = set()
                for c in ids:
                    m = self.exc_match(c, hid)
                    if m in ("yes", "maybe"):
                        entry = join_state(entry, est)
                        ids_in.add(c)
                    if m in ("no", "maybe"):
                        keep.add(c)
                if keep:
                    rest.append((frozenset(keep), est, nd, fr))
            pending = rest
            if implicit is not None and not getattr(self, "track_implicit", False):
                if self.implicit_possible(s, hid):
                    entry = join_state(entry, implicit)
                    ids_in |= hid or {"?"}
            if entry is None:
                continue
            entry = entry.copy()
            # frames of callees may lie in the entry state: harmless
            if h.name:
                self.bind(h.name, mk(("xi", sorted(ids_in)[0], "T")) if len(ids_in) == 1 else TOP, entry, F, h)
            prev = getattr(F, "handling", None)
            F.handling = ids_in
            outs.append(self.exec_block(h.body, entry, F))
            F.handling = prev
        for p in pending:
            if self.handlers:
                self.handlers[-1].append(p)
        res = None
        for o in outs:
            res = join_state(res, o)
        if s.finalbody:
            if res is not None:
                res = self.exec_block(s.finalbody, res, F)
            for i in range(n_ret, len(F.returns)):
                v, rst, nd = F.returns[i]
                r2 = self.exec_block(s.finalbody, rst.copy(), F)
                if r2 is not None:
                    F.returns[i] = (v, r2, nd)
        return res

    def implicit_possible(self, s, hid):
        return True

    # ------------------------------------------------------------------ assignment targets
    def assign(self, t, v, st, F):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, F, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, F)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, F)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, F)
            self.set_attr(b, t.attr, v, st, F, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, F)
            k = self.eval(t.slice, st, F) if not isinstance(t.slice, ast.Slice) else None
            self.set_item(b, k, v, st, F, t)
        else:
            raise AnalysisBroken(f"assignment target {ast.dump(t)}")

    def unpack(self, t, v, st, F):
        n = len(t.elts)
        star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
        vals = [BOTTOM] * n
        any_ok = False
        for a in v.atoms:
            if a[0] == "t":
                if star is None:
                    if len(a[1]) != n:
                        continue
                    for i, x in enumerate(a[1]):
                        vals[i] = join(vals[i], x)
                else:
                    if len(a[1]) < n - 1:
                        continue
                    k = len(a[1]) - (n - 1)
                    parts = list(a[1][:star]) + [None] + list(a[1][star + k:])
                    for i, x in enumerate(parts):
                        if x is None:
                            x = self.new_list(st, F, t, a[1][star:star + k], tag="st")
                        vals[i] = join(vals[i], x)
                any_ok = True
            else:
                av = V(frozenset([a]), v.may, v.must)
                live = self.exact_list(av, st) if star is None else None
                if live is not None:
                    if len(live) == n:
                        vals = [join(x, y) for x, y in zip(vals, live)]
                        any_ok = True
                    continue
                elem, must, _ = self.iter_elems(av, st, F, t)
                if elem is None and not must:
                    if a[0] == "o" and st.heap[a[1]].kind in ("list", "dict", "set", "tuple"):
                        continue
                allv = elem if elem is not None else BOTTOM
                for m in must:
                    allv = join(allv, m) if allv.atoms else m
                if not allv.atoms:
                    allv = TOP.labelled(v.may, v.must)
                # a split-like list carries its labels in every piece
                for i, x in enumerate(t.elts):
                    y = allv
                    if i == star:
                        y = self.new_list(st, F, t, elem=allv, tag="st")
                    vals[i] = join(vals[i], y)
                any_ok = True
        if not any_ok:
            if len(v.atoms) == 1:
                self.wrong("ValueError", st, F=F, node=t)
            raise Dead()
        for x, y in zip(t.elts, vals):
            y = y.labelled(v.may, v.must) if (v.may or v.must) and not isinstance(x, ast.Starred) else y
            self.assign(x, y, st, F)

    def set_attr(self, b, attr, v, st, F, node):
        single = len(b.atoms) == 1
        for a in b.atoms:
            if a[0] != "o":
                if a[0] in ("k", "m", "x"):
                    self.hooks.global_write(self, F, node, f"{a[1]}.{attr}")
                continue
            oid = a[1]
            o = st.heap[oid]
            self.mutated(F, node, oid, st, f".{attr} =")
            if o.kind == "ext":
                self.hooks.set_ext(self, F, node, oid, o, attr, v, st)
                if o.cls and o.cls.startswith("lxml"):
                    if "attached" in o.flags:
                        self.emit(v, st)
                at = dict(o.attrs)
                strong = single and not o.summary
                if strong and attr in ("text", "tail") and at.get(attr) is not None and self.track_emission:
                    # text that is replaced is no longer part of the output
                    gone = self.labels(at[attr], st)[1] - self.labels(v, st)[1]
                    if gone & st.emitted:
                        st.emitted = st.emitted - gone
                at[attr] = v if strong else jopt(at.get(attr), v)
                st.heap[oid] = o.w(attrs=at, cmay=o.cmay, cmust=o.cmust)
            else:
                at = dict(o.attrs)
                at[attr] = v if single and not o.summary else jopt(at.get(attr), v)
                st.heap[oid] = o.w(attrs=at)

    def set_item(self, b, k, v, st, F, node):
        single = len(b.atoms) == 1
        for a in b.atoms:
            if a[0] == "xi" and a[1].startswith("lxml."):
                self.emit(v, st)
            if a[0] != "o":
                continue
            oid = a[1]
            o = st.heap[oid]
            self.mutated(F, node, oid, st, "[] =")
            strong = single and not o.summary
            if o.kind == "dict" or o.kind == "any":
                self.emit(v, st)
                self.emit_key(o, k, v, st)
                self.dict_store(oid, k if k is not None else TOP, self.snap(v, st), st, strong)
            elif o.kind == "ext":
                self.emit(v, st)
                m, n = self.labels(v, st)
                st.heap[oid] = o.w(cmay=o.cmay | m, cmust=o.cmust | n if strong else o.cmust,
                                   elem=jopt(o.elem, v))
            elif o.kind == "list":
                if isinstance(node.slice, ast.Slice):
                    elem, must, _ = self.iter_elems(v, st, F, node)
                    if strong and node.slice.lower is None and node.slice.upper is None:
                        live = self.exact_list(v, st)
                        st.heap[oid] = o.w(elem=elem, must=tuple(must),
                                           flags=o.flags - {"unordered"} if live is not None or elem is None and not self.objs(v)
                                           else o.flags | {"unordered"})
                    else:
                        for m in must:
                            elem = jopt(elem, m)
                        if elem is not None:
                            st.heap[oid] = o.w(elem=jopt(o.elem, elem))
                elif strong and self.exact_list(b, st) and isinstance(self.cint(k), int) and \
                        -len(o.must) <= self.cint(k) < len(o.must):
                    new = list(o.must)
                    new[self.cint(k)] = v
                    st.heap[oid] = o.w(must=tuple(new))
                else:
                    o2 = o.w(elem=jopt(o.elem, v))
                    st.heap[oid] = o2
            else:
                st.heap[oid] = o.w(elem=jopt(o.elem, v))

    def emit_key(self, o, k, v, st):
        """A key written into a tree of dicts (with text or another dict as its value) is written."""
        if k is None or not (k.may or k.must):
            return
        if "__factory__" in o.attrs or all(
            is_str_atom(a) and a[2:] != ("",) or a[0] == "o" and st.heap[a[1]].kind in ("dict", "list") for a in v.atoms
        ):
            self.emit(k, st)

    def dict_store(self, oid, k, v, st, strong):
        o = st.heap[oid]
        ks = list(k.atoms)
        if len(ks) == 1 and ks[0][0] in ("c", "e") and not k.may:
            key = ks[0][2] if ks[0][0] == "c" else ks[0]
            items = dict(o.items)
            if strong:
                items[key] = v
                st.heap[oid] = o.w(items=items)
            else:
                if key in items:
                    items[key] = join(items[key], v)
                    st.heap[oid] = o.w(items=items)
                else:
                    st.heap[oid] = o.w(ekey=jopt(o.ekey, k), elem=jopt(o.elem, v))
            return
        if strong and len(o.must) < MAX_MUST and (k, v) not in o.must:
            # existing const items may be overwritten by an unknown key
            items = {q: (join(x, v) if any(self.eq_atoms(y, ("c", type(q).__name__, q), st) is not False for y in ks) else x)
                     for q, x in o.items.items()}
            st.heap[oid] = o.w(must=o.must + ((k, v),), items=items)
        else:
            st.heap[oid] = o.w(ekey=jopt(o.ekey, k), elem=jopt(o.elem, v))

    def list_append(self, oid, v, st, strong):
        o = st.heap[oid]
        v = self.snap(v, st)
        if strong and not o.summary and len(o.must) < MAX_MUST:
            st.heap[oid] = o.w(must=o.must + (v,))
        else:
            if len(o.must) >= MAX_MUST and strong and not o.summary:
                last = o.must[-1]
                merged = V(_norm(last.atoms | v.atoms), last.may | v.may, last.must | v.must)
                st.heap[oid] = o.w(must=o.must[:-1] + (merged,))
            else:
                st.heap[oid] = o.w(elem=jopt(o.elem, v))

    def list_extend(self, oid, elem, must, st, strong):
        for m in must:
            self.list_append(oid, m, st, strong)
        if elem is not None:
            o = st.heap[oid]
            st.heap[oid] = o.w(elem=jopt(o.elem, elem))

    # ------------------------------------------------------------------ iteration
    def iter_elems(self, v, st, F, node):
        """-> (generic element or None, definite elements, is_exact)."""
        elem = None
        musts = []
        single = len(v.atoms) == 1
        if not v.atoms:
            raise Dead()
        alive = False
        for a in sorted(v.atoms, key=repr) if not single else v.atoms:
            e, m = None, ()
            k = a[0]
            if k == "o":
                o = st.heap.get(a[1])
                if o is not None:
                    self.hooks.iter_obj(self, F, node, a[1], o, st)
                if o is None:
                    e = TOP
                elif o.kind == "gen":
                    try:
                        e, m = self.run_gen(a[1], st, F, node)
                    except Dead:
                        continue
                elif o.kind in ("list", "tuple", "set", "any"):
                    if o.kind == "set":
                        self.hooks.iter_set(self, F, node, v, st)
                    e, m = o.elem, o.must
                    if o.cmay and e is None and not m:
                        e = TOP.labelled(o.cmay, o.cmust)
                elif o.kind == "dict":
                    e = o.ekey if o.ekey is not None else (TOP if o.elem is not None else None)
                    m = tuple(x[0] for x in o.must) + tuple(const(x) if not isinstance(x, tuple) else mk(x) for x in o.items)
                elif o.kind == "ext":
                    lm, ln = self.labels(mk(a), st)
                    e = (o.elem if o.elem is not None else TOP).labelled(lm, ln)
                    if "fresh" in o.flags:
                        e = o.elem.labelled(lm, ln) if o.elem is not None else None
                        if e is not None and "kids" in o.flags:
                            m = (e,)
                    elif o.cls and o.cls.startswith("lxml"):
                        e = mk(("xi", "lxml.etree._Element", "?")).labelled(lm, ln)
                    if ln and e is not None:
                        m = (e,)
                elif o.kind == "inst":
                    ci = self.classes.get(o.cls)
                    it = self.find_member(ci, "__iter__") if ci else None
                    if it is not None:
                        r = self.call_method_on(a, "__iter__", [], {}, st, F, node)
                        if a in r.atoms and self.find_member(ci, "__next__") is not None:
                            e, m = self.run_next(a, st, F, node), ()
                        else:
                            e, m, _ = self.iter_elems(r, st, F, node) if a not in r.atoms else (TOP, (), False)
                    else:
                        e = TOP
            elif k == "t":
                m = a[1]
            elif k == "tn":
                e = a[1]
                m = (a[1],) if a[2] else ()
            elif k == "s":
                e = STR_T.labelled(v.may, v.must)
                m = (e,) if a[1] != "?" else ()
            elif k == "c":
                if a[1] == "str" and has_token(a[2]):
                    e = STR_T.labelled(v.may, v.must)
                    m = (e,)
                elif a[1] == "str":
                    m = tuple(const(c) for c in a[2][:MAX_MUST])
                elif a[1] in ("bytes",):
                    e = INT
                else:
                    if a[2] is None or a[1] in ("int", "bool"):
                        if single:
                            self.wrong("TypeError", st, node, F)
                        self.maybe_raise({"builtins.TypeError"}, st, node, F, "iteration over non-iterable")
                        continue
            elif k in ("i", "fl", "f", "re", "m"):
                continue
            elif k == "k":
                ci = self.classes.get(a[1])
                if ci and ci.is_enum:
                    m = tuple(ci.members.values())
            else:
                if k == "top":
                    self.maybe_raise({"builtins.TypeError"}, st, node, F, "iteration over unknown value")
                e = TOP.labelled(v.may, v.must)
                if k == "xi" and a[1] == "re.Match[]":
                    e = mk(("xi", "re.Match", "T")).labelled(v.may, v.must)
                elif k == "xi" and a[1].startswith("lxml."):
                    e = mk(("xi", "lxml.etree._Element", "?")).labelled(v.may, v.must)
                if v.must:
                    m = (e,)
            alive = True
            if single:
                elem, musts = e, list(m)
            else:
                for x in m:
                    elem = jopt(elem, x)
                elem = jopt(elem, e) if e is not None else elem
        if not alive:
            raise Dead()
        if v.may and single and next(iter(v.atoms))[0] == "o":
            # labels attached to the container as a whole (e.g. a split string)
            pass
        return elem, tuple(musts), single

    def run_next(self, a, st, F, node):
        """Elements of an iterator object: its __next__ run any number of times."""
        e = None
        for _ in range(3):
            s2 = st.copy()
            saved = self.handlers
            try:
                v = self.call_method_on(a, "__next__", [], {}, s2, F, node)
            except Dead:
                break
            finally:
                self.handlers = saved
            e2 = jopt(e, v)
            j = join_state(st, s2)
            same = e2 == e and j == st
            e = e2
            st.set(j)
            if same:
                break
        return e

    def run_gen(self, oid, st, F, node):
        o = st.heap[oid]
        if o.elem is not None or o.must or "done" in o.flags:
            return o.elem, o.must
        g = o.attrs.get("__gen__")
        if g is None or o.cls not in self.funcs:
            return TOP, ()
        fa, fid_fr = g, None
        fi = self.funcs[o.cls]
        r = self.hooks.gen_body(self, F, node, fi, st)
        if r is not None:
            return r
        args = {k[4:]: v for k, v in o.attrs.items() if k.startswith("arg:")}
        fatom = ("f", o.cls, dict(o.items).get("fid").atoms.__iter__().__next__()[2])
        ylist = self.alloc(st, f"{oid}$y", Obj("list"))
        (ya,) = ylist.atoms
        if o.cls == "genexp":
            pass
        self.run_body(fi, fatom, args, st, F, node, ylist_oid=ya[1])
        y = st.heap[ya[1]]
        return y.elem, y.must

    # ------------------------------------------------------------------ functions
    def call_func(self, fatom, args, kwargs, st, F, node):
        fi = self.funcs[fatom[1]]
        r = self.hooks.call_func(self, F, node, fi, args, kwargs, st)
        if r is not None:
            return r
        self.call_count += 1
        bound = self.bind_args(fi, fatom, args, kwargs, st, F, node)
        if fi.is_gen:
            attrs = {"arg:" + k: v for k, v in bound.items()}
            attrs["__gen__"] = TRUE
            return self.alloc(st, self.site(F, node, "g:" + fi.name),
                              Obj("gen", fi.id, attrs, items={"fid": mk(("c", "str", fatom[2]))}))
        return self.run_body(fi, fatom, bound, st, F, node)

    def bind_args(self, fi, fatom, args, kwargs, st, F, node):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        bound = {}
        dflt = self.defaults.get((fi.id, fatom[2]), {})
        star = kwargs.get("*")
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
            else:
                extra.append(v)
        kw_extra = {}
        for k, v in kwargs.items():
            if k in ("*", "**"):
                continue
            if k in pos or k in kwonly:
                bound[k] = v
            else:
                kw_extra[k] = v
        unknown = None
        if star is not None:
            unknown = TOP.labelled(*self.labels(star, st))
            e, m, _ = self.iter_elems(star, st, F, node)
            u = e if e is not None else BOTTOM
            for x in m:
                u = join(u, x)
            if u.atoms:
                unknown = u
        dstar = kwargs.get("**")
        dunk = None
        if dstar is not None:
            m, n = self.labels(dstar, st)
            dunk = TOP.labelled(m, n)
            for oid in self.objs(dstar):
                o = st.heap[oid]
                for k, v in o.items.items():
                    if isinstance(k, str) and (k in pos or k in kwonly) and k not in bound:
                        bound[k] = v
                if o.kind == "dict" and o.elem is None and not o.must:
                    dunk = None
        if a.vararg:
            if unknown is not None:
                extra_v = mk(("tn", join(unknown, join_all(extra)) if extra else unknown, bool(extra)))
            else:
                extra_v = mk(("t", tuple(extra)))
            bound[a.vararg.arg] = extra_v
        elif extra:
            raise Dead()
        if a.kwarg:
            bound[a.kwarg.arg] = self.alloc(st, self.site(F, node, "kw"), Obj("dict", items=kw_extra,
                                            elem=dunk, ekey=STR if dunk is not None else None))
        elif kw_extra:
            raise Dead()
        for p in pos + kwonly:
            if p not in bound:
                if unknown is not None and p in pos:
                    bound[p] = join(unknown, dflt[p]) if p in dflt else unknown
                elif dunk is not None:
                    bound[p] = join(dunk, dflt[p]) if p in dflt else dunk
                elif p in dflt:
                    bound[p] = dflt[p]
                else:
                    raise Dead()
        return bound

    def run_body(self, fi, fatom, bound, st, F, node, ylist_oid=None):
        depth = F.depth + 1
        rec = sum(1 for x in self.active if x is fi)
        if depth > MAX_DEPTH or rec >= MAX_REC:
            may = must = EMPTY
            for v in bound.values():
                m, n = self.labels(v, st)
                may, must = may | m, must | n
            v = TOP.labelled(may, must)
            if ylist_oid is not None:
                st.heap[ylist_oid] = st.heap[ylist_oid].w(elem=v, must=(v,) if must else ())
                return NONE
            return v
        self.visited_funcs.add(fi.full)
        fid = f"{fi.qual}@{depth}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
        parent = fatom[2]
        parents = []
        if not parent.startswith("M:"):
            parents = [parent] + self.parent_chain.get(parent, [])
        self.parent_chain[fid] = parents
        G = Frame(fi, fi.module, fid, parents, depth, F, node)
        G.split = node is not None and node is self.split_call
        G.ylist = ylist_oid
        G.top = ylist_oid is not None
        st.frames[fid] = dict(bound)
        self.hooks.enter(self, G, fi, node, st)
        self.active.append(fi)
        before = set(st.heap)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st, G)
                if not fi.has_nested:
                    st.frames.pop(fid, None)
                return v
            out = self.exec_block(fi.node.body, st.copy(), G)
        finally:
            self.active.pop()
        res = None
        rv = BOTTOM
        if out is not None:
            res = out
            rv = NONE
        for v, s, _ in G.returns:
            res = join_state(res, s)
            rv = join(rv, self.snap(v, s) if v.atoms else v)
        self.on_return(G, rv, res)
        if G.split and res is not None and node is self.split_call:
            self.split_runs.append((fi, fid, bound, ([(NONE, out)] if out is not None else []) + [(v, s) for v, s, _ in G.returns], before))
        if res is None:
            st.frames.pop(fid, None)
            raise Dead()
        st.set(res.copy())
        if not fi.has_nested:
            st.frames.pop(fid, None)
        self.gc(st, rv, before)
        return rv

    def gc(self, st, rv, before):
        """Drop objects allocated since `before` that nothing refers to any more."""
        heap = st.heap
        new = [o for o in heap if o not in before]
        if len(new) < 4:
            return
        live = set()
        todo = list(rv.oids())
        for fid, fr in st.frames.items():
            if fid.startswith("M:"):
                continue
            for v in fr.values():
                if v._o is not EMPTY:
                    todo.extend(v.oids())
        for o in heap:
            if o in before:
                x = heap[o]
                if x._o is not EMPTY:
                    todo.extend(x.oids())
        while todo:
            o = todo.pop()
            if o in live:
                continue
            live.add(o)
            if o in heap and o not in before:
                todo.extend(heap[o].oids())
        for o in new:
            if o not in live:
                del heap[o]

    parent_chain = {}

    def on_return(self, G, rv, res):
        pass
