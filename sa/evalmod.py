"""Expression evaluation: the second half of the abstract interpreter."""
from __future__ import annotations

import ast
import re
import string
import posixpath
import builtins as _b

from .domain import *
from .domain import V, Obj, State, _norm
from .interp import (Interp as _Base, Frame, Dead, NONE_A, SOLID_METHODS, STR_BOOL, STR_INT, STR_LIST, STR_TUP,
                     LIST_MUT, XML_ATTACH, RegexFlags)
from .rxw import can_match_word, nonletter
from .project import AnalysisBroken, ClassInfo

PURE_BUILTIN_TYPES = {"str", "int", "bool", "float", "list", "tuple", "dict", "set", "frozenset", "bytes", "bytearray"}
RE_FUNCS = {"compile", "match", "fullmatch", "search", "sub", "finditer", "findall", "split", "subn", "escape"}


def strkind(a):
    if a[0] == "s":
        return a[1]
    if a[0] == "c" and a[1] == "str":
        return "S" if a[2].strip() else ("T" if a[2] else "?")
    return None


class Interp(_Base):
    # ------------------------------------------------------------------ dispatcher
    def eval(self, e, st, F):
        self.steps += 1
        return getattr(self, "e_" + type(e).__name__)(e, st, F)

    def e_Constant(self, e, st, F):
        if e.value is Ellipsis:
            return TOP
        return const(e.value)

    def e_Name(self, e, st, F):
        return self.lookup(e.id, st, F)

    def e_NamedExpr(self, e, st, F):
        v = self.eval(e.value, st, F)
        self.bind(e.target.id, v, st, F, e)
        return v

    def e_Tuple(self, e, st, F):
        vals, unk = [], None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, F)
                if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "t":
                    vals += list(next(iter(v.atoms))[1])
                else:
                    el, must, _ = self.iter_elems(v, st, F, x)
                    vals += list(must)
                    unk = jopt(unk, el) if el is not None else unk
            else:
                vals.append(self.eval(x, st, F))
        if unk is not None:
            for v in vals:
                unk = join(unk, v)
            return mk(("tn", unk, bool(vals)))
        v = mk(("t", tuple(vals)))
        return V(_norm(v.atoms))

    def e_List(self, e, st, F):
        must, elem = [], None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                el, mu, _ = self.iter_elems(self.eval(x.value, st, F), st, F, x)
                must += [self.snap(m, st) for m in mu]
                elem = jopt(elem, el) if el is not None else elem
            else:
                must.append(self.snap(self.eval(x, st, F), st))
        return self.new_list(st, F, e, must, elem)

    def e_Set(self, e, st, F):
        must = [self.eval(x, st, F) for x in e.elts]
        return self.new_list(st, F, e, must, kind="set")

    def e_Dict(self, e, st, F):
        v = self.alloc(st, self.site(F, e, "d"), Obj("dict"))
        (a,) = v.atoms
        for k, x in zip(e.keys, e.values):
            if k is None:
                src = self.eval(x, st, F)
                self.dict_update(a[1], src, st, F, e, True)
            else:
                kv = self.eval(k, st, F)
                xv = self.eval(x, st, F)
                self.dict_store(a[1], kv, self.snap(xv, st), st, True)
        return v

    def dict_update(self, oid, src, st, F, node, strong):
        for o2 in self.objs(src):
            o = st.heap[o2]
            if o.kind in ("dict", "any"):
                for k, v in o.items.items():
                    self.dict_store(oid, mk(k) if isinstance(k, tuple) else const(k), v, st, strong and len(src.atoms) == 1)
                for k, v in o.must:
                    self.dict_store(oid, k, v, st, strong and len(src.atoms) == 1)
                if o.elem is not None:
                    d = st.heap[oid]
                    st.heap[oid] = d.w(elem=jopt(d.elem, o.elem), ekey=jopt(d.ekey, o.ekey if o.ekey is not None else TOP))
            else:
                m, n = self.labels(src, st)
                d = st.heap[oid]
                st.heap[oid] = d.w(elem=jopt(d.elem, TOP.labelled(m, n)), ekey=jopt(d.ekey, TOP.labelled(m, n)))
        rest = [a for a in src.atoms if a[0] != "o" and a != NONE_A]
        if rest:
            d = st.heap[oid]
            x = TOP.labelled(src.may, src.must)
            st.heap[oid] = d.w(elem=jopt(d.elem, x), ekey=jopt(d.ekey, x))

    def e_JoinedStr(self, e, st, F):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.eval(x.value, st, F)
                spec = self.eval(x.format_spec, st, F) if x.format_spec is not None else None
                parts.append(self.formatted(v, x.conversion == 114, spec, isinstance(x.value, ast.Constant), st))
        return self.concat(parts, st, F, e)

    def formatted(self, v, as_repr, spec, plain, st):
        if as_repr:
            m, n = self.labels(v, st)
            v = STR_T.labelled(m, n)
        cs = self.const_args([spec, v], {}) if spec is not None else None
        if cs is not None and isinstance(cs[0], str) and isinstance(cs[1], (int, float, str)) and not has_token(cs[0]) \
                and not (isinstance(cs[1], str) and has_token(cs[1])):
            try:
                v = const(format(cs[1], cs[0])).labelled(v.may, v.must)
            except ValueError:
                pass
        elif spec is not None and not plain:
            m, n = self.labels(v, st)
            v = STR.labelled(m, n)
        return v

    def concat(self, parts, st, F, e):
        """The text of the values one after another."""
        kind, may, must, consts = "?", frozenset(), frozenset(), []
        allc = True
        ranks = ["?"]
        alts = [""]
        for v in parts:
            v = self.to_str(v, st, F, e)
            m, n = self.labels(v, st)
            may |= m
            must |= n
            ks = [strkind(a) for a in v.atoms]
            k = "?" if any(q in (None, "?") for q in ks) else ("T" if "T" in ks else "S")
            ranks.append(k)
            if allc and len(v.atoms) * len(alts) <= 12 and all(a[0] == "c" and isinstance(a[2], str) for a in v.atoms):
                alts = [p + a[2] for p in alts for a in v.atoms]
            else:
                allc = False
        if allc:
            return V(frozenset(("c", "str", p) for p in alts), may, must)
        k = min(ranks, key=lambda r: STR_RANK[r])
        if k in WORDK:
            k = "S"
        return strv(k, may, must)

    def format_parts(self, fmt, args, kwargs, st):
        """The values whose texts str.format() puts together, when the format is simple."""
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return None
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            if "{" in spec or "*" in kwargs or "**" in kwargs:
                return None
            if name == "":
                name, auto = str(auto), auto + 1
            if name.isdigit() and int(name) < len(args):
                v = args[int(name)]
            elif name in kwargs:
                v = kwargs[name]
            else:
                return None
            parts.append(self.formatted(v, conv == "r", const(spec) if spec else None, False, st))
        return parts

    def percent_parts(self, l, r):
        """As format_parts(), of the % operator with nothing but %s and %%."""
        fmt = next(iter(l.atoms))
        if len(l.atoms) != 1 or fmt[0] != "c" or not isinstance(fmt[2], str) or has_token(fmt[2]) or len(r.atoms) != 1:
            return None
        (a,) = r.atoms
        args = list(a[1]) if a[0] == "t" else [r] if a[0] in ("c", "s", "i") else None
        if args is None:
            return None
        parts = []
        for x in re.split(r"(%.?)", fmt[2]):
            if x == "%s":
                if not args:
                    return None
                parts.append(args.pop(0))
            elif x == "%%":
                parts.append(const("%"))
            elif x[:1] == "%":
                return None
            elif x:
                parts.append(const(x))
        return None if args else parts

    def to_str(self, v, st, F, node):
        """str(v)"""
        atoms = set()
        may, must = v.may, v.must
        for a in v.atoms:
            if is_str_atom(a):
                atoms.add(a)
            elif a[0] == "c":
                atoms.add(("c", "str", str(a[2])))
            elif a[0] in ("i", "fl", "by"):
                atoms.add(("s", "T"))
            elif a[0] == "o":
                m, n = self.labels(mk(a), st)
                may = may | m
                if len(v.atoms) == 1:
                    must = must | n
                o = st.heap[a[1]]
                if o.kind == "inst":
                    ci = self.classes.get(o.cls)
                    f = self.find_member(ci, "__str__") if ci else None
                    if f is not None:
                        try:
                            r = self.call_method_on(a, "__str__", [], {}, st, F, node)
                            atoms |= {x for x in r.atoms if is_str_atom(x)} or {("s", "?")}
                            may, must = may | r.may, must
                            continue
                        except Dead:
                            continue
                atoms.add(("s", "?") if o.kind == "ext" else ("s", "S"))
            else:
                m, n = self.labels(mk(a), st)
                may = may | m
                if len(v.atoms) == 1:
                    must = must | n
                atoms.add(("s", "?"))
        if not atoms:
            raise Dead()
        return V(_norm(frozenset(atoms)), may, must)

    def e_FormattedValue(self, e, st, F):
        v = self.eval(e.value, st, F)
        return self.to_str(v, st, F, e)

    def e_Lambda(self, e, st, F):
        return self.def_func(e, st, F)

    def e_IfExp(self, e, st, F):
        t, f = self.split(e.test, st, F)
        outs, vs = [], []
        for s, x in ((t, e.body), (f, e.orelse)):
            if s is None:
                continue
            try:
                v = self.eval(x, s, F)
                outs.append(s)
                vs.append(self.snap(v, s) if any(a[0] in ("o", "t") for a in v.atoms) else v)
            except Dead:
                pass
        if not outs:
            raise Dead()
        r = outs[0]
        for o in outs[1:]:
            r = join_state(r, o)
        if r is not st:
            st.set(r.copy())
        return join_all(vs)

    def e_BoolOp(self, e, st, F):
        cur = st.copy()
        outs, vs = [], []
        n = len(e.values)
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, cur, F)
            except Dead:
                cur = None
                break
            if i == n - 1:
                outs.append(cur)
                vs.append(v)
                break
            self.hooks.truth_test(self, F, x, v, cur)
            stop = isinstance(e.op, ast.Or)
            atoms = set()
            for a in v.atoms:
                if stop in self.atom_truth(a, cur):
                    if a[0] == "s" and a[1] == "?":
                        a = ("s", "T") if stop else ("c", "str", "")
                    elif a[0] == "tn" and not a[2]:
                        a = ("tn", a[1], True) if stop else ("t", ())
                    atoms.add(a)
            if atoms:
                s2 = cur.copy()
                try:
                    self.refine(x, stop, s2, F)
                    outs.append(s2)
                    vs.append(V(frozenset(atoms), v.may, v.must))
                except Dead:
                    pass
            if (not stop) not in self.truth(v, cur):
                break
            try:
                self.refine(x, not stop, cur, F)
            except Dead:
                break
        if not outs:
            raise Dead()
        r = outs[0]
        for o in outs[1:]:
            r = join_state(r, o)
        st.set(r.copy())
        return join_all(vs)

    def e_UnaryOp(self, e, st, F):
        v = self.eval(e.operand, st, F)
        if isinstance(e.op, ast.Not):
            self.hooks.truth_test(self, F, e.operand, v, st)
            return V(frozenset(x for t in self.truth(v, st) for x in const(not t).atoms))
        if isinstance(e.op, ast.USub) and len(v.atoms) == 1:
            (a,) = v.atoms
            if a[0] == "c" and a[1] in ("int", "float"):
                return const(-a[2])
        return V(INT.atoms, v.may, v.must)

    def e_Compare(self, e, st, F):
        l = self.eval(e.left, st, F)
        res = set()
        cur_true = True
        for op, re_ in zip(e.ops, e.comparators):
            r = self.eval(re_, st, F)
            t = self.compare(op, l, r, st, F, e)
            res_t = t
            if not (True in res_t):
                return FALSE
            if False in res_t:
                res.add(False)
            l = r
        res.add(True)
        return V(frozenset(x for t in res for x in const(t).atoms))

    def compare(self, op, l, r, st, F, node):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            res = set()
            for a in l.atoms:
                for b in r.atoms:
                    c = self.eq_atoms(a, b, st)
                    if c is None and isinstance(op, (ast.Is, ast.IsNot)):
                        bc = [x for x in (a, b) if x[0] == "c" and x[1] == "bool"]
                        if bc and any(x[0] in ("s", "o", "t") for x in (a, b)):
                            c = False
                    if c is True and isinstance(op, (ast.Is, ast.IsNot)) and a[0] == "t":
                        c = None
                    if c is None and a == b and a[0] == "o" and not st.heap[a[1]].summary:
                        c = True
                    res |= {True, False} if c is None else {c}
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                t = self.same_name(l, r)
                if t is not None:
                    return {t != neg}
                x, y = self.exact_set(l, st), self.exact_set(r, st)
                if x is not None and y is not None:
                    res = {x == y}
            return {x != neg for x in res}
        if isinstance(op, (ast.In, ast.NotIn)):
            if self.strict:
                t, u = self.pytype(r, st), self.pytype(l, st)
                if t in (int, bool, float, type(None)) or t is str and u is not None and u is not str:
                    self.wrong("TypeError", st, node, F)
                if t in (dict, set):
                    self.hashable(l, st, node, F)
            res = self.contains(l, r, st)
            neg = isinstance(op, ast.NotIn)
            return {x != neg for x in res}
        res = {True, False}
        if len(l.atoms) == 1 and len(r.atoms) == 1:
            (a,), (b,) = l.atoms, r.atoms
            x, y = self.exact_set(l, st), self.exact_set(r, st)
            if x is not None and y is not None:
                return {{ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]}
            if a[0] == "c" and b[0] == "c" and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
                x, y = a[2], b[2]
                v = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
                return {v}
            for p, q, lt in ((a, b, ast.Lt), (b, a, ast.Gt)):
                # 0 < positive
                if q == ("i", "+") and p[0] == "c" and isinstance(p[2], (int, float)) and p[2] <= 1:
                    le = ast.LtE if lt is ast.Lt else ast.GtE
                    if isinstance(op, lt) and p[2] <= 0 or isinstance(op, le):
                        return {True}
                    if not isinstance(op, (lt, le)) and (p[2] <= 0 or isinstance(op, (ast.Gt if lt is ast.Lt else ast.Lt))):
                        return {False}
        for a in list(l.atoms) + list(r.atoms):
            if a == ("top",):
                self.maybe_raise({"builtins.TypeError"}, st, node, F, "ordering comparison")
        return res

    def exact_set(self, v, st, sets=True):
        """The constants a set or the keys of a dict consist of, when exactly known."""
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] != "o":
            return None
        o = st.heap[a[1]]
        if o.summary or o.elem is not None or o.attrs.get("__factory__"):
            return None
        if o.kind == "dict":
            vals = [const(k) if not isinstance(k, tuple) else mk(k) for k in o.items] + [k for k, _ in o.must]
            if sets:
                return None
        elif o.kind == "set" or o.kind == "list" and ("keys" in o.flags or not sets):
            vals = list(o.must)
        else:
            return None
        out = self.const_args(vals, {})
        return None if out is None else frozenset(out)

    def set_op(self, name, l, r, st, F, node):
        x = self.exact_set(l, st)
        y = self.exact_set(r, st, sets=False)
        if x is None or y is None:
            return None
        z = {"difference": x - y, "intersection": x & y, "union": x | y, "symmetric_difference": x ^ y}[name]
        (a,) = l.atoms
        keep = {self.const_args([m], {})[0]: m for v in (r, l) for q in v.atoms if st.heap[q[1]].kind != "dict" for m in st.heap[q[1]].must}
        return self.new_list(st, F, node, [keep.get(k, const(k)) for k in sorted(z, key=repr)], None, kind="set", tag=name[0])

    def contains(self, l, r, st):
        res = set()
        live = self.exact_list(r, st)
        if live:
            same = [self.same_name(x, l) for x in live]
            if True in same:
                return {True}
            if None not in same:
                return {False}
        for b in r.atoms:
            if b[0] == "t":
                cand = b[1]
                for a in l.atoms:
                    rs = [self.eq_atoms(a, x, st) for v in cand for x in v.atoms]
                    if any(x is True for x in rs) and all(len(v.atoms) == 1 for v in cand):
                        res.add(True)
                    elif all(x is False for x in rs):
                        res.add(False)
                    else:
                        res |= {True, False}
            elif b[0] == "o" and st.heap[b[1]].kind in ("list", "set", "dict", "tuple"):
                o = st.heap[b[1]]
                if o.kind == "dict":
                    keys = [const(k) if not isinstance(k, tuple) else mk(k) for k in o.items] + [k for k, _ in o.must]
                    gen = o.ekey if o.ekey is not None else (TOP if o.elem is not None else None)
                else:
                    keys, gen = list(o.must), o.elem
                for a in l.atoms:
                    rs = [self.eq_atoms(a, x, st) for v in keys for x in v.atoms]
                    gs = [self.eq_atoms(a, x, st) for x in gen.atoms] if gen is not None else []
                    if any(q is True for v in keys if len(v.atoms) == 1 for q in [self.eq_atoms(a, next(iter(v.atoms)), st)]):
                        res.add(True)
                    elif all(x is False for x in rs + gs):
                        res.add(False)
                    else:
                        res |= {True, False}
            elif b[0] == "c" and b[1] == "str":
                for a in l.atoms:
                    if a[0] == "c" and a[1] == "str":
                        if a[2] not in b[2] and (has_token(a[2]) or has_token(b[2])):
                            r = self.hooks.token_in(a[2], b[2])
                            res |= {True, False} if r is None else {r}
                        else:
                            res.add(a[2] in b[2])
                    elif a[0] == "s" and (a[1] == "N" or a[1] == "W" and not any(c.isascii() and c.isalpha() for c in b[2])):
                        res.add(False)
                    else:
                        res |= {True, False}
            elif b[0] == "s" and b[1] in WORDK:
                for a in l.atoms:
                    if a[0] == "c" and a[1] == "str" and nonletter(a[2]):
                        res.add(False)
                    else:
                        res |= {True, False}
            else:
                res |= {True, False}
        return res or {True, False}

    def e_BinOp(self, e, st, F):
        l = self.eval(e.left, st, F)
        r = self.eval(e.right, st, F)
        return self.binop(e.op, l, r, st, F, e)

    def binop(self, op, l, r, st, F, node):
        if isinstance(op, ast.Add):
            atoms = set()
            lt = [a for a in l.atoms if a[0] in ("t", "tn")]
            rt = [a for a in r.atoms if a[0] in ("t", "tn")]
            for a in lt:
                for b in rt:
                    if a[0] == "t" and b[0] == "t":
                        atoms.add(("t", a[1] + b[1]))
                    else:
                        el = BOTTOM
                        for x in (a, b):
                            for y in (x[1] if x[0] == "t" else (x[1],)):
                                el = join(el, y)
                        ne = any((x[0] == "t" and x[1]) or (x[0] == "tn" and x[2]) for x in (a, b))
                        atoms.add(("tn", el, bool(ne)))
            lo = [a for a in l.atoms if a[0] == "o"]
            ro = [a for a in r.atoms if a[0] == "o"]
            if lo and ro:
                ev, mv, lone = self.iter_elems(V(frozenset(lo)), st, F, node)
                ew, mw, rone = self.iter_elems(V(frozenset(ro)), st, F, node)
                return self.new_list(st, F, node, tuple(mv) + tuple(mw), jopt(ev, ew), tag="+")
            strs = False
            for a in l.atoms:
                for b in r.atoms:
                    if is_str_atom(a) and is_str_atom(b):
                        strs = True
                        if a[0] == "c" and b[0] == "c":
                            atoms.add(("c", "str", a[2] + b[2]))
                        else:
                            k = min(strkind(a), strkind(b), key=lambda q: STR_RANK[q])
                            atoms.add(("s", "S" if k in WORDK else k))
                    elif a[0] == "c" and b[0] == "c" and a[1] == b[1] and a[1] in ("int", "float", "bytes"):
                        atoms.add(const(a[2] + b[2]).atoms.__iter__().__next__())
                    elif a[0] in ("i", "c") and b[0] in ("i", "c") and a[1:2] != ("str",) and b[1:2] != ("str",) \
                            and a != NONE_A and b != NONE_A and not is_str_atom(a) and not is_str_atom(b):
                        pos = [x == ("i", "+") or x[0] == "c" and isinstance(x[2], int) and x[2] > 0 for x in (a, b)]
                        neg = [x == ("i",) or x[0] == "c" and not (isinstance(x[2], int) and x[2] >= 0) for x in (a, b)]
                        atoms.add(("i", "+") if any(pos) and not any(neg) else ("i",))
                    elif ("top",) in (a, b) or "xi" in (a[0], b[0]):
                        o = b if a[0] in ("top", "xi") else a
                        atoms.add(("s", "?") if is_str_atom(o) else ("top",))
                    elif a[0] in ("by",) or b[0] in ("by",):
                        atoms.add(("by",))
            if not atoms:
                self.maybe_raise({"builtins.TypeError"}, st, node, F, "+ of unsupported operands")
                raise Dead()
            ml, nl = self.labels(l, st)
            mr, nr = self.labels(r, st)
            return V(_norm(frozenset(atoms)), ml | mr, nl | nr)
        may, must = l.may | r.may, l.must | r.must
        if isinstance(op, ast.Mod) and any(is_str_atom(a) for a in l.atoms):
            parts = self.percent_parts(l, r)
            if parts is not None:
                return self.concat(parts, st, F, node).labelled(l.may, l.must)
            m, n = self.labels(r, st)
            return strv("?", may | m, must | n)
        if isinstance(op, ast.Mult) and any(is_str_atom(a) for a in list(l.atoms) + list(r.atoms)):
            return strv("?", may, must)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            lo = [o for o in self.objs(l) if st.heap[o].kind in ("set", "dict", "list")]
            if lo and len(l.atoms) == 1 and len(r.atoms) == 1 and self.exact_set(r, st) is not None:
                x = self.set_op({ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference", ast.BitXor: "symmetric_difference"}[type(op)], l, r, st, F, node)
                if x is not None:
                    return x
            if lo:
                k = st.heap[lo[0]].kind
                el, mu, _ = self.iter_elems(l, st, F, node)
                e2, m2 = None, ()
                if isinstance(op, (ast.BitOr, ast.BitXor)) and self.objs(r):
                    e2, m2, _ = self.iter_elems(r, st, F, node)
                if k == "dict":
                    v = self.alloc(st, self.site(F, node, "d|"), Obj("dict"))
                    (a,) = v.atoms
                    self.dict_update(a[1], l, st, F, node, True)
                    self.dict_update(a[1], r, st, F, node, True)
                    return v
                if isinstance(op, ast.BitOr):
                    return self.new_list(st, F, node, tuple(mu) + tuple(m2), jopt(el, e2), kind=k, tag="|")
                for x in mu:
                    el = jopt(el, x)
                return self.new_list(st, F, node, (), el, kind=k, tag="-")
            # type unions such as `str | None`
            if any(a[0] in ("x", "k", "t") or a == NONE_A for a in l.atoms) and isinstance(op, ast.BitOr):
                return mk(("t", (l, r)))
            fl = [a for a in list(l.atoms) + list(r.atoms) if a[0] == "c" and isinstance(a[2], int)]
            if len(fl) == 2 and isinstance(op, ast.BitOr):
                return const(fl[0][2] | fl[1][2])
        la, ra = list(l.atoms), list(r.atoms)
        if len(la) == 1 and len(ra) == 1 and la[0][0] == "c" and ra[0][0] == "c" and \
                isinstance(la[0][2], int) and isinstance(ra[0][2], int):
            x, y = la[0][2], ra[0][2]
            try:
                if isinstance(op, ast.Sub):
                    return const(x - y)
                if isinstance(op, ast.Mult):
                    return const(x * y)
            except Exception:
                pass
        if isinstance(op, ast.Mult):
            for x, y in ((l, r), (r, l)):
                if any(a[0] in ("t", "tn", "o") for a in x.atoms):
                    n = self.cint(y)
                    t = next(iter(x.atoms))
                    if len(x.atoms) == 1 and t[0] == "t" and isinstance(n, int):
                        return mk(("t", t[1] * n)).labelled(l.may, l.must)
                    live = self.exact_list(x, st)
                    if live is not None and isinstance(n, int) and n < 100:
                        return self.new_list(st, F, node, live * max(n, 0), tag="*")
                    return V(TOP.atoms, may, must)
        if isinstance(op, (ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod, ast.LShift, ast.RShift, ast.BitAnd)):
            return V(INT.atoms, may, must)
        return V(TOP.atoms, may, must)

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st, F):
        return self.comp(e, st, F, "list")

    def e_GeneratorExp(self, e, st, F):
        n = self.hooks.events
        return self.lazy_if(n, self.comp(e, st, F, "list"), st)

    def lazy_if(self, n, v, st):
        """Evaluated eagerly here, lazily by Python: marked if anything the hooks care about happened on the way."""
        if self.hooks.events != n:
            for oid in self.objs(v):
                o = st.heap[oid]
                st.heap[oid] = o.w(flags=o.flags | {"lazy"})
        return v

    def e_SetComp(self, e, st, F):
        return self.comp(e, st, F, "set")

    def e_DictComp(self, e, st, F):
        return self.comp(e, st, F, "dict")

    def comp(self, e, st, F, kind):
        out = self.alloc(st, self.site(F, e, "c" + kind[0]), Obj(kind))
        (oa,) = out.atoms
        # comprehension variables live in the frame, restored afterwards
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        old_extra = getattr(F, "extra", frozenset())
        F.extra = old_extra | names
        fr0 = st.frames.get(F.fid, {})
        saved = {n: fr0.get(n) for n in names}
        cfid = F.fid

        def setv(t, v, s):
            if isinstance(t, ast.Name):
                fr = dict(s.frames.get(cfid, {}))
                fr[t.id] = v
                s.frames[cfid] = fr
            elif isinstance(t, (ast.Tuple, ast.List)):
                tmp = Frame(F.fi, F.module, cfid, F.parents, F.depth, F.caller, F.call_node)
                self.comp_unpack(t, v, s, F, setv)
            else:
                self.assign(t, v, s, F)

        def rec(i, s, definite):
            """process generators[i:] in s (returns state)"""
            if i == len(e.generators):
                if kind == "dict":
                    k = self.eval(e.key, s, F)
                    v = self.eval(e.value, s, F)
                    self.dict_store(oa[1], k, self.snap(v, s), s, definite)
                else:
                    v = self.eval(e.elt, s, F)
                    self.list_append(oa[1], v, s, definite)
                return s
            g = e.generators[i]
            it = self.eval(g.iter, s, F)
            elem, must, _ = self.iter_elems(it, s, F, g.iter)

            def one(state, v, definite):
                state = state.copy()
                try:
                    setv(g.target, v, state)
                    cur, skipped = state, None
                    for c in g.ifs:
                        t, f = self.split(c, cur, F)
                        skipped = join_state(skipped, f)
                        cur = t
                        if cur is None:
                            break
                    if cur is not None:
                        try:
                            cur = rec(i + 1, cur, definite)
                        except Dead:
                            cur = None
                    return join_state(cur, skipped)
                except Dead:
                    return None

            if elem is not None:
                s = self.fix(s, lambda x: one(x, elem, False))
            for m in must:
                s = one(s, m, definite)
                if s is None:
                    raise Dead()
            return s

        try:
            r = rec(0, st.copy(), True)
        finally:
            F.extra = old_extra
        st.set(r.copy())
        fr = dict(st.frames.get(F.fid, {}))
        for n, v in saved.items():
            if v is None:
                fr.pop(n, None)
            else:
                fr[n] = v
        st.frames[F.fid] = fr
        return out

    def comp_unpack(self, t, v, s, F, setv):
        class _N:
            pass
        # reuse unpack with a temporary assign
        orig = self.assign
        try:
            self.assign = lambda tt, vv, ss, FF: setv(tt, vv, ss)
            self.unpack(t, v, s, F)
        finally:
            self.assign = orig

    # ------------------------------------------------------------------ yields
    def e_Yield(self, e, st, F):
        v = self.eval(e.value, st, F) if e.value is not None else NONE
        self.do_yield(v, st, F, e)
        return NONE

    def do_yield(self, v, st, F, node):
        self.on_yield(v, st, F, node)
        if F.ylist is not None:
            self.list_append(F.ylist, v, st, True)

    def on_yield(self, v, st, F, node):
        pass

    def e_YieldFrom(self, e, st, F):
        v = self.eval(e.value, st, F)
        elem, must, _ = self.iter_elems(v, st, F, e)
        for m in must:
            self.do_yield(m, st, F, e)
        if elem is not None:
            self.on_yield(elem, st, F, e)
            if F.ylist is not None:
                o = st.heap[F.ylist]
                st.heap[F.ylist] = o.w(elem=jopt(o.elem, elem))
        return NONE

    def e_Starred(self, e, st, F):
        return self.eval(e.value, st, F)

    def e_Slice(self, e, st, F):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, st, F)
        return TOP

    def e_Await(self, e, st, F):
        return TOP

    # ------------------------------------------------------------------ attribute / subscript
    def e_Attribute(self, e, st, F):
        b = self.eval(e.value, st, F)
        return self.get_attr(b, e.attr, st, F, e)

    def get_attr(self, b, attr, st, F, node):
        outs = []
        for a in list(b.atoms):
            try:
                outs.append(self.attr1(a, attr, b, st, F, node))
            except Dead:
                pass
        if not outs:
            raise Dead()
        return join_all(outs)

    def attr1(self, a, attr, b, st, F, node):
        k = a[0]
        if k == "o":
            o = st.heap[a[1]]
            if attr in o.attrs and o.kind in ("inst", "ext"):
                return o.attrs[attr]
            if o.kind == "inst":
                ci = self.classes.get(o.cls)
                m = self.find_member(ci, attr) if ci else None
                if m is not None:
                    outs = []
                    for x in m.atoms:
                        if x[0] == "f":
                            fi = self.funcs[x[1]]
                            if any(d.endswith("property") for d in fi.decorators):
                                outs.append(self.call_func(x, [mk(a)], {}, st, F, node))
                            elif "staticmethod" in fi.decorators:
                                outs.append(mk(x))
                            else:
                                outs.append(mk(("bm", x, mk(a))))
                        else:
                            outs.append(mk(x))
                    return join_all(outs)
                if attr == "__dict__":
                    return TOP.labelled(*self.labels(mk(a), st))
                if attr == "__class__":
                    return mk(("k", o.cls))
                if any(isinstance(c, str) and c not in ("typing.Generic", "builtins.object") for c in (ci.mro if ci else ["?"])):
                    return TOP.labelled(*self.labels(mk(a), st))
                if o.cmay or "opaque" in o.flags:
                    return TOP.labelled(o.cmay, o.cmust)
                self.maybe_raise({"builtins.AttributeError"}, st, node, F, f".{attr} of {o.cls}")
                raise Dead()
            if o.kind == "ext":
                return self.ext_attr(a[1], attr, st, F, node)
            return mk(("bx", attr, mk(a)))
        if k == "m":
            fr = st.frames.get("M:" + a[1]) or self.base.frames.get("M:" + a[1], {})
            if attr in fr:
                return fr[attr]
            if a[1] + "." + attr in self.p.modules:
                return mk(("m", a[1] + "." + attr))
            raise Dead()
        if k == "x":
            full = a[1] + "." + attr
            if full in self.p.modules:
                return mk(("m", full))
            return mk(("x", full))
        if k == "k":
            ci = self.classes[a[1]]
            m = self.find_member(ci, attr)
            if m is not None:
                return m
            if attr == "__name__":
                return const(ci.name)
            return TOP
        if k == "e":
            if attr == "name":
                return const(a[2])
            if attr == "value":
                return TOP
            return TOP
        if k == "c" and a[2] is None:
            self.maybe_raise({"builtins.AttributeError"}, st, node, F, f"None.{attr}")
            raise Dead()
        if k in ("s", "c", "i", "fl", "by", "t", "tn", "re"):
            if k == "re" and attr == "pattern":
                return const(a[1])
            return mk(("bx", attr, V(frozenset([a]), b.may, b.must)))
        if k in ("f", "bm", "bx"):
            if attr in ("__name__", "__doc__", "__qualname__"):
                return STR
            return TOP
        if k == "xi":
            if a[1].startswith("lxml.") and attr in ("tag", "text", "tail", "attrib", "nsmap", "prefix"):
                if attr == "attrib":
                    return mk(("xi", "lxml.etree._Attrib", "?")).labelled(b.may, b.must)
                if attr == "nsmap":
                    return mk(("xi", "dict", "?"))
                if attr == "tag":
                    return V(frozenset([("s", "T"), ("x", "lxml.etree.Comment")]), b.may, b.must)
                return V(frozenset([("s", "?"), NONE_A]), b.may, b.must)
            return TOP.labelled(b.may, b.must)
        if k == "top":
            self.maybe_raise({"builtins.AttributeError"}, st, node, F, f".{attr} of an unknown value")
        return TOP.labelled(b.may, b.must)

    def ext_attr(self, oid, attr, st, F, node):
        o = st.heap[oid]
        m, n = self.labels(mk(("o", oid)), st)
        if o.cls and o.cls.startswith("lxml"):
            if attr in ("text", "tail"):
                if "fresh" in o.flags:
                    return NONE
                return V(frozenset([NONE_A, ("s", "?")]), m, frozenset())
            if attr in ("nsmap",):
                return mk(("xi", "dict", "?"))
            if attr == "attrib":
                return V(frozenset([("xi", "lxml.etree._Attrib", "?")]), m, n)
            if attr == "tag":
                t = o.attrs.get("__tag__")
                if t is not None and all(a[:2] == ("c", "str") for a in t.atoms):
                    return V(frozenset(("x", f"lxml.etree.{a[2][1:-1]}") if a[2][:1] == "<" else a for a in t.atoms), m)
                return STR_T.labelled(m)
        if o.cls == "polib.POEntry" and attr == "obsolete":
            return FALSE  # not given to the constructor, nor set since
        if o.cls and o.cls.startswith("polib"):
            # a lazily created part of the object, so that what is put into it is seen in the whole
            v = self.alloc(st, f"{oid}.{attr}", Obj("ext", o.cls + "." + attr, owner=o.owner, summary=o.summary, cmay=o.cmay, cmust=o.cmust))
            at = dict(st.heap[oid].attrs)
            at[attr] = v
            st.heap[oid] = st.heap[oid].w(attrs=at)
            return v
        base = TOP.labelled(m, n)
        if o.elem is not None and o.cls and o.cls.startswith("fluent."):
            return V(_norm(o.elem.atoms | {("top",)}), m, n)
        return base

    def e_Subscript(self, e, st, F):
        b = self.eval(e.value, st, F)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st, F) if e.slice.lower is not None else None
            hi = self.eval(e.slice.upper, st, F) if e.slice.upper is not None else None
            if e.slice.step is not None:
                self.eval(e.slice.step, st, F)
            return self.get_slice(b, lo, hi, st, F, e)
        k = self.eval(e.slice, st, F)
        return self.get_item(b, k, st, F, e)

    @staticmethod
    def cint(v):
        if v is None:
            return None
        if len(v.atoms) == 1:
            (a,) = v.atoms
            if a[0] == "c" and isinstance(a[2], int) and not isinstance(a[2], bool):
                return a[2]
        return "?"

    def get_slice(self, b, lo, hi, st, F, node):
        outs = []
        i, j = self.cint(lo), self.cint(hi)
        for a in b.atoms:
            k = a[0]
            if k == "t":
                if i != "?" and j != "?":
                    outs.append(mk(("t", a[1][i:j])))
                elif a[1]:
                    outs.append(mk(("tn", join_all(a[1]), False)))
                else:
                    outs.append(mk(a))
            elif k == "tn":
                outs.append(mk(("tn", a[1], False)))
            elif k == "c" and a[1] == "str":
                if i != "?" and j != "?" and not has_token(a[2]):
                    outs.append(const(a[2][i:j]).labelled(b.may, b.must))
                elif has_token(a[2]) and (r := self.hooks.token_slice(a[2], i, j)) is not None:
                    outs.append(const(r).labelled(b.may, b.must))
                else:
                    outs.append(STR.labelled(b.may, b.must))
            elif k == "s":
                if i in (None, 0) and j is None:
                    outs.append(V(frozenset([a]), b.may, b.must))
                elif a[1] in WORDK and i in (None, 0) and j == 1 or j is None and i == -1:
                    outs.append(strv("W" if a[1] in WORDK else "?", b.may, b.must))
                else:
                    outs.append(STR.labelled(b.may, b.must))
            elif k == "o":
                o = st.heap[a[1]]
                if o.kind in ("list", "any", "tuple"):
                    elem, must = o.elem, o.must
                    if i is None and j is None:
                        outs.append(self.new_list(st, F, node, must, elem, tag="sl"))
                    elif i != "?" and j != "?" and (ex := self.exact_list(mk(a), st)) is not None:
                        outs.append(self.new_list(st, F, node, ex[i:j], None, tag="sl"))
                    else:
                        for m in must:
                            elem = jopt(elem, m)
                        outs.append(self.new_list(st, F, node, (), elem, tag="sl"))
                        (x,) = outs[-1].atoms
                        st.heap[x[1]] = st.heap[x[1]].w(flags=o.flags & {"split"})
                else:
                    outs.append(TOP.labelled(*self.labels(mk(a), st)))
            elif k == "c" and a[2] is None:
                self.maybe_raise({"builtins.TypeError"}, st, node, F, "slice of None")
            else:
                if k == "top":
                    self.maybe_raise({"builtins.TypeError"}, st, node, F, "slice of unknown value")
                outs.append(TOP.labelled(b.may, b.must))
        if not outs:
            raise Dead()
        r = join_all(outs)
        return r

    def get_item(self, b, k, st, F, node):
        outs = []
        idx = self.cint(k)
        if self.strict:
            t, u = self.pytype(b, st), self.pytype(k, st)
            if t in (int, bool, float, set, type(None)) or t in (list, tuple, str, bytes) and u is not None and u not in (int, bool):
                self.wrong("TypeError", st, node, F)
            if t is dict:
                self.hashable(k, st, node, F)
        for a in b.atoms:
            t = a[0]
            if t == "t":
                if idx != "?" and idx is not None:
                    try:
                        outs.append(a[1][idx])
                    except IndexError:
                        self.maybe_raise({"builtins.IndexError"}, st, node, F, "tuple index")
                elif a[1]:
                    self.maybe_raise({"builtins.IndexError"}, st, node, F, "tuple index")
                    outs.append(join_all(a[1]))
            elif t == "tn":
                if not (a[2] and idx in (0, -1)):
                    self.maybe_raise({"builtins.IndexError"}, st, node, F, "tuple index")
                outs.append(a[1])
            elif t == "c" and a[1] == "str":
                if has_token(a[2]):
                    r = self.hooks.token_item(a[2], idx)
                    if r == "":
                        self.maybe_raise({"builtins.IndexError"}, st, node, F, "string index")
                    else:
                        outs.append(const(r).labelled(b.may, b.must) if r is not None else STR_T.labelled(b.may, b.must))
                elif idx != "?" and idx is not None:
                    try:
                        outs.append(const(a[2][idx]).labelled(b.may, b.must))
                    except IndexError:
                        self.maybe_raise({"builtins.IndexError"}, st, node, F, "string index")
                else:
                    self.maybe_raise({"builtins.IndexError"}, st, node, F, "string index")
                    outs.append(STR_T.labelled(b.may, b.must))
            elif t == "s":
                if not (a[1] != "?" and idx in (0, -1)):
                    self.maybe_raise({"builtins.IndexError"}, st, node, F, "string index")
                outs.append(STR_T.labelled(b.may, b.must))
            elif t == "o":
                o = st.heap[a[1]]
                if o.kind in ("list", "any", "tuple") and not (o.kind == "any" and o.items):
                    if not (o.must and idx in (0, -1)):
                        self.maybe_raise({"builtins.IndexError"}, st, node, F, "list index")
                    v = o.elem
                    if v is None and len(o.must) and isinstance(idx, int) and -len(o.must) <= idx < len(o.must) \
                            and "unordered" not in o.flags:
                        outs.append(o.must[idx])
                        continue
                    for m in o.must:
                        v = jopt(v, m)
                    if v is not None:
                        outs.append(v)
                elif o.kind == "dict":
                    outs += self.dict_get(a[1], k, st, F, node, missing="raise", strong=len(b.atoms) == 1 and not o.summary)
                elif o.kind == "ext":
                    m, n = self.labels(mk(a), st)
                    if "fresh" in o.flags:
                        if o.elem is not None and o.elem.atoms:
                            outs.append(o.elem.labelled(m))
                        else:
                            self.maybe_raise({"builtins.IndexError"}, st, node, F, "item of an element without any")
                    elif o.cls and o.cls.startswith("lxml"):
                        outs.append(mk(("xi", "lxml.etree._Element", "?")).labelled(m))
                    else:
                        outs.append(TOP.labelled(m, n))
                elif o.kind == "inst":
                    ci = self.classes.get(o.cls)
                    if ci and self.find_member(ci, "__getitem__") is not None:
                        outs.append(self.call_method_on(a, "__getitem__", [k], {}, st, F, node))
                    else:
                        outs.append(TOP.labelled(*self.labels(mk(a), st)))
                else:
                    outs.append(TOP.labelled(*self.labels(mk(a), st)))
            elif t == "c" and a[2] is None:
                self.maybe_raise({"builtins.TypeError"}, st, node, F, "subscript of None")
            elif t == "xi" and a[1].startswith("re.Match"):
                r = self.hooks.match_group(b, idx)
                outs.append(r if r is not None else V(frozenset([("s", "?")]), b.may, b.must))
            elif t in ("x", "k"):
                outs.append(mk(a))  # typing subscript
            else:
                if t == "top":
                    self.maybe_raise({"builtins.KeyError", "builtins.IndexError", "builtins.TypeError"}, st, node, F, "subscript of an unknown value")
                outs.append(TOP.labelled(b.may, b.must))
        if not outs:
            raise Dead()
        r = join_all(outs)
        return r

    def dict_get(self, oid, k, st, F, node, missing="raise", default=None, strong=False):
        """list of possible results of d[k] / d.get(k, default)."""
        o = st.heap[oid]
        outs, hit = [], False
        for a in k.atoms:
            if a[0] in ("c", "e"):
                key = a[2] if a[0] == "c" else a
                if key in o.items:
                    outs.append(o.items[key])
                    hit = True
                    for kk, vv in o.must:
                        if any(self.eq_atoms(a, x, st) is not False for x in kk.atoms):
                            outs.append(vv)
                    continue
            cand = []
            for q, v in o.items.items():
                qa = ("c", type(q).__name__, q) if not isinstance(q, tuple) else q
                if self.eq_atoms(a, qa, st) is not False:
                    cand.append(v)
            for kk, vv in o.must:
                if any(self.eq_atoms(a, x, st) is not False for x in kk.atoms):
                    cand.append(vv)
            if o.elem is not None:
                ks = o.ekey.atoms if o.ekey is not None else [("top",)]
                if any(self.eq_atoms(a, x, st) is not False for x in ks):
                    cand.append(o.elem)
            outs += cand
            fac = o.attrs.get("__factory__")
            if fac is not None:
                v = self.call_value(fac, [], {}, st, F, node)
                self.emit(v, st)
                self.emit_key(o, V(frozenset([a]), k.may, k.must), v, st)
                self.dict_store(oid, V(frozenset([a]), k.may, k.must), v, st, strong and self.strict and not cand and o.elem is None and len(k.atoms) == 1)
                outs.append(v)
                if o.owner == "input":
                    self.mutated(F, node, oid, st, "defaultdict []")
            elif missing == "raise":
                if not cand:
                    self.wrong("KeyError", st, node, F)
                self.maybe_raise({"builtins.KeyError"}, st, node, F, "dict key")
            else:
                outs.append(default if default is not None else NONE)
        return outs

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, F):
        # super()
        if isinstance(e.func, ast.Attribute):
            fobj = e.func
            if isinstance(fobj.value, ast.Call) and isinstance(fobj.value.func, ast.Name) and fobj.value.func.id == "super":
                args, kwargs = self.eval_args(e, st, F)
                return self.call_super(fobj.attr, args, kwargs, st, F, e)
            recv = self.eval(fobj.value, st, F)
            args, kwargs = self.eval_args(e, st, F)
            return self.call_method(recv, fobj.attr, args, kwargs, st, F, e)
        if isinstance(e.func, ast.Name) and e.func.id in ("cast",) and len(e.args) == 2:
            fv = self.lookup(e.func.id, st, F)
            if fv.atoms == frozenset([("x", "typing.cast")]):
                return self.eval(e.args[1], st, F)
        fv = self.eval(e.func, st, F)
        args, kwargs = self.eval_args(e, st, F)
        return self.call_value(fv, args, kwargs, st, F, e)

    def eval_args(self, e, st, F):
        args, kwargs = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, F)
                if len(v.atoms) == 1 and next(iter(v.atoms))[0] == "t" and "*" not in kwargs:
                    args += list(next(iter(v.atoms))[1])
                else:
                    kwargs["*"] = join(kwargs["*"], v) if "*" in kwargs else v
            else:
                v = self.eval(x, st, F)
                if "*" in kwargs:
                    kwargs["*"] = self.new_list(st, F, x, (), join(v, TOP), tag="va")
                else:
                    args.append(v)
        for k in e.keywords:
            v = self.eval(k.value, st, F)
            if k.arg is None:
                kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def fork(self, alts, st):
        """Run each alternative on its own copy of st, join the survivors into st."""
        if len(alts) == 1:
            return alts[0](st)
        outs, vs = [], []
        for alt in alts:
            s = st.copy()
            try:
                v = alt(s)
                outs.append(s)
                vs.append(v)
            except Dead:
                pass
        if not outs:
            raise Dead()
        r = outs[0]
        for o in outs[1:]:
            r = join_state(r, o)
        st.set(r.copy())
        return join_all(vs)

    def call_value(self, fv, args, kwargs, st, F, node):
        alts = []
        for a in sorted(fv.atoms, key=lambda x: repr(x)) if len(fv.atoms) > 1 else fv.atoms:
            k = a[0]
            if k == "f":
                alts.append(lambda s, a=a: self.call_func(a, args, kwargs, s, F, node))
            elif k == "bm":
                alts.append(lambda s, a=a: self.call_func(a[1], [a[2]] + args, kwargs, s, F, node))
            elif k == "bx":
                alts.append(lambda s, a=a: self.call_method(a[2], a[1], args, kwargs, s, F, node))
            elif k == "k":
                alts.append(lambda s, a=a: self.instantiate(self.classes[a[1]], args, kwargs, s, F, node))
            elif k == "x":
                alts.append(lambda s, a=a: self.call_ext(a[1], args, kwargs, s, F, node))
            elif k == "o" and st.heap[a[1]].kind == "inst":
                alts.append(lambda s, a=a: self.call_method_on(a, "__call__", args, kwargs, s, F, node))
            elif k == "top" or k == "xi" or k == "o":
                alts.append(lambda s, a=a: self.call_unknown(fv, args, kwargs, s, F, node))
            elif k == "c" and a[2] is None:
                continue
            else:
                alts.append(lambda s, a=a: self.call_unknown(fv, args, kwargs, s, F, node))
        if not alts:
            raise Dead()
        return self.fork(alts, st)

    def arg_labels(self, args, kwargs, st):
        may, must = frozenset(), frozenset()
        for v in list(args) + list(kwargs.values()):
            m, n = self.labels(v, st)
            may |= m
            must |= n
        return may, must

    def call_unknown(self, fv, args, kwargs, st, F, node):
        r = self.hooks.call_ext(self, F, node, "?", args, kwargs, st)
        if r is not None:
            return r
        may, must = self.arg_labels(args, kwargs, st)
        m, n = self.labels(fv, st)
        # an unknown callable may be called with project callables: run them for effect
        return TOP.labelled(may | m, must | n)

    def call_super(self, attr, args, kwargs, st, F, node):
        fi = F.fi
        ci = fi.cls
        selfv = st.frames[F.fid].get(fi.node.args.args[0].arg) if fi.node.args.args else TOP
        if ci is not None:
            for c in ci.mro[1:]:
                if not isinstance(c, str) and attr in c.members:
                    for a in c.members[attr].atoms:
                        if a[0] == "f":
                            return self.call_func(a, [selfv] + args, kwargs, st, F, node)
        may, must = self.arg_labels(args, kwargs, st)
        return TOP.labelled(may, must)

    def call_method_on(self, a, name, args, kwargs, st, F, node):
        o = st.heap[a[1]]
        ci = self.classes.get(o.cls)
        m = self.find_member(ci, name) if ci else None
        if m is None:
            return TOP
        outs = []
        for x in m.atoms:
            if x[0] == "f":
                fi = self.funcs[x[1]]
                if "staticmethod" in fi.decorators:
                    outs.append(self.call_func(x, args, kwargs, st, F, node))
                elif "classmethod" in fi.decorators:
                    outs.append(self.call_func(x, [mk(("k", o.cls))] + args, kwargs, st, F, node))
                else:
                    outs.append(self.call_func(x, [mk(a)] + args, kwargs, st, F, node))
            else:
                outs.append(self.call_value(mk(x), args, kwargs, st, F, node))
        return join_all(outs)

    def call_method(self, recv, name, args, kwargs, st, F, node):
        alts = []
        for a in sorted(recv.atoms, key=lambda x: repr(x)) if len(recv.atoms) > 1 else recv.atoms:
            alts.append(lambda s, a=a: self.method1(a, recv, name, args, kwargs, s, F, node))
        if not alts:
            raise Dead()
        return self.fork(alts, st)

    PYTYPE = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "NoneType": type(None),
              "list": list, "dict": dict, "set": set, "tuple": tuple}

    def pytype(self, v, st):
        """The type of a value known to be one of a builtin type."""
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] == "c":
            return self.PYTYPE.get(a[1])
        if a[0] == "o" and a[1] in st.heap and not st.heap[a[1]].flags & {"keys", "split", "lazy"}:
            return self.PYTYPE.get(st.heap[a[1]].kind)
        return {"s": str, "i": int, "t": tuple, "tn": tuple, "by": bytes}.get(a[0])

    def wrong(self, exc, st, node, F):
        """An operation known to fail; only followed where every value is known exactly."""
        if self.strict:
            self.do_raise({"builtins." + exc}, st, node, F)

    def hashable(self, v, st, node, F):
        if self.strict and self.pytype(v, st) in (list, dict, set):
            self.wrong("TypeError", st, node, F)

    def method1(self, a, recv, name, args, kwargs, st, F, node):
        k = a[0]
        single = len(recv.atoms) == 1
        if self.strict:
            t = self.pytype(recv, st)
            if t is not None and not hasattr(t, name):
                self.wrong("AttributeError", st, node, F)
        if k == "o":
            o = st.heap.get(a[1])
            if o is None:
                return TOP
            if o.kind == "inst":
                ci = self.classes.get(o.cls)
                if name in o.attrs:
                    return self.call_value(o.attrs[name], args, kwargs, st, F, node)
                if ci and self.find_member(ci, name) is not None:
                    return self.call_method_on(a, name, args, kwargs, st, F, node)
                may, must = self.arg_labels([mk(a)] + args, kwargs, st)
                r = self.hooks.call_ext(self, F, node, f"{o.cls}.{name}", [mk(a)] + args, kwargs, st)
                if r is not None:
                    return r
                exc = any(isinstance(c, str) and (c.endswith("Error") or c.endswith("Exception")) for c in ci.mro) if ci else True
                if ci is not None and not any(isinstance(c, str) and c not in ("typing.Generic",) for c in ci.mro):
                    self.maybe_raise({"builtins.AttributeError"}, st, node, F, f".{name} of {o.cls}")
                    raise Dead()
                return TOP.labelled(may, must)
            if o.kind in ("list", "set", "dict", "tuple", "any"):
                return self.container_method(a[1], name, args, kwargs, st, F, node, single and not o.summary)
            if o.kind == "gen":
                if name in ("__next__",):
                    e, m, _ = self.iter_elems(mk(a), st, F, node)
                    return join_all([x for x in [e, *m] if x is not None])
                return TOP
            return self.ext_method(a[1], name, args, kwargs, st, F, node, single)
        if k in ("s",) or (k == "c" and a[1] == "str"):
            return self.str_method(a, recv, name, args, kwargs, st, F, node)
        if k == "c" and a[2] is None:
            self.maybe_raise({"builtins.AttributeError"}, st, node, F, f"None.{name}()")
            raise Dead()
        if k in ("by",) or (k == "c" and a[1] == "bytes"):
            may, must = self.arg_labels(args, kwargs, st)
            may, must = may | recv.may, must | recv.must
            r = self.hooks.call_ext(self, F, node, f"bytes.{name}", [V(frozenset([a]), recv.may, recv.must)] + args, kwargs, st)
            if r is not None:
                return r
            ca = self.const_args(args, kwargs)
            if k == "c" and ca is not None and name in ("hex", "decode") and all(isinstance(x, str) for x in ca):
                try:
                    return const(getattr(a[2], name)(*ca)).labelled(may, must)
                except (ValueError, LookupError, TypeError):
                    pass
            if name == "decode":
                self.maybe_raise({"builtins.UnicodeDecodeError"}, st, node, F, "decode")
                return strv("?", may, must)
            if name in STR_BOOL:
                return BOOL
            if name in STR_INT:
                return INT
            return V(frozenset([("by",)]), may, must)
        if k == "m":
            fr = st.frames.get("M:" + a[1]) or self.base.frames.get("M:" + a[1], {})
            if name not in fr:
                raise Dead()
            return self.call_value(fr[name], args, kwargs, st, F, node)
        if k == "x":
            return self.call_ext(a[1] + "." + name, args, kwargs, st, F, node)
        if k == "k":
            ci = self.classes[a[1]]
            m = self.find_member(ci, name)
            if m is None:
                if ci.is_enum and name == "__members__":
                    return TOP
                return TOP
            outs = []
            for x in m.atoms:
                if x[0] == "f" and "classmethod" in self.funcs[x[1]].decorators:
                    outs.append(self.call_func(x, [mk(a)] + args, kwargs, st, F, node))
                else:
                    outs.append(self.call_value(mk(x), args, kwargs, st, F, node))
            return join_all(outs)
        if k == "re":
            return self.regex_method(a, name, args, kwargs, st, F, node)
        if k == "xi":
            return self.xi_method(a, recv, name, args, kwargs, st, F, node)
        if k in ("t", "tn"):
            if name in ("index", "count"):
                return INT
            return TOP
        may, must = self.arg_labels(args, kwargs, st)
        if k == "top":
            self.maybe_raise({"builtins.AttributeError"}, st, node, F, f".{name}() of an unknown value")
        r = self.hooks.call_ext(self, F, node, f"?.{name}", [V(frozenset([a]), recv.may, recv.must)] + args, kwargs, st)
        if r is not None:
            return r
        return TOP.labelled(may | recv.may, must | recv.must)

    # ------------------------------------------------------------------ str
    def str_method(self, a, recv, name, args, kwargs, st, F, node):
        may, must = self.arg_labels(args, kwargs, st)
        if name == "join":
            elem, ms, _ = self.iter_elems(args[0], st, F, node)
            may, must = recv.may, frozenset()
            kinds = []
            consts = a[0] == "c" and elem is None
            parts = [[]]
            consts = consts and not (self.objs(args[0]) and any("unordered" in st.heap[q].flags for q in self.objs(args[0])))
            for x in ms:
                m, n = self.labels(x, st)
                may |= m
                must |= n
                kk = [strkind(y) for y in x.atoms]
                kinds.append("?" if any(q in (None, "?") for q in kk) else ("T" if "T" in kk else "S"))
                if consts and len(x.atoms) * len(parts) <= 12 and all(y[0] == "c" and isinstance(y[2], str) for y in x.atoms):
                    parts = [p + [y[2]] for p in parts for y in x.atoms]
                else:
                    consts = False
            if elem is not None:
                may |= self.labels(elem, st)[0]
            mm, nn = self.labels(args[0], st)
            may |= mm | self.hooks.joined(self, F, node, a, elem, ms)
            must |= args[0].must
            if consts:
                return V(frozenset(("c", "str", a[2].join(p)) for p in parts), may, must)
            kk = min(kinds, key=lambda r: STR_RANK[r]) if kinds else "?"
            return strv("S" if kk in WORDK else kk, may, must)
        if name == "format" and a[0] == "c" and isinstance(a[2], str) and not has_token(a[2]):
            parts = self.format_parts(a[2], args, kwargs, st)
            if parts is not None:
                return self.concat(parts, st, F, node).labelled(recv.may, recv.must)
        r = self.hooks.call_ext(self, F, node, f"str.{name}", [V(frozenset([a]), recv.may, recv.must)] + args, kwargs, st)
        if r is not None:
            return r
        ca = self.const_args(args, kwargs)
        if a[0] == "c" and ca is not None and not has_token(a[2]) and not any(map(has_token, ca)) and name in (SOLID_METHODS | STR_BOOL | STR_INT | STR_LIST) - {"encode", "format"}:
            try:
                res = getattr(a[2], name)(*ca)
            except Exception:
                res = None
            if isinstance(res, (str, bool, int)):
                return const(res).labelled(recv.may, recv.must) if isinstance(res, str) else const(res)
            if isinstance(res, list):
                return self.new_list(st, F, node, [const(x) for x in res], tag="sp")
        if name == "encode" and a[0] == "c" and ca is not None and not has_token(a[2]) and len(a[2]) < 40 and all(isinstance(x, str) for x in ca):
            try:
                return const(a[2].encode(*ca)).labelled(recv.may, recv.must)
            except (ValueError, LookupError, TypeError):
                pass
        kind = strkind(a)
        if name in STR_BOOL:
            if name in ("startswith", "endswith") and a[0] == "s" and a[1] == "N" and args:
                cv = args[0]
                if all((x[0] == "c" and x[2]) or x[0] == "t" for x in cv.atoms):
                    return FALSE
            if name in ("startswith", "endswith") and kind == "W" and args and all(
                    x[0] == "c" and isinstance(x[2], str) and nonletter(x[2]) or
                    x[0] == "t" and all(y[0] == "c" and nonletter(y[2]) for z in x[1] for y in z.atoms) for x in args[0].atoms):
                return FALSE
            if kind in WORDK and name in ("isalpha", "isalnum", "isascii", "isprintable", "isidentifier"):
                return TRUE
            if kind in WORDK and name in ("isdigit", "isnumeric", "isdecimal"):
                return FALSE
            if name == "isspace" and kind in SOLIDK:
                return FALSE
            return BOOL
        if name in STR_INT:
            if name in ("index", "rindex"):
                self.maybe_raise({"builtins.ValueError"}, st, node, F, "str.index")
            return INT
        may, must = may | recv.may, recv.must
        if name == "format_map" or name == "format":
            return strv("?", may, must | self.arg_labels(args, kwargs, st)[1])
        if name in ("replace", "translate") and self.const_args(args[:1], {}) is not None:
            pass
        if name == "encode":
            return V(frozenset([("by",)]), recv.may, recv.must)
        if name in STR_LIST:
            piece_must = recv.must
            if kind in WORDK and (name == "splitlines" or not args or all(
                    x[0] == "c" and (x[2] is None or isinstance(x[2], str) and nonletter(x[2])) for x in args[0].atoms)):
                return self.new_list(st, F, node, (V(frozenset([a]), recv.may, recv.must),), tag="sp")
            generic = strv("?", recv.may, piece_must)
            ms = ()
            if kind in SOLIDK:
                ms = (strv("S", recv.may, piece_must),)
            elif not (name == "splitlines") and args:
                ms = (strv("?", recv.may, piece_must),)
            elif name == "splitlines" and kind == "T":
                ms = (strv("?", recv.may, piece_must),)
            v = self.new_list(st, F, node, ms, generic, tag="sp")
            (x,) = v.atoms
            st.heap[x[1]] = st.heap[x[1]].w(flags=frozenset(["split", "unordered"]))
            return v
        if name in STR_TUP:
            p = strv("?", recv.may, recv.must)
            if kind in WORDK and args and all(x[0] == "c" and nonletter(x[2]) for x in args[0].atoms):
                w, e = V(frozenset([a]), recv.may, recv.must), const("")
                return mk(("t", (w, e, e) if name == "partition" else (e, e, w)))
            return mk(("t", (p, p, p)))
        if name in SOLID_METHODS:
            k2 = kind
            if name in ("strip", "rstrip", "lstrip", "replace", "removeprefix", "removesuffix", "translate") and kind == "T":
                k2 = "?"
            if kind in WORDK and a[0] == "s":
                k2 = "S"
                if name in ("lower", "upper", "title", "capitalize", "casefold", "swapcase", "expandtabs"):
                    k2 = "W"
                if name in ("strip", "rstrip", "lstrip", "replace", "removeprefix", "removesuffix"):
                    cs = self.const_args(args[:1], {})
                    if cs is not None and (cs == [] or cs[0] is None or cs[0] and not any(c.isascii() and c.isalpha() for c in cs[0])):
                        return V(frozenset([a]), recv.may, recv.must)
            if name in ("strip", "rstrip", "lstrip") and args and kind in SOLIDK:
                # stripping listed characters: solid unless the list has non-space characters
                cs = self.const_args(args, {})
                if cs is None or (cs[0] or "").strip():
                    k2 = "T" if False else "?"
            return strv(k2, may, must)
        return TOP.labelled(may, must)

    def const_args(self, args, kwargs):
        if kwargs:
            return None
        out = []
        for v in args:
            if len(v.atoms) != 1:
                return None
            (a,) = v.atoms
            if a[0] == "c":
                out.append(a[2])
            elif a[0] == "t":
                sub = self.const_args(a[1], {})
                if sub is None:
                    return None
                out.append(tuple(sub))
            else:
                return None
        return out

    # ------------------------------------------------------------------ containers
    def container_method(self, oid, name, args, kwargs, st, F, node, strong):
        o = st.heap[oid]
        kind = o.kind
        if name in LIST_MUT:
            self.mutated(F, node, oid, st, name + "()")
        if kind in ("list", "any", "tuple", "set"):
            if name in ("append", "add", "appendleft"):
                if kind == "set" and args[0] in o.must:
                    return NONE
                self.list_append(oid, args[0], st, strong)
                return NONE
            if name == "insert":
                live = self.exact_list(mk(("o", oid)), st) if strong else None
                i = self.cint(args[0])
                self.list_append(oid, args[1], st, strong)
                o = st.heap[oid]
                if live is not None and isinstance(i, int) and o.elem is None:
                    new = list(live)
                    new.insert(i, o.must[-1])
                    st.heap[oid] = o.w(must=tuple(new))
                else:
                    st.heap[oid] = o.w(flags=o.flags | {"unordered"})
                return NONE
            if name in ("extend", "update") and kind != "any" or name == "__iadd__":
                for x in args:
                    e, m, _ = self.iter_elems(x, st, F, node)
                    self.list_extend(oid, e, m, st, strong)
                return NONE
            if name == "pop":
                v = o.elem
                for m in o.must:
                    v = jopt(v, m)
                if v is None:
                    raise Dead()
                if not o.must:
                    self.maybe_raise({"builtins.IndexError"}, st, node, F, "pop")
                if kind == "list" and "split" in o.flags:
                    return v
                if kind == "list" and strong and args and self.cint(args[0]) == 0 and o.must and o.elem is None \
                        and "unordered" not in o.flags:
                    st.heap[oid] = o.w(must=o.must[1:])
                    return o.must[0]
                if kind == "list" and strong and not args and o.must and "unordered" not in o.flags and o.elem is None:
                    st.heap[oid] = o.w(must=o.must[:-1])
                    return o.must[-1]
                live = self.exact_list(mk(("o", oid)), st) if strong and args else None
                if live is not None and isinstance(self.cint(args[0]), int) and -len(live) <= self.cint(args[0]) < len(live):
                    new = list(live)
                    v = new.pop(self.cint(args[0]))
                    st.heap[oid] = o.w(must=tuple(new))
                    return v
                self.weaken(oid, st)
                return v
            if name in ("remove", "discard"):
                if self.remove_item(oid, args[0], st, strong):
                    return NONE
                if name == "remove":
                    self.maybe_raise({"builtins.ValueError" if kind != "set" else "builtins.KeyError"}, st, node, F, "remove")
                self.weaken(oid, st)
                return NONE
            if name == "clear":
                st.heap[oid] = o.w(must=(), elem=None) if strong else o
                if not strong:
                    self.weaken(oid, st)
                return NONE
            if name == "sort":
                o = st.heap[oid]
                if strong and o.elem is None and not o.cmay and not o.flags & {"unordered", "split"} and not o.summary:
                    ms = self.exact_order(o.must, kwargs, st, F, node)
                    if ms is not None:
                        st.heap[oid] = st.heap[oid].w(must=tuple(ms))
                        return NONE
                self.call_key(kwargs.get("key"), oid, st, F, node)
                o = st.heap[oid]
                st.heap[oid] = o.w(flags=o.flags | {"unordered"})
                return NONE
            if name == "reverse":
                if strong and o.elem is None and not o.flags & {"unordered", "split"}:
                    st.heap[oid] = o.w(must=o.must[::-1])
                else:
                    st.heap[oid] = o.w(flags=o.flags | {"unordered"})
                return NONE
            if name == "copy":
                return self.new_list(st, F, node, o.must, o.elem, kind=kind, tag="cp")
            if name in ("union", "intersection", "difference", "symmetric_difference"):
                if len(args) == 1:
                    x = self.set_op(name, mk(("o", oid)), args[0], st, F, node)
                    if x is not None:
                        return x
                elem = o.elem
                must = o.must if name == "union" else ()
                if name != "union":
                    for m in o.must:
                        elem = jopt(elem, m)
                if name in ("union", "symmetric_difference"):
                    for x in args:
                        e, m, _ = self.iter_elems(x, st, F, node)
                        elem = jopt(elem, e) if e is not None else elem
                        must = tuple(must) + tuple(m)
                return self.new_list(st, F, node, must, elem, kind="set", tag=name[0])
            if name in ("issubset", "issuperset", "isdisjoint", "__contains__"):
                x = self.exact_set(mk(("o", oid)), st)
                y = self.exact_set(args[0], st, sets=False) if len(args) == 1 and name != "__contains__" else None
                if x is not None and y is not None:
                    return const(getattr(x, name)(y))
                return BOOL
            if name in ("index", "count"):
                if name == "count" and len(args) == 1:
                    if any(self.eq_vals(args[0], m, st) is True for m in o.must):
                        return POS
                    return join(const(0), POS)
                self.maybe_raise({"builtins.ValueError"}, st, node, F, "list.index")
                return INT
            if name in ("keys", "values", "items", "get", "setdefault") and kind == "any":
                return TOP.labelled(*self.labels(mk(("o", oid)), st))
        if kind in ("dict", "any"):
            if name in ("items", "keys", "values"):
                ek = o.ekey if o.ekey is not None else STR
                pairs = [(const(k) if not isinstance(k, tuple) else mk(k), v) for k, v in o.items.items()] + list(o.must)
                if name == "keys":
                    v = self.new_list(st, F, node, [k for k, _ in pairs], ek if o.elem is not None else None, tag="ks")
                    if kind == "dict" and o.elem is None and not o.summary and (self.strict or not o.attrs.get("__factory__")):
                        (x,) = v.atoms
                        st.heap[x[1]] = st.heap[x[1]].w(flags=st.heap[x[1]].flags | {"keys"})
                    return v
                if name == "values":
                    return self.new_list(st, F, node, [v for _, v in pairs], o.elem, tag="vs")
                return self.new_list(st, F, node, [mk(("t", (k, v))) for k, v in pairs],
                                     mk(("t", (ek, o.elem))) if o.elem is not None else None, tag="is")
            if name in ("get", "pop", "setdefault"):
                d = args[1] if len(args) > 1 else NONE
                fac = o.attrs.get("__factory__")
                if fac is not None and name == "get":
                    st.heap[oid] = o.w(attrs={})
                outs = self.dict_get(oid, args[0], st, F, node,
                                     missing="default" if (name != "pop" or len(args) > 1) else "raise", default=d)
                if fac is not None and name == "get":
                    st.heap[oid] = st.heap[oid].w(attrs=o.attrs)
                if name == "setdefault":
                    self.emit(d, st)
                    ks = self.exact_keys(st.heap[oid]) if self.strict and strong and len(args[0].atoms) == 1 else None
                    if ks is None:
                        self.dict_store(oid, args[0], self.snap(d, st), st, False)
                    else:
                        rs = [self.eq_vals(args[0], q, st) for q in ks]
                        if True not in rs:
                            self.dict_store(oid, args[0], self.snap(d, st), st, None not in rs)
                if name == "pop":
                    ks = list(args[0].atoms)
                    if len(ks) == 1 and ks[0][0] == "c" and strong and not o.must:
                        it = dict(st.heap[oid].items)
                        it.pop(ks[0][2], None)
                        st.heap[oid] = st.heap[oid].w(items=it)
                    else:
                        self.weaken(oid, st)
                if not outs:
                    raise Dead()
                return join_all(outs)
            if name == "update":
                for x in args:
                    self.dict_update(oid, x, st, F, node, strong)
                for kk, v in kwargs.items():
                    self.dict_store(oid, const(kk), v, st, strong)
                return NONE
            if name == "clear":
                st.heap[oid] = o.w(must=(), elem=None, items={}, ekey=None) if strong else o
                return NONE
            if name == "copy":
                v = self.alloc(st, self.site(F, node, "cp"), o.w(owner="fresh", summary=False))
                return v
            if name == "popitem":
                self.weaken(oid, st)
                return TOP.labelled(*self.labels(mk(("o", oid)), st))
            if name == "fromkeys":
                return TOP
        return TOP.labelled(*self.labels(mk(("o", oid)), st))

    def call_key(self, key, oid, st, F, node):
        if key is None:
            return
        o = st.heap[oid]
        v = o.elem
        for m in o.must:
            v = jopt(v, m)
        if v is None:
            return
        for a in key.atoms:
            if a[0] == "f":
                s = st.copy()
                try:
                    n = len(self.funcs[a[1]].node.args.args)
                    self.call_func(a, [v] * max(1, n), {}, s, F, node)
                except Dead:
                    pass

    def exact_keys(self, o):
        """The keys of a dict, when it is known which there are."""
        if o.summary or o.elem is not None or o.cmay or o.must:
            return None
        return [const(k) if not isinstance(k, tuple) else mk(k) for k in o.items]

    def exact_order(self, ms, kwargs, st, F, node, unique=False):
        """The items in sorted order, when the keys are known exactly (unique: of a set)."""
        if set(kwargs) - {"key", "reverse"}:
            return None
        rev = kwargs.get("reverse", FALSE)
        if rev.atoms != FALSE.atoms and rev.atoms != TRUE.atoms:
            return None
        if len(ms) < 2 and "key" not in kwargs:
            return list(ms)
        if unique and "key" in kwargs:
            return None
        key = kwargs.get("key")
        keys = []
        for m in ms:
            if key is not None and key.atoms != NONE.atoms:
                s = st.copy()
                try:
                    m = self.call_value(key, [m], {}, s, F, node)
                except Dead:
                    return None
            k = self.plain_value(m, s if key is not None and key.atoms != NONE.atoms else st)
            if k is None or unique and k in keys:
                return None
            keys.append(k)
        try:
            ix = sorted(range(len(ms)), key=keys.__getitem__, reverse=rev.atoms == TRUE.atoms)
        except TypeError:
            return None
        return [ms[i] for i in ix]

    def plain_value(self, v, st):
        if len(v.atoms) != 1:
            return None
        (a,) = v.atoms
        if a[0] == "c" and isinstance(a[2], (str, int)) and not has_token(a[2]):
            return a[2]
        if a[0] == "t":
            xs = tuple(self.plain_value(x, st) for x in a[1])
            return None if None in xs else xs
        if a[0] == "o" and self.strict:
            o = st.heap[a[1]]
            if o.kind == "list" and not o.summary and o.elem is None and not o.cmay and not o.flags & {"unordered", "split", "keys"}:
                ys = [self.plain_value(x, st) for x in o.must]
                return None if None in ys else ys
        return None

    # ------------------------------------------------------------------ regex
    def regex_method(self, a, name, args, kwargs, st, F, node):
        pos = list(args)
        for k in ("repl", "string"):
            if k in kwargs:
                pos.append(kwargs[k])
        may, must = self.arg_labels(args, kwargs, st)
        if self.strict and name in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
            i = 1 if name.startswith("sub") else 0
            x = kwargs.get("string", args[i] if len(args) > i else None)
            if x is not None and len(x.atoms) == 1:
                (q,) = x.atoms
                if q == NONE_A or q[0] == "i" or q[0] in ("t", "tn") or q[0] == "c" and not isinstance(q[2], (str, bytes)) \
                        or q[0] == "o" and q[1] in st.heap and st.heap[q[1]].kind in ("list", "dict", "set", "inst") \
                        and not st.heap[q[1]].flags & {"keys", "split", "lazy"}:
                    self.wrong("TypeError", st, node, F)
        r = self.hooks.call_ext(self, F, node, f"re.Pattern.{name}", [mk(a)] + args, kwargs, st)
        if r is not None:
            return r
        word = None
        if name in ("match", "fullmatch", "search", "sub", "subn", "finditer", "findall", "split") and a[1] is not None:
            wv = (pos[1] if len(pos) > 1 else TOP) if name.startswith("sub") else (pos[0] if pos else TOP)
            if wv.atoms and all(x[0] == "s" and x[1] in WORDK for x in wv.atoms) and not can_match_word(a[1], a[2] or 0):
                word = wv
        if word is not None:
            if name in ("match", "fullmatch", "search"):
                return NONE
            if name == "sub":
                return word
            if name == "subn":
                return mk(("t", (word, const(0))))
            return self.new_list(st, F, node, (word,) if name == "split" else (), tag="fi")
        if name in ("match", "fullmatch", "search"):
            sub = pos[0] if pos else TOP
            return V(frozenset([NONE_A, ("xi", "re.Match", "T")]), sub.may, sub.must)
        if name == "sub" or name == "subn":
            repl, s = pos[0], pos[1] if len(pos) > 1 else TOP
            lm, lmu = self.labels(s, st)
            for x in repl.atoms:
                if x[0] in ("f", "bm"):
                    m = mk(("xi", "re.Match", "T")).labelled(lm, lmu)
                    s2 = st.copy()
                    try:
                        self.call_value(mk(x), [m], {}, s2, F, node)
                        st.set(join_state(st, s2).copy())
                    except Dead:
                        pass
            kinds = [strkind(x) for x in s.atoms]
            k = "S" if kinds and all(q in SOLIDK for q in kinds) else "?"
            res = strv(k, lm | may, lmu)
            if name == "subn":
                return mk(("t", (res, INT)))
            return res
        if name == "finditer":
            s = pos[0]
            return self.new_list(st, F, node, (), mk(("xi", "re.Match", "T")).labelled(s.may, s.must), tag="fi")
        if name == "findall" or name == "split":
            s = pos[0]
            kinds = [strkind(x) for x in s.atoms]
            ms = ()
            if name == "split":
                ms = (strv("S" if kinds and all(q in SOLIDK for q in kinds) else "?", s.may, s.must),)
            v = self.new_list(st, F, node, ms, strv("?", s.may, s.must), tag="fa")
            (x,) = v.atoms
            st.heap[x[1]] = st.heap[x[1]].w(flags=frozenset(["split", "unordered"]))
            return v
        return TOP.labelled(may, must)

    def xi_method(self, a, recv, name, args, kwargs, st, F, node):
        may, must = self.arg_labels(args, kwargs, st)
        cls = a[1]
        rv = V(frozenset([a]), recv.may, recv.must)
        r = self.hooks.call_ext(self, F, node, f"{cls}.{name}", [rv] + args, kwargs, st)
        if r is not None:
            return r
        if cls == "re.Match":
            if name in ("start", "end"):
                return INT
            if name == "span":
                return mk(("t", (INT, INT)))
            if name == "group":
                r = self.hooks.match_group(recv, self.cint(args[0]) if args else 0)
                if r is not None:
                    return r
                return V(frozenset([("s", "?"), NONE_A]) if args and self.cint(args[0]) != 0 else frozenset([("s", "?")]), recv.may, recv.must)
            if name == "groups":
                return mk(("tn", V(frozenset([("s", "?"), NONE_A]), recv.may, recv.must), False))
            if name == "groupdict":
                return self.alloc(st, self.site(F, node, "gd"), Obj("dict", elem=V(frozenset([("s", "?"), NONE_A]), recv.may, recv.must), ekey=STR_T))
            return TOP.labelled(recv.may, recv.must)
        if cls == "re.Pattern":
            return self.regex_method(("re", None, 0), name, args, kwargs, st, F, node)
        if cls.startswith("lxml"):
            if name in XML_ATTACH:
                for x in args:
                    self.attach(x, st)
                    self.emit(x, st)
            return TOP.labelled(may | recv.may, must | recv.must)
        if cls == "dict" and name in ("get",):
            return V(frozenset([("s", "?"), NONE_A]), recv.may, recv.must)
        if name == "read":
            return V(frozenset([("by",), ("s", "?")]), recv.may, recv.must)
        return TOP.labelled(may | recv.may, must | recv.must)

    def tag_of(self, args):
        """The tag of an element made with these arguments, without labels."""
        return V(frozenset(x if is_str_atom(x) else ("s", "T") for x in args[0].atoms)) if args else STR_T

    def add_kids(self, oid, args, st, sibling):
        """Record the tags of the elements put into oid (or beside it, into its parent) in ekey."""
        tags = BOTTOM
        for x in args:
            for a in x.atoms:
                t = st.heap[a[1]].attrs.get("__tag__") if a[0] == "o" else None
                if t is None and a[0] != "i" and not (a[0] == "c" and a[1] == "int"):
                    t = STR_T
                if t is not None:
                    tags = join(tags, t)
        if not tags.atoms:
            return
        for q in [oid] if not sibling else [q for q, o in st.heap.items() if o.kind == "ext" and o.elem is not None and oid in o.elem.oids()]:
            o = st.heap[q]
            st.heap[q] = o.w(ekey=jopt(o.ekey, tags))

    def unfresh(self, oid, st):
        """It is not known any more which children and texts an element and those around it have."""
        for q in self.reach(mk(("o", oid)), st) | {q for q, o in st.heap.items() if o.elem is not None and oid in o.elem.oids()}:
            o = st.heap.get(q)
            if o is not None and "fresh" in o.flags:
                at = {k: jopt(v, V(frozenset([NONE_A, ("s", "?")]))) if k in ("text", "tail") else v for k, v in o.attrs.items()}
                st.heap[q] = o.w(flags=o.flags - {"fresh", "kids"}, attrs=at)

    def attach(self, v, st):
        for oid in self.objs(v):
            o = st.heap[oid]
            if o.kind == "ext" and "attached" not in o.flags:
                st.heap[oid] = o.w(flags=o.flags | {"attached"})

    # ------------------------------------------------------------------ external objects
    def ext_method(self, oid, name, args, kwargs, st, F, node, single):
        o = st.heap[oid]
        recv = mk(("o", oid))
        r = self.hooks.call_ext(self, F, node, f"{o.cls}.{name}", [recv] + args, kwargs, st)
        if r is not None:
            return r
        may, must = self.arg_labels(args, kwargs, st)
        lm, ln = self.labels(recv, st)
        strong = single and not o.summary
        if o.cls and o.cls.startswith("lxml"):
            if name in XML_ATTACH:
                self.mutated(F, node, oid, st, name + "()")
                allow = name in ("addnext", "addprevious") or "attached" in o.flags or True
                for x in args:
                    self.emit(x, st)
                    self.attach(x, st)
                if any(x[0] == "xi" or x[0] == "top" for v in args for x in v.atoms) or name not in ("append", "insert"):
                    self.unfresh(oid, st)
                o = st.heap[oid]
                refs = join_all([x for x in args if self.objs(x)])
                st.heap[oid] = o.w(cmay=o.cmay | may, elem=jopt(o.elem, refs) if refs.atoms else o.elem,
                                   flags=o.flags | {"kids"} if strong and "fresh" in o.flags and refs.atoms else o.flags)
                self.add_kids(oid, args, st, name in ("addnext", "addprevious"))
                return NONE
            if name == "set":
                self.mutated(F, node, oid, st, "set()")
                if "attached" in o.flags:
                    self.emit(args[1], st)
                st.heap[oid] = o.w(cmay=o.cmay | may, cmust=o.cmust | must if strong else o.cmust)
                return NONE
            if name in ("remove", "clear"):
                self.mutated(F, node, oid, st, name + "()")
                self.unfresh(oid, st)
                return NONE
            if name == "find" and len(args) == 1 and all(x[0] == "c" for x in args[0].atoms):
                if o.ekey is None or not any(self.eq_atoms(x, y, st) is not False for x in args[0].atoms for y in o.ekey.atoms):
                    return NONE
            if name in ("find", "getparent", "getnext", "getprevious"):
                return V(frozenset([NONE_A, ("xi", "lxml.etree._Element", "?"), ("o", oid)]), frozenset())
            if name == "get":
                return V(frozenset([NONE_A, ("s", "?")]), lm)
            if name in ("iterchildren", "iter", "findall", "itersiblings"):
                return mk(("xi", "lxml.list", "?"))
            return TOP.labelled(lm | may)
        if name in LIST_MUT:
            self.mutated(F, node, oid, st, name + "()")
            refs = join_all([x for x in args if self.objs(x)])
            st.heap[oid] = o.w(cmay=o.cmay | may, cmust=o.cmust | must if strong else o.cmust,
                               elem=jopt(o.elem, refs) if refs.atoms else o.elem)
            # keep it visible from the owner object too
            return NONE
        if name.startswith("serialize") or name in ("__unicode__", "__str__"):
            return strv("?", may | lm, must | ln)
        if name == "clone":
            return TOP.labelled(lm, ln)
        return TOP.labelled(may | lm, must | ln)

    # ------------------------------------------------------------------ external functions
    LAZY = {"builtins.map", "builtins.filter", "builtins.zip", "builtins.enumerate", "builtins.iter"}

    def call_ext(self, dotted, args, kwargs, st, F, node):
        if dotted in self.LAZY or dotted.startswith("itertools."):
            n = self.hooks.events
            return self.lazy_if(n, self.call_ext1(dotted, args, kwargs, st, F, node), st)
        return self.call_ext1(dotted, args, kwargs, st, F, node)

    def maketrans(self, args, kwargs, st, F, node):
        """The table of str.maketrans() of known characters."""
        if kwargs or not args:
            return None
        cs = self.const_args(args, {})
        tab = None
        if cs is not None and len(cs) in (2, 3) and all(isinstance(x, str) and not has_token(x) for x in cs):
            try:
                tab = {k: const(v) for k, v in str.maketrans(*cs).items()}
            except ValueError:
                return None
        elif len(args) == 1 and len(args[0].atoms) == 1:
            (a,) = args[0].atoms
            o = st.heap.get(a[1]) if a[0] == "o" else None
            if o is not None and o.kind == "dict" and o.elem is None and not o.must and not o.cmay \
                    and all(isinstance(k, int) or isinstance(k, str) and len(k) == 1 for k in o.items):
                tab = {ord(k) if isinstance(k, str) else k: v for k, v in o.items.items()}
        return self.alloc(st, self.site(F, node, "mt"), Obj("dict", items=tab)) if tab is not None else None

    def call_ext1(self, dotted, args, kwargs, st, F, node):
        self.ext_seen[dotted] = self.ext_seen.get(dotted, 0) + 1
        r = self.hooks.call_ext(self, F, node, dotted, args, kwargs, st)
        if r is not None:
            return r
        if dotted in ("builtins.bytes.fromhex", "builtins.bytearray.fromhex"):
            cs = self.const_args(args, kwargs)
            if cs is not None and len(cs) == 1 and isinstance(cs[0], str) and not has_token(cs[0]):
                try:
                    return const(bytes.fromhex(cs[0])).labelled(args[0].may, args[0].must)
                except ValueError:
                    pass
            self.maybe_raise({"builtins.ValueError"}, st, node, F, "fromhex")
            return V(frozenset([("by",)]), *self.arg_labels(args, kwargs, st))
        if dotted == "builtins.str.maketrans":
            r = self.maketrans(args, kwargs, st, F, node)
            if r is not None:
                return r
        if dotted.startswith("builtins."):
            return self.builtin(dotted[9:], args, kwargs, st, F, node)
        if dotted in ("enum.Enum", "enum.IntEnum", "enum.StrEnum") and isinstance(node, ast.Call) and len(node.args) >= 2:
            return self.functional_enum(st, F, node)
        may, must = self.arg_labels(args, kwargs, st)
        mod, _, name = dotted.rpartition(".")
        if mod == "re":
            return self.re_func(name, args, kwargs, st, F, node)
        if dotted == "copy.deepcopy" or dotted == "copy.copy":
            return self.deep_copy(args[0], st, F, node, shallow=dotted.endswith(".copy"))
        if dotted == "collections.defaultdict":
            v = self.alloc(st, self.site(F, node, "dd"), Obj("dict", attrs={"__factory__": args[0]} if args else {}))
            return v
        if dotted in ("collections.OrderedDict", "collections.Counter"):
            return self.builtin("dict", args, kwargs, st, F, node)
        if dotted in ("json.dumps", "json.dump"):
            m, n = self.labels(args[0], st)
            return strv("S", m, n)
        if dotted in ("json.loads", "json.load"):
            self.maybe_raise({"json.JSONDecodeError"}, st, node, F, "json")
            return TOP.labelled(may, must)
        if dotted == "itertools.chain":
            elem, ms = None, []
            for x in args:
                e, m, _ = self.iter_elems(x, st, F, node)
                elem = jopt(elem, e) if e is not None else elem
                ms += m
            return self.new_list(st, F, node, ms, elem, tag="ch")
        if dotted == "itertools.product":
            els = []
            for x in args:
                e, m, _ = self.iter_elems(x, st, F, node)
                els.append(join_all([y for y in [e, *m] if y is not None]))
            el = join_all(els)
            return self.new_list(st, F, node, (), mk(("tn", el, True)) if el.atoms else None, tag="pr")
        if dotted == "functools.cmp_to_key":
            return args[0]
        if dotted == "functools.partial":
            return TOP.labelled(may, must)
        if dotted.startswith("lxml.etree"):
            return self.lxml_func(name, args, kwargs, st, F, node)
        if dotted.startswith("fluent.syntax.ast.") and name[:1].isupper():
            return self.new_ext(st, F, node, dotted, args, kwargs)
        if dotted.startswith("fluent.syntax"):
            if name[:1].isupper():
                return self.new_ext(st, F, node, dotted, args, kwargs)
            if name.startswith("serialize"):
                return strv("?", may, must)
            return TOP.labelled(may, must)
        if dotted.startswith("polib.") and name[:1].isupper():
            return self.new_ext(st, F, node, dotted, args, kwargs)
        if dotted in ("os.path.splitext", "os.path.basename", "os.path.dirname", "os.path.join", "os.path.normpath", "os.path.split"):
            if all(len(x.atoms) == 1 and next(iter(x.atoms))[:2] == ("c", "str") for x in args) and args and not kwargs:
                r = getattr(posixpath, name)(*[next(iter(x.atoms))[2] for x in args])
                return const(r).labelled(may, must)
        if dotted in ("os.path.join", "os.path.normpath", "os.path.relpath", "os.path.abspath", "os.path.dirname",
                      "os.path.basename", "os.path.commonpath", "os.path.expanduser", "os.path.realpath"):
            return strv("?", may, must)
        if dotted in ("os.path.exists", "os.path.isfile", "os.path.isdir"):
            return BOOL
        if dotted in ("os.path.splitext", "os.path.split"):
            return mk(("t", (strv("?", may, must), strv("?", may, must))))
        if dotted == "io.StringIO" or dotted == "io.BytesIO":
            return self.new_ext(st, F, node, dotted, args, kwargs)
        if dotted == "typing.TypeVar" or mod == "typing":
            return TOP
        if dotted == "dataclasses.replace":
            return self.deep_copy(args[0], st, F, node, shallow=True, over={k: x for k, x in kwargs.items() if k not in ("*", "**")})
        # callbacks given to external functions are run for their effects
        for v in list(args) + list(kwargs.values()):
            for a in v.atoms:
                if a[0] in ("f", "bm"):
                    s = st.copy()
                    fa = a if a[0] == "f" else a[1]
                    fi = self.funcs[fa[1]]
                    n = len(fi.node.args.args) - (1 if a[0] == "bm" else 0)
                    try:
                        self.call_value(mk(a), [TOP.labelled(may, must)] * n, {}, s, F, node)
                        st.set(join_state(st, s).copy())
                    except Dead:
                        pass
        if name[:1].isupper():
            return self.new_ext(st, F, node, dotted, args, kwargs)
        return TOP.labelled(may, must)

    def functional_enum(self, st, F, node):
        try:
            name, names = ast.literal_eval(node.args[0]), ast.literal_eval(node.args[1])
        except ValueError:
            return TOP
        if isinstance(names, str):
            names = names.replace(",", " ").split()
        names = [n if isinstance(n, str) else n[0] for n in names]
        cd = ast.copy_location(ast.ClassDef(name, [], [], [ast.Pass()], []), node)
        ci = ClassInfo(cd, F.module, name)
        ci.is_enum = True
        ci.mro = [ci, "enum.Enum"]
        ci.members = {n: mk(("e", ci.full, n)) for n in names}
        self.classes[ci.full] = ci
        return mk(("k", ci.full))

    def re_func(self, name, args, kwargs, st, F, node):
        if name == "compile":
            p = args[0]
            flags = kwargs.get("flags", args[1] if len(args) > 1 else const(0))
            fl = self.re_flags(flags)
            outs = set()
            for a in p.atoms:
                if a[0] == "c" and isinstance(a[2], str):
                    outs.add(("re", a[2], fl))
                else:
                    outs.add(("xi", "re.Pattern", "T"))
            return V(frozenset(outs))
        if name == "escape":
            return strv("?", args[0].may, args[0].must)
        if name in RE_FUNCS:
            p = args[0]
            rest = list(args[1:])
            fl = self.re_flags(kwargs.get("flags", const(0)))
            a = next(iter(p.atoms)) if len(p.atoms) == 1 else ("top",)
            ra = ("re", a[2] if a[0] == "c" else None, fl)
            kw = {k: v for k, v in kwargs.items() if k != "flags"}
            return self.regex_method(ra, name, rest, kw, st, F, node)
        return TOP

    def re_flags(self, v):
        out = 0
        for a in v.atoms:
            if a[0] == "c" and isinstance(a[2], int):
                out |= a[2]
            elif a[0] == "x":
                out |= RegexFlags.NAMES.get(a[1].split(".")[-1], 0)
            elif a[0] == "t":
                for x in a[1]:
                    out |= self.re_flags(x)
        return out

    def fresh(self, oid, args, st):
        """An element that was just made: no text, and no children."""
        o = st.heap[oid]
        none = lambda k: jopt(o.attrs.get(k), NONE) if o.summary else NONE  # noqa: E731
        st.heap[oid] = o.w(flags=o.flags | {"fresh"}, elem=o.elem if o.summary else None, attrs={**o.attrs, "text": none("text"), "tail": none("tail")})

    def lxml_func(self, name, args, kwargs, st, F, node):
        may, must = self.arg_labels(args, kwargs, st)
        if name == "SubElement":
            par = args[0]
            rest = args[1:]
            for oid in self.objs(par):
                self.mutated(F, node, oid, st, "SubElement()")
            for x in list(rest) + list(kwargs.values()):
                self.emit(x, st)
            v = self.new_ext(st, F, node, "lxml.etree._Element", rest, kwargs, flags=("attached",))
            (a,) = v.atoms
            for oid in self.objs(par):
                o = st.heap[oid]
                if oid != a[1]:
                    kids = {"kids"} if len(par.atoms) == 1 and not o.summary and "fresh" in o.flags else set()
                    st.heap[oid] = o.w(elem=jopt(o.elem, v), flags=o.flags | kids)
            st.heap[a[1]] = (o := st.heap[a[1]]).w(attrs={**o.attrs, "__tag__": self.tag_of(rest)})
            self.fresh(a[1], rest, st)
            for oid in self.objs(par):
                self.add_kids(oid, [v], st, False)
            return v
        if name in ("Element", "Comment", "Entity", "CDATA", "ProcessingInstruction"):
            v = self.new_ext(st, F, node, "lxml.etree._Element" if name != "CDATA" else "lxml.etree.CDATA", args, kwargs)
            (a,) = v.atoms
            tag = self.tag_of(args) if name == "Element" else const(f"<{name}>")
            st.heap[a[1]] = (o := st.heap[a[1]]).w(attrs={**o.attrs, "__tag__": tag, **({"data": args[0]} if name == "CDATA" and args else {})})
            if name == "Element":
                self.fresh(a[1], args, st)
            return v
        if name == "tostring":
            m, n = self.labels(args[0], st)
            return strv("S", m, n)
        if name == "QName":
            return self.new_ext(st, F, node, "lxml.etree.QName", args, kwargs)
        if name not in ("cleanup_namespaces", "iselement"):
            for x in [*args, *kwargs.values()]:
                for oid in self.objs(x):
                    self.unfresh(oid, st)
        if name in ("fromstring", "parse", "XML"):
            return mk(("xi", "lxml.etree._Element", "?")).labelled(may, must)
        if name == "iterparse":
            return TOP.labelled(may, must)
        if name[:1].isupper():
            return self.new_ext(st, F, node, "lxml.etree." + name, args, kwargs)
        return TOP.labelled(may, must)

    def deep_copy(self, v, st, F, node, shallow=False, over={}):
        mapping = {}
        tag = self.site(F, node, "dc")
        todo = self.objs(v) if shallow else sorted(self.reach(v, st))
        pre = {oid: st.heap[oid] for oid in todo if oid in st.heap}
        for i, oid in enumerate(todo):
            mapping[oid] = f"{tag}#{oid}"

        def rv(x):
            if x is None:
                return None
            return V(frozenset(ra(a) for a in x.atoms), x.may, x.must)

        def ra(a):
            if a[0] == "o":
                return ("o", mapping[a[1]]) if (a[1] in mapping) else a
            if a[0] == "t":
                return ("t", tuple(rv(y) for y in a[1]))
            if a[0] == "tn":
                return ("tn", rv(a[1]), a[2])
            return a

        for oid, o in pre.items():
            f = (lambda x: x) if shallow else rv
            new = o.w(owner="fresh", elem=f(o.elem), ekey=f(o.ekey),
                      must=tuple(tuple(f(y) for y in m) if isinstance(m, tuple) else f(m) for m in o.must),
                      attrs={**{k: f(x) for k, x in o.attrs.items()}, **over}, items={k: f(x) for k, x in o.items.items()})
            nid = mapping[oid]
            if nid in st.heap:
                st.heap[nid] = join_obj(st.heap[nid], new).w(summary=True, owner="fresh")
            else:
                st.heap[nid] = new
        return rv(v)

    # ------------------------------------------------------------------ builtins
    def builtin(self, name, args, kwargs, st, F, node):
        A = args
        may, must = self.arg_labels(args, kwargs, st)
        if name == "isinstance":
            r = set()
            for a in A[0].atoms:
                r |= self.isinst(a, A[1], st)
            return V(frozenset(x for t in r for x in const(t).atoms))
        if name == "str":
            if not A:
                return const("")
            if len(A) > 1 or kwargs:
                return strv("?", may, must)
            return self.to_str(A[0], st, F, node)
        if name == "repr":
            return strv("S", may, must)
        if name == "int" and (len(A) == 2 or len(A) == 1 and "base" in kwargs):
            cs = self.const_args([*A, *kwargs.values()], {})
            if cs is not None and isinstance(cs[0], str) and not has_token(cs[0]):
                try:
                    return const(int(*cs)).labelled(may, must)
                except ValueError:
                    self.handlers[-1].append((frozenset({"builtins.ValueError"}), st.copy(), node, F))
                    raise Dead()
            self.maybe_raise({"builtins.ValueError"}, st, node, F, name + "()")
            return V(INT.atoms, may, must)
        if name in ("ord", "chr") and len(A) == 1 and not kwargs:
            cs = self.const_args(A, {})
            if cs is not None and isinstance(cs[0], str if name == "ord" else int) and not (isinstance(cs[0], str) and has_token(cs[0])):
                try:
                    return const(ord(cs[0]) if name == "ord" else chr(cs[0])).labelled(may, must)
                except (TypeError, ValueError):
                    pass
        if name in ("int", "float"):
            if A and len(A[0].atoms) == 1:
                (a,) = A[0].atoms
                if a[0] == "c":
                    try:
                        return const(int(a[2]) if name == "int" else float(a[2]))
                    except Exception:
                        self.maybe_raise({"builtins.ValueError"}, st, node, F, name)
                        if self.handlers:
                            self.handlers[-1].append((frozenset({"builtins.ValueError"}), st.copy(), node, F))
                        raise Dead()
            if A and any(a[0] == "s" or a[0] == "top" or a[0] == "xi" for a in A[0].atoms):
                self.maybe_raise({"builtins.ValueError"}, st, node, F, name + "()")
            return V(INT.atoms if name == "int" else frozenset([("fl",)]), may, must)
        if name == "bool":
            if not A:
                return FALSE
            self.hooks.truth_test(self, F, node, A[0], st)
            return V(frozenset(x for t in self.truth(A[0], st) for x in const(t).atoms))
        if name == "len":
            r = set()
            for a in A[0].atoms:
                if a[0] == "t":
                    r |= const(len(a[1])).atoms
                elif a[0] == "c" and has_token(a[2]):
                    r.add(("i", "+"))
                elif a[0] == "c" and isinstance(a[2], (str, bytes)):
                    r |= const(len(a[2])).atoms
                elif a[0] == "o" and st.heap[a[1]].kind in ("list", "dict", "set") and st.heap[a[1]].elem is None \
                        and not st.heap[a[1]].cmay and st.heap[a[1]].kind != "set":
                    o = st.heap[a[1]]
                    r |= const(len(o.must) + len(o.items)).atoms
                elif a[0] == "o" and st.heap[a[1]].kind == "inst":
                    r.add(("i",))
                elif a[0] == "o" and "fresh" in st.heap[a[1]].flags and st.heap[a[1]].elem is None:
                    r |= const(0).atoms
                elif a[0] == "o" and "kids" in st.heap[a[1]].flags:
                    r.add(("i", "+"))
                elif a[0] == "s" and a[1] != "?" or a[0] == "tn" and a[2] or a[0] == "o" and \
                        st.heap[a[1]].kind in ("list", "dict", "set") and (st.heap[a[1]].must or st.heap[a[1]].items):
                    r.add(("i", "+"))
                elif a[0] in ("s", "tn", "o", "xi", "by"):
                    r |= {("i", "+"), ("c", "int", 0)}
                elif a[0] == "c" and a[2] is None or a[0] in ("i", "e", "f", "k"):
                    self.maybe_raise({"builtins.TypeError"}, st, node, F, "len()")
                else:
                    if a[0] == "top":
                        self.maybe_raise({"builtins.TypeError"}, st, node, F, "len() of an unknown value")
                    r.add(("i",))
            if not r:
                raise Dead()
            return V(_norm(frozenset(r)))
        if name in ("sum", "max", "min") and (len(A) == 1 or name != "sum") and not kwargs:
            elem, ms, _ = self.iter_elems(A[0], st, F, node) if len(A) == 1 else (None, A, None)

            def nonneg(v, pos=False):
                return all(x == ("i", "+") or x[0] == "c" and isinstance(x[2], int) and (x[2] > 0 or not pos and x[2] == 0) for x in v.atoms) and bool(v.atoms)
            vals = list(ms) + ([elem] if elem is not None else [])
            if all(nonneg(v) for v in vals) and (vals or name == "sum"):
                if (any(nonneg(v, True) for v in ms) if name != "min" else all(nonneg(v, True) for v in vals)):
                    if name == "sum" or not nonneg(join_all(vals), True):
                        return POS.labelled(may, must)
                elif name == "sum":
                    return join(const(0), POS).labelled(may, must)
        if name in ("any", "all"):
            elem, ms, _ = self.iter_elems(A[0], st, F, node)
            r = set()
            want = name == "any"
            definite = any(self.truth(m, st) == {want} for m in ms)
            if definite:
                return const(want)
            possible = any(want in self.truth(m, st) for m in ms) or (elem is not None and want in self.truth(elem, st))
            if not possible:
                return const(not want)
            return BOOL
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            kind = {"set": "set", "frozenset": "set"}.get(name, "list")
            if not A:
                if name == "tuple":
                    return mk(("t", ()))
                return self.new_list(st, F, node, kind=kind, tag=name[:3])
            if name == "iter" and len(A[0].atoms) == 1:
                # keep identity for generators and iterators
                (a,) = A[0].atoms
                if a[0] == "o" and st.heap[a[1]].kind == "gen":
                    return A[0]
            elem, ms, single = self.iter_elems(A[0], st, F, node)
            if name == "tuple":
                if elem is None and single:
                    return V(_norm(mk(("t", tuple(ms))).atoms))
                el = elem
                for m in ms:
                    el = jopt(el, m)
                if el is None:
                    return mk(("t", ()))
                return mk(("tn", el, bool(ms)), may=may, must=must)
            v = self.new_list(st, F, node, ms, elem, kind=kind, tag=name[:3])
            (x,) = v.atoms
            ks = None
            if name == "sorted":
                o = st.heap[x[1]]
                if elem is None and single and not o.cmay:
                    ks = self.exact_order(o.must, kwargs, st, F, node, any(st.heap[q].kind == "set" for q in self.objs(A[0])))
                if ks is None:
                    self.call_key(kwargs.get("key"), x[1], st, F, node)
            if name in ("sorted", "reversed"):
                o = st.heap[x[1]]
                src = [st.heap[q].flags for q in self.objs(A[0])]
                if name == "reversed" and elem is None and single and not any("unordered" in f or "split" in f for f in src):
                    st.heap[x[1]] = o.w(must=o.must[::-1])
                elif ks is not None:
                    st.heap[x[1]] = o.w(must=tuple(ks))
                else:
                    st.heap[x[1]] = o.w(flags=o.flags | {"unordered", name})
            elif kind == "list":
                src = [st.heap[q].flags for q in self.objs(A[0])]
                if any("unordered" in f for f in src):
                    o = st.heap[x[1]]
                    st.heap[x[1]] = o.w(flags=o.flags | {"unordered"})
            return v
        if name == "dict":
            v = self.alloc(st, self.site(F, node, "bd"), Obj("dict"))
            (x,) = v.atoms
            if A:
                dd = [o for o in self.objs(A[0]) if st.heap[o].kind in ("dict", "any")]
                if dd or any(a[0] in ("top", "xi") for a in A[0].atoms):
                    self.dict_update(x[1], A[0], st, F, node, True)
                else:
                    elem, ms, _ = self.iter_elems(A[0], st, F, node)
                    for m in list(ms) + ([elem] if elem is not None else []):
                        for a in m.atoms:
                            if a[0] == "t" and len(a[1]) == 2:
                                self.dict_store(x[1], a[1][0], a[1][1], st, m is not elem and len(m.atoms) == 1)
                            else:
                                o = st.heap[x[1]]
                                st.heap[x[1]] = o.w(elem=jopt(o.elem, TOP.labelled(may, must)), ekey=jopt(o.ekey, TOP.labelled(may, must)))
            for k, vv in kwargs.items():
                if k != "**":
                    self.dict_store(x[1], const(k), vv, st, True)
                else:
                    self.dict_update(x[1], vv, st, F, node, True)
            return v
        if name == "enumerate":
            elem, ms, _single = self.iter_elems(A[0], st, F, node)
            src = [st.heap[q].flags for q in self.objs(A[0])]
            exact = elem is None and _single and len(A) == 1 and not kwargs and not any("unordered" in f or "split" in f for f in src)
            return self.new_list(st, F, node, [mk(("t", (const(i) if exact else INT if (elem is not None or i) else const(0), m)))
                                               for i, m in enumerate(ms)],
                                 mk(("t", (INT, elem))) if elem is not None else None, tag="en")
        if name == "zip":
            cols = [self.iter_elems(x, st, F, node) for x in A]
            els = [join_all([y for y in [e, *m] if y is not None]) for e, m, _ in cols]
            if all(e is None for e, m, _ in cols) and cols:
                rows = [mk(("t", t)) for t in zip(*[m for _, m, _ in cols])]
                return self.new_list(st, F, node, rows, tag="zp")
            if any(not e.atoms for e in els):
                return self.new_list(st, F, node, tag="zp")
            return self.new_list(st, F, node, (), mk(("t", tuple(els))), tag="zp")
        if name in ("map", "filter"):
            elem, ms, _ = self.iter_elems(A[1], st, F, node)
            if name == "map":
                out = self.new_list(st, F, node, tag="mp")
                (x,) = out.atoms
                if elem is not None:
                    s = st.copy()
                    try:
                        r = self.call_value(A[0], [elem], {}, s, F, node)
                        s = join_state(st, s)
                        st.set(s.copy())
                        o = st.heap[x[1]]
                        st.heap[x[1]] = o.w(elem=jopt(o.elem, r))
                    except Dead:
                        pass
                for m in ms:
                    r = self.call_value(A[0], [m], {}, st, F, node)
                    self.list_append(x[1], r, st, True)
                return out
            el = elem
            keep = []
            for m in ms:
                if A[0].atoms == NONE.atoms:
                    t = self.truth(m, st)
                else:
                    try:
                        t = self.truth(self.call_value(A[0], [m], {}, st, F, node), st)
                    except Dead:
                        t = {True, False}
                if t == {True}:
                    keep.append(m)
                elif True in t:
                    el = jopt(el, m)
            return self.new_list(st, F, node, keep, el, tag="fl")
        if name == "next":
            live = self.exact_list(A[0], st) if self.strict and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.GeneratorExp) else None
            if live:
                return live[0]
            elem, ms, _ = self.iter_elems(A[0], st, F, node)
            v = elem
            for m in ms:
                v = jopt(v, m)
            if len(A) > 1:
                if not ms:
                    v = jopt(v, A[1])
            elif not ms:
                self.maybe_raise({"builtins.StopIteration"}, st, node, F, "next()")
            if v is None:
                raise Dead()
            return v
        if name in ("min", "max", "sum"):
            if len(A) == 1:
                elem, ms, _ = self.iter_elems(A[0], st, F, node)
                vs = [y for y in [elem, *ms] if y is not None]
                if name == "sum":
                    return INT
                if "default" in kwargs:
                    vs.append(kwargs["default"])
                if not vs:
                    raise Dead()
                v = join_all(vs)
            else:
                v = join_all(A)
            key = kwargs.get("key")
            return V(v.atoms, v.may, v.must)
        if name == "range":
            b = [self.cint(x) for x in A]
            if all(isinstance(x, int) for x in b) and 1 <= len(b) <= 3 and (len(b) < 3 or b[2]):
                r = range(*b)
                if len(r) <= (8 if F.fi is not None else MAX_MUST):
                    return self.new_list(st, F, node, [const(x) for x in r], tag="rg")
            return self.new_list(st, F, node, (), INT, tag="rg")
        if name == "getattr":
            ca = self.const_args(A[1:2], {})
            if ca is not None and isinstance(ca[0], str):
                outs = []
                try:
                    outs.append(self.get_attr(A[0], ca[0], st, F, node))
                except Dead:
                    pass
                if len(A) > 2:
                    outs.append(A[2])
                if not outs:
                    raise Dead()
                return join_all(outs)
            return TOP.labelled(may, must)
        if name == "setattr":
            ca = self.const_args(A[1:2], {})
            if ca is not None:
                self.set_attr(A[0], ca[0], A[2], st, F, node)
            else:
                for oid in self.objs(A[0]):
                    self.mutated(F, node, oid, st, "setattr()")
            return NONE
        if name in ("hasattr", "callable", "issubclass"):
            if name == "callable":
                r = set()
                for a in A[0].atoms:
                    r |= {True} if a[0] in ("f", "bm", "bx", "k") else {False} if a[0] in ("s", "c", "i", "t") else {True, False}
                return V(frozenset(x for t in r for x in const(t).atoms))
            return BOOL
        if name == "open":
            return mk(("xi", "io.File", "T"))
        if name in ("print", "input"):
            return NONE
        if name == "type":
            outs = set()
            for a in A[0].atoms:
                if a[0] == "o" and st.heap[a[1]].kind == "inst":
                    outs.add(("k", st.heap[a[1]].cls))
                else:
                    outs.add(("top",))
            return V(frozenset(outs))
        if name in ("ord", "hash", "id", "abs", "round", "divmod"):
            return V(INT.atoms, may, must)
        if name in ("chr", "hex", "bin", "oct", "format", "ascii"):
            return strv("T", may, must)
        if name in ("bytes", "bytearray"):
            return V(frozenset([("by",)]), may, must)
        if name == "super":
            return TOP
        if name == "vars":
            return TOP.labelled(may, must)
        if name == "object":
            return self.new_ext(st, F, node, "builtins.object", ())
        if name in ("frozenset",):
            return TOP
        c = getattr(_b, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return self.alloc(st, self.site(F, node, "ex"), Obj("ext", "builtins." + name, cmay=may, cmust=must))
        return TOP.labelled(may, must)
