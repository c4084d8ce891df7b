"""Whole-program dataflow of tags over the syntax trees: flow-sensitive for local variables, interprocedural through parameters,
results and fields (context-insensitive), with the types mypy gives to the expressions.

Tags (each may be prefixed with "in:", once for each container around the tagged object):
  S       a set: the order of its iteration is that of hashes
  O:src   an ordered object (list, dict, iterator) whose order comes from the iteration of a set
  X:src   a value that depends on such an order
  G:name  an object that outlives the call: made at import, a default argument, the result of a cached function
src names the place where the order entered.
"""
from __future__ import annotations

import ast
import builtins

from .names import FUNCS
from .typed import class_names, immutable, is_set, items

DEPTH = 3
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem", "appendleft",
    "popleft", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "move_to_end",
    "set", "subtract", "rotate", "feed", "send", "throw",
}
GROW = {"append", "extend", "insert", "appendleft", "extendleft"}
SET_RESULT = {"union", "intersection", "difference", "symmetric_difference", "copy"}
NEUTRAL = {"len", "any", "all", "sum", "min", "max", "bool", "isinstance", "issubclass", "hasattr", "callable", "abs", "round", "divmod", "range", "type"}
SEQ = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter", "dict", "itertools.chain", "itertools.islice", "itertools.chain.from_iterable",
       "collections.OrderedDict", "collections.deque", "itertools.takewhile", "itertools.dropwhile", "itertools.groupby", "functools.reduce",
       "itertools.zip_longest", "itertools.accumulate", "itertools.filterfalse", "itertools.starmap", "dict.fromkeys"}
ITERATORS = {"typing.Iterator", "typing.Generator", "itertools.count", "itertools.cycle", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.filter",
             "itertools.chain", "itertools.islice", "typing.IO", "typing.TextIO", "_io.TextIOWrapper"}
HANDLED = {"click.echo", "click.secho", "sys.stdout.write", "sys.stderr.write", "json.dump", "json.dumps", "copy.deepcopy", "copy.copy", "dataclasses.replace"}
INSENSITIVE = {'collections.Counter', 'os.path.exists', 'math.fsum', 'math.prod', 'functools.cmp_to_key'}
EMPTY = frozenset()


def wrap(tags):
    return frozenset("in:" + t for t in tags if t.count("in:") < DEPTH)


def elem(tags):
    """The tags of an element of something with these tags."""
    out = set()
    for t in tags:
        if t.startswith("in:"):
            out.add(t[3:])
        elif t.startswith("G:"):
            out.add(t)
        elif t.startswith("X:"):
            out.add(t)
    return frozenset(out)


def base(t):
    while t.startswith("in:"):
        t = t[3:]
    return t


class Flow:
    def __init__(self, project, names, types):
        self.p, self.N, self.T = project, names, types
        self.funcs, self.classes = {}, {}
        self.order = []
        for m in project.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, FUNCS):
                    self.order.append((m, n))
                    if not isinstance(n, ast.Lambda):
                        self.funcs[f"{m.name}:{names.qual(n)}"] = (m, n)
                elif isinstance(n, ast.ClassDef):
                    self.classes[f"{m.name}:{names.qual(n)}"] = (m, n)
        self.model_fields = {
            x.target.id for c, (m, n) in self.classes.items() if m.name == "moz.l10n.model" for x in n.body
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
        self.ret, self.par, self.fld, self.var, self.nest = {}, {}, {}, {}, {}
        self.mutates = {}     # id(fn) -> {parameter}: the function changes the argument itself
        self.grows = {}       # id(fn) -> {parameter}: the function adds to the argument
        self.outputs = set()  # id(fn): prints or logs
        self.found = {}
        self.uses = 0
        self.set_sites = set()
        self.shared = set()
        self.exempt = set()
        self.changed = True

    # ---- lattice stores
    def put(self, d, k, tags):
        if not tags:
            return
        old = d.get(k, EMPTY)
        new = old | tags
        if new != old:
            d[k] = new
            self.changed = True

    def note(self, key, text):
        if key not in self.found:
            self.found[key] = text
            self.changed = True

    def run(self):
        n = 0
        while self.changed and n < 25:
            self.changed = False
            n += 1
            for m in self.p.modules.values():
                Body(self, m, None).module()
            for m, fn in self.order:
                Body(self, m, fn).function()
        return self

    # ---- resolution
    def targets(self, m, call, cls):
        """(functions, classes) of the package a call may enter."""
        fs, cs = [], []
        for d in self.N.dotted(call.func):
            if d in self.funcs:
                fs.append((d, False))
            elif d in self.classes:
                cs.append(d)
        f = call.func
        if isinstance(f, ast.Attribute):
            for c in class_names(self.T.of(m, f.value)):
                mod, _, q = c.rpartition(".")
                if f"{mod}:{q}.{f.attr}" in self.funcs:
                    fs.append((f"{mod}:{q}.{f.attr}", True))
            if isinstance(f.value, ast.Name) and f.value.id in ("self", "cls") and cls is not None and f"{cls}.{f.attr}" in self.funcs:
                fs.append((f"{cls}.{f.attr}", True))
            for t in items(self.T.of(m, f.value)):
                if t[0] == "type":
                    for c in class_names(t[1]):
                        mod, _, q = c.rpartition(".")
                        if f"{mod}:{q}.{f.attr}" in self.funcs:
                            fs.append((f"{mod}:{q}.{f.attr}", False))
        for t in items(self.T.of(m, f)):
            if t[0] == "type":
                for c in class_names(t[1]):
                    mod, _, q = c.rpartition(".")
                    if f"{mod}:{q}" in self.classes and f"{mod}:{q}" not in cs:
                        cs.append(f"{mod}:{q}")
        return list(dict.fromkeys(fs)), cs


class Loop:
    def __init__(self, node, src, names):
        self.node, self.src, self.names = node, src, names  # names: bound in the body, local to one iteration


class Body:
    """The analysis of one function body (or of a module)."""

    def __init__(self, flow, m, fn):
        self.w, self.m, self.fn = flow, m, fn
        self.N, self.T = flow.N, flow.T
        self.env = {}
        self.loops = []
        self.cls = None
        if fn is not None:
            p = m.parents.get(fn)
            while p is not None and not isinstance(p, FUNCS):
                if isinstance(p, ast.ClassDef):
                    self.cls = f"{m.name}:{self.N.qual(p)}"
                    break
                p = m.parents.get(p)

    def site(self, node):
        return self.N.site(node)

    # ---- entry points
    def module(self):
        self.block(self.m.tree.body)

    def function(self):
        fn, a = self.fn, self.fn.args
        pos = a.posonlyargs + a.args
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for x, d in list(zip(pos, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            t = self.w.par.get((id(fn), x.arg), EMPTY)
            if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)) \
                    and not immutable(self.T.of(self.m, d)):
                t = t | {f"G:default of {x.arg} in {self.m.name}:{self.N.qual(fn)}"}
            self.set(x.arg, t)
        for x in (a.vararg, a.kwarg):
            if x:
                self.set(x.arg, self.w.par.get((id(fn), x.arg), EMPTY))
        if isinstance(fn, ast.Lambda):
            self.returned(fn.body, self.ev(fn.body))
        else:
            self.block(fn.body)

    # ---- environment
    def set(self, name, tags):
        if self.fn is not None and name in getattr(self, "_glob", ()):
            pass
        self.env[name] = tags
        sc = self.scope(name)
        self.w.put(self.w.var, (id(sc), name), tags)
        if sc is not self.fn and sc is not self.m.tree:
            self.w.put(self.w.nest, (id(sc), name), tags)

    def scope(self, name):
        if self.fn is None:
            return self.m.tree
        own = self.N.scopes.get(id(self.fn), {})
        if name in own:
            return self.fn
        x = self.m.parents.get(self.fn)
        while x is not None:
            if isinstance(x, FUNCS) and name in self.N.scopes.get(id(x), {}):
                return x
            x = self.m.parents.get(x)
        return self.m.tree

    def get(self, e):
        name = e.id
        if name in self.env:
            return self.env[name] | self.w.nest.get((id(self.scope(name)), name), EMPTY)
        sc = self.scope(name)
        if sc is not self.m.tree or self.fn is None:
            return self.w.var.get((id(sc), name), EMPTY)
        return self.shared(e)

    def shared(self, e):
        """Tags of a name of the module (or imported)."""
        out = set()
        t = self.T.of(self.m, e)
        if t != ["any"] and immutable(t):
            return EMPTY
        bs = self.N.scopes.get(id(self.m.tree), {}).get(e.id) or []
        for b in bs:
            if b[0] in ("assign", "other", "for"):
                out.add(f"G:{self.m.name}.{e.id}")
                out |= {x for x in self.w.var.get((id(self.m.tree), e.id), EMPTY) if not x.startswith("G:")}
            elif b[0] == "import":
                mod, _, nm = b[1].rpartition(".")
                if mod in self.N.mods and f"{mod}:{nm}" not in self.w.funcs and f"{mod}:{nm}" not in self.w.classes and b[1] not in self.N.mods:
                    o = self.N.mods[mod]
                    ob = self.N.scopes.get(id(o.tree), {}).get(nm) or []
                    if any(y[0] in ("assign", "other", "for") for y in ob):
                        out.add(f"G:{mod}.{nm}")
                        out |= {x for x in self.w.var.get((id(o.tree), nm), EMPTY) if not x.startswith("G:")}
        out = {t for t in out if t[2:] not in self.w.exempt}
        for t in out:
            if t.startswith("G:"):
                self.w.shared.add(t)
        return frozenset(out)

    # ---- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            t = self.ev(s.value)
            for x in s.targets:
                self.assign(x, t, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            t = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.get(s.target)
                ty = self.T.of(self.m, s.target)
                if ty == ["any"]:
                    ty = self.T.of(self.m, s.value)
                if not immutable(ty):
                    self.mutation(s.target, old, "augmented assignment", s)
                lp = self.ordered(s.target)
                if lp and isinstance(s.op, ast.Add):
                    if any(x[0] == "inst" and x[1] == "builtins.str" for x in items(ty)):
                        t = t | {"X:" + lp}
                    elif not immutable(ty):
                        t = t | {"O:" + lp}
                self.set(s.target.id, old | frozenset(x for x in t if x != "S" or isinstance(s.op, ast.BitOr)) if not self.is_set(s.target) else old)
                if "S" in t and isinstance(s.op, ast.Add) and not self.is_set(s.target):
                    self.set(s.target.id, self.env[s.target.id] | {"O:" + self.src(s)})
            else:
                self.assign(s.target, t, s.value, aug=True)
        elif isinstance(s, ast.Delete):
            for x in s.targets:
                if isinstance(x, (ast.Attribute, ast.Subscript)):
                    self.mutation(x.value, self.ev(x.value), "deletion", s)
        elif isinstance(s, (ast.Return,)):
            if s.value is not None:
                self.returned(s.value, self.ev(s.value))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(s, s.target, s.iter, s.body, s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                e0 = dict(self.env)
                self.ev(s.test)
                self.block(s.body)
                self.join(e0)
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1, self.env = self.env, dict(e0)
            self.block(s.orelse)
            self.join(e1)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                t = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, t, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            e0 = dict(self.env)
            self.block(s.body)
            self.join(e0)
            for h in s.handlers:
                e1 = dict(self.env)
                if h.name:
                    self.set(h.name, EMPTY)
                self.block(h.body)
                self.join(e1)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            t = self.ev(s.subject)
            e0 = dict(self.env)
            out = dict(self.env)
            for c in s.cases:
                self.env = dict(e0)
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        self.set(x.name, t | elem(t))
                if c.guard is not None:
                    self.ev(c.guard)
                self.block(c.body)
                e1, self.env = self.env, out
                self.join(e1)
                out = self.env
            self.env = out
        elif isinstance(s, ast.Global):
            if self.fn is not None:
                for n in s.names:
                    for x in ast.walk(self.fn):
                        if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Store, ast.Del)):
                            self.w.note(("state", f"global {self.m.name}.{n}", self.site(x)),
                                        f"{self.N.where(x)}: assigns the module variable {n}, which later calls see")
        elif isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and getattr(x, "value", None) is not None:
                    self.ev(x.value)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)

    def join(self, other):
        for k, v in other.items():
            self.env[k] = self.env.get(k, EMPTY) | v

    def bound_in(self, body, target=None):
        out = set()
        for s in ([target] if target is not None else []) + list(body):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
        if target is not None and isinstance(target, ast.Name):
            out.add(target.id)
        return out

    def loop(self, s, target, it, body, orelse):
        t = self.ev(it)
        src = self.iterated(it, t)
        if any(x.startswith("G:") for x in t) and class_names(self.T.of(self.m, it)) & ITERATORS:
            self.mutation(it, t, "iteration", s)
        inner = self.bound_in(body, target)
        # a name that is read before it is bound in the body is carried from one iteration to the next
        carried = self.carried(body, inner - self.bound_in([], target), s)
        for _ in range(2):
            e0 = dict(self.env)
            self.assign(target, elem(t), None)
            self.loops.append(Loop(s, src, inner - carried))
            self.block(body)
            lp = self.loops.pop()
            self.join(e0)
        if src:
            # last assignment wins: what is bound from the loop variable and read after the loop
            self.last_wins(s, target, body, src, carried)
        self.block(orelse)

    def carried(self, body, names, loop):
        """Names bound before the loop too (accumulators)."""
        out = set()
        scope = self.fn if self.fn is not None else self.m.tree
        inside = {id(x) for s in body for x in ast.walk(s)}
        for x in ast.walk(scope):
            if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Store) and id(x) not in inside and x.lineno <= loop.lineno:
                out.add(x.id)
        if self.fn is not None:
            a = self.fn.args
            out |= names & {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for x in ast.walk(self.fn):
                if isinstance(x, ast.Nonlocal):
                    out |= names & set(x.names)
        return out

    def last_wins(self, s, target, body, src, carried):
        scope = self.fn if self.fn is not None else self.m.tree
        inside = {id(x) for b in body for x in ast.walk(b)}
        after = {x.id for x in ast.walk(scope) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside
                 and x.lineno > s.lineno}
        derived = self.bound_in([], target)
        for _ in range(3):
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in derived for y in ast.walk(x.value)):
                        for y in x.targets:
                            if isinstance(y, ast.Name):
                                derived.add(y.id)
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in after:
                    n = x.targets[0].id
                    used = {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
                    ty = self.T.of(self.m, x.value)
                    if n not in used and used & derived and not self.is_bool(ty) and not self.is_set(x.value):
                        self.set(n, self.env.get(n, EMPTY) | {"X:" + src})

    def is_bool(self, t):
        return all((x[0] == "inst" and x[1] in ("builtins.bool", "builtins.int")) or (x[0] == "lit" and isinstance(x[2], (bool, int))) or x[0] == "none"
                   for x in items(t))

    def is_set(self, e):
        return is_set(self.T.of(self.m, e))

    def src(self, node):
        return self.site(node)

    def iterated(self, e, t):
        """The source of hash order if iterating e goes in such an order."""
        if "S" in t:
            self.w.set_sites.add(self.N.where(e))
            return self.src(e)
        for x in t:
            if x.startswith("O:"):
                return x[2:]
        return None

    def ordered(self, e):
        """Whether we are in a loop in hash order and e is not local to its iterations: the source."""
        root = e
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.value if not isinstance(root, ast.Call) else root.func
        for lp in self.loops:
            if lp.src and not (isinstance(root, ast.Name) and root.id in lp.names):
                return lp.src
        return None

    def single(self, e):
        """Whether some test around or before says something about the number of items of e."""
        while isinstance(e, ast.Call) and e.args:
            e = e.args[0]
        d = ast.dump(e)
        for x in ast.walk(self.fn if self.fn is not None else self.m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and x.args and ast.dump(x.args[0]) == d:
                return True
        return False

    def loop_names(self):
        out = set()
        for lp in self.loops:
            if lp.src:
                out |= lp.names
        return out

    # ---- assignment
    def assign(self, t, tags, value, aug=False):
        if isinstance(t, ast.Name):
            self.set(t.id, tags)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                for x, v in zip(t.elts, value.elts):
                    self.assign(x, self.ev(v), v)
            else:
                for x in t.elts:
                    if isinstance(x, ast.Starred):
                        o = {y for y in tags if y.startswith("O:")} | ({"O:" + self.src(t)} if "S" in tags else set())
                        self.assign(x.value, wrap(elem(tags)) | o, None)
                    else:
                        o = {"X:" + y[2:] for y in tags if y.startswith("O:")} | ({"X:" + self.src(t)} if "S" in tags else set())
                        self.assign(x, elem(tags) | (o if len(t.elts) > 1 else EMPTY), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, tags, None)
        elif isinstance(t, ast.Attribute):
            bt = self.ev(t.value)
            self.mutation(t.value, bt, "attribute store", t)
            for d in self.N.dotted(t.value):
                if d in self.w.funcs or d in self.w.classes or d in self.N.mods:
                    if self.fn is not None:
                        self.w.note(("state", f"attribute {d}.{t.attr}", self.site(t)),
                                    f"{self.N.where(t)}: stores the attribute {t.attr} of {d}, which later calls see")
            if self.fn is not None and isinstance(t.value, ast.Name) and t.value.id == "cls":
                self.w.note(("state", f"attribute cls.{t.attr}", self.site(t)), f"{self.N.where(t)}: stores the class attribute {t.attr}, which later calls see")
            self.put_field(t, tags)
        elif isinstance(t, ast.Subscript):
            bt = self.ev(t.value)
            self.ev(t.slice)
            self.mutation(t.value, bt, "item store", t)
            sl = isinstance(t.slice, ast.Slice)
            new = set(wrap(elem(tags)) | {x for x in tags if x[:2] == "O:"} if sl else wrap(tags))
            if sl and value is not None and "S" in tags:
                new.add("O:" + self.src(t))
            ty = self.T.of(self.m, t.value)
            src = self.ordered(t.value)
            if src and not sl and not any(x[0] == "inst" and x[1] == "builtins.list" for x in items(ty)):
                new.add("O:" + src)
            self.add_tags(t.value, frozenset(new))

    def add_tags(self, e, tags):
        """The object e refers to gets more tags."""
        if not tags:
            return
        if isinstance(e, ast.Name):
            old = self.get(e)
            if e.id in self.env or self.scope(e.id) is not self.m.tree:
                self.env[e.id] = old | tags
                sc = self.scope(e.id)
                self.w.put(self.w.var, (id(sc), e.id), tags)
                if sc is not self.fn and sc is not self.m.tree:
                    self.w.put(self.w.nest, (id(sc), e.id), tags)
                if self.fn is not None and any(t.startswith("O:") for t in tags):
                    self.param_grows(e.id)
        elif isinstance(e, ast.Attribute):
            self.put_field(e, tags)
        elif isinstance(e, ast.Subscript):
            self.add_tags(e.value, wrap(tags))
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("setdefault", "get"):
            self.add_tags(e.func.value, wrap(tags))
        elif isinstance(e, (ast.IfExp,)):
            self.add_tags(e.body, tags)
            self.add_tags(e.orelse, tags)

    def param_grows(self, name):
        if name in self.params():
            self.w.put(self.w.grows, (id(self.fn), name), frozenset({"grows"}))

    def receivers(self, e):
        out = set(class_names(self.T.of(self.m, e)))
        if self.cls and isinstance(e, ast.Name) and e.id in ("self", "cls"):
            out.add(self.cls.replace(":", "."))
        out = {c for c in out if c.startswith("moz.")}
        if not out and ["any"] in items(self.T.of(self.m, e)):
            out.add("?")
        return out

    def put_field(self, e, tags):
        for c in self.receivers(e.value):
            if c.startswith("moz.l10n.model.") or c == "?" and e.attr in self.w.model_fields:
                for y in tags:
                    b = base(y)
                    if b[:2] in ("O:", "X:"):
                        self.leak(b[2:], f"is put into the {e.attr} of a {c.rpartition('.')[2]} at {self.N.where(e)}")
            self.w.put(self.w.fld, (c, e.attr), tags)

    def params(self):
        if self.fn is None:
            return set()
        a = self.fn.args
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    # ---- effects
    def mutation(self, e, tags, how, node):
        """The object e refers to is changed."""
        self.w.uses += 1
        for t in tags:
            if t.startswith("G:") and self.fn is not None:
                self.w.note(("state", t[2:], self.site(node)), f"{self.N.where(node)}: {how} changes {t[2:]}, which later calls see")
        if self.fn is not None:
            root = e
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            if isinstance(root, ast.Name) and root.id in self.params() and not any(
                    isinstance(x, ast.Name) and x.id == root.id and isinstance(x.ctx, ast.Store) for x in ast.walk(self.fn)):
                s = self.w.mutates.setdefault(id(self.fn), set())
                if root.id not in s:
                    s.add(root.id)
                    self.w.changed = True

    def output(self, call, tags, what):
        """Something is printed, logged by a command or written to a file."""
        if self.fn is not None and id(self.fn) not in self.w.outputs:
            self.w.outputs.add(id(self.fn))
            self.w.changed = True
        for t in tags:
            b = base(t)
            if b[:2] in ("O:", "X:"):
                self.leak(b[2:], f"reaches {what} at {self.N.where(call)}")
            elif b == "S":
                pass
        src = self.ordered(call.func)
        if src:
            names = self.loop_names()
            args = list(call.args) + [k.value for k in call.keywords]
            if any(isinstance(y, ast.Name) and y.id in names for a in args for y in ast.walk(a)):
                self.leak(src, f"is the order of {what} at {self.N.where(call)}")

    def leak(self, src, text):
        self.w.note(("order", src), f"hash order of a set iterated in {src} {text}")

    def returned(self, e, tags):
        ty = self.T.of(self.m, e)
        if ty != ["any"] and immutable(ty):
            tags = frozenset(t for t in tags if base(t).startswith("X:"))
        src = None
        for lp in self.loops:
            if lp.src and any(isinstance(y, ast.Name) and y.id in lp.names for y in ast.walk(e)) and not self.is_bool(ty):
                src = lp.src
        if src:
            tags = tags | {"X:" + src}
        self.w.put(self.w.ret, id(self.fn), tags)

    # ---- expressions
    def ev(self, e):
        t = self._ev(e)
        if isinstance(e, ast.expr) and not isinstance(e, ast.Starred):
            ty = self.T.of(self.m, e)
            if is_set(ty) and not isinstance(e, (ast.Constant,)):
                t = t | {"S"}
            if ty != ["any"] and immutable(ty):
                t = frozenset(x for x in t if base(x).startswith("X:") or base(x) == "S" and is_set(ty))
                if not any(x[0] in ("tuple",) or x[0] == "inst" and x[1] == "builtins.tuple" for x in items(ty)):
                    t = frozenset(x for x in t if not x.startswith("in:"))
                else:
                    pass
        return t

    def _ev(self, e):
        if isinstance(e, ast.Name):
            return self.get(e) if isinstance(e.ctx, ast.Load) else EMPTY
        if isinstance(e, ast.Constant):
            return EMPTY
        if isinstance(e, ast.Attribute):
            return self.attribute(e)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            ty = self.T.of(self.m, e.value)
            if any(x[0] == "inst" and x[1] == "collections.defaultdict" for x in items(ty)):
                self.mutation(e.value, frozenset(t for t in b if t.startswith("G:")), "lookup in a defaultdict", e)
                src = self.ordered(e.value)
                if src:
                    self.add_tags(e.value, frozenset({"O:" + src}))
            o = set()
            if isinstance(e.slice, ast.Slice):
                return b
            if not any(x[0] == "inst" and ("dict" in x[1] or "Mapping" in x[1]) for x in items(ty)):
                o = {"X:" + x[2:] for x in b if x.startswith("O:")}
            return elem(b) | o
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.List, ast.Tuple)):
            out = set()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    t = self.ev(x.value)
                    s = self.iterated(x.value, t)
                    out |= wrap(elem(t)) | ({"O:" + s} if s else set())
                else:
                    out |= wrap(self.ev(x))
            return frozenset(out)
        if isinstance(e, ast.Set):
            out = {"S"}
            for x in e.elts:
                out |= wrap(self.ev(x.value if isinstance(x, ast.Starred) else x))
            return frozenset(out)
        if isinstance(e, ast.Dict):
            out = set()
            for k, v in zip(e.keys, e.values):
                t = self.ev(v)
                if k is None:
                    out |= t - {"S"} if not any(x.startswith("G:") for x in t) else {x for x in t if not x.startswith("G:")} | wrap(elem(t))
                else:
                    self.ev(k)
                    out |= wrap(t)
            return frozenset(out)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return self.comp(e)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            t = self.ev(e.value)
            self.assign(e.target, t, e.value)
            return t
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, ast.Mod):
                return self.textual(a | b, e)
            return frozenset(x for x in a | b if not x.startswith("G:")) | wrap(elem(a) | elem(b))
        if isinstance(e, ast.JoinedStr):
            out = EMPTY
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    out |= self.textual(self.ev(v.value), v.value)
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            return self.yielded(e)
        if isinstance(e, ast.Await):
            return self.ev(e.value)
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Lambda):
            return EMPTY
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x)
            return EMPTY
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return EMPTY

    def textual(self, t, e):
        """Tags of the text made of a value."""
        out = {x for x in t if x.startswith("X:")}
        for x in t:
            b = base(x)
            if b.startswith("O:"):
                out.add("X:" + b[2:])
            elif b == "S":
                self.w.set_sites.add(self.N.where(e))
                out.add("X:" + self.src(e))
        return frozenset(out)

    def attribute(self, e):
        out = set()
        ds = self.N.dotted(e)
        ty = self.T.of(self.m, e)
        bt = self.ev(e.value)
        for d in ds:
            mod, _, nm = d.rpartition(".")
            if mod in self.N.mods:
                ob = self.N.scopes.get(id(self.N.mods[mod].tree), {}).get(nm) or []
                if any(y[0] in ("assign", "other", "for") for y in ob) and not (ty != ["any"] and immutable(ty)):
                    out.add(f"G:{mod}.{nm}")
                    self.w.shared.add(f"G:{mod}.{nm}")
            elif mod in self.w.classes:
                out |= self.class_attr(mod, nm)
            elif d in ("os.environ", "sys.modules", "sys.path", "os.environb", "sys.meta_path"):
                out.add("G:" + d)
        rs = self.receivers(e.value)
        if rs:
            out |= self.w.fld.get(("?", e.attr), EMPTY)
        for c in rs:
            out |= self.w.fld.get((c, e.attr), EMPTY)
            mod, _, q = c.rpartition(".")
            out |= self.class_attr(f"{mod}:{q}", e.attr)
            k = f"{mod}:{q}.{e.attr}"
            if k in self.w.funcs:   # a property
                fn = self.w.funcs[k][1]
                if any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in fn.decorator_list):
                    out |= self.w.ret.get(id(fn), EMPTY)
        out |= {t for t in bt if t.startswith("G:") or t.startswith("X:")}
        return frozenset(t for t in out if t[2:] not in self.w.exempt)

    def class_attr(self, c, name):
        """A mutable object in the class body that instances share."""
        if c not in self.w.classes:
            return set()
        m, n = self.w.classes[c]
        if any("dataclass" in ast.unparse(d) for d in n.decorator_list):
            return set()
        for b in self.N.scopes.get(id(n), {}).get(name, []):
            if b[0] == "assign":
                t = self.T.of(m, b[1])
                if t == ["any"] and isinstance(b[1], ast.Constant) or t != ["any"] and immutable(t):
                    continue
                init = f"{c}.__init__"
                if init in self.w.funcs and any(
                        isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"
                        for x in ast.walk(self.w.funcs[init][1])):
                    continue
                self.w.shared.add(f"G:{c}.{name}")
                return {f"G:{c}.{name}"}
        return set()

    def comp(self, e):
        saved = dict(self.env)
        src = None
        n = 0
        for g in e.generators:
            t = self.ev(g.iter)
            s = self.iterated(g.iter, t)
            src = src or s
            if any(x.startswith("G:") for x in t) and class_names(self.T.of(self.m, g.iter)) & ITERATORS:
                self.mutation(g.iter, t, "iteration", e)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    self.env[x.id] = EMPTY
            self.comp_assign(g.target, elem(t))
            self.loops.append(Loop(e, s, {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}))
            n += 1
            for c in g.ifs:
                self.ev(c)
        if isinstance(e, ast.DictComp):
            self.ev(e.key)
            el = self.ev(e.value)
        else:
            el = self.ev(e.elt)
        del self.loops[len(self.loops) - n:]
        for k in set(self.env) - set(saved):
            self.env.pop(k)
        self.env.update(saved)
        if isinstance(e, ast.SetComp):
            return wrap(el) | {"S"}
        return wrap(el) | ({"O:" + src} if src else set())

    def comp_assign(self, t, tags):
        if isinstance(t, ast.Name):
            self.env[t.id] = tags
        else:
            for x in getattr(t, "elts", [getattr(t, "value", None)]):
                if x is not None:
                    self.comp_assign(x, elem(tags) if not isinstance(x, ast.Starred) else tags)

    def yielded(self, e):
        if e.value is None:
            return EMPTY
        t = self.ev(e.value)
        if isinstance(e, ast.YieldFrom):
            s = self.iterated(e.value, t)
            out = wrap(elem(t)) | ({"O:" + s} if s else set())
        else:
            out = wrap(t)
        for lp in self.loops:
            if lp.src:
                out = out | {"O:" + lp.src}
        self.w.put(self.w.ret, id(self.fn), frozenset(out))
        return EMPTY

    # ---- calls
    def call(self, e):
        f = e.func
        args = [(None, self.ev(x.value) if isinstance(x, ast.Starred) else self.ev(x), x) for x in e.args]
        kws = [(k.arg, self.ev(k.value), k.value) for k in e.keywords]
        alltags = EMPTY
        for _, t, _x in args + kws:
            alltags |= t
        names = self.N.dotted(f)
        plain = {n[9:] if n.startswith("builtins.") else n for n in names}
        if isinstance(f, ast.Attribute):
            bt = self.ev(f.value)
        else:
            bt = EMPTY
        fs, cs = self.w.targets(self.m, e, self.cls)
        if fs or cs:
            out = EMPTY
            for q, bound in fs:
                out |= self.enter(e, q, bound, args, kws, bt)
            for c in cs:
                out |= self.construct(e, c, args, kws)
            return out
        if isinstance(f, ast.Attribute) and not plain & HANDLED and not plain & SEQ and \
                "types.ModuleType" not in class_names(self.T.of(self.m, f.value)):
            r = self.method(e, f, bt, args, kws, alltags)
            if r is not None:
                return r
        for n in plain:
            if n in ("print", "click.echo", "click.secho", "sys.stdout.write", "sys.stderr.write"):
                if n == "print" and any(k == "file" for k, _, _x in kws) and not self.ordered(next(x for k, _, x in kws if k == "file")):
                    continue
                self.output(e, self.textual(alltags, e), n)
                return EMPTY
            if n == "json.dump" and len(args) > 1:
                t = alltags
                if any(k == "sort_keys" for k, _, _x in kws):
                    t = frozenset(x for x in t if not x.startswith("O:"))
                for x in t:
                    if base(x)[:2] in ("O:", "X:"):
                        self.leak(base(x)[2:], f"reaches {n}() at {self.N.where(e)}")
                src = self.ordered(args[1][2])
                if src:
                    self.leak(src, f"is the order of {n}() at {self.N.where(e)}")
                return EMPTY
            if n == "json.dumps":
                t = alltags
                if any(k == "sort_keys" for k, _, _x in kws):
                    t = frozenset(x for x in t if not x.startswith("O:"))
                return self.textual(frozenset(x for x in t if base(x) != "S"), e)
            if n in ("sorted",):
                key = next((x for k, _, x in kws if k == "key"), None)
                if key is not None and self.N.dotted(key) & {"builtins.id", "builtins.hash"}:
                    return wrap(elem(alltags)) | {"O:" + self.src(e)}
                return wrap(elem(alltags))
            if n in ("set", "frozenset"):
                return wrap(elem(alltags)) | {"S"}
            if n in NEUTRAL:
                return EMPTY
            if n in ("id", "hash") and not (self.fn is not None and getattr(self.fn, "name", "") == "__hash__"):
                return frozenset({"X:" + self.src(e)})
            if n in ("str", "repr", "format", "ascii"):
                return self.textual(alltags, e)
            if n == "next":
                self.mutation(e.args[0], args[0][1], "next()", e)
                s = self.iterated(e.args[0], args[0][1]) if not self.single(e.args[0]) else None
                return elem(alltags) | ({"X:" + s} if s else set())
            if n == "setattr" and args:
                self.mutation(e.args[0], args[0][1], "setattr()", e)
                return EMPTY
            if n in SEQ:
                out = wrap(elem(alltags)) if n != "reversed" else elem(wrap(alltags))
                if n in ("enumerate", "zip", "itertools.zip_longest"):
                    out = wrap(out)
                for _, t, x in args:
                    s = self.iterated(x.value if isinstance(x, ast.Starred) else x, t)
                    if s:
                        out = out | {"O:" + s}
                if n in ("itertools.chain.from_iterable",):
                    out = elem(out) | wrap(elem(elem(elem(out)))) | frozenset(x for x in out if x[:2] == "O:")
                return frozenset(out)
            if n in ("copy.deepcopy",):
                return frozenset(x for x in alltags if not base(x).startswith("G:"))
            if n in ("copy.copy", "dataclasses.replace"):
                return frozenset(x for x in alltags if not x.startswith("G:")) | wrap(elem(alltags))
        out = set(x for x in alltags if base(x).startswith("X:"))
        if not plain & INSENSITIVE:
            out |= wrap(frozenset(x for x in alltags if base(x).startswith("O:")))
        return frozenset(out)

    def method(self, e, f, bt, args, kws, alltags):
        name = f.attr
        ty = self.T.of(self.m, f.value)
        log = any(x[0] == "inst" and x[1] == "logging.Logger" for x in items(ty)) or isinstance(f.value, ast.Name) and f.value.id in ("log", "logger", "logging")
        if log:
            if self.m.name.startswith("moz.l10n.bin") and name in ("info", "warning", "error", "critical", "exception", "warn"):
                self.output(e, self.textual(frozenset(x for x in alltags), e), f"log.{name}()")
            return EMPTY
        if name in ("write", "writelines") and not is_set(ty):
            src = self.ordered(f.value)
            t = self.textual(frozenset(x for x in alltags), e) if name == "write" else frozenset(x for x in alltags if base(x)[:2] in ("O:", "X:"))
            for x in t:
                self.leak(base(x)[2:], f"reaches {name}() at {self.N.where(e)}")
            if src:
                self.leak(src, f"is the order of {name}() at {self.N.where(e)}")
            return EMPTY
        if name in MUTATORS:
            listy = any(x[0] == "inst" and x[1] in ("builtins.list", "collections.deque", "builtins.dict", "collections.defaultdict", "builtins.set") or x[0] == "any"
                        or x[0] == "inst" for x in items(ty))
            if listy and not (ty != ["any"] and immutable(ty)):
                self.mutation(f.value, bt, f".{name}()", e)
        if name == "sort":
            if isinstance(f.value, ast.Name) and f.value.id in self.env:
                self.env[f.value.id] = frozenset(x for x in self.env[f.value.id] if not x.startswith("O:"))
            return EMPTY
        if name in GROW and not is_set(ty):
            new = set()
            for i, (_, t, x) in enumerate(args):
                if name in ("extend", "extendleft"):
                    s = self.iterated(x, t)
                    new |= wrap(elem(t)) | ({"O:" + s} if s else set())
                else:
                    new |= wrap(t)
            src = self.ordered(f.value)
            if src:
                new.add("O:" + src)
            self.add_tags(f.value, frozenset(new))
            return EMPTY
        if name in ("add",) and not args:
            return EMPTY
        if name == "setdefault" and args:
            new = set(wrap(args[1][1])) if len(args) > 1 else set()
            src = self.ordered(f.value)
            if src:
                new.add("O:" + src)
            self.add_tags(f.value, frozenset(new))
            return elem(bt) | (args[1][1] if len(args) > 1 else EMPTY)
        if name == "update" and not is_set(ty):
            new = set(x for x in alltags if x[:2] == "O:" or x.startswith("in:"))
            src = self.ordered(f.value)
            if src:
                new.add("O:" + src)
            self.add_tags(f.value, frozenset(new))
            return EMPTY
        if name in ("add", "update", "discard", "clear", "remove") and is_set(ty):
            return EMPTY
        if name == "pop":
            if "S" in bt or is_set(ty):
                return elem(bt) | ({"X:" + self.src(e)} if not self.single(f.value) else set())
            o = {"X:" + x[2:] for x in bt if x.startswith("O:")} if not any("dict" in (x[1] if x[0] == "inst" else "") for x in items(ty)) else set()
            return elem(bt) | o | (args[1][1] if len(args) > 1 else EMPTY)
        if name == "popitem":
            return elem(bt) | {"X:" + x[2:] for x in bt if x.startswith("O:")}
        if is_set(ty) and name in SET_RESULT:
            return frozenset({"S"}) | wrap(elem(bt))
        if name in ("keys", "copy"):
            return frozenset(x for x in bt if not x.startswith("G:")) | wrap(elem(bt)) if name == "copy" else frozenset(x for x in bt if x.startswith("O:"))
        if name == "values":
            return bt
        if name == "items":
            return frozenset(x for x in bt if not x.startswith("in:")) | wrap(frozenset(x for x in bt if x.startswith("in:"))) | \
                frozenset(x for x in bt if x.startswith("G:"))
        if name == "get":
            return elem(bt) | (args[1][1] if len(args) > 1 else EMPTY)
        if name == "join" and args and any(x[0] == "inst" and x[1] == "builtins.str" or x[0] == "lit" for x in items(ty)):
            s = self.iterated(args[0][2], args[0][1])
            return frozenset(x for x in elem(args[0][1]) if x.startswith("X:")) | ({"X:" + s} if s else set())
        if name == "format":
            return self.textual(alltags | bt, e)
        if name == "fromkeys" and args:
            s = self.iterated(args[0][2], args[0][1])
            return frozenset({"O:" + s} if s else ())
        if name == "elements" or name == "most_common":
            return frozenset(x for x in bt if x.startswith("O:"))
        return frozenset(x for x in alltags | bt if base(x).startswith("X:"))

    def enter(self, e, q, bound, args, kws, bt):
        m, fn = self.w.funcs[q]
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        deco = {ast.unparse(d).split("(")[0].split(".")[-1] for d in fn.decorator_list}
        method = isinstance(m.parents.get(fn), ast.ClassDef) and "staticmethod" not in deco
        pairs = []
        i = 0
        if method and bound:
            pairs.append((pos[0], bt, e.func.value))
            i = 1
        elif method and "classmethod" in deco:
            i = 1
        for _, t, x in args:
            if isinstance(x, ast.Starred):
                s = self.iterated(x.value, t)
                o = {"O:" + s} if s else set()
                for p in pos[i:]:
                    pairs.append((p, elem(t) | {"X:" + y[2:] for y in o}, x))
                if a.vararg:
                    pairs.append((a.vararg.arg, wrap(elem(t)) | o, x))
            elif i < len(pos):
                pairs.append((pos[i], t, x))
                i += 1
            elif a.vararg:
                pairs.append((a.vararg.arg, wrap(t), x))
        allp = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, t, x in kws:
            if k in allp:
                pairs.append((k, t, x))
            elif a.kwarg:
                pairs.append((a.kwarg.arg, wrap(t), x))
        mut = self.w.mutates.get(id(fn), ())
        for p, t, x in pairs:
            if self.fn is None:
                t = frozenset(y for y in t if not base(y).startswith("G:"))
            self.w.put(self.w.par, (id(fn), p), frozenset(t))
            if p in mut:
                x = x.value if isinstance(x, ast.Starred) else x
                self.mutation(x, frozenset(y for y in t if y.startswith("G:")), f"{q.split(':')[1]}()", e)
                src = self.ordered(x)
                grown = self.w.grows.get((id(fn), p))
                if src and grown:
                    self.add_tags(x, frozenset({"O:" + src}))
        if id(fn) in self.w.outputs:
            src = self.ordered(e.func) if isinstance(e.func, ast.Attribute) else next((lp.src for lp in self.loops if lp.src), None)
            names = self.loop_names()
            if src and any(isinstance(y, ast.Name) and y.id in names for _, _t, x in args + kws for y in ast.walk(x)):
                self.leak(src, f"is the order of the output of {q.split(':')[1]}() called at {self.N.where(e)}")
        out = self.w.ret.get(id(fn), EMPTY)
        if any(d in ("lru_cache", "cache", "cached_property") for d in deco):
            ty = self.T.of(self.m, e)
            if ty == ["any"] or not immutable(ty):
                out = out | {f"G:cached result of {q}"}
        return out

    def construct(self, e, c, args, kws):
        m, n = self.w.classes[c]
        fields = [x.target.id for x in n.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        init = f"{c}.__init__"
        if init in self.w.funcs:
            self.enter(e, init, False, [(None, EMPTY, e.func)] + args, kws, EMPTY)
            return EMPTY
        model = m.name == "moz.l10n.model"
        for (k, t, x), fname in list(zip(args, fields)) + [(y, y[0]) for y in kws]:
            if fname:
                self.w.put(self.w.fld, (c.replace(':', '.'), fname), frozenset(t))
            if model:
                for y in t:
                    b = base(y)
                    if b[:2] in ("O:", "X:"):
                        self.leak(b[2:], f"is put into a {n.name} at {self.N.where(e)}")
        return EMPTY


def public(flow):
    """(name, module, function) of the public API: what packages export, and public methods of exported classes."""
    out = {}
    for m in flow.p.modules.values():
        al = None
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                al = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant)]
        exported = al if al is not None else ([s.name for s in m.tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and not s.name.startswith("_")]
                                              if not m.is_pkg else [])
        if al is None and m.is_pkg:
            exported = list(flow.N.scopes.get(id(m.tree), {}))
        if al is None and not m.is_pkg and not (m.name in ("moz.l10n.model", "moz.l10n.formats") or m.name.startswith("moz.l10n.migrate")):
            continue
        for x in exported:
            for d in flow.N.project_name(f"{m.name}.{x}"):
                if d in flow.funcs:
                    out[d] = flow.funcs[d]
                elif d in flow.classes:
                    for q, f in flow.funcs.items():
                        if q.startswith(d + ".") and q.count(".") == d.count(".") + 1 and (not f[1].name.startswith("_") or f[1].name in ("__str__", "__repr__", "__iter__")):
                            out[q] = f
    return out
