"""Migrations and file-writing commands, interpreted with stand-ins for parsing, serializing and the file system."""
from __future__ import annotations

import ast

from ..domain import *
from ..domain import V, Obj
from ..files import OPEN, mode_writes, writes
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func

PATHS = "moz.l10n.paths."
EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists", "os.access", "pathlib.Path.exists", "pathlib.Path.is_file"}
STAT = {"os.stat", "os.lstat", "os.path.getsize", "os.path.getmtime", "pathlib.Path.stat"}


def const_modes(v):
    if v is None:
        return {"r"}
    if all(a[0] == "c" for a in v.atoms):
        return {a[2] for a in v.atoms}
    return None


def open_mode(dotted, args, kwargs):
    """(modes or None, path) of a call to an open function, else None."""
    if dotted == "pathlib.Path.open":
        return const_modes(kwargs.get("mode", args[1] if len(args) > 1 else None)), args[0]
    if dotted in OPEN:
        p = args[0] if args else kwargs.get("file")
        return const_modes(kwargs.get("mode", args[1] if len(args) > 1 else None)), p
    return None


class Migration(Hooks):
    """scenario: what parsing a target file does: 'parsed', 'missing', or the id of the exception raised"""

    def __init__(self, effects=None, scenario=None, callback=None, target=None):
        self.scenario, self.callback, self.target_res = scenario, callback, target
        self.writes, self.opened, self.parsed, self.applied, self.serialized = [], [], [], [], []
        self.I = None
        self.opt = None

    capture = False

    # ---- hooks
    def call_func(self, I, F, node, fi, args, kwargs, st):
        name = fi.name
        if fi.module.name.startswith(PATHS) and fi.cls is not None:
            if name == "target":
                loc = kwargs.get("locale")
                l = {"tgt", "at:locale"} if loc is not None and loc.atoms != NONE.atoms else {"tgt", "at:template"}
                p = strv("S", frozenset(l), frozenset(l))
                return mk(("t", (p, I.new_list(st, F, node, elem=STR_T, tag="loc"))))
            if name == "format_target_path":
                m, n = I.arg_labels(args[1:], kwargs, st)
                return strv("S", m | {"at:formatted"}, n | {"at:formatted"})
            return STR_T
        if fi.module.name.startswith("moz.l10n.resource") and name == "parse_resource":
            src = args[0] if args else kwargs.get("input", TOP)
            self.parsed.append((F.where(node), src))
            if "tgt" in src.must:
                if self.scenario == "parsed":
                    return self.target_res(I, st) if self.target_res else self.resource(I, st)
                if self.scenario is not None:
                    I.do_raise({"builtins.FileNotFoundError" if self.scenario == "missing" else self.scenario}, st, node, F)
            if I.handlers:
                I.handlers[-1].append((frozenset(["?"]), st.copy(), node, F))
            return self.resource(I, st)
        if fi.module.name.startswith("moz.l10n.resource") and name == "serialize_resource":
            self.serialized.append((F.where(node), args[0] if args else kwargs.get("resource")))
            return I.new_list(st, F, node, elem=STR, tag="ser")
        if name == "detect_format":
            ci = I.classes["moz.l10n.formats:Format"]
            return join(join_all(ci.members.values()), NONE)
        if fi.full == "moz.l10n.migrate:Migrate.apply" and self.capture:
            pos = [a.arg for a in fi.node.args.args]
            b = dict(zip(pos, args))
            b.update(kwargs)
            self.applied.append(b.get("dry_run"))
            return I.new_list(st, F, node, kind="dict")
        return None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        self.inject(I, st)
        om = open_mode(dotted, args, kwargs)
        if om is not None:
            if mode_writes(om[0]):
                self.opened.append((F.where(node), F.fi.full if F.fi else "?", om[1]))
                self.writes.append(f"{F.where(node)}: {dotted}")
            return I.new_ext(st, F, node, "file", [])
        if dotted.startswith("file."):
            return STR if ".read" in dotted else TOP
        if writes(dotted):
            self.writes.append(f"{F.where(node)}: {dotted}")
        if self.scenario is not None:
            if dotted in EXISTS or dotted == "?" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("exists", "is_file"):
                return FALSE if self.scenario == "missing" else TRUE
            if dotted in STAT:
                if self.scenario == "missing":
                    I.do_raise({"builtins.FileNotFoundError"}, st, node, F)
                return TOP
        if dotted == "?" and self.callback is not None:
            return self.callback(I, st, F, node)
        return None

    def inject(self, I, st):
        if self.opt and self.opt in st.heap:
            # whatever is called may define migrations
            o = st.heap[self.opt]
            st.heap[self.opt] = o.w(elem=jopt(o.elem, self.instance(I, st)))

    # ---- inputs
    @staticmethod
    def resource(I, st):
        b = SiteBuild(I, st)
        return b.resource(elem=b.section(id=mk(("tn", STR_T, False)), elem=join(b.entry(), b.comment())))

    ids = None  # the identifier the migration defines (default: any number of any)

    def instance(self, I, st):
        b = Build(I, st)

        def put(oid, obj):
            st.heap[oid] = obj
            return mk(("o", oid))
        for c in ("moz.l10n.migrate:Migrate", "moz.l10n.paths.config:L10nConfigPaths"):
            if c not in I.classes:
                raise AnalysisBroken(f"class {c} not found")
        if self.ids is not None:
            fns = put("mig:fns", Obj("dict", must=((self.ids, TOP),), owner="input"))
        else:
            fns = put("mig:fns", Obj("dict", ekey=join(STR_T, mk(("tn", STR_T, True))), elem=TOP, owner="input"))
        mp = put("mig:map", Obj("dict", ekey=STR_T, elem=fns, owner="input"))
        paths = put("mig:paths", Obj("inst", "moz.l10n.paths.config:L10nConfigPaths", {"base": STR_T}, owner="input"))
        po = put("mig:opts", Obj("dict", ekey=STR_T, elem=TOP, owner="input"))
        return put("mig:self", Obj("inst", "moz.l10n.migrate:Migrate", {"map": mp, "paths": paths, "parse_options": po}, owner="input"))

    def apply(self, I, **kw):
        I.hooks = self
        b = Build(I)
        self_ = self.instance(I, b.st)
        return call(I, method(I, "moz.l10n.migrate:Migrate", "apply"), [self_], kw, b.st)

    def registry(self, I):
        g = I.base.frames["M:moz.l10n.migrate"].get("all_migrations")
        oids = [a[1] for a in g.atoms if a[0] == "o"] if g is not None else []
        if not oids:
            raise AnalysisBroken("moz.l10n.migrate.all_migrations not found")
        self.opt = oids[0]

    def command(self, I):
        I.hooks = self
        b = Build(I)
        self.capture = True
        self.registry(I)
        self.inject(I, b.st)
        dry = V(BOOL.atoms, frozenset(["dry"]), frozenset(["dry"]))
        opt = join(NONE, STR_T)
        return call(I, find_func(I, "moz.l10n.bin.migrate:cli"), [],
                    {"verbose": INT, "quiet": BOOL, "dry_run": dry, "config": opt, "root": opt, "ref": opt,
                     "migration": mk(("tn", STR_T, True))}, b.st)


class SiteBuild(Build):
    """Fresh objects with the same names at each use, so that loops reach a fixpoint."""

    def alloc(self, obj):
        self.n += 1
        return self.I.alloc(self.st, f"new{self.n}", obj.w(owner="fresh"))


def method(I, cls, name):
    ci = I.classes.get(cls)
    m = I.find_member(ci, name) if ci else None
    if m is None:
        raise AnalysisBroken(f"{cls}.{name} not found")
    return m
