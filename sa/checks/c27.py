"""The walk over a file tree leaves out hidden and ignored files: walk_files() and the walk of L10nDiscoverPaths interpreted on directories of every small shape of ignored and other names."""
from __future__ import annotations

import ast

from ..domain import *
from ..domain import V, Obj
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..names import Names
from ..project import AnalysisBroken
from ..run import call, find_func

RULE = (
    "Abstract interpretation of walk_files(), a stand-in for the rule matcher answering by the label of the path it is given: for every sequence of up to four sub-directories and files, each ignored or not, "
    "with and without a rule file, no ignored directory is left to be descended into and no ignored file is given out.  Every match is made against the hidden-file rule and all rules read from the rule file, with the path "
    "relative to the root and the right kind (directory or file).  The discovery walk is interpreted on directories with hidden names: none is left to be descended into, and hidden files make no directory localizable; "
    "its reference paths come from walk_files() with the ignore file passed on, or from force_paths.  No glob of the package includes hidden names."
)
ASSUMPTIONS = ["gitignorant implements the gitignore rules", "os.walk() does not descend into what is taken out of its list of directories", "a rule file that cannot be opened means that there are no rules besides the hidden-file rule"]
WF = "moz.l10n.util.walk_files:walk_files"
SHAPES = ["h", "oh", "ho", "hh", "oho", "hoh", "hho", "ohh", "hhh", "ohho", "hohh"]


def name(kind, i, what):
    l = frozenset([f"name:{what}{i}", {"h": "hit", "o": "ok"}[kind], what])
    return strv("S", l, l)


class Walk(Hooks):
    def __init__(self, shape, fshape, openable=True):
        self.shape, self.fshape, self.openable = shape, fshape, openable
        self.dirs = None
        self.matches, self.bad, self.walks, self.opened = [], [], 0, 0

    def listing(self, I, st):
        """(dirpath, dirnames, filenames) as os.walk() gives them."""
        l = frozenset(["dirpath"])
        d = I.alloc(st, "walk:dirs", Obj("list", must=tuple(name(k, i, "dir") for i, k in enumerate(self.shape)), owner="input"))
        f = I.alloc(st, "walk:files", Obj("list", must=tuple(name(k, i, "file") for i, k in enumerate(self.fshape)), owner="input"))
        self.dirs = next(iter(d.atoms))[1]
        return mk(("t", (strv("S", l, l), d, f)))

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted == "os.walk":
            self.walks += 1
            td = args[1] if len(args) > 1 else kwargs.get("topdown", TRUE)
            if True not in I.truth(td, st) or False in I.truth(td, st):
                self.bad.append((f"topdown:{F.fi.qual}", f"{F.where(node)}: the tree is walked bottom-up, so that taking a directory out of the list has no effect"))
            return I.new_list(st, F, node, (self.listing(I, st),), tag="walk")
        if dotted in ("os.path.join", "os.path.normpath", "os.path.abspath"):
            m, n = I.arg_labels(args, kwargs, st)
            if dotted == "os.path.join":
                n = n - {"root", "dirpath"} | {"abs"}
            return strv("S", m | n, n)
        if dotted == "os.path.relpath":
            m, n = I.arg_labels(args[:1], {}, st)
            start = args[1] if len(args) > 1 else kwargs.get("start")
            if start is None or "root" not in start.must:
                if n & {"dir", "file"}:
                    self.bad.append((f"root:{F.fi.qual}", f"{F.where(node)}: the path the rules are applied to is not relative to the root"))
            return strv("S", m | {"rel"}, n - {"abs"} | {"rel"})
        if dotted == "os.path.isdir":
            return TRUE
        if dotted.endswith(".parse_gitignore_file"):
            l = frozenset(["rule:user"])
            src = args[0] if args else TOP
            if "ignorefile" not in src.may | src.must:
                return None
            return I.new_list(st, F, node, (mk(("xi", "gitignorant.Rule", "T")).labelled(l, l),), tag="rules")
        if dotted == "gitignorant.Rule":
            a = dict(zip(("negative", "content"), args))
            a.update(kwargs)
            c, ng = a.get("content"), a.get("negative")
            l = frozenset(["rule:hidden"]) if c is not None and c.atoms == const(".*").atoms and ng is not None and ng.atoms == FALSE.atoms else EMPTY
            return mk(("xi", "gitignorant.Rule", "T")).labelled(l, l)
        if dotted.endswith(".check_match"):
            a = dict(zip(("rules", "path", "is_dir"), args))
            a.update(kwargs)
            path, rules, isd = a.get("path", TOP), a.get("rules", TOP), a.get("is_dir", FALSE)
            self.matches.append((F, node, path, I.labels(rules, st), isd))
            if "hit" in path.must:
                return TRUE
            return FALSE if "ok" in path.must else BOOL
        if dotted in ("builtins.open", "io.open", "codecs.open", "pathlib.Path.open"):
            m, n = I.arg_labels(args, kwargs, st)
            self.opened += "ignorepath" in n
            if not self.openable:
                I.do_raise({"builtins.FileNotFoundError"}, st, node, F)
            l = frozenset(["ignorefile"]) if "ignorepath" in n else EMPTY
            return mk(("xi", "io.File", "T")).labelled(l, l)
        return None


def walk_files_check(I, rep):
    fv = find_func(I, WF)
    L = frozenset
    root = strv("S", L(["root"]), L(["root"]))
    ign = strv("S", L(["ignorepath"]), L(["ignorepath"]))
    for shape in SHAPES:
        for cfg in ("rules", "norules", "none", "dirs"):
            if cfg != "rules" and shape not in ("ho", "hh"):
                continue
            h = Walk(shape, shape, openable=cfg != "norules")
            I.hooks = h
            st = I.base.copy()
            b = Build(I, st)
            h.listing(I, st)
            dirs = b.lst((strv("S", L(["sub"]), L(["sub"])),)) if cfg == "dirs" else NONE
            r = call(I, fv, [root], {"dirs": dirs, "ignorepath": NONE if cfg == "none" else ign}, st, consume=True)
            at = f"{shape}/{cfg}"
            if not r.completes or not h.walks:
                raise AnalysisBroken(f"walk_files() on {at} does not complete a walk")
            rep.saw("directory shapes", at)
            o = r.state.heap[h.dirs]
            left = [m for m in (*o.must, *([o.elem] if o.elem is not None else [])) if "hit" in m.may | m.must]
            rep.decide(f"descend:{at}", not left, f"walk_files(): an ignored or hidden sub-directory is still descended into (directories {shape}, h = ignored)")
            elem, must = r.value
            outs = [m for m in (*must, *([elem] if elem is not None else [])) if "hit" in m.may | m.must]
            rep.decide(f"yield:{at}", not outs, f"walk_files(): an ignored or hidden file is given out (files {shape}, h = ignored)")
            want = {"rule:hidden"} | ({"rule:user"} if cfg in ("rules", "dirs") else set())
            for k, t in sorted(set(h.bad)):
                rep.bad(k, t)
            for F, node, path, (lm, ln), isd in h.matches:
                rep.saw("matches", F.where(node))
                w = F.fi.qual
                miss = want - set(ln)
                rep.decide(f"rules:{at}:{w}", not miss, f"{F.where(node)}: a path is matched without " + {"rule:hidden": "the rule for hidden names", "rule:user": "the rules of the ignore file"}.get(min(miss, default=""), ""))
                if "dir" in path.must:
                    rep.decide(f"kind:{at}:dir", I.truth(isd, r.state) == {True}, f"{F.where(node)}: a directory is not matched as one, so that rules for directories do not apply")
                elif "file" in path.must:
                    rep.decide(f"kind:{at}:file", I.truth(isd, r.state) == {False}, f"{F.where(node)}: a file is matched as a directory")
                rep.decide(f"rel:{at}", not ("abs" in path.must and all(a == ("s", "S") for a in path.atoms)), f"{F.where(node)}: the path the rules are applied to is not relative to the root")
            if cfg in ("rules", "dirs"):
                rep.decide(f"open:{at}", h.opened > 0, "walk_files(): the ignore file is not read")
    rep.need("matches", 2)


class Discover(Hooks):
    def __init__(self, *tree):
        self.tree = tree
        self.calls, self.walks, self.oids, self.bad = [], 0, [], []

    def listings(self, I, st):
        """(dirpath, dirnames, filenames) of each directory, as os.walk() gives them."""
        self.oids, out = [], []
        for i, (path, dirs, files) in enumerate(self.tree):
            d = I.alloc(st, f"walk:dirs{i}", Obj("list", must=tuple(map(const, dirs)), owner="input"))
            f = I.alloc(st, f"walk:files{i}", Obj("list", must=tuple(map(const, files)), owner="input"))
            self.oids.append(next(iter(d.atoms))[1])
            out.append(mk(("t", (const(path), d, f))))
        return tuple(out)

    def call_func(self, I, F, node, fi, args, kwargs, st):
        if fi.full == WF:
            b = dict(zip([a.arg for a in fi.node.args.args], args))
            b.update(kwargs)
            self.calls.append((F, node, b))
            l = frozenset(["walked"])
            return I.new_list(st, F, node, (), strv("S", l, l), tag="wf")
        return None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted == "os.walk":
            self.walks += 1
            td = args[1] if len(args) > 1 else kwargs.get("topdown", TRUE)
            if I.truth(td, st) != {True}:
                self.bad.append((f"topdown:{F.fi.qual}", f"{F.where(node)}: the tree is walked bottom-up, so that taking a directory out of the list has no effect"))
            return I.new_list(st, F, node, self.listings(I, st), tag="walk")
        if dotted in ("os.path.isdir", "os.path.exists"):
            return TRUE
        if dotted in ("os.path.normpath", "os.path.abspath") and args:
            return args[0]
        return None


def discover_check(I, rep):
    fv = find_func(I, "moz.l10n.paths.discover:L10nDiscoverPaths")
    L = frozenset
    ok = 0
    top, sub = ("/r", ["en-US", "fr", "sub"], ["a.ftl"]), "/r/sub"
    for what, live, *tree in [
        ("plain", True, ("/r", ["en-US", "fr"], ["a.ftl"])),
        ("hidden", None, ("/r", [".git", "en-US"], ["a.ftl"])),
        ("hidden last", None, ("/r", ["en-US", ".git"], ["a.ftl"])),
        ("hidden both", None, ("/r", [".git", ".tx"], ["a.ftl"])),
        ("hidden between", None, ("/r", ["en-US", ".git", ".tx", "fr"], ["a.ftl"])),
        ("hidden in a sub-directory", True, top, (sub, [".git"], ["a.ftl"])),
        ("hidden in a sub-directory without files", True, top, (sub, [".git"], [])),
        ("hidden next to locales in a sub-directory", True, top, (sub, ["en-US", ".git", "de"], ["x"])),
        ("hidden in the reference directory", True, top, ("/r/en-US", ["x", ".git"], ["a.ftl", ".b.ftl"])),
        ("hidden in a locale directory", True, top, ("/r/en-US", [], ["a.ftl"]), ("/r/fr", [".git"], [])),
    ]:
        h = Discover(*tree)
        I.hooks = h
        st = I.base.copy()
        ign = strv("S", L(["ignorepath"]), L(["ignorepath"]))
        b = Build(I, st)
        h.listings(I, st)
        forced = b.lst((), strv("S", L(["forced"]), L(["forced"])))
        r = call(I, fv, [const("/r"), NONE], {"ignorepath": ign, "force_paths": forced}, st)
        if not h.walks:
            raise AnalysisBroken("L10nDiscoverPaths() makes no walk")
        for k, t in sorted(set(h.bad)):
            rep.bad(k, t)
        if live and not r.completes:
            raise AnalysisBroken("L10nDiscoverPaths() does not complete")
        if not r.completes:
            continue
        ok += 1
        rep.saw("discovery walks", what)
        for oid in h.oids:
            o = r.state.heap[oid]
            left = [m for m in (*o.must, *([o.elem] if o.elem is not None else [])) if any(a[0] != "c" or a[2].startswith(".") for a in m.atoms)]
            rep.decide(f"discover:descend:{what}", not left, f"L10nDiscoverPaths: a hidden sub-directory is still descended into ({what}: {tree})")
        for F, node, bd in h.calls:
            v = bd.get("ignorepath")
            rep.decide(f"discover:ignorepath:{what}", v is not None and "ignorepath" in v.must and all(is_str_atom(a) for a in v.atoms), f"{F.where(node)}: the ignore file of L10nDiscoverPaths is not passed on to walk_files()")
        for oid in I.objs(r.value):
            o = r.state.heap[oid]
            rp = o.attrs.get("ref_paths")
            if rp is None:
                raise AnalysisBroken("L10nDiscoverPaths has no ref_paths")
            vals = []
            for q in I.objs(rp):
                p = r.state.heap[q]
                vals += [*p.must, *([p.elem] if p.elem is not None else [])]
            other = [v for v in vals if not (v.must | v.may) & {"walked", "forced"}]
            rep.decide(f"discover:ref_paths:{what}", not other and bool(I.objs(rp)), "L10nDiscoverPaths: a reference path comes from elsewhere than walk_files() or force_paths")
    # hidden files make no directory localizable: nothing is found, or a hidden template is not preferred
    h = Discover(("/r", ["en-US"], [".a.ftl", ".b.pot"]))
    I.hooks = h
    st = I.base.copy()
    h.listings(I, st)
    r = call(I, fv, [const("/r"), NONE], {}, st)
    rep.saw("discovery walks", "only hidden files")
    rep.decide("discover:hidden-files", not r.completes, "L10nDiscoverPaths: a directory with only hidden files is taken for one with localizable files")
    rep.need("discovery walks", 9)


def check(project, rep, tier):
    I = Interp(project).load_all()
    I.explicit_only = True
    walk_files_check(I, rep)
    discover_check(I, rep)
    names = Names(project)
    for m, n in names.calls:
        f = n.func
        if (isinstance(f, ast.Name) and "glob" in f.id or isinstance(f, ast.Attribute) and "glob" in f.attr):
            rep.saw("globs", f"{m.rel}:{n.lineno}")
            hid = [k for k in n.keywords if k.arg == "include_hidden" and not (isinstance(k.value, ast.Constant) and not k.value.value)]
            rep.decide(f"glob:{m.rel}", not hid, f"{m.rel}:{n.lineno}: a glob includes hidden names")
