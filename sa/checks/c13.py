"""Files are replaced only after their new content is complete: typestate analysis of every function that opens a file for writing; between truncation and close nothing may run that computes content or can raise."""
import ast

from ..domain import *
from ..domain import V
from ..evalmod import Interp
from ..files import DESTROY, Effects, mode_writes
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from .migr import Migration, method, open_mode

RULE = (
    "Typestate by abstract interpretation: opening in a truncating mode (or the first write/truncate of a file opened for update) makes the file dirty "
    "until it is closed; while any file is dirty no lazily evaluated content may be consumed (generators of the package, iterators over them), no project "
    "parsing or serializing function or unknown callable be called, and no exception be raised explicitly. A file rewritten in place is truncated before it is closed. No file is deleted, renamed away or truncated by path."
)
ASSUMPTIONS = ["writing complete bytes or text to an open file and json.dump of coverage counts do not fail", "log calls do not fail"]

BENIGN = ("logging.", "click.", "os.path.", "sys.", "json.dump", "builtins.", "time.", "re.")


class Window(Migration):
    def __init__(self, project):
        super().__init__()
        self.bad = {}
        self.sites = set()
        self.done = set()

    def hazard(self, F, node, st, what):
        self.events += 1
        if "closed" not in st.facts:
            k = (F.fi.full if F.fi else F.module.name, what)
            self.bad.setdefault(k, f"{F.where(node)}: {what} while a file is open for writing (call chain {F.chain()})")

    @staticmethod
    def files(v, st):
        return {st.heap[a[1]].cls for a in v.atoms if a[0] == "o" and (st.heap[a[1]].cls or "").startswith("file")}

    def lazy(self, F, node, st, args):
        for v in args:
            for a in v.atoms:
                if a[0] == "o" and a[1] in st.heap:
                    o = st.heap[a[1]]
                    if o.kind == "gen" or "lazy" in o.flags:
                        self.hazard(F, node, st, "content is produced lazily")

    def iter_obj(self, I, F, node, oid, o, st):
        if "lazy" in o.flags:
            self.hazard(F, node, st, "content is produced lazily")

    def gen_body(self, I, F, node, fi, st):
        self.hazard(F, node, st, f"generator {fi.name} runs")
        if fi.module.name.startswith("moz.l10n.formats.") or fi.module.name.startswith("moz.l10n.resource."):
            return STR, ()
        return None

    def raised(self, I, F, node, exc, st):
        if not self.quiet:
            self.hazard(F, node, st, "an exception is raised")

    quiet = False

    def call_func(self, I, F, node, fi, args, kwargs, st):
        m = fi.module.name
        if m.startswith(("moz.l10n.formats.", "moz.l10n.resource.", "moz.l10n.message.", "moz.l10n.paths.")):
            if fi.name == "serialize_resource":
                self.hazard(F, node, st, "serialize_resource is called")
                return None if fi.is_gen else self.lazy_list(I, st, F, node)
            self.hazard(F, node, st, f"{fi.name} is called")
            if fi.is_gen:
                return None
            self.quiet = True
            try:
                r = super().call_func(I, F, node, fi, args, kwargs, st)
            finally:
                self.quiet = False
            return r if r is not None else TOP
        return None

    def lazy_list(self, I, st, F, node):
        v = I.new_list(st, F, node, elem=STR, tag="ser")
        for oid in I.objs(v):
            st.heap[oid] = st.heap[oid].w(flags=frozenset(["lazy"]))
        return v

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        self.lazy(F, node, st, list(args) + list(kwargs.values())) if dotted.startswith("file.") else None
        self.inject(I, st)
        om = open_mode(dotted, args, kwargs)
        if om is not None:
            modes = om[0]
            kind = "r"
            if mode_writes(modes):
                self.sites.add(F.where(node))
                kind = "w" if modes is None or any("w" in m or "x" in m for m in modes) else "u"
                if kind == "w":
                    st.facts = st.facts - {"closed"}
            return I.new_ext(st, F, node, "file:" + kind, [])
        if dotted.startswith("file:"):
            cls, _, name = dotted.partition(".")
            self.lazy(F, node, st, args[1:])
            if cls == "file:u" and name in ("write", "writelines", "truncate"):
                st.facts = st.facts - {"closed"}
                if name == "truncate":
                    st.facts = st.facts | {"cut", "whole"}
                elif "cut" not in st.facts:
                    st.facts = st.facts - {"whole"}
            if name == "close":
                self.closing(F, node, st)
            return STR if name.startswith("read") else NONE if name == "close" else TOP
        if dotted in DESTROY or dotted.startswith("pathlib.Path.") and dotted.rpartition(".")[2] in ("unlink", "rename"):
            self.bad.setdefault((F.fi.full if F.fi else "?", dotted), f"{F.where(node)}: {dotted} removes a file before it is replaced")
        if dotted[:1] == "?" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and self.text(node, st, I, F):
            return None
        if dotted.startswith("str.") and dotted != "str.encode":
            return None
        if not dotted.startswith(BENIGN):
            self.hazard(F, node, st, f"{dotted if dotted != '?' else 'an unknown function'} is called")
        return None

    @staticmethod
    def text(node, st, I, F):
        """A method that strings, bytes and containers have: not a hazard."""
        return node.func.attr in dir(str) + dir(bytes) + dir(list) + dir(dict) + dir(set) + ["info", "debug", "warning", "error", "exception"]

    def with_exit(self, I, F, node, v, st):
        if self.files(v, st):
            self.closing(F, node, st)

    def closing(self, F, node, st):
        if "whole" not in st.facts:
            self.bad.setdefault((F.fi.full if F.fi else "?", "not truncated"),
                                f"{F.where(node)}: a file rewritten in place is closed without being truncated: the end of its old content stays")
        st.facts = (st.facts | {"closed", "whole"}) - {"cut"}


def check(project, rep, tier):
    e = Effects(project)
    target = {}
    for c, w in e.sites:
        if "open" in w.split(" ")[0]:
            target.setdefault(e.outer(c), set()).add(e.n.where(c))
    if not target:
        raise AnalysisBroken("no function opens a file for writing")
    roots = [k for k in sorted(e.funcs) if e.reachable(k) & set(target)]
    I = Interp(project, Hooks()).load_all()
    seen = set()
    for k in roots:
        h = Window(project)
        I.hooks = h
        b = Build(I)
        h.registry(I)
        h.inject(I, b.st)
        b.st.facts = b.st.facts | {"closed", "whole"}
        mod, _, q = k.partition(":")
        if "." in q:
            cls, name = q.rsplit(".", 1)
            fv = method(I, f"{mod}:{cls}", name)
        else:
            fv = find_func(I, k)
        a = e.funcs[k].args
        args = [TOP for _ in a.posonlyargs + a.args]
        kw = {x.arg: TOP for x in a.kwonlyargs}
        if q == "Migrate.apply":
            args = [h.instance(I, b.st)] + args[1:]
        o = call(I, fv, args, kw, b.st, consume=any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(e.funcs[k])))
        if not o.completes:
            raise AnalysisBroken(f"{k} has no completing path")
        rep.saw("functions that write files", k)
        rep.saw("write sites", *h.sites)
        seen |= h.sites
        if not h.bad:
            rep.ok(k)
        for (fn, what), msg in sorted(h.bad.items()):
            rep.bad(f"{k}:{fn}:{what}", msg)
    want = set().union(*target.values())
    for w in sorted(want):
        fn = w.split("(")[1].rstrip(")")
        rep.decide(f"reached:{w.split(':')[0]}:{fn}", w in seen, f"{w}: this write was not reached by the analysis")
    rep.need("functions that write files", 5)
    rep.need("write sites", 4)
