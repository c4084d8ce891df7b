"""Commands report failure through their exit status: lint, fix and migrate interpreted over any sequence of outcomes around one failing file or migration."""
from __future__ import annotations

import ast

from ..domain import *
from ..domain import V, Obj
from ..evalmod import Interp
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from .migr import EXISTS, Migration, open_mode

RULE = (
    "Abstract interpretation of the commands on a sequence 'any files, one failing file, any files', the failure being an arbitrary exception, one of each library exception class, or an error of "
    "reading, parsing, serializing or writing; on every path the process must end with a status other than 0: the value given to sys.exit() or SystemExit is never 0, None or False, the command never returns "
    "normally.  The same with arguments that are contradictory or missing, and with migrations that fail to load or to apply."
)
ASSUMPTIONS = ["click turns the return of a command function into status 0, and an exception into a non-zero status"]
PATHS = "moz.l10n.paths."
BAD = frozenset(["bad"])
ERRORS = ["builtins.UnicodeEncodeError", "builtins.PermissionError", "builtins.KeyError", "builtins.RecursionError", "builtins.AttributeError", "moz.l10n.formats:UnsupportedFormat", "builtins.UnicodeDecodeError"]


def has_bad(v):
    return "bad" in v.must or any(a[0] == "o" for a in v.atoms) and "bad" in v.may


class Run(Hooks):
    """fail: (stage, exception id), the stage being 'parse', 'open', 'serialize' or 'write'"""

    def __init__(self, fail, args="paths"):
        self.fail, self.args = fail, args
        self.exits, self.hit = [], 0

    def boom(self, I, F, node, st, stage, v):
        if self.fail and self.fail[0] == stage and v is not None and "bad" in v.must:
            self.hit += 1
            I.do_raise({self.fail[1]}, st, node, F)
        if v is not None and "bad" in v.must:
            return True
        # for any other file this may fail in any way
        if I.handlers:
            I.handlers[-1].append((frozenset(["?"]), st.copy(), node, F))
        return False

    def paths(self, I, F, node, st):
        return I.new_list(st, F, node, (strv("S", BAD, BAD),), STR_T, tag="pths")

    def call_func(self, I, F, node, fi, args, kwargs, st):
        if fi.module.name.startswith(PATHS):
            if fi.name in ("ref_paths", "all"):
                return self.paths(I, F, node, st)
            if fi.name == "__init__":
                for oid in I.objs(args[0]):
                    ci = I.classes.get(st.heap[oid].cls)
                    if ci is None or I.find_member(ci, "ref_paths") is None:
                        st.heap[oid] = st.heap[oid].w(attrs={**st.heap[oid].attrs, "ref_paths": self.paths(I, F, node, st)})
                return NONE
            return STR_T
        if fi.name == "parse_resource" and fi.module.name.startswith("moz.l10n.resource"):
            p = args[0] if args else kwargs.get("input", TOP)
            bad = self.boom(I, F, node, st, "parse", p)
            return I.alloc(st, "res:" + ("bad" if bad else "any"), Obj("inst", "moz.l10n.model:Resource", {}, owner="input")).labelled(*((BAD, BAD) if bad else (EMPTY, EMPTY)))
        if fi.name == "serialize_resource" and fi.module.name.startswith("moz.l10n.resource"):
            r = args[0] if args else kwargs.get("resource", TOP)
            self.boom(I, F, node, st, "serialize", r)
            return I.new_list(st, F, node, elem=STR, tag="ser")
        return None

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        if dotted.startswith("glob.") or dotted.endswith(".glob"):
            return self.paths(I, F, node, st)
        if dotted in ("os.path.relpath", "os.path.abspath", "os.path.splitext", "os.path.basename", "os.path.join"):
            if any("bad" in a.must for a in args) and dotted != "os.path.splitext":
                return strv("S")
            if dotted == "os.path.splitext" and args:
                return mk(("t", (STR, const(".ftl") if "bad" in args[0].must else STR)))
        if dotted in EXISTS:
            return BOOL
        if dotted in ("os.path.isdir", "pathlib.Path.is_dir"):
            return TRUE if self.args == "dir" else FALSE
        om = open_mode(dotted, args, kwargs)
        if om is not None:
            bad = self.boom(I, F, node, st, "open", om[1])
            f = I.new_ext(st, F, node, "file", [])
            return f.labelled(BAD, BAD) if bad else f
        if dotted.startswith("file."):
            if dotted.split(".")[1] in ("write", "writelines"):
                self.boom(I, F, node, st, "write", args[0] if args else None)
            return STR if ".read" in dotted else TOP
        return exits(self, I, F, node, dotted, args, st)


def exits(self, I, F, node, dotted, args, st):
    if dotted in ("sys.exit", "builtins.SystemExit", "os._exit", "builtins.exit", "builtins.quit", "click.exceptions.Exit") or \
            dotted == "?" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "exit":
        self.exits.append((F.where(node), args[0] if args else NONE))
        if dotted != "builtins.SystemExit" and not dotted.startswith("click"):
            I.do_raise({"builtins.SystemExit"}, st, node, F)
    return None


ZERO = [const(0), NONE, FALSE]


def zero(I, v, st):
    """Whether v, given to sys.exit, may mean success."""
    return any(a in (("i",), ("top",)) or a[0] == "c" and (a[2] is None or a[2] is False or a[2] == 0 and a[1] != "str") for a in v.atoms) or not v.atoms


def judge(rep, key, o, run, what, I):
    if o.completes:
        rep.bad(key, f"{what}: the command can end normally, with status 0")
        return
    bad = [w for w, v in run.exits if zero(I, v, None)]
    if bad:
        rep.bad(key, f"{bad[0]}: {what}, but the exit status can be 0")
    else:
        rep.ok(key)


def check(project, rep, tier):
    I = Interp(project, Hooks()).load_all()
    I.explicit_only = True
    seen = set()
    for cmd, extra, stages in (
        ("lint", {"skip_unknown": (FALSE, TRUE)}, ["parse"]),
        ("fix", {"continue_on_error": (FALSE, TRUE)}, ["parse", "open", "serialize"]),
    ):
        full = f"moz.l10n.bin.{cmd}:cli"
        fv = find_func(I, full)
        opt, vals = next(iter(extra.items()))
        for how in ("paths", "dir", "config"):
            for ov in vals:
                for stage in stages:
                    for exc in ERRORS:
                        if cmd == "fix" and exc in ("moz.l10n.formats:UnsupportedFormat", "builtins.UnicodeDecodeError"):
                            continue  # skipped files are documented not to fail
                        if stage != "parse" and exc not in ("builtins.PermissionError", "builtins.UnicodeEncodeError"):
                            continue
                        run = Run((stage, exc), how)
                        I.hooks = run
                        b = Build(I)
                        arg = {"paths": mk(("tn", STR_T, True)), "dir": mk(("t", (STR_T,))), "config": const(())}[how]
                        if how == "paths":
                            arg = mk(("t", (STR_T, STR_T)))
                        kw = {"verbose": INT, "quiet": BOOL, "config": STR_T if how == "config" else NONE, opt: ov, "paths": arg}
                        o = call(I, fv, [], kw, b.st)
                        key = f"{cmd}:{how}:{opt}={'yes' if ov == TRUE else 'no'}:{stage}:{exc.split('.')[-1].split(':')[-1]}"
                        rep.saw("scenarios", key)
                        if not run.hit:
                            rep.bad(key + ":read", f"{full}: on some sequence the failing file is not processed ({stage})")
                            continue
                        judge(rep, key, o, run, f"{cmd} of files of which one fails ({exc.split('.')[-1]} in {stage}) among any others", I)
        for name, conf, arg in (("both", STR_T, mk(("t", (STR_T,)))), ("neither", NONE, const(()))):
            run = Run(None)
            I.hooks = run
            b = Build(I)
            o = call(I, fv, [], {"verbose": INT, "quiet": BOOL, "config": conf, opt: BOOL, "paths": arg}, b.st)
            key = f"{cmd}:arguments:{name}"
            rep.saw("scenarios", key)
            judge(rep, key, o, run, f"{cmd} with {name} of --config and paths", I)
    migrate(I, rep)
    rep.need("scenarios", 60)


class Mig(Migration):
    def __init__(self, fail):
        super().__init__()
        self.fail, self.exits, self.hit = fail, [], 0
        self.capture = True

    def call_func(self, I, F, node, fi, args, kwargs, st):
        if fi.full == "moz.l10n.migrate:Migrate.apply":
            b = args[0] if args else TOP
            if self.fail[0] == "apply":
                if any(a == ("o", "mig:bad") for a in b.atoms):
                    self.hit += 1
                    I.do_raise({self.fail[1]}, st, node, F)
            if I.handlers:
                I.handlers[-1].append((frozenset(["?"]), st.copy(), node, F))
            return TOP
        return super().call_func(I, F, node, fi, args, kwargs, st)

    def call_ext(self, I, F, node, dotted, args, kwargs, st):
        attr = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else ""
        if dotted.endswith("spec_from_file_location"):
            if self.fail[0] == "spec" and "bad" in args[1].must:
                self.hit += 1
                return NONE
            m, n = I.arg_labels(args, kwargs, st)
            return I.new_ext(st, F, node, "spec", []).labelled(n & BAD, n & BAD) if "bad" in n else I.new_ext(st, F, node, "spec", [])
        if dotted.endswith("module_from_spec"):
            f = I.new_ext(st, F, node, "module", [])
            return f.labelled(BAD, BAD) if args and "bad" in args[0].must else f
        if attr == "exec_module" or dotted.endswith("exec_module") or dotted.startswith("runpy."):
            if self.fail[0] == "load" and any("bad" in a.must for a in args):
                self.hit += 1
                I.do_raise({self.fail[1]}, st, node, F)
            o = st.heap[self.opt]
            must = o.must
            if self.fail[0] == "apply" and any("bad" in a.must for a in args):
                (a,) = self.instance(I, st).atoms
                st.heap["mig:bad"] = st.heap[a[1]]
                must = must + (mk(("o", "mig:bad")),)
            st.heap[self.opt] = o.w(elem=jopt(o.elem, self.instance(I, st)), must=must)
            if I.handlers:
                I.handlers[-1].append((frozenset(["?"]), st.copy(), node, F))
            return NONE
        r = exits(self, I, F, node, dotted, args, st)
        if r is not None:
            return r
        return super().call_ext(I, F, node, dotted, args, kwargs, st)

    def inject(self, I, st):
        pass


def migrate(I, rep):
    fv = find_func(I, "moz.l10n.bin.migrate:cli")
    for stage, exc in [("spec", "")] + [(s, e) for s in ("load", "apply") for e in ERRORS + ["moz.l10n.paths.discover:MissingSourceDirectoryError"]] + [("none", "")]:
        m = Mig((stage, exc, ""))
        I.hooks = m
        b = Build(I)
        m.registry(I)
        if stage == "none":
            m.call_ext = lambda I, F, node, dotted, args, kwargs, st: (
                I.new_ext(st, F, node, "spec", []) if dotted.endswith("spec_from_file_location")
                else NONE if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "exec_module"
                else exits(m, I, F, node, dotted, args, st))
        for root, ref, conf in ((STR_T, NONE, NONE), (NONE, NONE, STR_T), (NONE, NONE, NONE)):
            b = Build(I)
            m.exits = []
            m.hit = 0
            lst = mk(("t", (STR_T, strv("S", BAD, BAD), STR_T)))
            o = call(I, fv, [], {"verbose": INT, "quiet": BOOL, "dry_run": BOOL, "config": conf, "root": root, "ref": ref, "migration": lst}, b.st)
            key = f"migrate:{stage}:{exc.split('.')[-1].split(':')[-1]}:{'root' if root != NONE else 'config' if conf != NONE else 'none'}"
            rep.saw("scenarios", key)
            if not m.hit and stage != "none":
                rep.bad(key + ":read", f"the migrate command does not {stage} every migration")
                continue
            judge(rep, key, o, m, f"migrate with one migration failing to {stage} among any others", I)
