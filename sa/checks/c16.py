"""Every text file is opened, and every byte string decoded or encoded, with an explicit UTF-8 (or format-fixed) codec and strict errors: all call sites of the codec interfaces in the package are enumerated and their codec argument resolved to constants."""
import ast
import re

from ..names import Names
from ..project import AnalysisBroken

RULE = (
    "Each call resolving to open/io.open/codecs.open/Path.open/read_text/write_text/TextIOWrapper in text mode has an encoding argument all of whose "
    "constant values are UTF-8; str(bytes, enc)/.decode/.encode use UTF-8 (or the caller's encoding parameter of the .properties functions, UTF-8 by default); "
    "no errors= mode other than strict."
)
ASSUMPTIONS = ["dynamic attribute lookups (getattr) are not used to reach file functions", "polib reads the charset from the .po header"]

UTF8 = {"utf-8", "utf8", "utf_8", "u8", "utf-8-sig"}
MODES = "rwxabt+U"


def norm(c):
    return str(c).lower().replace("_", "-") if c is not None else None


def text_mode(mode):
    return not (isinstance(mode, str) and "b" in mode)


class Sites:
    def __init__(self, names, rep):
        self.n, self.rep = names, rep

    def codec(self, call, e, what):
        """The codec given by expression e (None: not given)."""
        n, rep = self.n, self.rep
        key = f"{n.site(call)}:{what}"
        rep.saw("codec sites", f"{n.where(call)} {what}")
        if e is None:
            rep.bad(key, f"{n.where(call)}: {what} without an encoding uses the platform's locale")
            return
        vals = n.consts(e)
        if vals is None:
            ok = self.parameter(e)
            rep.decide(key, ok, f"{n.where(call)}: cannot show that {what} uses UTF-8 (encoding {ast.unparse(e)})")
            return
        bad = [v for v in vals if norm(v) not in {norm(u) for u in UTF8}]
        # an explicit encoding option of the public .properties API, UTF-8 by default
        if bad and self.parameter(e):
            bad = []
        rep.decide(key, not bad, f"{n.where(call)}: {what} uses {', '.join(map(repr, bad))} instead of UTF-8")

    def parameter(self, e):
        """e is (an alias of) the `encoding` option of a public function, with a UTF-8 default."""
        seen = set()
        while isinstance(e, ast.Name) and id(e) not in seen:
            seen.add(id(e))
            bs = self.n.bindings(e.id, e)
            if len(bs) != 1:
                return False
            if bs[0][0] == "assign":
                e = bs[0][1]
                continue
            if bs[0][0] == "param":
                fn, name = bs[0][1], bs[0][2]
                ex = self.n.param_args(fn, name)
                a = fn.args
                allp = a.posonlyargs + a.args
                d = dict(zip([x.arg for x in allp][len(allp) - len(a.defaults):], a.defaults))
                d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
                if name == "encoding" and name in d and norm(getattr(d[name], "value", None)) in {norm(u) for u in UTF8}:
                    return True
                if ex is None or not ex:
                    return False
                return all(isinstance(x, ast.Constant) and norm(x.value) in UTF8 or self.parameter(x) for x in ex)
            return False
        return False

    def errors(self, call, e, what):
        if e is None:
            return
        vals = self.n.consts(e)
        self.rep.decide(f"{self.n.site(call)}:{what}:errors", vals is not None and vals <= {"strict", None},
                        f"{self.n.where(call)}: {what} with errors={ast.unparse(e)} alters text silently")


def arg(call, kw, i, name):
    if name in kw:
        return kw[name]
    return call.args[i] if i is not None and i < len(call.args) else None


def in_memory(n, c, attr):
    """The bytes are the hexadecimal digits of characters, not contents of a file."""
    def hexed(e):
        return isinstance(e, ast.Call) and (n.dotted(e.func) & {"builtins.bytes.fromhex", "builtins.bytearray.fromhex", "binascii.unhexlify"}
                                            or ast.unparse(e.func) in ("bytes.fromhex", "bytearray.fromhex"))
    if attr == "decode":
        e = c.func.value
        if isinstance(e, ast.Name):
            bs = n.bindings(e.id, e)
            return bool(bs) and all(b[0] == "assign" and hexed(b[1]) for b in bs)
        return hexed(e)
    parents = n.owner[id(c)].parents

    def digits(e):
        p = parents.get(e)
        if isinstance(p, ast.Subscript) and p.value is e:
            return isinstance(p.slice, ast.Slice) and digits(p) or not isinstance(p.slice, ast.Slice)
        return isinstance(p, ast.Attribute) and p.attr == "hex"

    p = parents.get(c)
    if isinstance(p, ast.NamedExpr):
        p = ast.Assign([p.target], p.value)
    fn = n.enclosing(c)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and fn is not None:
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == p.targets[0].id and isinstance(x.ctx, ast.Load)]
        return bool(uses) and all(map(digits, uses))
    return digits(c)


def check(project, rep, tier):
    n = Names(project)
    s = Sites(n, rep)
    for m, c in n.calls:
        kw = n.kwargs(c)
        ds = n.dotted(c.func)
        attr = c.func.attr if isinstance(c.func, ast.Attribute) else None
        if kw is None:
            kw = {}
            if any(d in ("builtins.open", "io.open", "codecs.open") for d in ds):
                rep.bad(f"{n.site(c)}:open", f"{n.where(c)}: options of open() cannot be resolved")
                continue
        if ds & {"builtins.open", "io.open"} or (attr == "open" and any(d.startswith("pathlib.") for d in ds)) or \
                (attr == "open" and not ds):
            off = 0 if ds & {"builtins.open", "io.open"} else -1
            mode = arg(c, kw, 1 + off, "mode")
            modes = {"r"} if mode is None else n.consts(mode)
            rep.saw("open calls", n.where(c))
            if modes is None:
                rep.saw("text opens", n.where(c))
            if modes is None or any(text_mode(x) for x in modes):
                s.codec(c, arg(c, kw, 3 + off, "encoding"), "open()")
                s.errors(c, arg(c, kw, 4 + off, "errors"), "open()")
            else:
                rep.saw("codec sites", f"{n.where(c)} open() in binary mode")
                rep.ok(f"{n.site(c)}:open:binary")
        elif "codecs.open" in ds:
            s.codec(c, arg(c, kw, 2, "encoding"), "codecs.open()")
            s.errors(c, arg(c, kw, 3, "errors"), "codecs.open()")
        elif any(d in ("io.TextIOWrapper", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "os.fdopen", "fileinput.input") for d in ds):
            mode = arg(c, kw, {"io.TextIOWrapper": None}.get(next(iter(ds)), 0 if "tempfile" in next(iter(ds)) else 1), "mode")
            modes = {"w+b" if any("tempfile" in d for d in ds) else "r"} if mode is None else n.consts(mode)
            if "io.TextIOWrapper" in ds or modes is None or any(text_mode(x) for x in modes):
                s.codec(c, arg(c, kw, 1 if "io.TextIOWrapper" in ds else None, "encoding"), "text stream")
                s.errors(c, kw.get("errors"), "text stream")
        elif attr in ("read_text", "write_text"):
            s.codec(c, arg(c, kw, 0 if attr == "read_text" else 1, "encoding"), attr + "()")
            s.errors(c, arg(c, kw, 1 if attr == "read_text" else 2, "errors"), attr + "()")
        elif "builtins.str" in ds and (len(c.args) > 1 or {"encoding", "errors"} & set(kw)):
            s.codec(c, arg(c, kw, 1, "encoding") or ast.Constant("utf-8"), "str(bytes)")
            s.errors(c, arg(c, kw, 2, "errors"), "str(bytes)")
        elif "builtins.bytes" in ds and (len(c.args) > 1 or {"encoding", "errors"} & set(kw)):
            s.codec(c, arg(c, kw, 1, "encoding") or ast.Constant("utf-8"), "bytes(str)")
            s.errors(c, arg(c, kw, 2, "errors"), "bytes(str)")
        elif ds & {"codecs.decode", "codecs.encode"}:
            s.codec(c, arg(c, kw, 1, "encoding") or ast.Constant("utf-8"), "codecs call")
            s.errors(c, arg(c, kw, 2, "errors"), "codecs call")
        elif attr in ("encode", "decode") and not (ds and all(d.split(":")[0].split(".")[0] in ("json", "html", "urllib", "base64") for d in ds)):
            if in_memory(n, c, attr):
                rep.saw("character codes", n.where(c))
                continue
            e = arg(c, kw, 0, "encoding")
            s.codec(c, e if e is not None else ast.Constant("utf-8"), f".{attr}()")
            s.errors(c, arg(c, kw, 1, "errors"), f".{attr}()")
        elif any(d.endswith(".setlocale") or d in ("locale.getpreferredencoding", "sys.setdefaultencoding", "sys.getfilesystemencoding", "locale.getencoding") for d in ds):
            rep.bad(f"{n.site(c)}:locale", f"{n.where(c)}: depends on the platform's encoding")
    # default of the .properties option
    for m in project.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                a = f.args
                allp = a.posonlyargs + a.args
                pairs = list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
                for x, d in pairs:
                    if x.arg == "encoding" and d is not None:
                        v = n.consts(d)
                        rep.saw("encoding options", f"{m.name}:{f.name}")
                        rep.decide(f"{m.name}:{f.name}:encoding-default", v is not None and all(norm(q) in {norm(u) for u in UTF8} for q in v),
                                   f"{m.rel}:{f.lineno} ({f.name}): the encoding option is not UTF-8 by default")
        for k in ast.walk(m.tree):
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                for enc in re.findall(r"<\?xml[^>]*encoding=[\"']([^\"']+)", k.value):
                    rep.saw("XML declarations", n.where(k))
                    rep.decide(f"{n.site(k)}:xml-declaration", norm(enc) == "utf-8", f"{n.where(k)}: an XML declaration names {enc}")
    rep.need("open calls", 8)
    rep.need("codec sites", 18)
