"""XML from files is never parsed with external entities, DTD loading, network access or lifted limits: every XML parser entry point in the package is enumerated, and each of its security options resolved to constants."""
import ast

from ..names import Names

RULE = (
    "Each call resolving into lxml.etree/lxml.objectify/xml.* that parses or builds a parser: resolve_entities False or 'internal' (explicit for iterparse "
    "and ETCompatXMLParser, whose default resolves external entities before lxml 6.1), load_dtd/dtd_validation/attribute_defaults/huge_tree not enabled, "
    "no_network not disabled; a parser argument must resolve to such a parser; no XInclude, custom resolver, external DTD or stylesheet loading."
)
ASSUMPTIONS = ["lxml >= 6.0 as pyproject.toml requires: XMLParser resolves internal entities only by default, within libxml2's amplification limits"]

PARSES = {"fromstring", "parse", "XML", "XMLID", "parseid", "fromstringlist"}
PARSERS = {"XMLParser", "XMLPullParser", "iterparse", "ETCompatXMLParser"}
EXPLICIT = {"iterparse", "ETCompatXMLParser"}
OFF = ("load_dtd", "dtd_validation", "attribute_defaults", "huge_tree")
BANNED = {"DTD", "XSLT", "XInclude", "Resolver", "RelaxNG", "XMLSchema", "Schematron"}
STDLIB = ("xml.sax", "xml.dom", "xml.etree", "xml.parsers", "lxml.objectify", "lxml.sax", "lxml.html")


def lxml_name(ds):
    for d in ds:
        if d.startswith(("lxml.etree.", "lxml.objectify.")):
            r = d.split(".", 2)[2]
            if r.isidentifier():
                return r
    return None


def check(project, rep, tier):
    n = Names(project)
    for m, c in n.calls:
        ds = n.dotted(c.func)
        name = lxml_name(ds)
        w, site = n.where(c), n.site(c)
        if any(d.startswith(STDLIB) and not d.startswith("lxml.objectify") for d in ds) and not (name in PARSES | PARSERS):
            if any(d.rsplit(".", 1)[-1] in ("escape", "quoteattr", "unescape") for d in ds):
                continue
            rep.saw("XML parser calls", w)
            rep.bad(f"{site}:{sorted(ds)[0]}", f"{w}: uses {sorted(ds)[0]}, which is outside the restrictions applied to lxml")
            continue
        attr = c.func.attr if isinstance(c.func, ast.Attribute) else None
        if attr == "xinclude" or (attr == "add" and isinstance(c.func.value, ast.Attribute) and c.func.value.attr == "resolvers"):
            rep.bad(f"{site}:{attr}", f"{w}: {attr}() loads external documents")
            continue
        if attr == "setElementClassLookup":
            continue
        if name is None:
            continue
        if name in BANNED or name == "set_default_parser":
            rep.saw("XML parser calls", w)
            rep.bad(f"{site}:{name}", f"{w}: {name}() reads external documents or changes every parser")
            continue
        if name not in PARSES | PARSERS:
            continue
        rep.saw("XML parser calls", w)
        kw = n.kwargs(c)
        if kw is None:
            rep.bad(f"{site}:{name}", f"{w}: options of {name}() cannot be resolved")
            continue
        if name in PARSES:
            p = kw.get("parser", c.args[1] if len(c.args) > 1 else None)
            if p is None:
                rep.ok(f"{site}:{name}")
            else:
                pd = n.dotted(p)
                ok = bool(pd) and all(x.endswith("()") and lxml_name({x[:-2]}) in PARSERS or project_call(x) for x in pd) or \
                    (isinstance(p, ast.Constant) and p.value is None) or param(n, p)
                rep.decide(f"{site}:{name}:parser", ok, f"{w}: the parser given to {name}() is not an XMLParser built in this package")
            if name == "parse" and c.args:
                vals = n.consts(c.args[0])
                if vals and any(isinstance(v, str) and "://" in v for v in vals):
                    rep.bad(f"{site}:{name}:url", f"{w}: parses a network address")
            continue
        ent = kw.get("resolve_entities")
        if ent is None:
            rep.decide(f"{site}:{name}:resolve_entities", name not in EXPLICIT,
                       f"{w}: {name}() resolves external entities by default with lxml before 6.1")
        else:
            vals = n.consts(ent)
            rep.decide(f"{site}:{name}:resolve_entities", vals is not None and all(v is False or v == 0 or v == "internal" for v in vals),
                       f"{w}: {name}() may resolve external entities")
        for o in OFF:
            if o in kw:
                vals = n.consts(kw[o])
                rep.decide(f"{site}:{name}:{o}", vals is not None and not any(vals), f"{w}: {name}() enables {o}")
        if "no_network" in kw:
            vals = n.consts(kw["no_network"])
            rep.decide(f"{site}:{name}:no_network", vals is not None and all(vals), f"{w}: {name}() allows network access")
        pos = c.args[1:] if name == "iterparse" else c.args
        rep.decide(f"{site}:{name}:positional", not pos or name == "iterparse" and len(pos) < 2, f"{w}: options of {name}() given by position")
    for m in project.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == "resolvers":
                rep.bad(f"{n.site(x)}:resolvers", f"{n.where(x)}: a custom resolver is used")
    rep.need("XML parser calls", 5)


def project_call(d):
    return d.endswith("()") and ":" in d


def param(n, e):
    """A parameter whose every argument is a parser built here."""
    if not isinstance(e, ast.Name):
        return False
    bs = n.bindings(e.id, e)
    for b in bs:
        if b[0] != "param":
            return False
        ex = n.param_args(b[1], b[2])
        if not ex or not all(isinstance(x, ast.Constant) and x.value is None or
                             all(lxml_name({d[:-2]}) in PARSERS or project_call(d) for d in n.dotted(x)) and n.dotted(x) for x in ex):
            return False
    return bool(bs)
