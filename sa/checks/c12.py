"""Results depend only on arguments: whole-program dataflow of shared objects and of hash order, with mypy's types, and the references
to sources of time, chance and environment."""
import ast

from ..flow import Flow, base, public
from ..names import Names
from ..typed import Types

RULE = (
    "Dataflow over the syntax trees of the whole package (flow-sensitive for local variables, interprocedural through parameters, results and fields, with the "
    "types mypy infers): (a) no function changes an object made at import, in a class body, as a default argument or as a cached result, nor assigns a module variable, "
    "nor advances a shared iterator, and no public function gives such an object out; (b) the order in which a set is iterated reaches, through lists, dictionaries, iterators, "
    "joined or formatted text, first items and last assignments, neither the result of a public function, nor a data-model object, nor what is printed, logged by a command or written; "
    "(c) nothing refers to the clock, randomness, the process environment, the locale or the identity of objects."
)
ASSUMPTIONS = ["the registry of migrations that a migration script fills (migrate.all_migrations, sys.modules) is meant to be shared",
               "the order in which the file system lists directories is part of the files read",
               "libraries keep no state between calls"]

REGISTRY = {"moz.l10n.migrate.all_migrations", "sys.modules"}
AMBIENT = (
    "time.", "random.", "secrets.", "uuid.", "os.environ", "os.getenv", "os.environb", "os.urandom", "os.getpid", "os.getppid", "os.getlogin", "os.times", "os.getuid",
    "os.uname", "os.getrandom", "os.cpu_count", "os.path.expandvars", "os.path.expanduser", "os.path.getmtime", "os.path.getatime", "os.path.getctime",
    "locale.", "platform.", "socket.", "getpass.", "tempfile.", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today",
    "gc.", "threading.get_ident", "sys.getrefcount", "sys.flags", "sys.getfilesystemencoding", "sys.getdefaultencoding", "numpy.random", "weakref.",
)


def ambient(project, names, rep):
    n = 0
    seen = set()
    for m in project.modules.values():
        for e in ast.walk(m.tree):
            if not isinstance(e, (ast.Name, ast.Attribute)) or not isinstance(e.ctx, ast.Load):
                continue
            n += 1
            for d in names.dotted(e):
                if ":" in d or "()" in d:
                    continue
                hit = next((a for a in AMBIENT if d == a.rstrip(".") and not a.endswith(".") or d.startswith(a) and (a.endswith(".") or d[len(a):len(a) + 1] in ("", "."))), None)
                if hit:
                    seen.add((f"ambient:{names.site(e)}:{d}", f"{names.where(e)}: refers to {d}, which is not an argument"))
    return n, seen


def check(project, rep, tier):
    names = Names(project)
    types = Types(project)
    w = Flow(project, names, types)
    w.exempt = REGISTRY
    w.run()
    pub = public(w)
    n, seen = ambient(project, names, rep)
    rep.saw("modules", *sorted(project.modules))
    rep.saw("set iterations", *sorted(w.set_sites))
    rep.saw("shared objects", *sorted(t[2:] for t in w.shared))
    rep.saw("public functions", *sorted(pub))
    rep.need("public functions", 60)
    rep.need("shared objects", 6)
    rep.need("set iterations", 5)
    for key, text in sorted(seen):
        rep.bad(key, text)
    bad_roots = set()
    for k, text in sorted(w.found.items(), key=str):
        rep.bad(":".join(k), text)
        bad_roots.add(k[1])
    for q, (m, fn) in sorted(pub.items()):
        r = sorted({base(t) for t in w.ret.get(id(fn), ())} - {"S"})
        r = [t for t in r if t[2:] not in bad_roots]
        if not r:
            rep.ok(f"result of {q}")
        for t in r:
            if t.startswith("G:"):
                rep.bad(f"shared:{q}:{t[2:]}", f"{q} gives out {t[2:]}, which later calls share")
            else:
                rep.bad(f"order:{t[2:]}", f"the hash order of a set iterated in {t[2:]} reaches the result of {q}")
                bad_roots.add(t[2:])
    for s in sorted(w.set_sites):
        rep.ok(f"set {s}")
    for t in sorted(w.shared):
        if t[2:] not in bad_roots:
            rep.ok(f"shared object {t[2:]}")
    for m in project.modules:
        if not any(k.startswith(f"ambient:{m}:") for k, _ in seen):
            rep.ok(f"references of {m}")
    rep.notes.append(f"{n} references and {w.uses} changes of objects looked at")
