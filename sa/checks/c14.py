"""Read-only operations never write: call-graph reachability of file-system effects from every public function that is not a writing command, and abstract interpretation of a migration's dry run."""
from ..domain import *
from ..evalmod import Interp
from ..files import Effects
from ..inputs import Build
from ..interp import Hooks
from ..project import AnalysisBroken
from ..run import call, find_func
from .migr import Migration

RULE = (
    "Effect analysis: (a) no call that can create, change or delete files (open in a writing mode, os, shutil, pathlib, tempfile, subprocess, polib/lxml writers) "
    "is reachable in the call graph (names and attribute names, over-approximated) from a public function of formats, message, resource, paths, util, model, "
    "bin.lint, bin.compare, or migrate other than Migrate.apply; (b) Migrate.apply(dry_run=True), interpreted with an arbitrary migration, reaches none; "
    "(c) the dry-run option of the command is what Migrate.apply gets."
)
ASSUMPTIONS = ["migration functions given by the user are not followed", "external libraries only write through the listed functions"]

READ_ONLY = ("formats", "message", "resource", "paths", "util", "model", "bin.lint", "bin.compare", "bin.utils", "migrate")
WRITERS = {"moz.l10n.migrate:Migrate.apply"}


def check(project, rep, tier):
    e = Effects(project)
    where = {}
    for c, w in e.sites:
        where.setdefault(e.outer(c), []).append(f"{e.n.where(c)}: {w}")
        rep.saw("effect sites", f"{e.n.where(c)} {w}")
    roots = 0
    for k in sorted(e.funcs):
        mod, _, q = k.partition(":")
        if not any(mod == "moz.l10n." + r or mod.startswith(f"moz.l10n.{r}.") for r in READ_ONLY) or k in WRITERS:
            continue
        if any(p.startswith("_") and not p.startswith("__") for p in q.split(".")):
            # private helpers are covered by the public functions that use them
            continue
        roots += 1
        rep.saw("read-only functions", k)
        r = e.reachable(k)
        # what only Migrate.apply does is its own business
        bad = sorted(x for x in where if x in r)
        if not bad:
            rep.ok(k)
        for x in bad:
            rep.bad(f"{k}->{x}", f"{k.split(':')[1]} reaches {where[x][0]} by way of {' -> '.join(p.split(':')[1] for p in e.path(k, x))}")
    for k in sorted(e.graph):
        mod, _, q = k.partition(":")
        if q == "<module>" and not mod.startswith("moz.l10n.bin"):
            r = e.reachable(k)
            bad = sorted(x for x in where if x in r)
            rep.decide(f"import:{mod}", not bad, f"importing {mod} reaches {where[bad[0]][0] if bad else ''}")
    rep.need("read-only functions", 120)
    rep.need("effect sites", 6)

    # ---- a migration's dry run
    I = Interp(project, Hooks()).load_all()
    for dry in (True, False):
        m = Migration(e)
        o = m.apply(I, dry_run=TRUE if dry else FALSE)
        rep.saw("migration runs", f"Migrate.apply(dry_run={dry})")
        if not o.completes:
            raise AnalysisBroken("Migrate.apply has no completing path")
        if dry:
            rep.decide("dry_run:no-writes", not m.writes, f"a dry run reaches {m.writes[0] if m.writes else ''}")
        elif not m.opened:
            raise AnalysisBroken("no file is written by Migrate.apply")
    m = Migration(e)
    o = m.command(I)
    rep.decide("dry_run:forwarded", bool(m.applied) and all(v is not None and "dry" in v.must and v.atoms == BOOL.atoms for v in m.applied),
               "the dry-run option of the migrate command does not reach Migrate.apply unchanged")
