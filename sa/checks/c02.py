"""Every comment of a resource is written unless trimming is requested: must-flow of the labelled comment to the serializer's output, per format and kind of comment."""
from . import matrix

RULE = matrix.WHAT
ASSUMPTIONS = ["comment text contains a letter", "lxml, polib and fluent.syntax write what is put into their objects",
               "gettext entries marked obsolete and XLIFF units that already have note metadata are the documented exceptions"]


def check(project, rep, tier):
    matrix.baseline(project, rep)
    matrix.run(project, rep, "C02", tier)
    rep.need("format x scenario", 70)
