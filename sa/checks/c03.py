"""Every message is written or serialization fails: must-flow of a labelled entry's identifier and value (text, empty, plural variants, properties) to the output, per format."""
from . import matrix

RULE = matrix.WHAT
ASSUMPTIONS = ["identifiers and texts contain a letter (empty texts are covered for their identifier)",
               "lxml, polib and fluent.syntax write what is put into their objects",
               "gettext plural variants are matched to indices by value, which is not decided here"]


def check(project, rep, tier):
    matrix.baseline(project, rep)
    matrix.run(project, rep, "C03", tier)
    rep.need("format x scenario", 55)
