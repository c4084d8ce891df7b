"""Structure a format cannot represent is rejected: labelled section identifiers, multi-part identifiers, metadata, properties and select messages either reach the output or no path completes, per format."""
from . import matrix

RULE = matrix.WHAT
ASSUMPTIONS = ["identifiers, metadata keys and values contain a letter",
               "the second part of an Android identifier is represented by its position",
               "XLIFF metadata keys are attribute paths"]


def check(project, rep, tier):
    matrix.baseline(project, rep)
    matrix.run(project, rep, "C05", tier)
    rep.need("format x scenario", 80)
