"""Every part of a message is written or rejected: must-flow of each kind of text, expression and markup (with and without function, options, attributes, source) to the output, per format."""
from . import matrix

RULE = matrix.WHAT
ASSUMPTIONS = ["names and texts contain a letter", "Android leaves out function names, which only record how a placeholder was written",
               "formats that keep the source of a placeholder write the source instead of its parts"]


def check(project, rep, tier):
    matrix.baseline(project, rep)
    matrix.run(project, rep, "C04", tier)
    rep.need("format x scenario", 180)
