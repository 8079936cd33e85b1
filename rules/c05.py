from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("nested_values", F.nested_values, 1, "C04")]
    fams.append(("pairs", F.pairs, 1, "C04"))
    if thorough:
        fams.append(("chains", F.chains, 1, "C04"))
    nodes.run("C05", rep, fams, want="C04")
    rep.floor("nested_values_rendered", 15000)
    rep.floor("nested_values_classes", 100)
    return "abstract interpretation of sql() for every pair (operand place, kind of value in it): the rendered template, parsed with the grammar's precedence, has the grouping of the tree"
