from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("instances", (lambda W, G, w: F.single(W, G, w, thorough)), 2, "C04"), ("nested_relations", F.nested_relations, 1, "C04")]
    if thorough:
        fams.append(("nested_values", F.nested_values, 1, "C04"))
    nodes.run("C04", rep, fams)
    rep.floor("instances_rendered", 4000)
    rep.floor("instances_classes", 120)
    rep.floor("nested_relations_rendered", 1000)
    return "abstract interpretation of the constructors and sql() of every node class over symbolic fields: the rendered template, lexed and parsed with the grammar, has the neutral form of the tree"
