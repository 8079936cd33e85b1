from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("instances", (lambda W, G, w: F.single(W, G, w, thorough)), 2, "C07"), ("nested_relations", F.nested_relations, 1, "C07")]
    nodes.run("C07", rep, fams)
    rep.floor("instances_rendered", 4000)
    rep.floor("instances_classes", 120)
    rep.floor("nested_relations_rendered", 1000)
    return "effect analysis of sql() of every node class: every nested node is rendered with print options of the mode and indentation given"
