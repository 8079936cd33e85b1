from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("instances", (lambda W, G, w: F.single(W, G, w, thorough)), 2, "C08"), ("nested_relations", F.nested_relations, 1, "C08")]
    nodes.run("C08", rep, fams)
    rep.floor("instances_rendered", 4000)
    rep.floor("instances_classes", 120)
    rep.floor("nested_relations_rendered", 1000)
    return "effect analysis of sql() of every node class: no write to an object, list or mapping reachable from the tree or the print options, or to module or class state; repeated and order-reversed set iteration gives the same template"
