from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("instances", (lambda W, G, w: F.single(W, G, w, thorough)), 2, "C06"), ("nested_relations", F.nested_relations, 1, "C06")]
    nodes.run("C06", rep, fams)
    rep.floor("instances_rendered", 4000)
    rep.floor("instances_classes", 120)
    rep.floor("nested_relations_rendered", 1000)
    return "abstract interpretation of sql() of every node class in default mode and in pretty mode with two indentations: the token sequences of the rendered templates are equal"
