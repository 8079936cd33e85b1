from engine import noderules as F
from . import nodes


def run(rep, thorough):
    fams = [("instances", (lambda W, G, w: F.single(W, G, w, thorough)), 2, "C09"), ("nested_relations", F.nested_relations, 1, "C09")]
    nodes.run("C09", rep, fams)
    rep.floor("instances_rendered", 4000)
    rep.floor("instances_classes", 120)
    rep.floor("nested_relations_rendered", 1000)
    return "taint analysis over the string-template domain: every name and string field of every node class reaches the text only inside the quotes of its kind, escaped, and denotes the same value when read back"
