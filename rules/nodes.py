"""C04 to C09: decided on instances of every node class."""
from collections import Counter

from engine import noderules
from engine.world import World

F = noderules


def run(pid, rep, families, want=None, thorough=False):
    """families: [(name, family function, width, property the engine files its findings under)]"""
    W = World()
    for name, family, width, filed in families:
        G, res = noderules.run(W, {want or pid}, thorough, width, family)
        st = Counter()
        classes = set()
        for cls, label, status, found, ex in res:
            s = status.split(":")[0]
            st[s] += 1
            if s == "undecided":
                rep.undecide("%s: %s" % (cls, status))
            else:
                classes.add(cls)
            for p, k, m in found:
                if p == filed:
                    rep.finding(k, m, ex)
            if s == "rendered" and not found:
                rep.sample(ex)
        rep.count(name, len(res))
        for s, n in st.items():
            rep.count("%s_%s" % (name, s.replace(" ", "_")), n)
        rep.count(name + "_classes", len(classes))
    if W.skipped:
        rep.notes.append("modules not loaded: %s" % W.skipped)
    return W
