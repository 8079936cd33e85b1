"""C01, C02, C03: decided on every construct of the grammar and on pairs of constructs."""
from collections import Counter

from engine import sentrules
from engine.world import World

FLOORS = {"converted": 5000}


def run(pid, rep, thorough):
    W = World()
    layers = (1, 2)
    res = sentrules.run(W, {pid}, thorough, layers)
    st = Counter()
    for fam, key, status, found, text in res:
        s = status.split(":")[0]
        st[s] += 1
        if s == "undecided":
            rep.undecide(status)
        for r, k, m in found:
            if r == pid:
                rep.finding(k, m, text)
        if s == "converted" and not found:
            rep.sample(text)
    rep.count("sentences", len(res))
    for s, n in st.items():
        rep.count(s.replace(" ", "_"), n)
    for f, n in Counter(r[0] for r in res).items():
        rep.count("sentences_" + f, n)
    rep.count("grammar_alternatives", len({r[1].split(":")[0] for r in res if r[0] == "grammar1"}))
    rep.floor("converted", FLOORS["converted"])
    rep.floor("grammar_alternatives", 150)
    if W.skipped:
        rep.notes.append("modules not loaded: %s" % W.skipped)
    return W
