"""C24: the SQL of a negation is the negation of the same condition."""
from engine import noderules, sentrules
from engine.absval import Unsupported
from engine.corpus import Corpus
from engine.harness import pmap
from engine.sqltext import LexError
from engine.world import World

SIGNS = ("NEQ", "NOT")


def run(rep, thorough):
    W = World()
    def twice(W, G, width):
        no = G.by_name["Not"]
        wrap = lambda m: lambda: G.make(no, {"value": m()})
        values = [c for c in noderules.operator_classes(W, G) if c.name != "Literal" and not c.is_sub(G.by_name["Query"])]
        return [(no, "NOT of %s %s" % (c.name, l), m, G.entry(no)) for c, l, m, _ in noderules.pairs(W, G, width, values, wrap)]

    G, res = noderules.run(W, {"C04", "C06"}, thorough, 2, noderules.negations)
    _, more = noderules.run(W, {"C04"}, thorough, 2, twice)
    rep.count("negations_of_pairs", len(more))
    for cls, label, st, found, ex in list(res) + list(more):
        s = st.split(":")[0]
        rep.count("negations")
        rep.count("negations_" + s)
        if s == "undecided":
            rep.undecide("%s: %s" % (cls, st))
        for p, k, m in found:
            if p in ("C04", "C06"):
                rep.finding(k, m, ex)
        if s == "rendered" and not found:
            rep.sample(ex)
    # negated conditions read from SQL
    corp = Corpus(W)
    items = []
    forms = ["{a} <> {b}", "{a} != {b}", "{a} NOT LIKE {b}", "{a} NOT LIKE {b} ESCAPE {c}", "{a} NOT IN ({b})", "{a} NOT IN ({b}, {c})", "{a} NOT IN (SELECT {b} FROM {c})", "{a} NOT BETWEEN {b} AND {c}", "{a} IS NOT NULL", "{a} IS NOT DISTINCT FROM {b}",
             "{a} = {b}", "{a} LIKE {b}", "{a} IN ({b}, {c})", "{a} BETWEEN {b} AND {c}", "{a} IS NULL", "{a} IS DISTINCT FROM {b}", "{a}", "{a} < {b}", "{a} AND {b}", "{a} OR {b}", "EXISTS (SELECT {a})", "{a} AND NOT {b}", "NOT {a} OR {b}", "NOT {a} = {b}", "NOT {a} AND NOT {b}"]
    texts = []
    for f in forms:
        for w in ("%s", "NOT %s", "NOT NOT %s", "NOT (%s)", "(NOT (%s))", "NOT (NOT (%s))", "{x} AND NOT %s", "NOT (%s) OR {x}", "(%s) = {x}", "NOT ((%s) = {x})", "NOT (%s) = {x}", "CASE WHEN NOT %s THEN {x} END", "(%s) IS NOT NULL", "NOT (%s) IS NULL"):
            texts.append((w % f).replace("{a}", "{id}").replace("{b}", "{id}").replace("{c}", "{id}").replace("{x}", "{id}"))
    for t in dict.fromkeys(texts):
        items.append(corp.from_text(t, t, "standaloneExpression"))

    def one(item):
        key, make = item
        try:
            s = make()
            if s is None:
                return key, "no sentence", [], ""
            root, tree, toks = s
            st, found, text = sentrules.judge(W, key, root, tree, toks, {"C02", "C03"})
            return key, st, found, text
        except (LexError, Unsupported) as e:
            return key, "undecided: %s" % str(e)[:80], [], ""

    for key, st, found, text in pmap(one, items):
        rep.count("texts")
        rep.count("texts_" + st.split(":")[0].replace(" ", "_"))
        if st.startswith("undecided"):
            rep.undecide(st)
        for p, k, m in found:
            rep.finding("%s: %s" % (p, k), "%s: %s" % (text, m), text)
    rep.floor("negations_rendered", 1500)
    rep.floor("texts_converted", 200)
    return "abstract interpretation of rendering, in every print mode, over negations of every kind of value and operand, and of conversion and rendering of negated texts"
