"""C20: the spelling of keywords, function names and type names does not matter."""
from collections import Counter

from engine.absval import Unsupported
from engine.corpus import Corpus
from engine.g4 import Tok
from engine.harness import brief, first_diff, pmap
from engine.interp import AbsRaise
from engine.shape import shape
from engine.sqltext import LexError, show
from engine.world import World


def respell(W, toks, k):
    """The same tokens in other spellings; k selects which."""
    out, changed = [], False
    for t in toks:
        x = t.text
        if t.hole is None and isinstance(x, str):
            sp = W.g.spellings(t.type)
            if len(sp) > 1 and x in sp:
                x = sp[(sp.index(x) + k) % len(sp)] if k else x
            elif t.type == "IDENTIFIER":
                x = x.lower() if k == 1 else x.capitalize()
        if x != t.text:
            changed = True
            t = Tok(t.type, x, t.hole, t.cats, t.info)
        out.append(t)
    return out if changed else None


def outcomes(W, toks, root):
    out = []
    for res, run in W.explore(lambda: W.convert(toks, root), limit=2, max_runs=16):
        if isinstance(res, Unsupported):
            raise res
        if isinstance(res, AbsRaise):
            out.append(("refused",))
        else:
            out.append(("converted", shape(res)))
    return out


def judge(W, root, toks):
    base = outcomes(W, toks, root)
    found = []
    n = 0
    for k in (1, 2):
        other = respell(W, toks, k)
        if other is None or k == 2 and [t.text for t in other] == [t.text for t in (respell(W, toks, 1) or [])]:
            continue
        n += 1
        got = outcomes(W, other, root)
        if got != base:
            a, b = base[0], got[0]
            for x, y in zip(base, got):
                if x != y:
                    a, b = x, y
                    break
            if a == b:  # one of them has outcomes which the other doesn't
                more = got if len(got) > len(base) else base
                what = "in some cases %s when spelled differently" % more[min(len(got), len(base))][0]
            elif a[0] != b[0]:
                what = "%s as written, %s when spelled differently" % (a[0], b[0])
            else:
                what = "%s: %s" % first_diff(a[1], b[1])
            found.append((what, other))
    return ("converted" if any(x[0] == "converted" for x in base) else "refused"), n, found


def run(rep, thorough):
    W = World()
    c = Corpus(W)
    W.I.tracking = True
    items = []
    for n in ("grammar1", "types", "constructors", "shapes"):
        items += [(n, k, m) for k, m in getattr(c, n)()]
    for k, m in c.functions():
        if thorough or "|" not in k or k.split(" ")[1].split("/")[0] in ("COUNT", "ARRAY_AGG", "LAG"):
            items.append(("functions", k, m))
    if thorough:
        items += [("grammar2", k, m) for k, m in c.grammar2()]

    def one(item):
        fam, key, make = item
        try:
            s = make()
            if s is None:
                return fam, key, "no sentence", 0, [], ""
            root, tree, toks = s
            st, n, found = judge(W, root, toks)
            return fam, key, st, n, [(w, show(o)) for w, o in found], show(toks)
        except (LexError, Unsupported) as e:
            return fam, key, "undecided: %s" % str(e)[:80], 0, [], ""

    for fam, key, st, n, found, text in pmap(one, items):
        rep.count("sentences")
        rep.count("sentences_" + fam)
        rep.count(st.split(":")[0].replace(" ", "_"))
        rep.count("respellings", n)
        if st.startswith("undecided"):
            rep.undecide(st)
        for what, other in found:
            rep.finding("%s: %s" % (key.split(":")[0], what), "`%s` and `%s` are converted differently: %s" % (text, other, what), other)
        if st == "converted" and not found:
            rep.sample(text)
    rep.floor("converted", 500)
    rep.floor("respellings", 1500)
    return "abstract interpretation of the converter on each sentence in the grammar's spellings and with function and type names in lower and mixed case: the trees are equal in every attribute"
