"""Rules decided on sentences of the grammar: what conversion makes of each construct, and what comes back out."""
from .absval import Unsupported, mk
from .corpus import Corpus
from .g4 import TemplateParser
from .harness import brief, first_diff, labels, leaves, pmap
from .interp import AbsRaise, Obj
from .spec import Bad, facts_of, normal
from .sqltext import LexError, show
from .world import World


def unknown_forms(t, out=None):
    out = [] if out is None else out
    if isinstance(t, tuple):
        if t[:1] == ("?",):
            out.append(t[1])
        for x in t:
            unknown_forms(x, out)
    return out


def entry_rule(W, root):
    return root


def judge(W, key, root, tree, toks, want):
    """(status, [(rule, key, message)])."""
    out = []
    text = show(toks)
    statuses = []
    try:
        T = W.tc.c(tree)
    except Unsupported as e:
        return "undecided: derivation: %s" % e, [], text
    for res, run in W.explore(lambda: W.convert(toks, root), limit=2, max_runs=24):
        if isinstance(res, Unsupported):
            statuses.append("undecided: %s" % str(res)[:80])
            continue
        if isinstance(res, AbsRaise):
            if res.accidental and not arity_refusal(res) and not value_refusal(res):
                out.append(("C01", "error %s in %s" % (res.name, res.where.split(" ")[0]), "conversion fails with an accidental %s" % res.text()))
                statuses.append("accidental")
            else:
                statuses.append("refused")
            continue
        try:
            N = W.nc.v(res) if root == 'standaloneExpression' else W.nc.c(res)
        except Bad as e:
            out.append(("C01", "not a tree: %s" % shape_bad(e, T), "conversion yields no tree: %s" % e))
            out.append(("C02", "not a tree: %s" % shape_bad(e, T), "conversion yields no tree: %s" % e))
            statuses.append("bad")
            continue
        except Unsupported as e:
            statuses.append("undecided: %s" % str(e)[:80])
            continue
        statuses.append("converted")
        if N != T:
            where, what = first_diff(T, N)
            k = "%s: %s" % (where or "the whole", what)
            msg = "%s; the text means %s, the tree is %s" % (k, brief(T), brief(N))
            unk = unknown_forms(T)
            lost = sorted(map(str, leaves(T))) != sorted(map(str, leaves(N))) or sorted(labels(T)) != sorted(labels(N))
            if unk:
                out.append(("C01", "ignored %s" % unk[0], "the unsupported construct %s is not refused: %s" % (unk[0], msg)))
            elif lost:
                out.append(("C01", k, "a construct of the text is not represented: " + msg))
            out.append(("C02", k if not unk else "ignored %s" % unk[0], msg))
        if "C03" in want:
            out += roundtrip(W, root, T, res, run)
    st = "converted" if "converted" in statuses else (statuses[0] if statuses else "undecided: no feasible outcome")
    return st, out, text


def arity_refusal(e):
    """A function called with a number of arguments it does not take is refused by its own signature."""
    if e.name != "TypeError":
        return False
    w = e.where.split(" ")[0]
    t = e.text()
    return "treeno.functions" in e.where or w.endswith("from_args") and ("missing" in t or "takes" in t or "unexpected keyword" in t)


def value_refusal(e):
    """The number in the text is not one: refused by the number class itself."""
    return e.name in ("ArithmeticError", "InvalidOperation", "DecimalException")


def shape_bad(e, T):
    import re

    s = str(e)
    if "bare string" in s:
        s = "a bare string"
    elif s.endswith("where a node belongs"):
        s = re.sub(r"^(None|a list|a tuple|a dict).*", r"\1", s).split(" where")[0][:30]
    unk = unknown_forms(T)
    return "%s for %s" % (s[:60], unk[0] if unk else (T[0] if isinstance(T, tuple) and T else T))


def roundtrip(W, root, T, node, run):
    out = []
    for mode in ("DEFAULT",):
        try:
            text = W.render(node, mode)
        except AbsRaise as e:
            out.append(("C03", "rendering fails: %s in %s" % (e.name, e.where.split(" ")[0]), "rendering the converted tree fails: %s" % e.text()))
            continue
        problems = []
        try:
            tree = W.parse(text, root, problems)
            if tree is None and isinstance(node, Obj) and node.cls.is_sub(W.query_base):
                # a query which is the whole expression: it renders as a statement
                tree = W.parse(mk(["(", text, ")"]), root, problems)
        except LexError as e:
            out.append(("C03", "rendered text cannot be read: %s" % (T[0],), "%s in %s" % (e, brief(text))))
            continue
        if tree is None:
            out.append(("C03", "rendered text is not a %s: %s" % (root, head(T)), "the rendered text %s is not a %s of the grammar" % (brief(text), root)))
            continue
        facts = facts_of(run)
        A, B = normal(T, facts), normal(W.tc.c(tree), facts)
        if A != B:
            where, what = first_diff(A, B)
            k = "%s: %s" % (where or "the whole", what)
            out.append(("C03", k, "%s; the input means %s, the rendered text %s means %s" % (k, brief(T), brief(text), brief(B))))
    return out


def head(T):
    return T[0] if isinstance(T, tuple) and T else str(T)


def families(W, thorough):
    c = Corpus(W)
    out = []
    for n in ("grammar1", "free", "functions", "types", "constructors", "shapes"):
        out += [(n, k, m) for k, m in getattr(c, n)()]
    return c, out


def run(W, want, thorough=False, layers=(1, 2)):
    """[(family, key, status, findings, text)] over all sentences."""
    c, items = families(W, thorough)

    def one(item):
        fam, key, make = item
        W.I.tracking = True
        try:
            s = make()
        except (LexError, Unsupported) as e:
            return fam, key, "undecided: sentence: %s" % e, [], ""
        if s is None:
            return fam, key, "no sentence", [], ""
        root, tree, toks = s
        try:
            st, found, text = judge(W, key, root, tree, toks, want)
        except Unsupported as e:
            return fam, key, "undecided: %s" % str(e)[:80], [], show(toks)
        return fam, key, st, found, text

    res = pmap(one, items) if 1 in layers else []
    if 2 in layers:
        status = {}
        for fam, key, st, _, _ in res:
            if fam == "grammar1":
                status.setdefault(key.split(":")[0], set()).add(st)
        from .sentences import name_of

        skip = [a for a in c.s.alternatives() if status.get(name_of(a)) and not any(x == "converted" for x in status[name_of(a)])]
        l2 = [("grammar2", k, m) for k, m in c.grammar2(skip)]
        res += pmap(one, l2)
    return res
