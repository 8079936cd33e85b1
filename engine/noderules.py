"""Rules decided on instances of the node classes: what each renders to, in both modes, and what rendering does."""
from .absval import AStr, Part, Unsupported, mk, parts_of
from .harness import brief, first_diff, pmap
from .interp import AbsRaise, ClassMethodV, ClassV, FuncV, MISSING, Obj, PropV, StaticMethodV
from .nodes import NodeGen
from .spec import Bad, facts_of, normal
from .sqltext import LexError, altering
from .world import World

WRAP = {
    # classes which are read inside of a construct of the grammar, and how to get there
    "WindowX": None,
}


def reachable(x, out=None):
    """ids of the objects and containers of a tree."""
    out = {} if out is None else out
    todo = [x]
    while todo:
        v = todo.pop()
        if isinstance(v, Obj):
            if id(v) in out:
                continue
            out[id(v)] = v
            todo += list(v.attrs.values())
        elif isinstance(v, dict):
            if id(v) in out:
                continue
            out[id(v)] = v
            todo += list(v.keys()) + list(v.values())
        elif isinstance(v, (list, set, tuple, frozenset)):
            if id(v) in out:
                continue
            out[id(v)] = v
            todo += list(v)
    return out


def shared_state(W):
    """ids of everything that lives in modules and classes."""
    out = {}
    for m in W.modules:
        mod = W.I.modules.get(m)
        if mod is None:
            continue
        out[id(mod.ns)] = (m, mod.ns)
        for n, v in mod.ns.items():
            if isinstance(v, (list, dict, set)) or isinstance(v, Obj):
                for i, o in reachable(v).items():
                    out[i] = ("%s.%s" % (m, n), o)
            if isinstance(v, ClassV) and v.module == m:
                out[id(v.ns)] = ("%s.%s" % (m, v.name), v.ns)
                for k, y in v.ns.items():
                    if isinstance(y, (list, dict, set)):
                        out[id(y)] = ("%s.%s.%s" % (m, v.name, k), y)
    return out


def token_key(t):
    if t.hole is not None:
        p = t.hole
        return ("hole",) + ((p.key, tuple(altering(p))) if isinstance(p, Part) else (p,))
    return (t.type, t.text)


class Render:
    """One rendering of a node and what was seen while it ran."""

    def __init__(self, mode, spaces):
        self.mode, self.spaces = mode, spaces
        self.text = self.error = None
        self.writes = []
        self.wrong_opts = []


MODES = (("DEFAULT", None), ("PRETTY", None), ("PRETTY", 7))


class Judge:
    def __init__(self, W, G, want):
        self.W, self.G, self.I, self.want = W, G, W.I, set(want)
        self.shared = shared_state(W)
        self.opts_cls = W.PO
        self.enum_value = {m: W.I.get_attr(W.PM, m) for m in ("DEFAULT", "PRETTY")}

    def modes(self):
        w = self.want
        if w & {"C06", "C07", "C08"}:
            return MODES if w & {"C06"} else (("DEFAULT", None), ("PRETTY", 7))
        return MODES[:1]

    def render(self, node, mode, spaces):
        W, I = self.W, self.I
        r = Render(mode, spaces)
        opts = W.opts(mode, spaces)
        mine = None
        if "C08" in self.want:
            mine = reachable(node)
            reachable(opts, mine)
        seen = []
        saved = I.hooks.get("sql")
        if "C07" in self.want:
            want_mode, want_spaces = self.enum_value[mode], opts.attrs.get("spaces")

            def hook(I, f, args, kwargs):
                o = args[1] if len(args) > 1 else kwargs.get("opts", MISSING)
                if isinstance(o, Obj) and o.cls is self.opts_cls and (o.attrs.get("mode") is not want_mode or o.attrs.get("spaces") != want_spaces):
                    seen.append(args[0].cls.name if args and isinstance(args[0], Obj) else "?")
                elif o is not MISSING and not isinstance(o, Obj):
                    seen.append(args[0].cls.name)
                return MISSING

            I.hooks["sql"] = hook
        mark = len(I.writes)
        try:
            r.text = W.render(node, opts=opts)
        except AbsRaise as e:
            r.error = e
        finally:
            if "C07" in self.want:
                if saved is None:
                    I.hooks.pop("sql", None)
                else:
                    I.hooks["sql"] = saved
        r.wrong_opts = seen
        if "C07" in self.want and r.text is not None:
            for p in parts_of(r.text):
                if isinstance(p, Part) and p.kind == "R":
                    o = p.opts
                    ok = isinstance(o, Obj) and o.attrs.get("mode") is self.enum_value[mode] and o.attrs.get("spaces") == opts.attrs.get("spaces")
                    if not ok:
                        r.wrong_opts.append("the part %s" % (p.key,))
        if mine is not None:
            for kind, obj, key, _, where in I.writes[mark:]:
                if kind == "attr" and id(obj) in mine:
                    r.writes.append("%s.%s of the rendered tree is set in %s" % (obj.cls.name, key, where))
                elif kind == "container" and id(obj) in mine:
                    r.writes.append("a %s of the rendered tree changes in %s" % (type(obj).__name__, where))
                elif id(obj) in self.shared:
                    r.writes.append("%s changes in %s" % (self.shared[id(obj)][0], where))
                elif kind == "attr" and isinstance(obj, ClassV):
                    r.writes.append("an attribute of the class %s is set in %s" % (obj.name, where))
        return r

    def outcomes(self, make):
        """[(node, [Render], run)] over the branches; node is the exception when construction fails."""

        def go():
            try:
                node = make()
            except AbsRaise as e:
                return e, []
            rs = [self.render(node, m, s) for m, s in self.modes()]
            if "C08" in self.want:
                again = [self.render(node, m, s) for m, s in reversed(self.modes())]
                self.I.set_reverse = True
                try:
                    rev = [self.render(node, m, s) for m, s in self.modes()]
                finally:
                    self.I.set_reverse = False
                rs = rs + [again, rev]
            return node, rs

        for res, run in self.W.explore(go, limit=2, max_runs=16):
            if isinstance(res, AbsRaise):
                yield res, [], run
            elif isinstance(res, Unsupported):
                yield res, [], run
            else:
                yield res[0], res[1], run

    def judge(self, cls, label, make, rule):
        """(status, [(property, key, message)], example)."""
        out = []
        status = None
        example = "%s(%s)" % (cls.name, label)
        try:
            for node, rs, run in self.outcomes(make):
                if isinstance(node, Unsupported):
                    status = status or "undecided: %s" % str(node)[:80]
                    continue
                if isinstance(node, AbsRaise):
                    if node.accidental:
                        out.append(("C15", "%s cannot be built: %s in %s" % (cls.name, node.name, node.where.split(" ")[0]), "building %s fails: %s" % (example, node.text())))
                    status = status or "refused"
                    continue
                status = "rendered"
                extra = []
                if "C08" in self.want:
                    extra, rs = rs[-2:], rs[:-2]
                self.one(cls, label, node, rs, extra, run, rule, out)
                if rs and rs[0].text is not None:
                    example = "%s(%s) -> %s" % (cls.name, label, show_text(rs[0].text))
        except Unsupported as e:
            status = status if status == "rendered" else "undecided: %s" % str(e)[:80]
            if status == "rendered":
                status = "undecided: %s" % str(e)[:80]
        return status or "undecided: no feasible outcome", out, example

    def one(self, cls, label, node, rs, extra, run, rule, out):
        W = self.W
        where = self.site(cls, label)
        for r in rs:
            if r.error is not None:
                if {"C04", "C06"} & self.want:
                    for p in ("C04", "C06"):
                        if p == "C04" and r is not rs[0]:
                            continue
                        out.append((p, "%s fails to render: %s" % (cls.name, r.error.name), "rendering %s in %s mode fails: %s" % (where, r.mode, r.error.text())))
            for w in r.wrong_opts:
                out.append(("C07", "%s renders %s with other options" % (cls.name, w), "rendering %s in %s mode (spaces %s): %s is rendered with other print options" % (where, r.mode, r.spaces, w)))
            for w in r.writes:
                out.append(("C08", "%s: %s" % (cls.name, strip_line(w)), "rendering %s: %s" % (where, w)))
        if extra:
            again, rev = extra
            for a, b in zip(rs, list(reversed(again))):
                if a.error is None and b.error is None and a.text != b.text:
                    out.append(("C08", "%s renders differently the second time" % cls.name, "%s: first %s, then %s" % (where, brief(a.text), brief(b.text))))
            for a, b in zip(rs, rev):
                if a.error is None and b.error is None and a.text != b.text:
                    out.append(("C08", "%s renders in the order of a set" % cls.name, "%s: %s or %s" % (where, brief(a.text), brief(b.text))))
        r = rs[0] if rs else None
        if r is None or r.text is None:
            return
        if self.want & {"C04", "C09"}:
            self.readback(cls, label, node, r, run, rule, out, where)
        if "C06" in self.want:
            self.pretty(cls, label, rs, rule, out, where)

    def site(self, cls, label):
        return "%s (%s)" % (cls.name, label)

    def lex(self, text):
        problems = []
        return self.W.lex(text, None, problems), problems

    def readback(self, cls, label, node, r, run, rule, out, where):
        W = self.W
        problems = []
        try:
            if rule == "standaloneExpression" and W.query_base in cls.mro:
                rule = "query"
            toks = W.lex(r.text, None, problems)
        except LexError as e:
            out.append(("C04", "%s: unreadable" % cls.name, "%s renders to %s: %s" % (where, brief(r.text), e)))
            return
        for kind, what in problems:
            if kind in ("bare", "unescaped", "inside"):
                out.append(("C09", "%s: %s %s" % (cls.name, kind, field_of(what)), "%s renders to %s: %s" % (where, brief(r.text), what)))
            else:
                out.append(("C04", "%s: %s" % (cls.name, kind), "%s renders to %s: %s" % (where, brief(r.text), what)))
        if "C04" not in self.want and "C09" not in self.want:
            return
        from .g4 import TemplateParser

        tree = TemplateParser(W.g, toks).parse(rule)
        try:
            A = W.nc.c(node)
        except Bad as e:
            out.append(("C04", "%s: accepts %s" % (cls.name, e), "%s is accepted although it holds %s" % (where, e)))
            return
        if tree is None:
            out.append(("C04", "%s is not a %s: %s" % (cls.name, rule, diff_label(label)), "%s renders to %s, which is not a %s of the grammar" % (where, brief(r.text), rule)))
            return
        facts = facts_of(run)
        B = W.tc.c(tree)
        A, B = normal(A, facts), normal(B, facts)
        if A != B:
            at, what = first_diff(A, B)
            k = "%s at %s: %s" % (cls.name, at or "the whole", what)
            out.append(("C04", k, "%s renders to %s; the tree is %s, the text means %s" % (where, brief(r.text), brief(A), brief(B))))
            sa, sb = strings(A), strings(B)
            if sa != sb and "C09" in self.want:
                out.append(("C09", "%s: %s" % (cls.name, what), "%s renders to %s: the names and strings %s become %s" % (where, brief(r.text), brief(sa), brief(sb))))

    def pretty(self, cls, label, rs, rule, out, where):
        try:
            base = [token_key(t) for t in self.W.lex(rs[0].text)]
        except LexError:
            return
        for r in rs[1:]:
            if r.text is None:
                continue
            try:
                toks = [token_key(t) for t in self.W.lex(r.text)]
            except LexError as e:
                out.append(("C06", "%s: pretty output is unreadable" % cls.name, "%s: %s in %s" % (where, e, brief(r.text))))
                continue
            if toks != base:
                i = next((i for i, (a, b) in enumerate(zip(base, toks)) if a != b), min(len(base), len(toks)))
                a, b = (base[i] if i < len(base) else "nothing"), (toks[i] if i < len(toks) else "nothing")
                kind = lambda x: x if isinstance(x, str) else ("nested part" if x[0] == "hole" else x[0])
                out.append(("C06", "%s: %s in default, %s in pretty mode" % (cls.name, kind(a), kind(b)), "%s: default %s, pretty (spaces %s) %s" % (where, brief(rs[0].text), r.spaces, brief(r.text))))


def strings(x, out=None):
    out = [] if out is None else out
    if isinstance(x, tuple):
        for y in x[1:] if x and isinstance(x[0], str) else x:
            strings(y, out)
    elif isinstance(x, AStr):
        out.append(x)
    return out


def strip_line(w):
    import re

    return re.sub(r"(:| line )\d+", "", w)


def field_of(what):
    import re

    m = re.search(r"<S:([^|>]*)", what)
    return re.sub(r"\d+", "", m.group(1)) if m else ""


def diff_label(label):
    return label or "plain"


def show_text(t):
    return "".join(p if isinstance(p, str) else "⟨%s⟩" % (p.key,) for p in parts_of(t))


# --------------------------------------------------------------------------------------------- families


# methods which have no part in how a node renders (what they do to a node shows in single fields)
NOT_RENDERING = ("visit", "resolve", "from_args", "equals", "assert_equals", "__attrs_post_init__")


def signature(cls):
    """What a class does when rendered: its methods and fields.  Classes which agree differ in constants only."""
    from .models import attr_fields

    methods = {}
    for c in reversed(cls.mro):
        for k, v in c.ns.items():
            if isinstance(v, (FuncV, PropV, ClassMethodV, StaticMethodV)):
                methods[k] = id(v)
    own = {k: v for k, v in methods.items() if not k.startswith("__") and k not in NOT_RENDERING}
    fields = tuple((f.name, f.init) for f in attr_fields(cls) or ())
    return tuple(sorted(own.items())), fields


def single(W, G, width, everywhere=False):
    """Every class, every field in each of its shapes; pairs of fields for one class of each kind."""
    out = []
    seen = set()
    for cls in G.classes:
        rule = G.entry(cls)
        if rule is None:
            continue
        sig = signature(cls)
        w = width if everywhere or sig not in seen else 1
        seen.add(sig)
        try:
            insts = G.instances(cls, "", w)
        except Unsupported as e:
            out.append((cls, None, str(e), rule))
            continue
        out += [(cls, l, m, rule) for l, m in insts]
    return out


# classes rules refer to by name
NOT_OPERANDS = ("Star", "AliasedValue", "AliasedStar")


def wanted(*names):
    return lambda G: [c for c in G.classes if any(c.is_sub(G.by_name[n]) for n in names if n in G.by_name)]


def children(W, G, prefix):
    """[(label, maker)]: one value of each kind, with holes for operands."""
    out, seen = [], set()
    fn = W.I.modules["treeno.functions.base"].ns.get("Function") if "treeno.functions.base" in W.I.modules else None
    for c in wanted("Value")(G):
        if c.name in NOT_OPERANDS or c.name == "Literal":
            continue
        if fn is not None and c.is_sub(fn):
            sig = signature(c)
            if sig in seen:
                continue
            seen.add(sig)
        try:
            out.append((c.name, G.plain(c, prefix)))
        except Unsupported as e:
            out.append((c.name, e))
    keep = ("any a number", "any a string", "int -7", "float -2.5", "Decimal -0.25", "bool true", "null")
    out += [("Literal " + l, m) for l, m in G.literals(prefix + "v") if l in keep]
    q = G.by_name.get("SelectQuery")
    if q is not None:
        out.append(("SelectQuery", G.plain(q, prefix)))
    neg = {"Like": "escape", "Case": "else_", "Case ": "value"}
    for n, f in neg.items():
        c = G.by_name.get(n.strip())
        if c is not None:
            base, _ = G.kwargs(c, prefix)
            kw = dict(base)
            if f == "escape":
                kw[f] = lambda: W.hole("value", prefix + f)
                out.append((n + " with escape", lambda c=c, kw=kw: G.make(c, {k: m() for k, m in kw.items()})))
    return out


def nested_values(W, G, width):
    """Every value-taking place of every class with every kind of value in it."""
    out = []
    kids = children(W, G, "in.")
    vk = ("Value", "GenericValue")
    for cls in G.classes:
        rule = G.entry(cls)
        if rule is None or cls.name in ("SelectQuery",):
            continue
        for slot, fill in G.slots(cls, vk):
            for label, ch in kids:
                if isinstance(ch, Unsupported):
                    out.append((cls, None, str(ch), rule))
                    continue
                out.append((cls, "%s: %s" % (slot, label), fill(ch), rule))
    return out


def operator_classes(W, G):
    fn = W.I.modules["treeno.functions.base"].ns.get("Function") if "treeno.functions.base" in W.I.modules else None
    return [c for c in wanted("Value")(G) if c.name not in NOT_OPERANDS and not (fn is not None and c.is_sub(fn))]


def chains(W, G, width):
    """Operators within operators within operators."""
    out = []
    vk = ("Value", "GenericValue")
    ops = operator_classes(W, G)
    kids = [(l, m) for l, m in children(W, G, "in.in.") if not isinstance(m, Unsupported)]
    kids = [(l, m) for l, m in kids if any(c.name == l for c in ops) or l.startswith("Literal int -")]
    for cls in ops:
        rule = G.entry(cls)
        for slot, fill in G.slots(cls, vk):
            for mid in ops:
                for slot2, fill2 in G.slots(mid, vk, "in."):
                    for label, ch in kids:
                        out.append((cls, "%s: %s %s: %s" % (slot, mid.name, slot2, label), fill(fill2(ch)), rule))
    return out


def relation_children(W, G, prefix):
    out = []
    for c in wanted("Relation", "Query")(G):
        if c.name in ("AliasedRelation", "Table", "Join", "Unnest", "Lateral", "TableSample") or c.is_sub(G.by_name["Query"]):
            out += [(c.name + ("" if l == "plain" else " " + l), m) for l, m in G.instances(c, prefix, 2)]
    return out


def nested_relations(W, G, width):
    """Every relation- or query-taking place with every relation and query in it."""
    out = []
    kids = relation_children(W, G, "in.")
    for cls in G.classes:
        rule = G.entry(cls)
        if rule is None:
            continue
        for kinds in (("Relation",), ("Query",), ("Value", "GenericValue")):
            for slot, fill in G.slots(cls, kinds):
                for label, ch in kids:
                    c = G.by_name[label.split(" ")[0]]
                    if kinds != ("Relation",) and not c.is_sub(G.by_name["Query"]):
                        continue
                    if cls.is_sub(G.by_name["SetQuery"]) and " with_" in label and not label.endswith("with_ none"):
                        # SQL has no place for WITH inside of a set operation
                        continue
                    if kinds[0] == "Value" and (label.count(" ") or not c.is_sub(G.by_name["Query"]) or not sample_parent(cls)):
                        continue
                    out.append((cls, "%s: %s" % (slot, label), fill(ch), rule))
    return out


def sample_parent(cls):
    return cls.name in ("Add", "Not", "And", "InList", "Between", "Cast", "Field", "Subscript", "Count", "Lateral", "Case", "Array", "RowConstructor", "SelectQuery", "ValuesQuery", "OrderTerm", "AliasedValue", "Unnest")


def run(W, want, thorough=False, width=2, family=single):
    G = NodeGen(W)
    J = Judge(W, G, want)
    items = family(W, G, width)

    def one(item):
        cls, label, make, rule = item
        if label is None:
            return cls.name, "", "undecided: %s" % make, [], ""
        W.I.tracking = True
        try:
            st, found, ex = J.judge(cls, label, make, rule)
        except RecursionError:
            st, found, ex = "undecided: recursion", [], ""
        return cls.name, label, st, found, ex

    return G, pmap(one, items)


def negations(W, G, width):
    """Negations, once, twice and three times, of every kind of value in each of its shapes, standalone and as operands."""
    out = []
    no = G.by_name["Not"]
    rule = G.entry(no)
    fn = W.I.modules["treeno.functions.base"].ns.get("Function") if "treeno.functions.base" in W.I.modules else None
    seen = set()

    def neg(make, n):
        def go():
            x = make()
            for _ in range(n):
                x = G.make(no, {"value": x})
            return x
        return go

    kids = [(l, m) for l, m in children(W, G, "in.") if not isinstance(m, Unsupported)]
    for c in wanted("Value")(G):
        if c.name in NOT_OPERANDS or c.name == "Literal":
            continue
        isfn = fn is not None and c.is_sub(fn)
        if isfn:
            sig = signature(c)
            if sig in seen:
                continue
            seen.add(sig)
        try:
            insts = G.instances(c, "in.", 1 if isfn else width)
        except Unsupported as e:
            out.append((no, None, str(e), rule))
            continue
        for l, m in insts:
            for n in (1, 2):
                out.append((no, "%s of %s %s" % ("NOT" if n == 1 else "NOT NOT", c.name, l), neg(m, n), rule))
        plain = insts[0][1]
        out.append((no, "NOT NOT NOT of %s" % c.name, neg(plain, 3), rule))
        # the operands of what is negated, one of each kind
        if not isfn:
            for slot, fill in G.slots(c, ("Value", "GenericValue"), "in."):
                for label, ch in kids:
                    out.append((no, "NOT of %s %s: %s" % (c.name, slot, label), neg(fill(ch), 1), rule))
    for label, ch in kids:
        if label.startswith("Literal"):
            out.append((no, "NOT of " + label, neg(ch, 1), rule))
            out.append((no, "NOT NOT of " + label, neg(ch, 2), rule))
    # negations as operands
    for cls in operator_classes(W, G):
        r = G.entry(cls)
        if r is None:
            continue
        for slot, fill in G.slots(cls, ("Value", "GenericValue")):
            for label, ch in kids:
                if label in ("Equal", "NotEqual", "Like", "Like with escape", "DistinctFrom", "IsNull", "InList", "InQuery", "Between", "And", "Or", "Not", "LessThan", "Field"):
                    for n in (1, 2):
                        out.append((cls, "%s: %s of %s" % (slot, "NOT" if n == 1 else "NOT NOT", label), fill(neg(ch, n)), r))
    return out


PAIRED = ("Field", "Literal int -7", "Literal any a string", "Literal null", "Not", "And", "Add", "SelectQuery", "Cast", "Equal", "IsNull", "Literal bool true")


def pairs(W, G, width, classes=None, wrap=lambda m: m):
    """Two operands at once, of every pair of kinds."""
    out = []
    kinds = ("Value", "GenericValue")
    kids = [(l, m) for l, m in children(W, G, "in.") if l in PAIRED and not isinstance(m, Unsupported)]
    also = [(l, m) for l, m in children(W, G, "of.") if l in PAIRED and not isinstance(m, Unsupported)]
    for cls in classes or G.classes:
        rule = G.entry(cls)
        if rule is None:
            continue
        for label, fill in G.pair_slots(cls, kinds):
            for l1, m1 in kids:
                for l2, m2 in also:
                    out.append((cls, "%s: %s and %s" % (label, l1, l2), wrap(fill(m1, m2)), rule))
    return out
