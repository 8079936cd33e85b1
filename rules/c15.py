"""C15: expressions get the data type their form dictates."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.nodes import NodeGen, attr_fields
from engine.world import Broken, World

# the forms of the grammar which are truth values, and those which have the type of their operand
TRUTHS = [
    "%s = %s", "%s <> %s", "%s != %s", "%s < %s", "%s <= %s", "%s > %s", "%s >= %s",
    "%s IS NULL", "%s IS NOT NULL", "%s BETWEEN %s AND %s", "%s NOT BETWEEN %s AND %s", "%s IN ( %s )", "%s IN ( %s , %s , %s )", "%s NOT IN ( %s , %s )",
    "%s LIKE %s", "%s NOT LIKE %s", "%s LIKE %s ESCAPE %s", "%s NOT LIKE %s ESCAPE %s", "%s IS DISTINCT FROM %s", "%s IS NOT DISTINCT FROM %s",
    "%s IN ( SELECT %s )", "%s NOT IN ( SELECT %s )", "EXISTS ( SELECT %s )", "NOT EXISTS ( SELECT %s )",
    "%s = ALL ( SELECT %s )", "%s < ANY ( SELECT %s )", "%s >= SOME ( SELECT %s )",
    "%s AND %s", "%s OR %s", "NOT %s", "%s AND %s AND %s", "%s OR %s AND NOT %s", "( %s AND %s )", "NOT ( %s = %s )",
]
KEEPS = ["+ %s", "- %s", "( %s )", "( SELECT %s )", "( ( SELECT %s ) )", "( SELECT %s AS a )", "( SELECT %s FROM t )", "( SELECT DISTINCT %s FROM t WHERE %s GROUP BY %s HAVING %s ORDER BY %s LIMIT 1 )", "( VALUES %s )", "( VALUES %s , %s )", "( SELECT ( SELECT %s ) )", "- ( SELECT + %s )",
         "( SELECT %s UNION SELECT %s )", "( SELECT %s EXCEPT SELECT %s )", "( SELECT %s INTERSECT SELECT %s )", "( SELECT %s UNION ALL VALUES %s )", "( WITH w AS ( SELECT 1 , 2 ) SELECT %s FROM w )"]
ROWS = [("( %s , %s )", 2), ("ROW ( %s , %s )", 2), ("ROW ( %s )", 1), ("ROW ( %s , %s , %s )", 3), ("( SELECT %s , %s )", 2), ("( SELECT %s , %s AS b , %s FROM t )", 3), ("( VALUES ( %s , %s ) )", 2), ("( SELECT %s , %s UNION SELECT %s , %s )", 2), ("( SELECT %s , %s EXCEPT VALUES ( %s , %s ) )", 2), ("( SELECT %s , %s INTERSECT SELECT %s , %s )", 2)]


class Types:
    def __init__(self, W):
        b = W.I.import_module("treeno.datatypes.builder").ns
        call = W.I.call
        t = lambda n, **kw: lambda: call(b[n], (), {k: v() if callable(v) else v for k, v in kw.items()})
        self.known = [
            ("BIGINT", t("bigint")),
            ("BOOLEAN", t("boolean")),
            ("VARCHAR(7)", t("varchar", max_chars=7)),
            ("DECIMAL(30,4)", t("decimal", precision=30, scale=4)),
            ("DOUBLE", t("double")),
            ("TIMESTAMP(3) WITH TIME ZONE", t("timestamp", precision=3, timezone=True)),
            ("DATE", t("date")),
            ("ARRAY(BIGINT)", t("array", dtype=t("bigint"))),
            ("MAP(BIGINT,ARRAY(DOUBLE))", t("map_", from_dtype=t("bigint"), to_dtype=t("array", dtype=t("double")))),
            ("ROW(BIGINT,VARCHAR(3))", lambda: call(b["row"], (), {"dtypes": [call(b["bigint"]), call(b["varchar"], (), {"max_chars": 3})]})),
            ("INTERVAL", t("interval", from_interval="DAY", to_interval="SECOND")),
            ("JSON", t("json")),
        ]
        self.unknown = ("UNKNOWN", t("unknown"))
        self.all = [self.unknown] + self.known


def text(t):
    """A type, written out."""
    if not isinstance(t, Obj) or t.cls.name != "DataType":
        return "no type (%r)" % (t,)
    n, ps = t.attrs.get("type_name"), t.attrs.get("parameters") or {}

    def p(v):
        if isinstance(v, Obj):
            return text(v)
        if isinstance(v, (list, tuple)):
            return "[" + ",".join(p(x) for x in v) + "]"
        return str(v)

    return "%s{%s}" % (n, ",".join("%s=%s" % (k, p(v)) for k, v in sorted(ps.items(), key=lambda x: str(x[0]))))


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    T = Types(W)
    names = [n for n, _ in T.all]
    truth_classes = set()

    def typed(i, key):
        return W.hole("value", key, data_type=T.all[i][1]())

    def row_of(ts):
        return "ROW{dtypes=[%s]}" % ",".join(ts)

    # ------------------------------------------------------------- forms of the grammar over operands of every type
    # the operands are columns; once converted, resolving them gives them their types, and the tree is built again
    def explore(go):
        """[result] or the reason there's none."""
        out = []
        try:
            for r, _ in W.explore(go, limit=2, max_runs=12):
                if isinstance(r, Unsupported):
                    return None, "undecided: %s" % str(r)[:90]
                out.append(r)
        except Unsupported as e:
            return None, "undecided: %s" % str(e)[:90]
        return out, None

    def rebuild(node, leaf):
        """The same tree over other leaves, by the constructors."""
        if isinstance(node, list):
            return [rebuild(x, leaf) for x in node]
        if isinstance(node, tuple):
            return tuple(rebuild(x, leaf) for x in node)
        if isinstance(node, dict):
            return {k: rebuild(v, leaf) for k, v in node.items()}
        if not isinstance(node, Obj) or node.cls.is_enum or not node.cls.is_sub(W.sql_base):
            return node
        if node.cls.name == "Field" and isinstance(node.attrs.get("name"), str) and node.attrs["name"].startswith("x"):
            return leaf(node.attrs["name"])
        kw = {}
        for f in attr_fields(node.cls) or ():
            if not f.init or f.name.startswith("_"):
                continue
            if f.name == "data_type" and node.cls.name != "Literal":
                continue
            kw[f.name] = rebuild(node.attrs.get(f.name), leaf)
        return I.call(node.cls, (), kw)

    def expected(kind, width, full):
        if kind == "truth":
            return text(T.known[1][1]())
        return full[0] if kind == "keeps" else row_of(full[:width])

    def form(item):
        kind, pattern, width, types, inner = item
        outer_n = pattern.count("%s")
        slots = [("%s", None, 0)] * outer_n
        if inner is not None:
            ik, ip, iw, at = inner
            for i in range(outer_n):
                if at is None or at == i % outer_n:
                    slots[i] = (ip, ik, iw)
            pattern = pattern % tuple(p for p, _, _ in slots)
        n = pattern.count("%s")
        out = []

        def types_of(leaf):
            """The types of the operands, from those of the columns."""
            got, i = [], 0
            for p, k2, w2 in slots:
                m = p.count("%s")
                got.append(leaf[i] if k2 is None else expected(k2, w2, leaf[i:i + m]))
                i += m
            return got

        def go():
            toks = lexemes_of(pattern % tuple("x%d" % i for i in range(n)))
            node = W.convert(toks, "standaloneExpression")
            got = []
            for mode in ("as converted", "typed"):
                if mode == "typed":
                    try:
                        node = rebuild(node, lambda k: typed(types[int(k[1:]) % len(types)], k))
                    except AbsRaise as e:
                        node = e
                got.append((mode, node))
            return [(m, v if isinstance(v, AbsRaise) else (v.cls.name, text(v.attrs.get("data_type", I.get_attr(v, "data_type"))))) for m, v in got]

        rs, why = explore(go)
        if rs is None:
            return kind, pattern, why, [], None
        label = pattern.replace("%s", "_")
        cls = None
        for r in rs:
            if isinstance(r, AbsRaise) and not r.accidental:
                continue  # a construct which treeno says it doesn't support
            if isinstance(r, AbsRaise):
                out.append(("%s is refused" % label, "the expression %s over columns of unknown type is refused: %s" % (label, r.text())))
                continue
            for mode, v in r:
                ts = [names[types[i % len(types)]] for i in range(n)] if mode == "typed" else ["UNKNOWN"] * n
                if isinstance(v, AbsRaise):
                    if kind == "truth":
                        out.append(("%s fails" % label, "the expression %s over operands of type %s can't be built: %s" % (label, ", ".join(ts), v.text())))
                    elif kind != "truth" and len(set(ts)) == 1:
                        out.append(("%s fails" % label, "the expression %s over operands of type %s can't be built: %s" % (label, ", ".join(ts), v.text())))
                    continue
                cls, t = v
                full = [text(T.all[types[i % len(types)]][1]()) for i in range(n)] if mode == "typed" else [text(T.unknown[1]())] * n
                want = expected(kind, width, types_of(full))
                if t != want:
                    out.append(("%s has another type" % label, "the expression %s over operands of type %s has the type %s instead of %s" % (label, ", ".join(ts), t, want)))
        return kind, pattern, "judged", out, cls

    def lexemes_of(s):
        return W.lex(s)

    items = []
    k = len(T.all)
    for p in TRUTHS:
        n = p.count("%s")
        for i in range(k):
            items.append(("truth", p, 0, (i,), None))
        if n > 1:
            for i in range(k):
                for j in (range(k) if thorough else ((i + 1) % k, (i + 5) % k, 0)):
                    if j != i:
                        items.append(("truth", p, 0, (i, j), None))
    for p in KEEPS:
        for i in range(k):
            items.append(("keeps", p, 0, (i,), None))
    for p, w in ROWS:
        for i in range(k):
            items.append(("rows", p, w, (i,), None))
            if w > 1:
                for j in (range(k) if thorough else ((i + 1) % k, (i + 3) % k)):
                    items.append(("rows", p, w, tuple((i + x * (j - i)) % k for x in range(w)), None))
    # one form within another
    forms = [("truth", p, 0) for p in TRUTHS] + [("keeps", p, 0) for p in KEEPS] + [("rows", p, w) for p, w in ROWS]
    inner = [("truth", "( %s = %s )", 0), ("truth", "( NOT %s )", 0), ("keeps", "( - %s )", 0), ("keeps", "( SELECT %s )", 0), ("rows", "( %s , %s )", 2), ("rows", "ROW ( %s )", 1), ("rows", "( SELECT %s , %s )", 2)]
    for kind, p, w in forms:
        n = p.count("%s")
        same = lambda p: any(x in p for x in ("UNION", "EXCEPT", "INTERSECT", "VALUES %s ,"))
        for x in (forms if thorough else inner):
            whole = same(p)
            if not x[1].startswith("( ") and not x[1].startswith("ROW"):
                x = (x[0], "( " + x[1] + " )", x[2])
            for at in [None] if whole else range(n):
                # what a set operation makes of different types is another property
                items.append((kind, p, w, (3,) if whole or same(x[1]) else (1, 3), x + (at,)))
                items.append((kind, p, w, (0,) if whole or same(x[1]) else (0, 5), x + (at,)))
    for kind, p, st, out, cls in pmap(form, items):
        if st != "judged":
            rep.undecide("%s: %s" % (p, st))
            continue
        rep.count("forms_" + kind)
        rep.sample(p)
        if kind == "truth" and cls:
            truth_classes.add(cls)
        for key, m in out:
            rep.finding(key, m)

    # ------------------------------------------------------------- every class over operands of every type
    value = W.value_base

    def instance(item):
        ci, ti, width = item
        cls = G.classes[ci]
        out, n, undecided = [], 0, []
        saved = W.hole
        now = [ti]
        W.hole = lambda kind, key, **a: saved(kind, key, **(dict(a, data_type=T.all[now[0]][1]()) if kind in ("value", "query") else a))

        def accepted(make):
            """A known type of the operands with which it can be built."""
            for t in range(1, k):
                now[0] = t
                try:
                    rs, _ = explore(lambda: make() and None)
                finally:
                    now[0] = ti
                if rs and not any(isinstance(r, AbsRaise) for r in rs):
                    return names[t]
            return None

        try:
            want = text(T.known[1][1]())
            for label, make in G.instances(cls, "", width):
                def go():
                    v = make()
                    return text(v.attrs.get("data_type")) if isinstance(v, Obj) and cls.name in truth_classes else None

                rs, why = explore(go)
                if rs is None:
                    undecided.append(why)
                    continue
                for r in rs:
                    n += 1
                    where = "%s(%s) over operands of type %s" % (cls.name, label, names[ti])
                    if isinstance(r, AbsRaise):
                        if r.accidental and ti == 0:
                            out.append(("%s can't be built" % cls.name, "building %s fails: %s" % (where, r.text())))
                        elif r.accidental:
                            out.append(("%s can't be built over a known type" % cls.name, "building %s fails: %s" % (where, r.text())))
                        elif ti == 0:
                            rep_t = accepted(make)
                            if rep_t is not None:
                                out.append(("%s is refused" % cls.name, "%s is refused, though it is accepted over operands of type %s: %s" % (where, rep_t, r.text())))
                    elif r is not None and r != want:
                        out.append(("%s is no truth value" % cls.name, "%s has the type %s" % (where, r)))
        finally:
            W.hole = saved
        return cls.name, n, list(dict(out).items())[:6], undecided

    items = []
    for i, c in enumerate(G.classes):
        if c.name == "DataType":
            continue
        if c.is_sub(value) or c.is_sub(W.relation_base):
            items.append((i, 0, 2))
            for t in range(1, k):
                if c.name in truth_classes or thorough:
                    items.append((i, t, 1))
    for name, n, out, und in pmap(instance, items):
        for u in und:
            rep.undecide("%s: %s" % (name, u))
        rep.count("instances", n)
        rep.count("classes_of_truth_values", 0)
        for key, m in out:
            rep.finding(key, m)
    rep.count("classes_of_truth_values", len(truth_classes))
    rep.floor("forms_truth", 800)
    rep.floor("forms_keeps", 150)
    rep.floor("forms_rows", 150)
    rep.floor("instances", 4000)
    rep.floor("classes_of_truth_values", 14)
    return "abstract interpretation of every form of the grammar and every node class over operands of every kind of type"
