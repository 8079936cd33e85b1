"""C18: column names resolve in the right scope."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Nat, Obj
from engine.nodes import NodeGen
from engine.world import Broken, World


class Col:
    """A column of a schema: its name, the relation it's from and a type which no other column has."""

    def __init__(self, name, source, tag):
        self.name, self.source, self.tag = name, source, tag

    def key(self):
        return (self.name, self.source, self.tag)


class Scope:
    def __init__(self, must=(), may=(), ids=()):
        # must: what is visible. may: queries named further outside, which SQL shows and treeno may not.
        self.must, self.may, self.ids = list(must), list(may), set(ids)
        # the columns of the queries named in the statement so far
        self.ctes = []


class Model:
    """What SQL says is visible where, and what each relation exports."""

    def __init__(self, R):
        self.R = R
        self.seen = {}

    def paren(self, node, scope):
        if self.R.is_query(node):
            return self.export(node, Scope(may=scope.may + scope.ctes))
        return self.export(node, scope)

    def with_(self, node, scope):
        ctes, ids = [], set()
        for w in node.attrs.get("with_") or ():
            inner = Scope(ctes, scope.may + scope.ctes, ids)
            inner.ctes = ctes + scope.ctes
            cols, _ = self.export(w.attrs["relation"], inner)
            cols = self.alias(w, cols)
            ctes, ids = ctes + cols, ids | {w.attrs["alias"]}
        s = Scope(scope.must + ctes, scope.may, scope.ids | ids)
        s.ctes = scope.ctes + ctes
        return s

    def common(self, a, b):
        """The tag of the type that two types have in common."""
        if a is None or b is None or a == b:
            return a if b is None else b
        if a.startswith("*") and b.startswith("*"):
            c = self.common(a[1:], b[1:])
            return "*" + c if c else None
        if a.startswith("VARCHAR") and b.startswith("VARCHAR"):
            return max(a, b, key=lambda t: int(t[8:-1]))
        return None

    @staticmethod
    def alias(node, cols):
        names = node.attrs.get("column_aliases")
        return [Col(names[i] if names else c.name, node.attrs["alias"], c.tag) for i, c in enumerate(cols)]

    def lookup(self, cols, v):
        """The tag of a value: the column it names."""
        if v.cls.name == "AliasedValue":
            v = v.attrs["value"]
        if v.cls.name != "Field":
            return "INTEGER"
        t = v.attrs.get("table")
        got = {c.tag for c in cols if c.name == v.attrs["name"] and (t is None or c.source == t)}
        return got.pop() if len(got) == 1 else None

    def export(self, node, scope):
        """([columns], relation names)"""
        n = node.cls.name
        a = node.attrs
        if node.hole is not None:
            self.seen[node.hole] = scope
            return self.R.exports(node.hole, self.R.is_query(node)), {node.hole}
        if n == "Table":
            cols = [c for c in scope.must if c.source == a["name"]]
            return cols, {a["name"]}
        if n == "AliasedRelation":
            cols, _ = self.paren(a["relation"], scope)
            return self.alias(node, cols), {a["alias"]}
        if n == "TableSample":
            return self.paren(a["relation"], scope)
        if n == "Lateral":
            return self.export(a["subquery"], scope)
        if n == "Join":
            lc, li = self.paren(a["left_relation"], scope)
            inner = Scope(scope.must + lc, scope.may, scope.ids | (li or set()))
            inner.ctes = scope.ctes
            rc, ri = self.paren(a["right_relation"], inner)
            return lc + rc, None if li is None or ri is None else li | ri
        if n == "Unnest":
            out = []
            for v in a["arrays"]:
                t = self.lookup(scope.must, v)
                out.append(Col(None, None, t[1:] if t else None))
            return out, set()
        if n == "SelectQuery":
            inner = self.with_(node, scope)
            cols = []
            if a.get("from_") is not None:
                cols, _ = self.paren(a["from_"], inner)
            out = []
            for v in a["select"]:
                out.append(Col(v.attrs.get("alias") or v.attrs.get("name"), None, self.lookup(cols, v)))
            return out, set()
        if n in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
            inner = self.with_(node, scope)
            lc, li = self.export(a["left_query"], inner)
            rc, ri = self.export(a["right_query"], inner)
            if len(lc) != len(rc):
                return [Col(c.name, None, c.tag) for c in lc], None
            return [Col(c.name, None, self.common(c.tag, d.tag)) for c, d in zip(lc, rc)], None
        if n == "TableQuery":
            return self.export(a["table"], self.with_(node, scope))
        if n == "ValuesQuery":
            v = a["exprs"][0]
            k = len(v.attrs["values"]) if v.cls.name == "RowConstructor" else 1
            return [Col(None, None, "INTEGER") for _ in range(k)], set()
        raise Unsupported("model of " + n)


class Relations:
    def __init__(self, W, G):
        self.W, self.G, self.I = W, G, W.I
        self.builder = W.I.import_module("treeno.datatypes.builder").ns
        mod = W.I.import_module("treeno.relation").ns
        for n in ("Schema", "SchemaField", "Join", "JoinConfig", "JoinType"):
            if n not in mod:
                raise Broken("treeno.relation has no " + n)
        self.mod = mod
        self.count = 0
        self.record = []
        for kind in ("relation", "query"):
            W.hole_class(kind).ns["resolve"] = Nat("resolve", self._resolve, method=True)

    def fresh(self):
        self.count += 1
        return self.count

    def is_query(self, node):
        return node.cls.is_sub(self.W.query_base)

    # columns of opaque relations: of text, of an array of text, and one whose name others have too, all with types of their own
    def exports(self, key, query=False):
        n = 100 + 3 * int(key[1:])
        src = None if query else key
        return [Col(key + "x", src, "VARCHAR(%d)" % n), Col(key + "y", src, "*VARCHAR(%d)" % (n + 1)), Col("same", src, "VARCHAR(%d)" % (n + 2))]

    def dtype(self, tag):
        call = self.I.call
        if tag is None:
            return call(self.builder["unknown"], ())
        if tag == "INTEGER":
            return call(self.builder["integer"], ())
        if tag.startswith("*"):
            return call(self.builder["array"], (), {"dtype": self.dtype(tag[1:])})
        return call(self.builder["varchar"], (), {"max_chars": int(tag[8:-1])})

    def tag(self, t):
        n = t.attrs.get("type_name")
        if n == "ARRAY":
            x = self.tag(t.attrs["parameters"]["dtype"])
            return "*" + x if x else "*"
        if n == "UNKNOWN":
            return None
        if n == "VARCHAR":
            return "VARCHAR(%s)" % t.attrs["parameters"].get("max_chars")
        return n

    def _resolve(self, I, a, k):
        me, schema = a[0], a[1] if len(a) > 1 else k.get("existing_schema")
        self.record.append((me.hole, self.columns(schema), set(schema.attrs["relation_ids"])))
        return self.schema(self.exports(me.hole, self.is_query(me)), {me.hole}, lambda c: me)

    def schema(self, cols, ids, source):
        fs = [self.I.call(self.mod["SchemaField"], (), {"name": c.name, "source": source(c), "data_type": self.dtype(c.tag)}) for c in cols]
        return self.I.call(self.mod["Schema"], (), {"fields": fs, "relation_ids": set(ids)})

    def columns(self, schema):
        out = []
        for f in schema.attrs["fields"]:
            s = f.attrs["source"]
            ident = s.hole if s.hole is not None and not self.is_query(s) else None if s.hole is not None else self.I.invoke(s, "identifier")
            out.append(Col(f.attrs["name"], ident, self.tag(f.attrs["data_type"])))
        return out

    # ------------------------------------------------------------- constructions
    def R(self, kind):
        k = "h%d" % self.fresh()
        o = self.W.hole(kind, k)
        if kind == "relation":
            o.cls.ns["identifier"] = Nat("identifier", lambda I, a, kk: a[0].hole, method=True)
        return o

    def table(self, name):
        return self.G.make("Table", {"name": name})

    def field(self, name, table=None):
        return self.G.make("Field", dict({"name": name}, **({"table": table} if table else {})))

    def names(self, node, scope=None):
        cols, _ = Model(self).export(node, scope or Scope())
        return cols

    def join(self, l, r):
        jt = self.I.get_attr(self.mod["JoinType"], "CROSS")
        return self.G.make("Join", {"left_relation": l, "right_relation": r, "config": self.G.make("JoinConfig", {"join_type": jt})})

    def items(self, cols):
        """Every named column, one of them under an alias, and one which has no name."""
        out = []
        for i, c in enumerate(cols):
            if c.name is None or any(c.name == d.name and c.source == d.source for d in cols if d is not c):
                continue
            shared = any(c.name == d.name for d in cols if d is not c)
            if shared and c.source is None:
                continue
            v = self.field(c.name, c.source if i % 2 or shared else None)
            out.append(self.G.make("AliasedValue", {"value": v, "alias": "a%d" % self.fresh()}) if i % 3 == 2 else v)
        return out + [self.I.call(self.I.import_module("treeno.expression").ns["wrap_literal"], (1,))]

    def select(self, from_, scope, with_=None):
        cols = self.names_in(from_, scope)
        kw = {"select": self.items(cols), "from_": from_}
        if with_:
            kw["with_"] = with_
        return self.G.make("SelectQuery", kw)

    def names_in(self, node, scope):
        m = Model(self)
        return m.paren(node, scope)[0]

    def named(self, q, scope=None, columns=False):
        kw = {"relation": q, "alias": "w%d" % self.fresh()}
        if columns:
            kw["column_aliases"] = ["n%d" % self.fresh() for _ in Model(self).export(q, scope or Scope())[0]]
        return self.G.make("AliasedRelation", kw)


OUTER = [Col("ox", "outer", "VARCHAR(11)"), Col("oy", "outer", "*VARCHAR(12)"), Col(None, "outer", "VARCHAR(13)")]


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    R = Relations(W, G)
    outer = Scope(OUTER, (), {"outer"})

    # ----------------------------------------------------- constructions: label -> maker of a relation
    def leaves():
        yield "relation", lambda: R.R("relation")
        yield "query", lambda: R.R("query")
        yield "outer table", lambda: R.table("outer")
        yield "unnest", lambda: G.make("Unnest", {"arrays": [R.field("oy"), R.field("oy", "outer")]})
        yield "values", lambda: G.make("ValuesQuery", {"exprs": [G.make("RowConstructor", {"values": [one_(), one_()]}), G.make("RowConstructor", {"values": [one_(), one_()]}), G.make("RowConstructor", {"values": [one_(), one_()]})]})

    def one_():
        return I.call(I.import_module("treeno.expression").ns["wrap_literal"], (1,))

    def wrap(label, make, thin=False):
        """Every relation with the given one directly within it."""
        q = None

        def query_only(f):
            def g():
                x = make()
                return f(x) if x is not None and R.is_query(x) else None

            return g

        def both(f):
            def g():
                x = make()
                return f(x) if x is not None else None

            return g

        sc = outer
        yield "alias(%s)" % label, both(lambda x: G.make("AliasedRelation", {"relation": x, "alias": "a%d" % R.fresh()}))

        def with_columns(x):
            n = len(R.names_in(x, sc))
            return G.make("AliasedRelation", {"relation": x, "alias": "a%d" % R.fresh(), "column_aliases": ["c%d" % R.fresh() for _ in range(n)]}) if n else None

        yield "alias with columns(%s)" % label, both(with_columns)
        st = R.mod.get("SampleType")
        yield "sample(%s)" % label, both(lambda x: G.make("TableSample", {"relation": x, "sample_type": I.get_attr(st, "SYSTEM"), "percentage": one_()}))
        yield "lateral(%s)" % label, query_only(lambda x: G.make("Lateral", {"subquery": x}))
        yield "join(%s, relation)" % label, both(lambda x: R.join(x, R.R("relation")))
        yield "join(relation, %s)" % label, both(lambda x: R.join(R.R("relation"), x))
        yield "join(query, %s)" % label, both(lambda x: R.join(R.R("query"), x))

        def unnest(x):
            cols = [c for c in R.names_in(x, sc) if c.tag and c.tag.startswith("*") and c.name]
            arrays = []
            for c in cols[:2]:
                if c.source == "outer" or all(c.name != o.name for o in OUTER):
                    arrays.append(R.field(c.name))
                if c.source:
                    arrays.append(R.field(c.name, c.source))
            return R.join(x, G.make("Unnest", {"arrays": arrays})) if arrays else None

        yield "join(%s, unnest)" % label, both(unnest)
        yield "select(%s)" % label, both(lambda x: R.select(x, sc))

        def scoped(ws):
            s = Scope(outer.must, (), outer.ids)
            m = Model(R)
            ctes = []
            for w in ws:
                cols, _ = m.export(w.attrs["relation"], Scope(ctes))
                ctes = ctes + m.alias(w, cols)
            s.must = s.must + ctes
            s.ctes = ctes
            return s

        def with_one(x):
            ws = [R.named(R.R("query"))]
            return R.select(x, scoped(ws), ws)

        yield "with query select(%s)" % label, both(with_one)

        def of_named(x, columns=False):
            ws = [R.named(x, columns=columns)]
            return R.select(R.table(ws[0].attrs["alias"]), scoped(ws), ws)

        yield "with %s select(named)" % label, query_only(of_named)
        yield "with columns of %s select(named)" % label, query_only(lambda x: of_named(x, True))

        def second(x):
            ws = [R.named(R.R("query")), R.named(x), R.named(R.R("query"))]
            return R.select(R.join(R.table(ws[1].attrs["alias"]), R.table(ws[2].attrs["alias"])), scoped(ws), ws)

        yield "with query, %s, query select(join(second, third))" % label, query_only(second)

        def chained(x):
            w1 = R.named(x)
            s = scoped([w1])
            w2 = R.named(R.select(R.table(w1.attrs["alias"]), Scope(s.ctes)))
            ws = [w1, w2]
            return R.select(R.table(w2.attrs["alias"]), scoped(ws), ws)

        yield "with %s, select(first) select(second)" % label, query_only(chained)

        def table_query(x):
            ws = [R.named(x)]
            return G.make("TableQuery", {"table": R.table(ws[0].attrs["alias"]), "with_": ws})

        yield "with %s table(named)" % label, query_only(table_query)
        for k in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
            yield "%s(%s, query)" % (k, label), query_only(lambda x, k=k: typeless(k, x, None))
            yield "%s(query, %s)" % (k, label), query_only(lambda x, k=k: typeless(k, None, x))

        def set_with(x, left):
            ws = [R.named(R.R("query"))]
            q = R.select(R.table(ws[0].attrs["alias"]), scoped(ws))
            return G.make("UnionQuery", dict(zip(("left_query", "right_query"), (q, x) if left else (x, q)), with_=ws)) if unknown_type(x) else None

        yield "with query union(select(named), %s)" % label, query_only(lambda x: set_with(x, True))
        yield "with query union(%s, select(named))" % label, query_only(lambda x: set_with(x, False))

    def unknown_type(x):
        t = x.attrs.get("data_type")
        return t is not None and R.tag(t) is None

    def typeless(k, left, right):
        # only queries whose types aren't known combine in any way
        if not unknown_type(left if left is not None else right):
            return None
        return G.make(k, {"left_query": left if left is not None else R.R("query"), "right_query": right if right is not None else R.R("query")})

    level = list(leaves())
    all_ = list(level)
    for d in range(4 if thorough else 3):
        level = [x for l, m in level for x in wrap(l, m)]
        all_ += level

    def judge(label, make, out):
        R.count = 0
        node = make()
        if node is None:
            return False
        R.record = []
        m = Model(R)
        want, ids = m.export(node, outer)
        given = [c.key() for c in OUTER]
        table = R.table("outer")
        schema = R.schema(OUTER, {"outer"}, lambda c: table)
        try:
            got = I.invoke(node, "resolve", schema)
        except AbsRaise as e:
            if e.exc.cls.name == "TypeError" and "supertype" in e.text():
                return False
            out.append(("%s: resolution fails" % node.cls.name, "resolving %s fails: %s" % (label, e.text())))
            return True
        if [c.key() for c in R.columns(schema)] != given or set(schema.attrs["relation_ids"]) != {"outer"}:
            out.append(("%s: the schema is modified" % node.cls.name, "resolving %s modifies the schema it is given" % label))
        seen = set()
        for key, cols, gids in R.record:
            seen.add(key)
            sc = m.seen.get(key)
            if sc is None:
                continue
            have = {c.tag for c in cols}
            for c in sc.must:
                if c.tag not in have:
                    out.append(("%s: %s is not visible" % (outline(label), origin(c)), "in %s, %s does not see the column %s of %s" % (label, key, c.name, c.source)))
            allowed = {c.tag for c in sc.must} | {c.tag for c in sc.may}
            for c in cols:
                if c.tag not in allowed:
                    out.append(("%s: %s is visible" % (outline(label), origin(c)), "in %s, %s sees the column %s of %s, which is out of its scope" % (label, key, c.name, c.source)))
            for i in sc.ids - gids:
                out.append(("%s: a relation is not visible" % outline(label), "in %s, %s does not see the relation %s" % (label, key, i)))
        for key in m.seen:
            if key not in seen:
                out.append(("%s: a part is not resolved" % outline(label), "in %s, %s is not resolved" % (label, key)))
        cols = R.columns(got)
        if len(cols) != len(want):
            out.append(("%s: number of exported columns" % outline(label), "%s exports %d columns instead of %d" % (label, len(cols), len(want))))
            return True
        for i, (c, w) in enumerate(zip(cols, want)):
            if c.name != w.name:
                out.append(("%s: exported names" % outline(label), "%s exports column %d as %s instead of %s" % (label, i + 1, c.name, w.name)))
            elif c.tag != w.tag:
                out.append(("%s: exported types" % outline(label), "%s exports column %d (%s) as %s instead of %s" % (label, i + 1, c.name, c.tag, w.tag)))
            elif w.source is not None and c.source != w.source:
                out.append(("%s: exported relation" % outline(label), "%s exports column %d (%s) as one of %s instead of %s" % (label, i + 1, c.name, c.source, w.source)))
        if ids is not None and node.hole is None:
            have = set(got.attrs["relation_ids"])
            ids = {i for i in ids if i is not None}
            for i in ids - have:
                out.append(("%s: relation names" % outline(label), "%s does not export the relation name %s" % (label, i)))
            for i in have - ids:
                out.append(("%s: relation names" % outline(label), "%s exports the relation name %s" % (label, i)))
        return True

    def outline(label):
        return label.split("(")[0] + "(" + ",".join(sorted({x.strip(" ,)").split(" ")[0] for x in label.split("(")[1:] if x.strip(" ,)")})) + ")"

    def origin(c):
        return "the outer column" if c.source == "outer" else "a column"

    def one(item):
        label, make = item
        out = []
        done = [False]

        def go():
            del out[:]
            done[0] = judge(label, make, out)
            return True

        try:
            for r, _ in W.explore(go, limit=2, max_runs=4):
                if isinstance(r, AbsRaise):
                    return label, "undecided: %s" % r.text()[:90], []
                if isinstance(r, Unsupported):
                    return label, "undecided: %s" % str(r)[:90], []
        except Unsupported as e:
            return label, "undecided: %s" % str(e)[:90], []
        return label, "judged" if done[0] else "no such relation", list(dict(out).items())[:6]

    for label, st, out in pmap(one, all_):
        if st.startswith("undecided"):
            rep.undecide("%s: %s" % (label, st))
            continue
        rep.count("relations_" + st.replace(" ", "_"))
        if st == "judged" and len(label) < 60:
            rep.sample(label)
        for k, m in out:
            rep.finding(k, m)

    # ----------------------------------------------------- merging
    def merging(item):
        out = []

        def go():
            del out[:]
            ts = [R.table("m1"), R.table("m2")]
            q = R.R("query")
            q2 = R.R("query")
            mk = lambda name, src, tag: (name, src, tag)
            pool = [mk("x", ts[0], "VARCHAR(1)"), mk("x", ts[1], "VARCHAR(1)"), mk(None, q, "VARCHAR(2)"), mk(None, q2, "VARCHAR(2)"), mk(None, q, "VARCHAR(3)"), mk("y", ts[0], None)]
            make = lambda ks, ids: I.call(R.mod["Schema"], (), {"fields": [I.call(R.mod["SchemaField"], (), {"name": pool[k][0], "source": pool[k][1], "data_type": R.dtype(pool[k][2])}) for k in ks], "relation_ids": set(ids)})
            a, b = make(*item[0]), make(*item[1])
            fa, fb = list(a.attrs["fields"]), list(b.attrs["fields"])
            got = I.invoke(a, "merge", b)
            where = "schemas of %s and %s" % (item[0], item[1])
            if [id(x) for x in a.attrs["fields"]] != [id(x) for x in fa] or set(a.attrs["relation_ids"]) != set(item[0][1]):
                out.append(("merge modifies the first schema", "merging %s modifies the first" % where))
            if [id(x) for x in b.attrs["fields"]] != [id(x) for x in fb] or set(b.attrs["relation_ids"]) != set(item[1][1]):
                out.append(("merge modifies the second schema", "merging %s modifies the second" % where))
            fs = got.attrs["fields"]

            def same(f, g):
                return f is g or all(f.attrs[k] is g.attrs[k] or isinstance(f.attrs[k], str) and f.attrs[k] == g.attrs[k] for k in ("name", "source")) and R.tag(f.attrs["data_type"]) == R.tag(g.attrs["data_type"])

            for w, xs in (("first", fa), ("second", fb)):
                for f in xs:
                    if not any(same(f, g) for g in fs):
                        out.append(("merge loses a field of the %s" % w, "merging %s loses the field %s of the %s" % (where, f.attrs["name"], w)))
            rest = iter(fs)
            if not all(any(same(f, g) for g in rest) for f in fa):
                out.append(("merge changes the order", "merging %s changes the order of the fields" % where))
            for g in fs:
                if not any(same(f, g) for f in fa + fb):
                    out.append(("merge adds a field", "merging %s adds a field" % where))
            if set(got.attrs["relation_ids"]) != set(item[0][1]) | set(item[1][1]):
                out.append(("merge: relation names", "merging %s gives the relation names %s" % (where, sorted(map(str, got.attrs["relation_ids"])))))
            return True

        try:
            for r, _ in W.explore(go, limit=2, max_runs=4):
                if isinstance(r, AbsRaise):
                    return "judged", [("merge fails", "merging %s fails: %s" % (item, r.text()))]
                if isinstance(r, Unsupported):
                    return "undecided: %s" % str(r)[:90], []
        except Unsupported as e:
            return "undecided: %s" % str(e)[:90], []
        return "judged", list(dict(out).items())

    sets = [((), ()), ((0,), ("m1",)), ((2,), ()), ((0, 5), ("m1",)), ((2, 4), ()), ((1,), ("m2",)), ((3,), ("q",)), ((0, 1, 2), ("m1", "m2")), ((5, 3, 1), ("m2", "m1"))]
    for st, out in pmap(merging, [(a, b) for a in sets for b in sets]):
        if st != "judged":
            rep.undecide("merge: " + st)
            continue
        rep.count("merges")
        for k, m in out:
            rep.finding(k, m)
    rep.floor("relations_judged", 5000)
    rep.floor("merges", 60)
    return "abstract interpretation of the resolution of nested relations with opaque parts: the schema each part is handed, and the columns each relation exports, against the scoping rules of SQL"
