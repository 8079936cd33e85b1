"""C30: the columns a query exports have the names and types of what produces them."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise
from engine.world import World, Broken
from rules.c15 import text

# how a type is written in a cast
CASTS = {
    "BIGINT": "BIGINT", "INTEGER": "INTEGER", "DOUBLE": "DOUBLE", "REAL": "REAL", "BOOLEAN": "BOOLEAN", "DATE": "DATE",
    "VC7": "VARCHAR(7)", "VC3": "VARCHAR(3)", "DEC": "DECIMAL(30,4)", "TS3": "TIMESTAMP(3)", "TSZ": "TIMESTAMP(9) WITH TIME ZONE",
    "ABIG": "ARRAY(BIGINT)", "AVC": "ARRAY(VARCHAR(7))", "AAB": "ARRAY(ARRAY(BIGINT))", "MAP": "MAP(BIGINT,ARRAY(DOUBLE))", "AROW": "ARRAY(ROW(BIGINT,VARCHAR(3)))",
}
U = "U"
# the common type of two
COMMON = {("INTEGER", "BIGINT"): "BIGINT", ("VC3", "VC7"): "VC7", ("REAL", "DOUBLE"): "DOUBLE", ("BIGINT", "DOUBLE"): "DOUBLE", ("DATE", "TS3"): "TS3", ("INTEGER", "REAL"): "REAL"}
ELEMENTS = {"ABIG": ["BIGINT"], "AVC": ["VC7"], "AAB": ["ABIG"], "MAP": ["BIGINT", "ADBL"], "AROW": ["BIGINT", "VC3"]}


def common(a, b):
    """The acceptable common types of two sets of acceptable types."""
    out = set()
    for x in a:
        for y in b:
            if U in (x, y):  # not known, or NULL
                out |= {x, y}
            elif x == y:
                out.add(x)
            else:
                c = COMMON.get((x, y)) or COMMON.get((y, x))
                if c is None:
                    return None
                out.add(c)
    return frozenset(out)


class Col:
    def __init__(self, name, types, source=None):
        self.name, self.source = name, source
        self.types = types if isinstance(types, frozenset) else frozenset([types])

    def under(self, source, name=None):
        return Col(name or self.name, self.types, source)


class Query:
    """SQL of a query, and the columns it has (None where they can't be told)."""

    def __init__(self, sql, cols, star=False):
        self.sql, self.cols, self.star = sql, cols, star


class Rel:
    """SQL of a relation, its columns, and the tables among it whose columns aren't known."""

    def __init__(self, sql, cols, unknown=False, primary=True):
        self.sql, self.cols, self.unknown, self.primary = sql, cols, unknown, primary

    def wrapped(self):
        return self.sql if self.primary else "(%s)" % self.sql


class Texts:
    def __init__(self):
        self.n = 0

    def name(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---------------------------------------------------------------- sources
    def values(self, types, rows=1):
        cols = [Col(self.name("x"), t) for t in types]
        return Query("SELECT " + ", ".join("CAST(NULL AS %s) AS %s" % (CASTS[c_], c.name) for c, c_ in zip(cols, types)), cols)

    def sub(self, q):
        return Rel("(%s)" % q.sql, [c.under(None) for c in q.cols])

    def alias(self, rel, columns=False):
        a = self.name("r")
        cols = [c.under(a) for c in rel.cols]
        sql = "%s AS %s" % (rel.wrapped(), a)
        if columns:
            cols = [c.under(a, self.name("c")) for c in rel.cols]
            sql += " (%s)" % ", ".join(c.name for c in cols)
        return Rel(sql, cols, rel.unknown)

    def table(self):
        return Rel(self.name("t"), [], True)

    # ---------------------------------------------------------------- references
    def refs(self, rel):
        """(text of a reference that is not ambiguous, column)"""
        out = []
        for c in rel.cols:
            if c.name is None:
                continue
            if sum(d.name == c.name for d in rel.cols) == 1:
                out.append((c.name, c))
            if c.source and sum(d.name == c.name and d.source == c.source for d in rel.cols) == 1:
                out.append(("%s.%s" % (c.source, c.name), c))
        return out

    # ---------------------------------------------------------------- queries
    def selects(self, rel):
        refs = self.refs(rel)
        frm = " FROM " + rel.sql
        if refs:
            yield Query("SELECT " + ", ".join(r for r, _ in refs) + frm, [c.under(None) for _, c in refs])
            yield Query("SELECT %s%s" % (refs[-1][0], frm), [refs[-1][1].under(None)])
            al = [(r, c, self.name("a")) for r, c in refs[::-1]]
            yield Query("SELECT DISTINCT " + ", ".join("%s AS %s" % (r, a) for r, c, a in al) + ", 1" + frm, [c.under(None, a) for r, c, a in al] + [Col(None, "INTEGER")])
        if not rel.unknown and rel.cols:
            star = [c.under(None) for c in rel.cols]
            yield Query("SELECT *" + frm, star, star=True)
            one = self.name("a")
            yield Query("SELECT *, BIGINT '1' AS %s%s" % (one, frm), star + [Col(one, "BIGINT")], star=True)
            yield Query("SELECT BIGINT '1' AS %s, *%s" % (one, frm), [Col(one, "BIGINT")] + star, star=True)
            if refs:
                yield Query("SELECT %s, *, NULL%s" % (refs[0][0], frm), [refs[0][1].under(None)] + star + [Col(None, U)], star=True)
        for s in sorted({c.source for c in rel.cols if c.source}):
            mine = [c for c in rel.cols if c.source == s]
            yield Query("SELECT %s.*%s" % (s, frm), [c.under(None) for c in mine], star=True)
            names = [self.name("p") for _ in mine]
            yield Query("SELECT %s.* AS (%s), 'abc'%s" % (s, ", ".join(names), frm), [c.under(None, n) for c, n in zip(mine, names)] + [Col(None, "VC3")], star=True)
            if refs:
                yield Query("SELECT %s.*, %s%s" % (s, refs[-1][0], frm), [c.under(None) for c in mine] + [refs[-1][1].under(None)], star=True)
        if rel.unknown:
            yield Query("SELECT nowhere, 2%s" % frm, [Col("nowhere", U), Col(None, "INTEGER")])

    def withs(self, q):
        w = self.name("w")
        if q.cols:
            cols = [c.under(w) for c in q.cols]
            for inner in self.selects(Rel(w, cols)):
                yield Query("WITH %s AS (%s) %s" % (w, q.sql, inner.sql), inner.cols, inner.star)
            yield Query("WITH %s AS (%s) TABLE %s" % (w, q.sql, w), cols)
            named = [c.under(w, self.name("c")) for c in q.cols]
            head = "WITH %s (%s) AS (%s)" % (w, ", ".join(c.name for c in named), q.sql)
            for inner in list(self.selects(Rel(w, named)))[:3]:
                yield Query("%s %s" % (head, inner.sql), inner.cols, inner.star)
            w2 = self.name("w")
            second = list(self.selects(Rel(w, named)))[-1]
            if second.cols:
                for inner in list(self.selects(Rel(w2, [c.under(w2) for c in second.cols])))[:4]:
                    yield Query("%s, %s AS (%s) %s" % (head, w2, second.sql, inner.sql), inner.cols, inner.star)

    def joins(self, a, b):
        both = lambda: a.cols + b.cols
        unk = a.unknown or b.unknown
        l, r = a.sql, b.wrapped()
        yield Rel("%s CROSS JOIN %s" % (l, r), both(), unk, False)
        for k in ("JOIN", "LEFT JOIN", "FULL JOIN"):
            yield Rel("%s %s %s ON TRUE" % (l, k, r), both(), unk, False)

    def shared(self, ta, tb, how):
        """Two relations which have columns of the same names, joined by these."""
        k, l = self.name("k"), self.name("l")
        only_a, only_b = self.name("x"), self.name("x")
        qa = "SELECT CAST(NULL AS %s) AS %s, CAST(NULL AS BOOLEAN) AS %s, CAST(NULL AS DATE) AS %s" % (CASTS[ta], k, only_a, l)
        qb = "SELECT CAST(NULL AS DEC_) AS %s, CAST(NULL AS DATE) AS %s, CAST(NULL AS %s) AS %s" % (only_b, l, CASTS[tb], k)
        qb = qb.replace("DEC_", CASTS["DEC"])
        a, b = self.name("r"), self.name("r")
        sql = "(%s) AS %s %s (%s) AS %s%s" % (qa, a, how, qb, b, " USING (%s, %s)" % (k, l) if "NATURAL" not in how else "")
        t = common(frozenset([ta]), frozenset([tb])) | {ta}
        return Rel(sql, None, primary=False), {k: t, l: frozenset(["DATE"]), only_a: frozenset(["BOOLEAN"]), only_b: frozenset(["DEC"])}

    def unnests(self, rel):
        for ref, c in self.refs(rel):
            (t,) = c.types if len(c.types) == 1 else (None,)
            if t not in ELEMENTS:
                continue
            for ordinality in (False, True):
                els = [Col(None, e) for e in ELEMENTS[t]] + ([Col(None, "BIGINT")] if ordinality else [])
                sql = "UNNEST(%s)%s" % (ref, " WITH ORDINALITY" if ordinality else "")
                u = self.name("u")
                named = [e.under(u, self.name("e")) for e in els]
                yield Rel("%s CROSS JOIN %s" % (rel.sql, sql), rel.cols + els, rel.unknown, False)
                yield Rel("%s CROSS JOIN %s AS %s (%s)" % (rel.sql, sql, u, ", ".join(n.name for n in named)), rel.cols + named, rel.unknown, False)
                yield Rel("%s CROSS JOIN LATERAL (SELECT * FROM %s AS %s (%s))" % (rel.sql, sql, u, ", ".join(n.name for n in named)), rel.cols + [n.under(None) for n in named], rel.unknown, False)

    def sets(self, a, b):
        if a.cols is None or b.cols is None or len(a.cols) != len(b.cols):
            return
        cols = []
        for x, y in zip(a.cols, b.cols):
            t = common(x.types, y.types)
            if t is None:
                return
            cols.append(Col(x.name, t))
        for op in ("UNION", "UNION ALL", "INTERSECT", "EXCEPT"):
            yield Query("%s %s %s" % (a.sql, op, b.sql), cols, a.star or b.star)


def cases():
    """(kind, Query)"""
    T = Texts()
    groups = [["BIGINT", "VC7"], ["DEC"], ["ABIG", "DATE"], ["MAP", "TSZ", "BOOLEAN"], ["AROW"], ["AAB", "AVC"]]
    out = []

    def emit(kind, qs):
        for q in qs:
            if q.cols:
                out.append((kind, q))

    emit("select without FROM", [T.values(g) for g in groups])
    rels = []
    for g in groups:
        q = T.values(g)
        rels += [("subquery", T.sub(q)), ("aliased subquery", T.alias(T.sub(T.values(g)))), ("subquery with aliased columns", T.alias(T.sub(T.values(g)), True)), ("sample", Rel(T.alias(T.sub(T.values(g))).sql, None))]
    rels = [(k, r) for k, r in rels if r.cols is not None]
    r = T.alias(T.sub(T.values(groups[0])))
    rels.append(("sample", Rel(r.sql + " TABLESAMPLE BERNOULLI (10)", r.cols)))
    rels.append(("unknown table", T.table()))
    rels.append(("aliased unknown table", T.alias(T.table())))
    for k, r in rels:
        emit("select from " + k, T.selects(r))
    # values
    for rows, types in (
        (["1"], ["INTEGER"]), (["1", "BIGINT '2'"], ["BIGINT"]), (["(1, 'abc')", "(BIGINT '2', 'abcdefg')"], ["BIGINT", "VC7"]), (["(NULL, 'abc')", "(TRUE, NULL)"], ["BOOLEAN", "VC3"]),
        (["(DATE '2020-01-02', REAL '1')", "(TIMESTAMP '2020-01-02 01:02:03.123', DOUBLE '2')", "(NULL, NULL)"], ["TS3", "DOUBLE"]), (["NULL", "'abc'"], ["VC3"]),
    ):
        cols = [Col(None, t) for t in types]
        q = Query("VALUES " + ", ".join(rows), cols)
        emit("values", [q])
        emit("select from values", T.selects(T.alias(Rel("(%s)" % q.sql, cols), True)))
        emit("with values", list(T.withs(q))[-8:])
        emit("select from values", T.selects(Rel("(%s)" % q.sql, cols)))
    # named queries
    for g in groups:
        emit("named query", T.withs(T.values(g)))
    # joins
    plain = [r for _, r in rels]
    for i, a in enumerate(plain):
        for b in (plain[(i * 5 + 3) % len(plain)], plain[(i * 7 + 4) % len(plain)]):
            if a is b or {c.source for c in a.cols if c.source} & {c.source for c in b.cols}:
                continue
            for j in T.joins(a, b):
                emit("select from join", T.selects(j))
    c = T.alias(T.sub(T.values(["DATE"])))
    of = lambda *ts: T.alias(T.sub(T.values(list(ts))))
    two = list(T.joins(of("BIGINT"), of("VC7")))[1]
    three = list(T.joins(two, c))
    for j in three:
        emit("select from join of a join", T.selects(j))
    right = list(T.joins(of("BIGINT"), list(T.joins(of("VC7"), c))[0]))
    for j in right:
        emit("select from join with a join", T.selects(j))
    for how in ("JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "NATURAL JOIN", "NATURAL LEFT JOIN"):
        for ta, tb in (("BIGINT", "BIGINT"), ("VC7", "VC3")):
            rel, cols = T.shared(ta, tb, how)
            names = list(cols)
            emit("select from join on the same names", [Query("SELECT %s FROM %s" % (", ".join(names), rel.sql), [Col(n, cols[n]) for n in names])])
            emit("select from join on the same names", [Query("SELECT %s FROM %s" % (n, rel.sql), [Col(n, cols[n])]) for n in names])
            q = Query("SELECT * FROM " + rel.sql, None)
            a = T.name("r")
            emit("star of join on the same names", [Query("SELECT %s FROM (%s) AS %s" % (", ".join(names), q.sql, a), [Col(n, cols[n]) for n in names])])
    # unnest and lateral
    for k, r in rels:
        for u in T.unnests(r):
            emit("select from unnest", T.selects(u))
    for arr, els in (("ARRAY[1, BIGINT '2']", ["BIGINT"]), ("ARRAY[ROW(1, 'abc')]", ["INTEGER", "VC3"]), ("ARRAY[NULL, TRUE]", ["BOOLEAN"]), ("MAP_AGG(1, 'abc')", ["INTEGER", "VC3"]), ("ARRAY[1], ARRAY['abc']", ["INTEGER", "VC3"])):
        for o in ("", " WITH ORDINALITY"):
            cols = [Col(None, e) for e in els] + ([Col(None, "BIGINT")] if o else [])
            base = Rel("UNNEST(%s)%s" % (arr, o), cols)
            emit("select from unnest of values", T.selects(base))
            emit("select from unnest of values", T.selects(T.alias(base, True)))
    r = T.alias(T.sub(T.values(["BIGINT", "VC7"])))
    lat = T.values(["DEC", "DATE"])
    emit("select from lateral", T.selects(Rel("%s CROSS JOIN LATERAL (%s)" % (r.sql, lat.sql), r.cols + lat.cols, primary=False)))
    # set operations
    pairs = [("BIGINT", "INTEGER"), ("INTEGER", "BIGINT"), ("VC3", "VC7"), ("VC7", "VC3"), ("REAL", "DOUBLE"), ("DATE", "TS3"), ("TS3", "DATE"), ("ABIG", "ABIG"), ("MAP", "MAP"), ("INTEGER", "REAL"), ("BIGINT", "DOUBLE")]
    unions = []
    for i, (x, y) in enumerate(pairs):
        z, w = pairs[(i + 3) % len(pairs)]
        for a, b in (([x], [y]), ([x, z], [y, w]), ([x, z, "DATE"], [y, w, "DATE"])):
            for q in T.sets(T.values(a), T.values(b)):
                unions.append(q)
    null = lambda n: Query("SELECT " + ", ".join(["NULL AS " + T.name("x")] * n), [Col("x%d" % T.n, U)])
    for t in ("BIGINT", "VC7", "ABIG"):
        v = T.values([t])
        unions += list(T.sets(null(1), v)) + list(T.sets(v, null(1)))
    emit("set operation", unions)
    for q in unions[::3]:
        emit("select from set operation", T.selects(T.alias(T.sub(q))))
        emit("named set operation", list(T.withs(q))[:6])
    for i in range(0, len(unions) - 40, 5):
        a, b = unions[i], unions[i + 4]
        emit("chain of set operations", list(T.sets(a, T.values([sorted(c.types)[0] for c in a.cols]))) if all(len(c.types) == 1 for c in a.cols) else [])
    starred = list(T.selects(T.alias(T.sub(T.values(["INTEGER", "VC3"])))))
    for s in starred:
        if s.cols and len(s.cols) == 2:
            emit("set operation with stars", T.sets(s, T.values(["BIGINT", "VC7"])))
            emit("set operation with stars", T.sets(T.values(["BIGINT", "VC7"]), s))
    # nested once more
    deep = []
    for k, q in list(out)[::2]:
        names = [c.name for c in q.cols]
        for rel in (T.alias(T.sub(q)), T.alias(T.sub(q), True)):
            s = list(T.selects(rel))
            if s:
                i = len(deep)
                deep.append(("nested: " + k, s[i % len(s)]))
                deep.append(("nested: " + k, s[(i + 3) % len(s)]))
    out += [(k, q) for k, q in deep if q.cols]
    return out


def run(rep, thorough):
    W = World()
    I = W.I
    mod = I.import_module("treeno.relation").ns
    for n in ("Schema", "SchemaField"):
        if n not in mod:
            raise Broken("treeno.relation has no " + n)

    def types():
        out = {}
        for k, sql in list(CASTS.items()) + [("ADBL", "ARRAY(DOUBLE)")]:
            out[k] = text(W.convert(W.lex(sql), "standaloneType"))
        out[U] = text(I.call(I.import_module("treeno.datatypes.builder").ns["unknown"], ()))
        return out

    names = [r for r, _ in W.explore(types, limit=2, max_runs=4)][0]
    if isinstance(names, (AbsRaise, Unsupported)):
        raise Broken("types can't be converted: %s" % names)

    def judge(item):
        kind, q = item
        out = []
        done = [False]

        def go():
            del out[:]
            node = W.convert(W.lex(q.sql), "query")
            schema = I.call(mod["Schema"], (), {"fields": [], "relation_ids": set()})
            try:
                got = I.invoke(node, "resolve", schema)
            except AbsRaise as e:
                out.append((kind + ": resolution fails", "resolving %s fails: %s" % (q.sql, e.text())))
                return
            done[0] = True
            have = [(f.attrs["name"], text(f.attrs["data_type"])) for f in got.attrs["fields"]]
            want = [(c.name, {names[t] for t in c.types}) for c in q.cols]
            if len(have) != len(want):
                out.append((kind + ": number of columns", "%s exports %d columns (%s) instead of %d" % (q.sql, len(have), ", ".join("%s %s" % h for h in have), len(want))))
                return
            for i, ((n, t), (wn, wt)) in enumerate(zip(have, want)):
                if n != wn:
                    out.append((kind + ": names", "%s exports column %d as %s instead of %s" % (q.sql, i + 1, n, wn)))
                if t not in wt:
                    out.append((kind + ": types", "%s exports column %d (%s) with the type %s instead of %s" % (q.sql, i + 1, n, t, " or ".join(sorted(wt)))))
            whole = I.get_attr(node, "data_type")
            if any(names[U] in wt for _, wt in want) and text(whole) == names[U]:
                return
            if len(want) == 1 and text(whole) in want[0][1]:
                return
            if whole.attrs.get("type_name") == "ROW":
                parts = [text(t) for t in whole.attrs["parameters"]["dtypes"]]
                if (len(want) > 1 or q.star) and len(parts) == len(want) and all(p in wt for p, (_, wt) in zip(parts, want)):
                    return
            out.append((kind + ": type of the query", "%s has the type %s" % (q.sql, text(whole))))

        try:
            for r, _ in W.explore(go, limit=2, max_runs=8):
                if isinstance(r, Unsupported):
                    return kind, "undecided: %s" % str(r)[:90], []
                if isinstance(r, AbsRaise):
                    return kind, "refused: %s" % r.text()[:60], []
        except Unsupported as e:
            return kind, "undecided: %s" % str(e)[:90], []
        return kind, "judged", out

    kinds = set()
    todo = cases()
    if not thorough:
        by = {}
        for c in todo:
            by.setdefault(c[0], []).append(c)
        todo = [cs[i * len(cs) // 60] for cs in by.values() for i in range(60) if len(cs) > 60] + [c for cs in by.values() if len(cs) <= 60 for c in cs]
    for kind, st, out in pmap(judge, todo):
        if st.startswith("undecided"):
            rep.undecide("%s: %s" % (kind, st))
            continue
        rep.count(st.split(":")[0])
        if st == "judged":
            if kind not in kinds:
                rep.sample(kind)
            kinds.add(kind)
        else:
            rep.count(st)
        for k, m in out:
            rep.finding(k, m)
    rep.count("kinds", len(kinds))
    rep.floor("judged", 800)
    rep.floor("kinds", 25)
    return "abstract interpretation of the conversion and resolution of queries over relations of every kind, against the names and types SQL gives their columns"
