"""C29: calls and typed operations have the type SQL documents for them."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.nodes import attr_fields
from engine.world import World
from rules.c15 import text

U = "UNKNOWN"


class Kinds:
    """The operand types, by name."""

    def __init__(self, W):
        b = W.I.import_module("treeno.datatypes.builder").ns
        call = W.I.call
        self.T = {}
        mk = lambda n, **kw: call(b[n], (), {k: (v() if callable(v) else v) for k, v in kw.items()})

        def add(name, n, **kw):
            self.T[name] = lambda: mk(n, **kw)

        for n in ("boolean", "tinyint", "smallint", "integer", "bigint", "real", "double", "date", "json", "varbinary", "uuid", "unknown", "hll", "p4hll", "tdigest", "varchar", "ip"):
            add(n.upper(), n)
        for k in (1, 7, 12):
            add("VARCHAR(%d)" % k, "varchar", max_chars=k)
            add("CHAR(%d)" % k, "char", max_chars=k)
        for p, s in ((30, 4), (5, 0)):
            add("DECIMAL(%d,%d)" % (p, s), "decimal", precision=p, scale=s)
        for n in ("time", "timestamp"):
            for tz in (False, True):
                for p in (None, 0, 3, 9, 12):
                    kw = {"timezone": tz}
                    if p is not None:
                        kw["precision"] = p
                    add(n.upper() + ("" if p is None else "(%d)" % p) + ("Z" if tz else ""), n, **kw)
        add("DAYS", "interval", from_interval="DAY", to_interval="SECOND")
        add("MONTHS", "interval", from_interval="YEAR", to_interval="MONTH")
        add("QDIGEST", "qdigest", dtype=self.T["DOUBLE"])
        for k in ("BIGINT", "DOUBLE", "VARCHAR(7)", "UNKNOWN"):
            add("ARRAY<%s>" % k, "array", dtype=self.T[k])
        add("ARRAY<ARRAY<BIGINT>>", "array", dtype=self.T["ARRAY<BIGINT>"])
        add("MAP", "map_", from_dtype=self.T["BIGINT"], to_dtype=self.T["ARRAY<DOUBLE>"])
        self.T["ROW"] = lambda: call(b["row"], (), {"dtypes": [mk("bigint"), mk("varchar", max_chars=3)]})
        self.text = {k: text(f()) for k, f in self.T.items()}
        self.b, self.mk = b, mk

    def array(self, t):
        return "ARRAY{dtype=%s}" % t

    def map(self, k, v):
        return "MAP{from_dtype=%s,to_dtype=%s}" % (k, v)


INTS = ["TINYINT", "SMALLINT", "INTEGER", "BIGINT"]
FLOATS = ["REAL", "DOUBLE"]
ANY = ["BIGINT", "SMALLINT", "BOOLEAN", "DOUBLE", "VARCHAR", "VARCHAR(7)", "CHAR(7)", "DECIMAL(30,4)", "DATE", "TIME(3)", "TIMESTAMP(3)", "TIMESTAMP", "TIMESTAMP(9)Z", "DAYS", "MONTHS", "ARRAY<BIGINT>", "MAP", "ROW", "VARBINARY", "UUID", "JSON", U]
NUM = INTS + FLOATS + ["DECIMAL(30,4)", "DECIMAL(5,0)", U]
STR = ["VARCHAR", "VARCHAR(7)", "CHAR(7)", U]
TIMES = ["TIMESTAMP", "TIMESTAMP(0)", "TIMESTAMP(3)", "TIMESTAMP(12)", "TIMESTAMPZ", "TIMESTAMP(9)Z"]


def forms(K):
    """(pattern, the types of its operands, the acceptable results)."""
    out = []
    t = K.text

    def form(pattern, doms, result):
        n = pattern.count("%s")
        assert len(doms) == n, pattern
        combos = [[]]
        for d in doms:
            combos = [c + [x] for c in combos for x in d]
        if len(combos) > 160:  # every type of every operand, next to some of the others
            keep, m = [], max(len(d) for d in doms)
            for i in range(m):
                for sh in (0, 1, 5):
                    keep.append([d[(i + sh * j) % len(d)] for j, d in enumerate(doms)])
            combos = [list(x) for x in dict.fromkeys(tuple(c) for c in keep)]
        for c in combos:
            r = result(*c)
            if r is None:
                continue
            out.append((pattern, tuple(c), frozenset([r] if isinstance(r, str) else r)))

    def const(pattern, doms, *names):
        form(pattern, doms, lambda *a: [t[n] for n in names])

    first = lambda *a: t[a[0]]

    # ------------------------------------------------------------------------ aggregates
    form("SUM(%s)", [NUM + ["DAYS"]], lambda a: [t[a]] + ([t["BIGINT"]] if a in INTS else []))
    form("ARBITRARY(%s)", [ANY], first)
    form("ARRAY_AGG(%s)", [ANY], lambda a: K.array(t[a]))
    form("AVG(%s)", [NUM + ["DAYS", "MONTHS"]], lambda a: [t[a]] if a in ("DAYS", "MONTHS") else [t["DOUBLE"]] + ([t[a]] if a in ("REAL",) or a.startswith("DEC") else []))
    for f in ("BOOL_AND", "BOOL_OR", "EVERY"):
        const(f + "(%s)", [["BOOLEAN", U]], "BOOLEAN")
    const("CHECKSUM(%s)", [ANY], "VARBINARY")
    const("COUNT(%s)", [ANY], "BIGINT")
    const("COUNT(*)", [], "BIGINT")
    const("COUNT_IF(%s)", [["BOOLEAN", U]], "BIGINT")
    form("GEOMETRIC_MEAN(%s)", [NUM], lambda a: [t["DOUBLE"]] + ([t["REAL"]] if a == "REAL" else []))
    const("LISTAGG(%s, ',') WITHIN GROUP (ORDER BY %s)", [STR, ANY[:4]], "VARCHAR")
    for f in ("MAX", "MIN"):
        form(f + "(%s)", [ANY], first)
        form(f + "(%s, %s)", [ANY, INTS[-2:] + [U]], lambda a, n: K.array(t[a]))
        form(f + "_BY(%s, %s)", [ANY, ANY], first)
        form(f + "_BY(%s, %s, %s)", [ANY, ANY, INTS[-2:]], lambda a, b, n: K.array(t[a]))
    for f in ("BITWISE_AND_AGG", "BITWISE_OR_AGG"):
        const(f + "(%s)", [INTS + [U]], "BIGINT")
    form("HISTOGRAM(%s)", [ANY], lambda a: K.map(t[a], t["BIGINT"]))
    form("MAP_AGG(%s, %s)", [ANY, ANY], lambda a, b: K.map(t[a], t[b]))
    form("MULTIMAP_AGG(%s, %s)", [ANY, ANY], lambda a, b: K.map(t[a], K.array(t[b])))
    form("MAP_UNION(%s)", [["MAP", U]], first)
    const("APPROX_DISTINCT(%s)", [ANY], "BIGINT")
    const("APPROX_DISTINCT(%s, %s)", [ANY, ["DOUBLE", U]], "BIGINT")
    form("APPROX_MOST_FREQUENT(%s, %s, %s)", [["BIGINT"], ["BIGINT", "VARCHAR", "VARCHAR(7)", U], ["BIGINT"]], lambda n, a, c: K.map(t[a], t["BIGINT"]))
    P = ["DOUBLE", "DECIMAL(5,0)", "ARRAY<DOUBLE>", U]
    pct = lambda a, p: K.array(t[a]) if p.startswith("ARRAY") else t[U] if p == U else t[a]
    form("APPROX_PERCENTILE(%s, %s)", [["BIGINT", "REAL", "DOUBLE", U], P], pct)
    form("APPROX_PERCENTILE(%s, %s, %s)", [["BIGINT", "REAL", "DOUBLE", U], ["BIGINT", "DOUBLE", U], P], lambda a, w, p: pct(a, p))
    const("APPROX_SET(%s)", [["BIGINT", "VARCHAR", "DOUBLE", U]], "HLL")
    form("MERGE(%s)", [["HLL", "TDIGEST", "QDIGEST"]], first)
    form("MERGE(%s)", [["P4HLL"]], lambda a: [t["HLL"], t["P4HLL"]])
    form("NUMERIC_HISTOGRAM(%s, %s)", [["BIGINT"], ["DOUBLE", "BIGINT", U]], lambda n, a: K.map(t["DOUBLE"], t["DOUBLE"]))
    form("NUMERIC_HISTOGRAM(%s, %s, %s)", [["BIGINT"], ["DOUBLE", "BIGINT", U], ["DOUBLE", "BIGINT"]], lambda n, a, w: K.map(t["DOUBLE"], t["DOUBLE"]))
    Q = ["BIGINT", "REAL", "DOUBLE", U]
    qd = lambda a, *r: "QDIGEST{dtype=%s}" % t[a]
    form("QDIGEST_AGG(%s)", [Q], qd)
    form("QDIGEST_AGG(%s, %s)", [Q, ["BIGINT"]], qd)
    form("QDIGEST_AGG(%s, %s, %s)", [Q, ["BIGINT"], ["DOUBLE"]], qd)
    const("TDIGEST_AGG(%s)", [["DOUBLE", U]], "TDIGEST")
    const("TDIGEST_AGG(%s, %s)", [["DOUBLE", U], ["BIGINT"]], "TDIGEST")
    stat = lambda *a: [t["DOUBLE"]] + ([t["REAL"]] if all(x == "REAL" for x in a) else [])
    for f in ("CORR", "COVAR_POP", "COVAR_SAMP", "REGR_INTERCEPT", "REGR_SLOPE"):
        form(f + "(%s, %s)", [["DOUBLE", "REAL", "BIGINT", U]] * 2, stat)
    for f in ("SKEWNESS", "STDDEV", "STDDEV_POP", "STDDEV_SAMP", "VARIANCE", "VAR_POP", "VAR_SAMP"):
        form(f + "(%s)", [["DOUBLE", "REAL", "BIGINT", U]], stat)
    # ------------------------------------------------------------------------ conditional
    form("IF(%s, %s)", [["BOOLEAN", U], ANY], lambda c, a: t[a])
    same = lambda a, b: t[a] if a == b or b == U else t[b] if a == U else None
    form("IF(%s, %s, %s)", [["BOOLEAN"], ANY, ANY], lambda c, a, b: same(a, b))
    for x in ANY:
        for y in (x, U):
            for p, d in (("IF(%s, %s, %s)", (["BOOLEAN"], [x], [y])), ("COALESCE(%s, %s)", ([x], [y])), ("COALESCE(%s, %s, %s)", ([x], [x], [y]))):
                form(p, list(d), lambda *a: t[x])
                if p.startswith("COALESCE"):
                    form(p, list(d)[::-1], lambda *a: t[x])
            for p, d in (
                ("CASE WHEN %s THEN %s ELSE %s END", (["BOOLEAN"], [x], [y])), ("CASE WHEN %s THEN %s ELSE %s END", (["BOOLEAN"], [y], [x])),
                ("CASE WHEN %s THEN %s END", (["BOOLEAN"], [x])), ("CASE %s WHEN %s THEN %s WHEN %s THEN %s END", (["BIGINT"], ["BIGINT"], [x], ["BIGINT"], [y])),
                ("CASE %s WHEN %s THEN %s WHEN %s THEN %s END", (["BIGINT"], ["BIGINT"], [y], ["BIGINT"], [x])),
            ):
                form(p, list(d), lambda *a: t[x])
            form("ARRAY[%s, %s]", [[x], [y]], lambda *a: K.array(t[x]))
            form("ARRAY[%s, %s]", [[y], [x]], lambda *a: K.array(t[x]))
        form("ARRAY[%s]", [[x]], lambda *a: K.array(t[x]))
    form("COALESCE(%s, %s)", [["SMALLINT", "BIGINT"], ["BIGINT"]], lambda a, b: t["BIGINT"])
    form("IF(%s, %s, %s)", [["BOOLEAN"], ["BIGINT"], ["BIGINT", "INTEGER"]], lambda c, a, b: t["BIGINT"])
    form("NULLIF(%s, %s)", [ANY, ANY], lambda a, b: t[a] if a == b or b == U else None)
    form("TRY(%s)", [ANY], first)
    # ------------------------------------------------------------------------ strings
    S1 = lambda a: [t["VARCHAR"]] + ([t[a]] if a != U else [])
    for f in ("LOWER", "LTRIM", "RTRIM", "REVERSE"):
        form(f + "(%s)", [STR], S1)
    const("CHR(%s)", [["BIGINT", U]], "VARCHAR")
    form("SOUNDEX(%s)", [STR], lambda a: [t["VARCHAR"]])
    const("CODEPOINT(%s)", [["VARCHAR(1)", "VARCHAR", U]], "INTEGER")
    for f in ("HAMMING_DISTANCE", "LEVENSHTEIN_DISTANCE"):
        const(f + "(%s, %s)", [STR, STR], "BIGINT")
    const("LENGTH(%s)", [STR + ["VARBINARY"]], "BIGINT")
    for f in ("LPAD", "RPAD"):
        const(f + "(%s, %s, %s)", [["VARCHAR", "VARCHAR(7)", U], ["BIGINT"], ["VARCHAR", "VARCHAR(1)"]], "VARCHAR")
    const("LUHN_CHECK(%s)", [["VARCHAR", "VARCHAR(12)", U]], "BOOLEAN")
    form("REPLACE(%s, %s)", [["VARCHAR", "VARCHAR(7)", U], ["VARCHAR"]], lambda a, b: [t["VARCHAR"], t[a]] if a != U else t["VARCHAR"])
    const("REPLACE(%s, %s, %s)", [["VARCHAR", "VARCHAR(7)", U], ["VARCHAR", "VARCHAR(1)"], ["VARCHAR"]], "VARCHAR")
    const("NORMALIZE(%s)", [STR], "VARCHAR")
    const("NORMALIZE(%s, NFKC)", [STR], "VARCHAR")
    const("TO_UTF8(%s)", [["VARCHAR", "VARCHAR(7)", U]], "VARBINARY")
    const("FROM_UTF8(%s)", [["VARBINARY", U]], "VARCHAR")
    const("FROM_UTF8(%s, %s)", [["VARBINARY", U], ["VARCHAR", "BIGINT"]], "VARCHAR")
    for p in ("CONCAT(%s, %s)", "%s || %s"):
        form(p, [["VARCHAR", "VARCHAR(7)", "VARCHAR(1)"]] * 2, lambda a, b: [t["VARCHAR"]])
        form(p, [["CHAR(1)"], ["CHAR(1)", "VARCHAR(1)"]], lambda a, b: "CHAR{max_chars=2}")
        form(p, [["CHAR(7)", "VARCHAR(7)"], ["CHAR(12)"]], lambda a, b: "CHAR{max_chars=19}")
        const(p, [["VARBINARY"]] * 2, "VARBINARY")
        form(p, [["ARRAY<BIGINT>", "BIGINT"]] * 2, lambda a, b: t["ARRAY<BIGINT>"] if "ARRAY" in a + b else None)
        form(p, [["ARRAY<ARRAY<BIGINT>>", "ARRAY<BIGINT>"]] * 2, lambda a, b: t["ARRAY<ARRAY<BIGINT>>"] if "ARRAY<A" in a + b else t["ARRAY<BIGINT>"])
        form(p, [["VARCHAR", "ARRAY<BIGINT>", "VARBINARY", U], [U]], lambda a, b: [t[U]] + ([t[a]]))
    # ------------------------------------------------------------------------ dates and times
    const("CURRENT_DATE", [], "DATE")
    for p in (None, 0, 6, 9):
        s, n = ("", 3) if p is None else ("(%d)" % p, p)
        for f, b, tz in (("CURRENT_TIME", "time", True), ("CURRENT_TIMESTAMP", "timestamp", True), ("LOCALTIME", "time", False), ("LOCALTIMESTAMP", "timestamp", False)):
            out.append((f + s, (), frozenset([text(K.mk(b, precision=n, timezone=tz))])))
    const("NOW()", [], "TIMESTAMP(3)Z")
    const("DATE(%s)", [["VARCHAR", "TIMESTAMP(3)", U]], "DATE")
    const("LAST_DAY_OF_MONTH(%s)", [["DATE", "TIMESTAMP(3)", U]], "DATE")
    const("FROM_ISO8601_TIMESTAMP(%s)", [STR], "TIMESTAMP(3)Z")
    const("FROM_ISO8601_TIMESTAMP_NANOS(%s)", [STR], "TIMESTAMP(9)Z")
    const("FROM_ISO8601_DATE(%s)", [STR], "DATE")
    zoned = lambda a, z: t[a if a.endswith("Z") else a + "Z"]
    for f in ("AT_TIMEZONE", "WITH_TIMEZONE"):
        form(f + "(%s, %s)", [TIMES, ["VARCHAR", "VARCHAR(7)"]], zoned)
    for p, d in (("FROM_UNIXTIME(%s)", []), ("FROM_UNIXTIME(%s, %s)", [["VARCHAR", "VARCHAR(7)"]]), ("FROM_UNIXTIME(%s, %s, %s)", [["BIGINT"], ["BIGINT"]])):
        const(p, [["DOUBLE", "BIGINT", U]] + d, "TIMESTAMP(3)Z")
    const("FROM_UNIXTIME_NANOS(%s)", [["BIGINT", "DECIMAL(30,4)", U]], "TIMESTAMP(9)Z")
    const("TO_ISO8601(%s)", [["DATE"] + TIMES], "VARCHAR")
    const("TO_MILLISECONDS(%s)", [["DAYS", U]], "BIGINT")
    const("TO_UNIXTIME(%s)", [TIMES + [U]], "DOUBLE")
    D = ["DATE", "TIME(3)", "TIME(9)Z"] + TIMES + [U]
    form("DATE_TRUNC(%s, %s)", [["VARCHAR"], D], lambda u, a: t[a])
    form("DATE_ADD(%s, %s, %s)", [["VARCHAR"], ["BIGINT"], D], lambda u, n, a: t[a])
    form("DATE_DIFF(%s, %s, %s)", [["VARCHAR"], D, D], lambda u, a, b: t["BIGINT"])
    const("PARSE_DURATION(%s)", [STR], "DAYS")
    const("HUMAN_READABLE_SECONDS(%s)", [["DOUBLE", U]], "VARCHAR")
    const("POWER(%s, %s)", [NUM, NUM], "DOUBLE")
    for f in ("CURRENT_USER", "CURRENT_CATALOG", "CURRENT_SCHEMA", "CURRENT_PATH"):
        const(f, [], "VARCHAR")
    # ------------------------------------------------------------------------ arithmetic
    rank = {n: i for i, n in enumerate(INTS)}

    def wider(a, b):
        if a in rank and b in rank:
            return t[max(a, b, key=rank.get)]
        if a in FLOATS or b in FLOATS:
            fs = [x for x in (a, b) if x in FLOATS]
            return t["DOUBLE" if "DOUBLE" in fs else "REAL"]

    for op in ("+", "-", "*", "/", "MOD_"):
        form("%%s %s %%s" % op, [INTS + FLOATS] * 2, wider)
    for op in "+-":
        form("%%s %s %%s" % op, [["DAYS"], ["DAYS"]], lambda a, b: t["DAYS"])
        form("%%s %s %%s" % op, [["MONTHS"], ["MONTHS"]], lambda a, b: t["MONTHS"])
    form("%s - %s", [["DATE", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMP(12)"]] * 2, lambda a, b: t["DAYS"])
    form("%s - %s", [["TIME", "TIME(3)", "TIME(12)"]] * 2, lambda a, b: t["DAYS"])
    # ------------------------------------------------------------------------ casts and typed literals
    for f in ("CAST", "TRY_CAST"):
        for sql, k in (("BIGINT", "BIGINT"), ("varchar(7)", "VARCHAR(7)"), ("decimal(30,4)", "DECIMAL(30,4)"), ("TIMESTAMP(9) WITH TIME ZONE", "TIMESTAMP(9)Z"), ("time", "TIME"), ("ARRAY(BIGINT)", "ARRAY<BIGINT>"), ("INTERVAL YEAR TO MONTH", "MONTHS"), ("DOUBLE PRECISION", "DOUBLE")):
            const(f + "(%s AS " + sql + ")", [["BIGINT", "VARCHAR", "BOOLEAN", U]], k)
    for lit, n in (("12:34:56", 0), ("12:34", 0), ("12:34:56.7", 1), ("12:34:56.789", 3), ("12:34:56.123456789012", 12)):
        out.append(("TIME '%s'" % lit, (), frozenset([text(K.mk("time", precision=n, timezone=False))])))
        out.append(("TIMESTAMP '2020-01-02 %s'" % lit, (), frozenset([text(K.mk("timestamp", precision=n, timezone=False))])))
        for zone in ("+01:00", " -08:00", " UTC", " America/Los_Angeles", " Etc/GMT+5"):
            out.append(("TIME '%s%s'" % (lit, zone), (), frozenset([text(K.mk("time", precision=n, timezone=True))])))
            out.append(("TIMESTAMP '2020-01-02 %s%s'" % (lit, zone), (), frozenset([text(K.mk("timestamp", precision=n, timezone=True))])))
    out.append(("TIMESTAMP '2020-01-02'", (), frozenset([text(K.mk("timestamp", precision=0, timezone=False))])))
    for lit, p, s in (("1.25", 3, 2), ("-1.25", 3, 2), ("123", 3, 0), ("10.0", 3, 1), ("99999999999999999999999999999999999.999", 38, 3)):
        out.append(("DECIMAL '%s'" % lit, (), frozenset([text(K.mk("decimal", precision=p, scale=s))])))
    for lit, n in (("a", 1), ("abc", 3), ("it''s", 4), ("  ", 2)):
        out.append(("CHAR '%s'" % lit, (), frozenset([text(K.mk("char", max_chars=n))])))
    for k in ("DATE", "DOUBLE", "REAL", "BIGINT", "INTEGER", "SMALLINT", "TINYINT", "JSON", "UUID", "BOOLEAN", "VARBINARY"):
        out.append((k.lower() + " '1'", (), frozenset([t[k]])))
    out.append(("DOUBLE PRECISION '1'", (), frozenset([t["DOUBLE"]])))
    out.append(("IPADDRESS '::1'", (), frozenset([t["IP"]])))
    for a, bs in (("YEAR", ("YEAR", "MONTH")), ("MONTH", ()), ("DAY", ("HOUR", "MINUTE", "SECOND")), ("HOUR", ("MINUTE", "SECOND")), ("MINUTE", ("SECOND",)), ("SECOND", ())):
        want = t["MONTHS" if a in ("YEAR", "MONTH") else "DAYS"]
        out.append(("INTERVAL '1' " + a, (), frozenset([want])))
        out.append(("INTERVAL - '1' " + a, (), frozenset([want])))
        for b in bs:
            if b != a:
                out.append(("INTERVAL '1' %s TO %s" % (a, b), (), frozenset([want])))
    for lit, k in (("1", "INTEGER"), ("2147483647", "INTEGER"), ("2147483648", "BIGINT"), ("9223372036854775807", "BIGINT"), ("1E0", "DOUBLE"), ("TRUE", "BOOLEAN"), ("NULL", U), ("'abcdefg'", "VARCHAR(7)"), ("''", None), ("U&'abcdefg'", "VARCHAR(7)")):
        if k:
            out.append((lit, (), frozenset([t[k]])))
    return out


def run(rep, thorough):
    W = World()
    I = W.I
    K = Kinds(W)
    fs = forms(K)

    def leaf_typed(kind, key):
        return W.hole("value", key, data_type=K.T[kind]())

    def rebuild(node, leaf):
        if isinstance(node, list):
            return [rebuild(x, leaf) for x in node]
        if isinstance(node, tuple):
            return tuple(rebuild(x, leaf) for x in node)
        if isinstance(node, dict):
            return {k: rebuild(v, leaf) for k, v in node.items()}
        if not isinstance(node, Obj) or node.cls.is_enum or not node.cls.is_sub(W.sql_base):
            return node
        if node.cls.name == "DataType":
            return node
        if node.cls.name == "Field" and isinstance(node.attrs.get("name"), str) and node.attrs["name"].startswith("qx"):
            return leaf(node.attrs["name"])
        kw = {}
        for f in attr_fields(node.cls) or ():
            if not f.init or f.name.startswith("_"):
                continue
            if f.name == "data_type" and node.cls.name not in ("Literal", "Cast", "TryCast"):
                continue
            kw[f.name] = rebuild(node.attrs.get(f.name), leaf)
        if node.cls.name == "ApproxPercentile" and kw.get("weight") is not None:
            # the constructor takes them in the order of the call
            v, w, p = kw.pop("value"), kw.pop("weight"), kw.pop("percentage")
            return I.call(node.cls, (v, w, p), kw)
        return I.call(node.cls, (), kw)

    def judge(item):
        pattern, types, want = item
        sql = (pattern % tuple("qx%d" % i for i in range(len(types))) if types else pattern).replace("MOD_", "%")
        label = pattern.replace("%s", "_").replace("MOD_", "%")
        over = " over operands of type %s" % ", ".join(types) if types else ""

        def go():
            node = W.convert(W.lex(sql), "standaloneExpression")
            if types:
                node = rebuild(node, lambda k: leaf_typed(types[int(k[2:])], k))
            return text(I.get_attr(node, "data_type"))

        out = []
        try:
            for r, _ in W.explore(go, limit=2, max_runs=24):
                if isinstance(r, Unsupported):
                    return label, "undecided: %s" % str(r)[:90], []
                if isinstance(r, AbsRaise):
                    if not r.accidental and ("not supported" in r.text() or "NotImplemented" in r.text()):
                        return label, "refused", []
                    out.append(("%s fails" % label, "%s%s can't be built: %s" % (label, over, r.text())))
                elif r not in want:
                    out.append(("%s has another type" % label, "%s%s has the type %s instead of %s" % (label, over, r, " or ".join(sorted(want)))))
        except Unsupported as e:
            return label, "undecided: %s" % str(e)[:90], []
        return label, "judged", out

    seen = set()
    for label, st, out in pmap(judge, fs):
        if st.startswith("undecided"):
            rep.undecide("%s: %s" % (label, st))
            continue
        rep.count(st)
        if st == "judged":
            seen.add(label)
            rep.sample(label)
        for key, m in out:
            rep.finding(key, m)
    rep.count("forms", len(seen))
    rep.floor("judged", 1500)
    rep.floor("forms", 150)
    return "abstract interpretation of the construction of every function, operation and typed literal over operands of the documented types, against the documented result types"
