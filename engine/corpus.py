"""The families of sentences the conversion rules are decided on."""
from .absval import AStr, Part, mk
from .g4 import TemplateParser, Tok
from .sentences import Fresh, Sentences

TYPE_NAMES = (
    "BOOLEAN TINYINT SMALLINT INTEGER INT BIGINT REAL DOUBLE DECIMAL DEC NUMERIC VARCHAR CHAR VARBINARY JSON DATE TIME TIMESTAMP ARRAY MAP "
    "ROW INTERVAL UNKNOWN IPADDRESS UUID HYPERLOGLOG P4HYPERLOGLOG QDIGEST TDIGEST GEOMETRY"
).split()


def template(text, fresh=None):
    """`{id}` an identifier, `{q}` a quoted identifier, `{s}` a string, `{n}` an integer, `{d}` a decimal, `{e}` a double."""
    f = fresh or Fresh()
    out = []
    i = 0
    while i < len(text):
        j = text.find("{", i)
        if j < 0:
            out.append(text[i:])
            break
        out.append(text[i:j])
        k = text.index("}", j)
        w = text[j + 1 : k]
        if w == "id":
            out.append(Part("S", f("id"), cls="ident"))
        elif w == "q":
            out += ['"', Part("S", f("q"), cls="ident"), '"']
        elif w == "s":
            out += ["'", Part("S", f("s"), cls="ident"), "'"]
        elif w == "Q":
            out += ['"', Part("S", f("q"), (("replace", '"', '""'),), cls="other"), '"']
        elif w == "S":
            out += ["'", Part("S", f("s"), (("replace", "'", "''"),), cls="string"), "'"]
        elif w in ("n", "d", "e"):
            out.append(Part("N", ({"n": "INTEGER_VALUE", "d": "DECIMAL_VALUE", "e": "DOUBLE_VALUE"}[w], f("n"))))
        else:
            raise KeyError(w)
        i = k + 1
    return mk(out)


QUOTING = ("STRING", "QUOTED_IDENTIFIER", "BACKQUOTED_IDENTIFIER")


class Corpus:
    def __init__(self, world):
        self.w = world
        self.s = Sentences(world.g)

    def from_text(self, key, text, root):
        def make():
            toks = self.w.lex(template(text))
            tree = TemplateParser(self.w.g, toks).parse(root)
            return None if tree is None else (root, tree, toks)

        return key, make

    def grammar1(self):
        for k, a, m in self.s.level1():
            yield k, (lambda m=m: self.s.sentence(m))

    def free(self):
        """The sentences which quote something, with any characters at all between the quotes."""

        def make(m):
            self.s.plain = False
            try:
                s = self.s.sentence(m)
            finally:
                self.s.plain = True
            return s if s and any(t.type in QUOTING for t in s[2]) and not any(t.type == "INTERVAL" for t in s[2]) else None  # an interval's string has a form of its own

        for k, a, m in self.s.level1():
            yield k + " quoting anything", (lambda m=m: make(m))

    def grammar2(self, skip=(), parens=True):
        for k, a, m in self.s.level2(parens, frozenset(skip)):
            yield k, (lambda m=m: self.s.sentence(m))

    MODS = [
        ("", ""),
        ("DISTINCT ", ""),
        ("ALL ", ""),
        ("", " ORDER BY {id}"),
        ("DISTINCT ", " ORDER BY {id} DESC NULLS FIRST, {id}"),
    ]
    TAILS = [
        "",
        " FILTER (WHERE {id})",
        " OVER ()",
        " OVER {id}",
        " OVER (PARTITION BY {id}, {id} ORDER BY {id} ROWS BETWEEN {n} PRECEDING AND UNBOUNDED FOLLOWING)",
        " IGNORE NULLS OVER ({id})",
        " RESPECT NULLS OVER ({id} ORDER BY {id})",
        " FILTER (WHERE {id}) OVER (RANGE {id} PRECEDING)",
        " FILTER (WHERE {id}) IGNORE NULLS OVER ({id})",
    ]

    def functions(self, names=None):
        reg = self.w.registry or {}
        for name in sorted(str(n) for n in (names if names is not None else reg)):
            for n in range(0, 7):
                args = ", ".join(["{id}"] * n)
                yield self.from_text("function %s/%d" % (name, n), "%s(%s)" % (name, args), "standaloneExpression")
            for n in (1, 2, 3):
                args = ", ".join(["{id}"] * n)
                for a, b in self.MODS:
                    for t in self.TAILS:
                        if (a, b, t) == ("", "", ""):
                            continue
                        yield self.from_text("function %s/%d %s|%s|%s" % (name, n, a, b, t), "%s(%s%s%s)%s" % (name, a, args, b, t), "standaloneExpression")
            for st in ("*", "{id}.*"):
                yield self.from_text("function %s(%s)" % (name, st), "%s(%s)" % (name, st), "standaloneExpression")
                yield self.from_text("function %s(%s) over" % (name, st), "%s(%s) FILTER (WHERE {id}) OVER (PARTITION BY {id})" % (name, st), "standaloneExpression")
        yield self.from_text("function with a qualified name", "{id}.{id}({id})", "standaloneExpression")
        yield self.from_text("function of a quoted name", "{q}({id})", "standaloneExpression")

    def types(self):
        for name in TYPE_NAMES + ["{id}"]:
            for ps in ("", "({n})", "({n},{n})", "({n},{n},{n})", "(BIGINT)", "(BIGINT,VARCHAR({n}))", "(BIGINT,DATE,TIME)", "({n},BIGINT)", "(0)", "(0,0)"):
                yield self.from_text("type %s%s" % (name, ps), name + ps, "standaloneType")
        for t in (
            "ROW({id} BIGINT, {id} VARCHAR({n}))",
            "ROW(BIGINT, DOUBLE)",
            "ROW({id} BIGINT)",
            "ROW(BIGINT)",
            "ROW({q} ROW({id} DATE, {id} TIME))",
            "ARRAY(ARRAY(BIGINT))",
            "ARRAY<BIGINT>",
            "MAP<BIGINT, ARRAY<VARCHAR>>",
            "BIGINT ARRAY",
            "BIGINT ARRAY[{n}]",
            "MAP(VARCHAR({n}), DECIMAL({n},{n}))",
            "DOUBLE PRECISION",
            "TIMESTAMP({n}) WITH TIME ZONE",
            "TIMESTAMP WITH TIME ZONE",
            "TIMESTAMP WITHOUT TIME ZONE",
            "TIMESTAMP({n}) WITHOUT TIME ZONE",
            "TIME({n}) WITH TIME ZONE",
            "TIME WITH TIME ZONE",
            "TIMESTAMP({id})",
            "INTERVAL YEAR TO MONTH",
            "INTERVAL DAY TO SECOND",
            "INTERVAL DAY",
            "ARRAY(TIMESTAMP(0) WITH TIME ZONE)",
            "ROW({id} TIMESTAMP(0), {id} DECIMAL({n},0))",
        ):
            yield self.from_text("type " + t, t, "standaloneType")
            yield self.from_text("cast to " + t, "CAST({id} AS %s)" % t, "standaloneExpression")
            yield self.from_text("try_cast to " + t, "TRY_CAST({id} AS %s)" % t, "standaloneExpression")

    def constructors(self):
        for name in TYPE_NAMES + ["DOUBLE PRECISION", "{id}", "{q}"]:
            yield self.from_text("constructor " + name, name + " {s}", "standaloneExpression")
        for t in (
            "TIMESTAMP '2020-01-01 00:00:00'",
            "TIMESTAMP '2020-01-01 00:00:00.123'",
            "TIMESTAMP '2020-01-01 00:00:00 UTC'",
            "TIMESTAMP '2020-01-01 00:00:00.12 +01:00'",
            "TIMESTAMP '2020-01-01'",
            "TIME '01:02:03'",
            "TIME '01:02:03.1234'",
            "TIME '01:02:03 +01:00'",
            "DATE '2020-01-01'",
            "DECIMAL '1.5'",
            "DECIMAL '-001.500'",
            "U&'d\\0061t\\+000061'",
            "U&'a\\\\b'",
            "U&'d!0061t!+01F600!!' UESCAPE '!'",
            "U&''",
            "U&'U&'",
            "U&'it''s \\4E2D'",
            "U&'\u4e2d caf\u00e9'",
            "'caf\u00e9 \u4e2d'",
            "'it''s'",
            "''''",
            "''''''",
            "'a''b''c'",
            "'\\n'",
            "'--'",
            "CHAR 'abc'",
            "VARCHAR ''",
            "BIGINT '12'",
            "DOUBLE '1e3'",
            "REAL '1.5'",
            "BOOLEAN 'true'",
            "JSON '{\"a\": 1}'".replace("{", "{").replace("}", "}"),
        ):
            yield (lambda t=t: (t, lambda: self.fixed(t, "standaloneExpression")))()
        for sign in ("", "+ ", "- "):
            for v in ("{s}", "'1'", "'-1'", "'1-2'", "'+1'"):
                for f in ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND", "YEAR TO MONTH", "DAY TO SECOND"):
                    yield self.from_text("interval %s%s %s" % (sign, v, f), "INTERVAL %s%s %s" % (sign, v, f), "standaloneExpression")

    def fixed(self, text, root):
        toks = self.w.lex(text)
        tree = TemplateParser(self.w.g, toks).parse(root)
        return None if tree is None else (root, tree, toks)

    # shapes the systematic layers do not reach
    QUERIES = [
        "SELECT {id} FROM {id}, {id}, {id}",
        "SELECT {id} FROM {id} AS {id}, LATERAL (SELECT {id}) AS {id} ({id}, {id})",
        "SELECT * FROM {id} CROSS JOIN UNNEST({id}, {id}) WITH ORDINALITY AS {id} ({id}, {id}, {id})",
        "SELECT {id} FROM ({id} CROSS JOIN {id}) CROSS JOIN ({id} CROSS JOIN {id})",
        "SELECT {id} FROM {id} JOIN ({id} JOIN {id} ON {id}) ON {id}",
        "SELECT {id} FROM {id} JOIN {id} JOIN {id} ON {id} ON {id}",
        "SELECT {id} FROM {id} NATURAL JOIN ({id} NATURAL LEFT JOIN {id})",
        "SELECT {id} FROM ({id} JOIN {id} USING ({id}, {id})) AS {id}",
        "SELECT {id} FROM ({id} AS {id} JOIN {id} USING ({id})) TABLESAMPLE BERNOULLI ({n})",
        "SELECT {id} FROM {id} FULL OUTER JOIN {id} ON {id} = {id} RIGHT OUTER JOIN {id} USING ({id})",
        "SELECT {id} FROM {id}.{id} JOIN {id}.{id}.{id} AS {id} ON {id}.{id} = {id}.{id}",
        "SELECT DISTINCT {id}, {id}.*, * FROM {id} WHERE {id} GROUP BY DISTINCT {id}, ROLLUP ({id}, {id}), CUBE ({id}), GROUPING SETS (({id}, {id}), {id}, ()) HAVING {id}",
        "SELECT {id} FROM {id} GROUP BY ()",
        "SELECT {id} FROM {id} GROUP BY ({id}, {id}), {id}",
        "SELECT {id} FROM {id} GROUP BY ROLLUP ()",
        "SELECT {id} FROM {id} WINDOW {id} AS (PARTITION BY {id}), {id} AS ({id} ORDER BY {id})",
        "SELECT {id} UNION SELECT {id} UNION ALL SELECT {id}",
        "SELECT {id} UNION (SELECT {id} UNION ALL SELECT {id})",
        "SELECT {id} UNION SELECT {id} INTERSECT SELECT {id}",
        "(SELECT {id} UNION SELECT {id}) INTERSECT SELECT {id}",
        "SELECT {id} EXCEPT DISTINCT (SELECT {id} EXCEPT ALL SELECT {id})",
        "(SELECT {id} LIMIT {n}) UNION (SELECT {id} ORDER BY {id})",
        "SELECT {id} UNION SELECT {id} ORDER BY {id} OFFSET {n} ROWS LIMIT {n}",
        "WITH {id} AS (SELECT {id}) SELECT {id} UNION SELECT {id}",
        "WITH {id} ({id}, {id}) AS (SELECT {id}), {id} AS (WITH {id} AS (SELECT {id}) SELECT {id}) SELECT {id} ORDER BY {id} OFFSET {n} LIMIT {n}",
        "WITH {id} AS (SELECT {id}) TABLE {id}",
        "WITH {id} AS (SELECT {id}) VALUES {id}",
        "WITH {id} AS (SELECT {id}) (SELECT {id} LIMIT {n})",
        "WITH RECURSIVE {id} AS (SELECT {id}) SELECT {id}",
        "TABLE {id} ORDER BY {id} LIMIT {n}",
        "TABLE {id}.{id}.{id}",
        "VALUES ({id}, {id}), ({id}, {id}) ORDER BY {id} LIMIT {n}",
        "VALUES {id}, {id} UNION VALUES {id}",
        "SELECT {id} LIMIT 0",
        "SELECT {id} OFFSET 0 LIMIT 0",
        "SELECT {id} OFFSET {n} ROW FETCH FIRST {n} ROWS ONLY",
        "SELECT {id} FETCH NEXT ROW ONLY",
        "SELECT {id} ORDER BY {id} FETCH FIRST {n} ROWS WITH TIES",
        "SELECT {id} LIMIT ALL",
        "SELECT {id} OFFSET ?",
        "SELECT {id} LIMIT ?",
        "(SELECT {id} LIMIT {n}) LIMIT {n}",
        "(SELECT {id} LIMIT {n}) ORDER BY {id}",
        "((SELECT {id}))",
        "SELECT (SELECT {id} LIMIT {n}) FROM (SELECT {id} ORDER BY {id} LIMIT {n}) AS {id}",
        "SELECT {id} WHERE {id} IN (SELECT {id} UNION SELECT {id})",
        "SELECT {id} FROM (TABLE {id}) AS {id}, (VALUES {id}) AS {id}",
        "SELECT {id} FROM (WITH {id} AS (SELECT {id}) SELECT {id}) AS {id}",
        "SELECT {id}.{id} AS {id}, {id}.{id}.{id} {q}, {id} + {n}",
        "SELECT {id}.{id}.{id}.{id}",
        "SELECT {id} FROM {id} TABLESAMPLE SYSTEM ({n} + {d})",
        "SELECT {id} FROM {id} FOR VERSION AS OF {n}",
        "SELECT {id}.* AS ({id}, {id}) FROM {id}",
        "SELECT ({id}).* FROM {id}",
        "SELECT {id}({id}).{id}",
    ]
    EXPRESSIONS = [
        "{id} AND {id} AND {id}",
        "{id} OR {id} OR {id} AND {id}",
        "({id} OR {id}) AND NOT {id}",
        "NOT ({id} AND {id})",
        "NOT NOT {id}",
        "{id} - {id} - {id}",
        "{id} - ({id} - {id})",
        "{id} / {id} * {id} % {id}",
        "{id} * ({id} + {id})",
        "- {id} * + {id}",
        "- (- {id})",
        "- ({id} + {id})",
        "- {n}",
        "- - {n}",
        "{id} - - {n}",
        "{id} || {id} || {id}",
        "{id} || ({id} || {id})",
        "{id} || {id} + {id}",
        "({id} || {id}) + {id}",
        "({id} = {id}) = {id}",
        "{id} = ({id} = {id})",
        "({id} < {id}) IS NULL",
        "({id} IS NULL) = {id}",
        "({id} BETWEEN {id} AND {id}) BETWEEN {id} AND {id}",
        "{id} BETWEEN ({id} AND {id}) AND {id}",
        "{id} BETWEEN {id} + {id} AND {id} * {id}",
        "{id} NOT BETWEEN {id} AND {id}",
        "{id} IN ({id}, {id}, {id})",
        "{id} NOT IN ({id})",
        "{id} NOT IN (SELECT {id})",
        "{id} NOT LIKE {id} ESCAPE {s}",
        "{id} LIKE {id} ESCAPE {id} || {id}",
        "{id} IS DISTINCT FROM {id}",
        "{id} IS NOT DISTINCT FROM {id}",
        "({id} IS DISTINCT FROM {id}) IS NOT DISTINCT FROM {id}",
        "{id} IS NOT NULL",
        "NOT {id} IS NULL",
        "NOT ({id} = {id})",
        "NOT {id} <> {id}",
        "{id} <> {id}",
        "{id} != {id}",
        "{id} = ALL (SELECT {id})",
        "{id} > SOME (SELECT {id})",
        "EXISTS (SELECT {id})",
        "NOT EXISTS (SELECT {id})",
        "{id}[{n}][{id} + {n}]",
        "({id} + {id})[{n}]",
        "{id}.{id}[{n}].{id}",
        "({id}).{id}",
        "({id} + {id}).{id}",
        "ARRAY[]",
        "ARRAY[{id}, ARRAY[{id}]]",
        "ROW({id})",
        "ROW({id}, {id})",
        "({id}, {id})",
        "({id}, {id}, ({id}, {id}))",
        "{id} -> {id} + {n}",
        "({id}, {id}) -> {id}",
        "() -> {id}",
        "CASE WHEN {id} THEN {id} WHEN {id} THEN {id} ELSE {id} END",
        "CASE {id} WHEN {id} THEN {id} ELSE CASE WHEN {id} THEN {id} END END",
        "CASE {id} WHEN {id} THEN {id} END",
        "TRUE",
        "FALSE",
        "NULL",
        "{n}",
        "{d}",
        "{e}",
        "- {d}",
        "- {e}",
        "{s}",
        "X'AB'",
        "?",
        "CURRENT_DATE",
        "CURRENT_TIME",
        "CURRENT_TIME({n})",
        "CURRENT_TIMESTAMP",
        "CURRENT_TIMESTAMP({n})",
        "LOCALTIME",
        "LOCALTIME({n})",
        "LOCALTIMESTAMP",
        "LOCALTIMESTAMP({n})",
        "CURRENT_TIMESTAMP(0)",
        "LOCALTIME(0)",
        "CURRENT_USER",
        "CURRENT_CATALOG",
        "CURRENT_SCHEMA",
        "CURRENT_PATH",
        "NORMALIZE({id})",
        "NORMALIZE({id}, NFKD)",
        "EXTRACT(YEAR FROM {id})",
        "TRIM({id})",
        "TRIM(BOTH {id} FROM {id})",
        "SUBSTRING({id} FROM {n} FOR {n})",
        "POSITION({id} IN {id})",
        "GROUPING({id}, {id})",
        "{id} AT TIME ZONE {s}",
        "{id} AT TIME ZONE INTERVAL {s} HOUR",
        "JSON_EXISTS({id}, {s})",
        "{id} + {id} AT TIME ZONE {s}",
    ]

    def shapes(self):
        for q in self.QUERIES:
            yield self.from_text("query " + q, q, "query")
        for e in self.EXPRESSIONS:
            yield self.from_text("expression " + e, e, "standaloneExpression")
            if "(SELECT" not in e:
                yield self.from_text("selected " + e, "SELECT %s AS {id}, {id} FROM {id} WHERE %s" % (e, e), "query")
