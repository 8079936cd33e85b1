"""C13: data types keep their name and parameters, or are refused."""
from itertools import combinations

from engine import sentrules
from engine.absval import Sym, Unsupported, mk, parts_of
from engine.corpus import Corpus
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.sqltext import LexError, show
from engine.world import Broken, World

PLAIN = ("BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN")
# name -> (parameters it can have, those it must have, what stands for those left out)
TYPES = {n: ((), (), {}) for n in PLAIN}
TYPES.update({
    "DECIMAL": (("precision", "scale"), (), {"precision": 38, "scale": 0}),
    "VARCHAR": (("max_chars",), (), {}),
    "CHAR": (("max_chars",), (), {"max_chars": 1}),
    "TIME": (("precision", "timezone"), (), {}),
    "TIMESTAMP": (("precision", "timezone"), (), {}),
    "ARRAY": (("dtype",), ("dtype",), {}),
    "QDIGEST": (("dtype",), ("dtype",), {}),
    "MAP": (("from_dtype", "to_dtype"), ("from_dtype", "to_dtype"), {}),
    "ROW": (("dtypes",), ("dtypes",), {}),
    "INTERVAL": (("from_interval", "to_interval"), ("from_interval", "to_interval"), {}),
})
BUILDERS = {"boolean": "BOOLEAN", "tinyint": "TINYINT", "smallint": "SMALLINT", "integer": "INTEGER", "bigint": "BIGINT", "real": "REAL", "double": "DOUBLE", "decimal": "DECIMAL", "varchar": "VARCHAR", "char": "CHAR",
            "varbinary": "VARBINARY", "json": "JSON", "date": "DATE", "time": "TIME", "timestamp": "TIMESTAMP", "interval": "INTERVAL", "array": "ARRAY", "map_": "MAP", "row": "ROW", "unknown": "UNKNOWN", "ip": "IPADDRESS", "uuid": "UUID",
            "hll": "HYPERLOGLOG", "p4hll": "P4HYPERLOGLOG", "qdigest": "QDIGEST", "tdigest": "TDIGEST"}
UNIVERSE = ("precision", "scale", "max_chars", "timezone", "dtype", "from_dtype", "to_dtype", "dtypes", "from_interval", "to_interval", "something")
N = Sym("int", "n")
M = Sym("int", "m")
# a value of a parameter: how to build it, the text expected
NUMBERS = ((N, "\x00n"), (0, "0"), (7, "7"))
# type texts of SQL that are types of Trino, and some that are none: too many, too few or foreign parameters
VALID = ["BIGINT", "DATE", "DOUBLE", "REAL", "JSON", "UUID", "IPADDRESS", "BOOLEAN", "TINYINT", "SMALLINT", "INTEGER", "VARBINARY", "HYPERLOGLOG", "TDIGEST", "P4HYPERLOGLOG", "DECIMAL", "DECIMAL({n})", "DECIMAL({n},{n})", "DECIMAL(0,0)", "VARCHAR", "VARCHAR({n})",
         "VARCHAR(0)", "CHAR", "CHAR({n})", "TIME", "TIME({n})", "TIME(0)", "TIMESTAMP", "TIMESTAMP({n})", "TIMESTAMP(0)", "TIMESTAMP({n}) WITH TIME ZONE", "TIMESTAMP WITH TIME ZONE", "TIME({n}) WITH TIME ZONE", "TIME WITH TIME ZONE", "TIMESTAMP(0) WITH TIME ZONE",
         "ARRAY(BIGINT)", "ARRAY(ARRAY(VARCHAR({n})))", "MAP(VARCHAR({n}), DECIMAL({n},{n}))", "ROW(BIGINT, DOUBLE)", "ROW(BIGINT)", "INTERVAL YEAR TO MONTH", "INTERVAL DAY TO SECOND", "QDIGEST(BIGINT)", "MAP(BIGINT, ARRAY(ROW(DATE, TIME(0))))", "BIGINT ARRAY", "MAP(DATE, TIMESTAMP(0) WITH TIME ZONE)"]
INVALID = ["BIGINT({n})", "DATE({n})", "BOOLEAN({n})", "DOUBLE({n})", "JSON({n})", "UUID({n})", "VARCHAR({n},{n})", "CHAR({n},{n})", "DECIMAL({n},{n},{n})", "ARRAY(BIGINT,DATE)", "ARRAY", "MAP(BIGINT)", "MAP", "MAP(BIGINT,DATE,TIME)", "QDIGEST", "QDIGEST(BIGINT,DATE)", "BIGINT(DATE)",
           "TDIGEST({n})", "DATE(0)", "INTEGER(0)", "BIGINT(0)"]


def flat(text):
    """The text without spaces, symbols as \\0name."""
    out = []
    for p in parts_of(text):
        if isinstance(p, str):
            out.append(p.replace(" ", ""))
        else:
            out.append("\x00" + str(p.key))
    return "".join(out)


def run(rep, thorough):
    W = World()
    I = W.I
    types = I.import_module("treeno.datatypes.types")
    build = I.import_module("treeno.datatypes.builder")
    DT = types.ns.get("DataType")
    if DT is None:
        raise Broken("treeno.datatypes.types has no DataType")

    def dt(n, **kw):
        return I.call(DT, (n,), {"parameters": dict(kw)})

    nested = (
        (lambda: dt("BIGINT"), "BIGINT"),
        (lambda: dt("VARCHAR", max_chars=N), "VARCHAR(\x00n)"),
        (lambda: dt("ARRAY", dtype=dt("DECIMAL", precision=7, scale=0)), "ARRAY(DECIMAL(7,0))"),
        (lambda: dt("MAP", from_dtype=dt("CHAR", max_chars=0), to_dtype=dt("ROW", dtypes=[dt("DATE"), dt("TIME", precision=0, timezone=True)])), "MAP(CHAR(0),ROW(DATE,TIME(0)WITHTIMEZONE))"),
        (lambda: dt("TIMESTAMP", timezone=True), "TIMESTAMPWITHTIMEZONE"),
        (lambda: dt("INTERVAL", from_interval="DAY", to_interval="SECOND"), "INTERVALDAYTOSECOND"),
    )
    rows = (
        (lambda: [dt("DATE")], "DATE"),
        (lambda: [dt("DATE"), dt("VARCHAR")], "DATE,VARCHAR"),
        (lambda: [dt("ROW", dtypes=[dt("BIGINT"), dt("BIGINT")]), dt("TIMESTAMP", precision=0), dt("DECIMAL", precision=N, scale=M)], "ROW(BIGINT,BIGINT),TIMESTAMP(0),DECIMAL(\x00n,\x00m)"),
    )

    def values(tn, p):
        if p in ("precision", "max_chars", "something"):
            return [((lambda v=v: v), t) for v, t in NUMBERS]
        if p == "scale":
            return [((lambda v=v: v), t) for v, t in ((M, "\x00m"), (0, "0"), (5, "5"))]
        if p == "timezone":
            return [(lambda: True, True), (lambda: False, False)]
        if p in ("dtype", "from_dtype", "to_dtype"):
            return list(nested)
        if p == "dtypes":
            return list(rows)
        return [((lambda v=v: v), v) for v in (("YEAR", "DAY") if p == "from_interval" else ("MONTH", "SECOND"))]

    def expected(tn, given):
        ps, need, default = TYPES[tn]
        if set(given) - set(ps) or set(need) - set(given):
            return None
        if tn == "INTERVAL":
            if (given["from_interval"], given["to_interval"]) not in (("YEAR", "MONTH"), ("DAY", "SECOND")):
                return None
            return "INTERVAL%sTO%s" % (given["from_interval"], given["to_interval"])
        if tn in ("TIME", "TIMESTAMP"):
            return tn + ("(%s)" % given["precision"] if "precision" in given else "") + ("WITHTIMEZONE" if given.get("timezone") else "")
        vals = [str(given.get(p, default.get(p))) for p in ps if p in given or p in default]
        return tn + ("(%s)" % ",".join(vals) if vals else "")

    # every type name with every combination of its own parameters, and with one it has not
    cases = []
    for tn, (ps, need, _) in TYPES.items():
        sets = [c for k in range(len(ps) + 1) for c in combinations(ps, k)]
        sets += [tuple(ps) + (x,) for x in UNIVERSE if x not in ps] + [tuple(need) + (x,) for x in UNIVERSE if x not in ps]
        for names in dict.fromkeys(sets):
            combos = [[]]
            for p in names:
                vs = values(tn, p) if p in ps else values(tn, p)[:2]
                combos = [c + [(p, v)] for c in combos for v in vs]
            for c in combos:
                cases.append((tn, c))

    def text_of(tn, c):
        return "%s(%s)" % (tn, ", ".join("%s=%s" % (p, str(v[1]).replace("\x00", "")) for p, v in c))

    def build_one(case):
        tn, c = case
        out = []
        want = expected(tn, {p: v[1] for p, v in c})
        ways = [("DataType", lambda: I.call(DT, (tn,), {"parameters": {p: v[0]() for p, v in c}})), ("lower case", lambda: I.call(DT, (tn.lower(),), {"parameters": {p: v[0]() for p, v in reversed(c)}}))]
        for b, n in BUILDERS.items():
            if n == tn and b in build.ns:
                ways.append(("the builder %s" % b, lambda b=b: I.call(build.ns[b], (), {p: v[0]() for p, v in c})))
        st = "refused"
        for way, make in ways:
            def go():
                d = make()
                return flat(W.render(d, "DEFAULT")), flat(W.render(d, "PRETTY"))

            any_ok = False
            for res, _ in W.explore(go, limit=2, max_runs=24):
                if isinstance(res, Unsupported):
                    return tn, "undecided: %s" % str(res)[:80], []
                if isinstance(res, AbsRaise):
                    continue
                any_ok = True
                st = "built"
                if want is None:
                    out.append(("%s: %s is accepted" % (tn, ",".join(p for p, _ in c)), "%s is accepted by %s; the type does not have these parameters" % (text_of(tn, c), way)))
                elif res[0] != want or res[1] != want:
                    out.append(("%s: %s is altered" % (tn, ",".join(p for p, _ in c)), "%s, built by %s, is rendered as %s" % (text_of(tn, c), way, (res[0] if res[0] != want else res[1]).replace("\x00", ""))))
            if not any_ok and want is not None:
                out.append(("%s: %s is refused" % (tn, ",".join(p for p, _ in c)), "%s is refused by %s" % (text_of(tn, c), way)))
        return tn, st, out

    for _, st, out in pmap(build_one, cases):
        rep.count("types_built")
        rep.count("built_" + st.split(":")[0])
        if st.startswith("undecided"):
            rep.undecide(st)
        for k, m in out:
            rep.finding(k, m)
    known = set(types.ns.get("ALLOWED_TYPES") or ())
    for n in sorted(TYPES):
        if n not in known:
            rep.finding("%s is unknown" % n, "the type %s is not among ALLOWED_TYPES" % n)

    # read from SQL
    corp = Corpus(W)
    seen = set()
    items = []
    for key, make in list(corp.types()) + [("type " + t, corp.from_text("type " + t, t, "standaloneType")[1]) for t in VALID + INVALID]:
        if key not in seen:
            seen.add(key)
            items.append((key, make))

    def read_one(item):
        key, make = item
        try:
            s = make()
            if s is None:
                return key, "no sentence", [], ""
            root, tree, toks = s
            st, found, text = sentrules.judge(W, key, root, tree, toks, {"C01", "C02", "C03"})
            return key, st, found, text
        except (LexError, Unsupported) as e:
            return key, "undecided: %s" % str(e)[:80], [], ""

    valid, invalid = {"type " + t for t in VALID}, {"type " + t for t in INVALID}
    for key, st, found, text in pmap(read_one, items):
        rep.count("type_texts")
        rep.count("texts_" + st.split(":")[0].replace(" ", "_"))
        if st.startswith("undecided"):
            rep.undecide(st)
        for p, k, m in found:
            rep.finding("%s: %s" % (key, k), "%s: %s" % (text, m), text)
        if key in valid and st == "refused":
            rep.finding("%s is refused" % key, "the type %s is refused" % text, text)
        if key in invalid and st == "converted":
            rep.finding("%s is accepted" % key, "%s is accepted; the type does not have these parameters" % text, text)
        if st == "converted":
            rep.sample(text)
    rep.floor("types_built", 400)
    rep.floor("built_built", 100)
    rep.floor("texts_converted", 60)
    return "abstract interpretation of DataType, its builders and its rendering for every type name and combination of own and foreign parameters, and of the conversion and rendering of type texts"
