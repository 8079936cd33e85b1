"""C14: the common type of two types."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.shape import shape
from engine.world import Broken, World

INTS = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
FLOATS = {"REAL": 1, "DOUBLE": 2}
MAX_CHAR = 65536


def spec(d):
    """A type as plain data: (name, ((parameter, value), ...))."""
    def v(x):
        if isinstance(x, Obj):
            return spec(x)
        if isinstance(x, list):
            return tuple(v(y) for y in x)
        return x
    return (d.attrs["type_name"], tuple(sorted((k, v(x)) for k, x in d.attrs["parameters"].items() if not (k == "timezone" and not x))))


def show(t):
    def v(x):
        return show(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else "(%s)" % ", ".join(v(y) for y in x) if isinstance(x, tuple) else str(x)
    n, ps = t
    return n + ("(%s)" % ", ".join("%s=%s" % (k, v(x)) for k, x in ps) if ps else "")


def family(n):
    if n in INTS or n in FLOATS or n == "DECIMAL":
        return "numbers"
    if n in ("CHAR", "VARCHAR"):
        return "strings"
    if n in ("HYPERLOGLOG", "P4HYPERLOGLOG"):
        return "sketches"
    return n


def digits(t):
    """(digits before the point, digits after it) a number type can hold; None for the floating ones."""
    if t[0] in INTS:
        return INTS[t[0]], 0
    if t[0] == "DECIMAL":
        p = dict(t[1])
        return p["precision"] - p["scale"], p["scale"]
    return None


def lost(a, r):
    """What values of type a the type r, of the same family, cannot hold (None: it holds them all)."""
    pa, pr = dict(a[1]), dict(r[1])
    if a[0] == "UNKNOWN":
        return None
    if r[0] == "UNKNOWN":
        return "the result is unknown"
    if family(a[0]) != family(r[0]):
        if a[0] == "DATE" and r[0] == "TIMESTAMP":
            return None
        return "the result is a %s" % r[0]
    if a[0] in FLOATS:
        return None if r[0] in FLOATS and FLOATS[r[0]] >= FLOATS[a[0]] else "the result is no floating point type as wide"
    if family(a[0]) == "numbers":
        if r[0] in FLOATS:
            return None
        (i, s), (ri, rs) = digits(a), digits(r)
        if ri + rs >= 38:
            # as wide as a decimal can be
            return "digits after the point are lost" if rs < s else None
        if ri < i:
            return "digits before the point are lost"
        return "digits after the point are lost" if rs < s else None
    if family(a[0]) == "strings":
        la, lr = pa.get("max_chars"), pr.get("max_chars")
        if a[0] == "CHAR" and la is None:
            la = 1
        if r[0] == "CHAR":
            la = min(MAX_CHAR, la if la is not None else MAX_CHAR) if a[0] == "VARCHAR" else la
            lr = 1 if lr is None else lr
        if lr is None:
            return None
        return None if la is not None and lr >= la else "length is lost"
    if a[0] in ("TIME", "TIMESTAMP"):
        if pa.get("timezone") and not pr.get("timezone"):
            return "the time zone is lost"
        x, y = pa.get("precision"), pr.get("precision")
        if y is None:
            return None
        if x is None:
            return "a precision appears that is not known to suffice"
        return None if y >= x else "precision is lost"
    if a[0] in ("ARRAY", "QDIGEST"):
        return lost(pa["dtype"], pr["dtype"])
    if a[0] == "MAP":
        return lost(pa["from_dtype"], pr["from_dtype"]) or lost(pa["to_dtype"], pr["to_dtype"])
    if a[0] == "ROW":
        if len(pa["dtypes"]) != len(pr["dtypes"]):
            return "columns are lost"
        for x, y in zip(pa["dtypes"], pr["dtypes"]):
            w = lost(x, y)
            if w:
                return w
        return None
    if family(a[0]) == "sketches":
        return None if r[0] == "HYPERLOGLOG" or a == r else "the result is no sketch of both kinds"
    return None if a == r else "the result is %s" % show(r)


def combine(a, b):
    """Whether the two types have a common type that the library has a rule for."""
    if "UNKNOWN" in (a[0], b[0]):
        return True
    if a == b:
        return True
    if family(a[0]) != family(b[0]):
        return {a[0], b[0]} == {"DATE", "TIMESTAMP"}
    f = family(a[0])
    if f in ("numbers", "strings", "sketches", "TIME", "TIMESTAMP"):
        return True
    pa, pb = dict(a[1]), dict(b[1])
    if f == "ARRAY":
        return combine(pa["dtype"], pb["dtype"])
    if f == "MAP":
        return combine(pa["from_dtype"], pb["from_dtype"]) and combine(pa["to_dtype"], pb["to_dtype"])
    if f == "ROW":
        return len(pa["dtypes"]) == len(pb["dtypes"]) and all(combine(x, y) for x, y in zip(pa["dtypes"], pb["dtypes"]))
    return False


def run(rep, thorough):
    W = World()
    I = W.I
    conv = I.import_module("treeno.datatypes.conversions")
    DT = I.import_module("treeno.datatypes.types").ns.get("DataType")
    common, arith = conv.ns.get("common_supertype"), conv.ns.get("get_arithmetic_type")
    if DT is None or common is None or arith is None:
        raise Broken("treeno.datatypes.conversions has no common_supertype or get_arithmetic_type")

    def t(n, **kw):
        return (n, tuple(sorted(kw.items())))

    base = [t(n) for n in ("BOOLEAN", "TINYINT", "SMALLINT", "INTEGER", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN")]
    # every order type of (digits before, digits after) of two decimals, the bounds, and the widths of the integers around them
    for p, s in ((38, 0), (10, 2), (12, 2), (10, 0), (5, 5), (7, 5), (3, 0), (2, 0), (1, 0), (20, 1), (38, 38), (38, 19), (6, 2), (0, 0)):
        base.append(t("DECIMAL", precision=p, scale=s))
    base += [t("VARCHAR")] + [t("VARCHAR", max_chars=n) for n in (0, 1, 5, 9, 65536, 70000)] + [t("CHAR", max_chars=n) for n in (0, 1, 5, 9, 65536)]
    for n in ("TIME", "TIMESTAMP"):
        for p in (None, 0, 3, 6, 12):
            for z in (False, True):
                kw = {} if p is None else {"precision": p}
                base.append(t(n, timezone=z, **kw))
    base += [t("INTERVAL", from_interval="DAY", to_interval="SECOND"), t("INTERVAL", from_interval="YEAR", to_interval="MONTH")]
    inner = [t("INTEGER"), t("BIGINT"), t("DOUBLE"), t("DECIMAL", precision=10, scale=2), t("DECIMAL", precision=9, scale=5), t("VARCHAR"), t("VARCHAR", max_chars=3), t("CHAR", max_chars=5), t("DATE"), t("TIMESTAMP", precision=3, timezone=False), t("TIMESTAMP", timezone=True),
             t("TIME", precision=0, timezone=True), t("TIME", precision=6, timezone=False), t("UNKNOWN"), t("BOOLEAN")]
    deep = [t("ARRAY", dtype=x) for x in inner]
    for x in (inner if thorough else inner[::2]):
        for y in inner[1::3] if not thorough else inner:
            deep.append(t("MAP", from_dtype=x, to_dtype=y))
            deep.append(t("ROW", dtypes=(x, y)))
    deep += [t("ROW", dtypes=(x,)) for x in inner[:4]] + [t("ROW", dtypes=(inner[0], inner[5], inner[9])), t("ROW", dtypes=(inner[1], inner[6], inner[10])), t("ROW", dtypes=())]
    deep += [t("ARRAY", dtype=t("ARRAY", dtype=inner[i])) for i in (0, 1, 5, 6)] + [t("ARRAY", dtype=t("ROW", dtypes=(inner[i], inner[j]))) for i, j in ((0, 5), (1, 6))] + [t("MAP", from_dtype=inner[0], to_dtype=t("ARRAY", dtype=inner[6])), t("MAP", from_dtype=inner[1], to_dtype=t("ARRAY", dtype=inner[5]))]
    deep += [t("QDIGEST", dtype=x) for x in inner[:3]]
    types = list(dict.fromkeys(base + deep))

    def build(x):
        n, ps = x

        def v(y):
            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
                return build(y)
            if isinstance(y, tuple):
                return [v(z) for z in y]
            return y
        return I.call(DT, (n,), {"parameters": {k: v(y) for k, y in ps}})

    def norm(x):
        """The type as plain data, defaults filled in."""
        return spec(build(x))

    def outcome(f, a, b, problems):
        x, y = build(a), build(b)
        sx, sy = shape(x), shape(y)
        try:
            r = I.call(f, (x, y))
        except AbsRaise as e:
            if e.accidental and e.name not in ("AssertionError",):
                problems.append("it fails with an accidental %s" % e.text())
            return ("error", None)
        if shape(x) != sx or shape(y) != sy:
            problems.append("the types given are changed")
        if not isinstance(r, Obj) or r.cls is not DT:
            problems.append("the result is no type")
            return ("no type", None)
        return ("type", spec(r))

    def one(i):
        out, n, err = [], 0, None
        try:
            for j in range(i, len(types)):
                a, b = types[i], types[j]
                na, nb = norm(a), norm(b)
                for fn, f in (("common_supertype", common), ("get_arithmetic_type", arith)):
                    n += 1
                    problems = []
                    r1 = outcome(f, a, b, problems)
                    r2 = outcome(f, b, a, problems)
                    what = "%s and %s" % (show(na), show(nb))
                    key = "%s %s/%s" % ((fn,) + tuple(sorted((a[0], b[0]))))
                    for p in problems:
                        out.append(("%s: %s" % (key, p), "%s of %s: %s" % (fn, what, p)))
                    if r1 != r2:
                        out.append(("%s: depends on the order" % key, "%s of %s is %s, the other way around %s" % (fn, what, show(r1[1]) if r1[1] else r1[0], show(r2[1]) if r2[1] else r2[0])))
                    if i == j and r1 != ("type", na):
                        out.append(("%s: not the type itself" % key, "%s of %s is %s" % (fn, what, show(r1[1]) if r1[1] else r1[0])))
                    if fn == "get_arithmetic_type" and (na[0] != nb[0] and not (family(na[0]) == family(nb[0]) == "numbers")):
                        continue
                    if not combine(na, nb):
                        continue
                    for r, (p, q) in ((r1, (na, nb)), (r2, (nb, na))):
                        if r[0] != "type":
                            out.append(("%s: no result" % key, "%s of %s and %s has no result" % (fn, show(p), show(q))))
                            break
                        w = lost(p, r[1]) or lost(q, r[1])
                        if w:
                            out.append(("%s: %s" % (key, w), "%s of %s and %s is %s: %s" % (fn, show(p), show(q), show(r[1]), w)))
                            break
        except Unsupported as e:
            err = str(e)[:100]
        return i, n, out, err

    seen = set()
    for i, n, out, err in pmap(one, list(range(len(types))), chunk=1):
        rep.count("types")
        rep.count("pairs", n)
        if err:
            rep.undecide(err)
        for k, m in out:
            if k not in seen:
                seen.add(k)
                rep.finding(k, m)
        rep.sample(show(types[i]))
    rep.floor("types", 100)
    rep.floor("pairs", 10000)
    return "abstract interpretation of common_supertype and get_arithmetic_type over every ordered pair of types, with representatives of every order of their parameters, against the family rules"
