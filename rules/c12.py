"""C12: functions are found by their names and keep name and arguments."""
import re

from engine import sentrules
from engine.absval import Unsupported
from engine.corpus import Corpus
from engine.harness import pmap
from engine.interp import ClassV, MISSING
from engine.sqltext import LexError
from engine.world import Broken, World

from .c20 import outcomes, respell

# The functions confirmed by reading the library against the documentation of Trino: name -> (class, argument counts).
# KURTOSIS takes one argument in Trino; the library and its tests give it two.
ANY = tuple(range(0, 7))
FUNCTIONS = {
    "APPROX_DISTINCT": ("ApproxDistinct", (1, 2)), "APPROX_MOST_FREQUENT": ("ApproxMostFrequent", (3,)), "APPROX_PERCENTILE": ("ApproxPercentile", (2, 3)),
    "APPROX_SET": ("ApproxSet", (1,)), "ARBITRARY": ("Arbitrary", (1,)), "ARRAY_AGG": ("ArrayAgg", (1,)), "AT_TIMEZONE": ("AtTimezone", (2,)), "AVG": ("Avg", (1,)),
    "BITWISE_AND_AGG": ("BitwiseAndAgg", (1,)), "BITWISE_OR_AGG": ("BitwiseOrAgg", (1,)), "BOOL_AND": ("BoolAnd", (1,)), "BOOL_OR": ("BoolOr", (1,)), "CHECKSUM": ("Checksum", (1,)),
    "CHR": ("Chr", (1,)), "COALESCE": ("Coalesce", (1, 2, 3, 4, 5, 6)), "CODEPOINT": ("CodePoint", (1,)), "CONCAT": ("Concatenate", (2, 3, 4, 5, 6)), "CORR": ("Corr", (2,)), "COUNT": ("Count", (1,)),
    "COUNT_IF": ("CountIf", (1,)), "COVAR_POP": ("CovarPop", (2,)), "COVAR_SAMP": ("CovarSamp", (2,)), "DATE": ("Date", (1,)), "DATE_ADD": ("DateAdd", (3,)), "DATE_DIFF": ("DateDiff", (3,)),
    "DATE_TRUNC": ("DateTrunc", (2,)), "EVERY": ("Every", (1,)), "FROM_ISO8601_DATE": ("FromISO8601Date", (1,)), "FROM_ISO8601_TIMESTAMP": ("FromISO8601Timestamp", (1,)),
    "FROM_ISO8601_TIMESTAMP_NANOS": ("FromISO8601TimestampNanos", (1,)), "FROM_UNIXTIME": ("FromUnixtime", (1, 2, 3)), "FROM_UNIXTIME_NANOS": ("FromUnixtimeNanos", (1,)), "FROM_UTF8": ("FromUTF8", (1, 2)),
    "GEOMETRIC_MEAN": ("GeometricMean", (1,)), "HAMMING_DISTANCE": ("HammingDistance", (2,)), "HISTOGRAM": ("Histogram", (1,)), "HUMAN_READABLE_SECONDS": ("HumanReadableSeconds", (1,)), "IF": ("If", (2, 3)),
    "KURTOSIS": ("Kurtosis", (2,)), "LAST_DAY_OF_MONTH": ("LastDayOfMonth", (1,)), "LENGTH": ("Length", (1,)), "LEVENSHTEIN_DISTANCE": ("LevenshteinDistance", (2,)),
    "LOWER": ("Lower", (1,)), "LPAD": ("LPad", (3,)), "LTRIM": ("LTrim", (1,)), "LUHN_CHECK": ("LuhnCheck", (1,)), "MAP_AGG": ("MapAgg", (2,)), "MAP_UNION": ("MapUnion", (1,)), "MAX": ("Max", (1, 2)), "MAX_BY": ("MaxBy", (2, 3)), "MERGE": ("Merge", (1,)),
    "MIN": ("Min", (1, 2)), "MIN_BY": ("MinBy", (2, 3)), "MULTIMAP_AGG": ("MultimapAgg", (2,)), "NOW": ("Now", (0,)), "NULLIF": ("NullIf", (2,)), "NUMERIC_HISTOGRAM": ("NumericHistogram", (2, 3)),
    "PARSE_DURATION": ("ParseDuration", (1,)), "POWER": ("Power", (2,)), "QDIGEST_AGG": ("QDigestAgg", (1, 2, 3)), "REGR_INTERCEPT": ("RegrIntercept", (2,)), "REGR_SLOPE": ("RegrSlope", (2,)), "REPLACE": ("Replace", (2, 3)), "REVERSE": ("Reverse", (1,)),
    "RPAD": ("RPad", (3,)), "RTRIM": ("RTrim", (1,)), "SKEWNESS": ("Skewness", (1,)), "SOUNDEX": ("Soundex", (1,)), "STDDEV": ("StdDev", (1,)), "STDDEV_POP": ("StdDevPop", (1,)), "STDDEV_SAMP": ("StdDevSamp", (1,)), "SUM": ("Sum", (1,)), "TDIGEST_AGG": ("TDigestAgg", (1, 2)),
    "TO_ISO8601": ("ToISO8601", (1,)), "TO_MILLISECONDS": ("ToMilliseconds", (1,)), "TO_UNIXTIME": ("ToUnixtime", (1,)), "TO_UTF8": ("ToUTF8", (1,)), "TRY": ("Try", (1,)), "VARIANCE": ("Variance", (1,)), "VAR_POP": ("VarPop", (1,)), "VAR_SAMP": ("VarSamp", (1,)),
    "WITH_TIMEZONE": ("WithTimezone", (2,)),
}
# written in a form of their own: their construct is in the grammar (C01 to C03 decide those)
SPECIAL = {"LISTAGG": "ListAgg", "NORMALIZE": "Normalize", "CURRENT_DATE": "CurrentDate", "CURRENT_TIME": "CurrentTime", "CURRENT_TIMESTAMP": "CurrentTimestamp", "LOCALTIME": "LocalTime", "LOCALTIMESTAMP": "LocalTimestamp",
           "CURRENT_USER": "CurrentUser", "CURRENT_CATALOG": "CurrentCatalog", "CURRENT_SCHEMA": "CurrentSchema", "CURRENT_PATH": "CurrentPath"}


def run(rep, thorough):
    W = World()
    I = W.I
    base = I.import_module("treeno.functions.base").ns.get("Function")
    if not isinstance(base, ClassV) or W.registry is None:
        raise Broken("treeno.functions.base has no Function or no NAMES_TO_FUNCTIONS")
    rep.count("functions_registered", len(W.registry))
    # the classes of the library, the abstract ones left out
    names = {}
    for (m, n), c in sorted(W.all_sql_classes().items()):
        if not c.is_sub(base) or c is base:
            continue
        fn = c.lookup("FN_NAME")
        if fn is MISSING:
            continue
        rep.count("function_classes")
        if not isinstance(fn, str):
            rep.finding("%s has no name" % n, "FN_NAME of %s is %r" % (n, fn))
            continue
        names.setdefault(fn, []).append(n)
        if fn != fn.upper():
            rep.finding("%s: %s cannot be looked up" % (n, fn), "the name of %s, %s, is not in upper case: lookups by name are" % (n, fn))
        if W.registry.get(fn) is not c:
            other = W.registry.get(fn)
            rep.finding("%s is not found as %s" % (n, fn), "%s.%s is not what the converter finds for %s (%s)" % (m, n, fn, getattr(other, "name", "nothing is")))
    for fn, cs in names.items():
        if len(cs) > 1:
            rep.finding("%s is shared" % fn, "the name %s is shared by %s" % (fn, ", ".join(cs)))
    known = {k: v[0] for k, v in FUNCTIONS.items()}
    known.update(SPECIAL)
    classes = {c: fn for fn, cs in names.items() for c in cs}
    for fn, c in known.items():
        if c in classes and classes[c] != fn:
            rep.finding("%s is named %s" % (c, classes[c]), "the function class %s stands for the SQL function %s, its name is %s" % (c, fn, classes[c]))
        elif fn not in W.registry:
            rep.finding("%s is unknown" % fn, "the function %s is not found by its name" % fn)
    # the calls
    corp = Corpus(W)
    I.tracking = True
    items = list(corp.functions())

    def one(item):
        key, make = item
        try:
            s = make()
            if s is None:
                return key, "no sentence", [], "", True
            root, tree, toks = s
            st, found, text = sentrules.judge(W, key, root, tree, toks, {"C03"})
            same = True
            if "|" not in key and st == "converted":
                o = respell(W, toks, 1)
                same = o is None or outcomes(W, o, root) == outcomes(W, toks, root)
            return key, st, found, text, same
        except (LexError, Unsupported) as e:
            return key, "undecided: %s" % str(e)[:80], [], "", True

    counts = {}
    for key, st, found, text, same in pmap(one, items):
        rep.count("calls")
        rep.count(st.split(":")[0].replace(" ", "_"))
        if st.startswith("undecided"):
            rep.undecide(st)
        for p, k, m in found:
            rep.finding("%s: %s" % (key.split("/")[0].split("(")[0].strip(), k), "%s: %s" % (text, m), text)
        if not same:
            rep.finding("%s in lower case" % key.split("/")[0], "%s is converted differently in lower case" % text, text)
        m = re.match(r"function (\w+)/(\d)$", key)
        if m:
            counts.setdefault(m.group(1), {})[int(m.group(2))] = st
        if st == "converted" and not found:
            rep.sample(text)
    for fn, (c, ns) in FUNCTIONS.items():
        if fn not in W.registry:
            continue
        got = counts.get(fn, {})
        for n in range(0, 7):
            st = got.get(n, "")
            if st.startswith("undecided"):
                continue
            rep.count("argument_counts")
            if n in ns and st != "converted":
                rep.finding("%s refuses %d arguments" % (fn, n), "the call of %s with %d arguments is refused" % (fn, n))
    rep.floor("function_classes", 90)
    rep.floor("functions_registered", 90)
    rep.floor("converted", 1500)
    return "registry and name rule over every function class; abstract interpretation of conversion and rendering of every function with 0 to 6 arguments, with and without quantifier, order, filter and window"
