"""C10: literals and quoted names are decoded to exactly the value they denote."""
import decimal
import itertools

from engine.absval import AStr, Part, Sym, Unsupported, mk
from engine.corpus import Corpus
from engine.g4 import TemplateParser, Tok
from engine.harness import brief, first_diff, pmap
from engine.interp import AbsRaise, Obj
from engine.sentrules import arity_refusal, roundtrip, value_refusal
from engine.shape import shape
from engine.spec import Bad
from engine.sqltext import LexError, show
from engine.world import World

D = decimal.Decimal
EDGE = ("'", '"', "`", "\\", " ", "\n", "a", "B", "%", "\u00e9", ";", "-", "+", "0", "\U0001f600")
NUMBERS = ("0", "7", "007", "10", "100", "2147483647", "2147483648", "9223372036854775807", "12345678901",
           "0.0", "1.", "1.0", "1.50", "00.50", ".5", ".050", "123.4500", "100.", "12345678901234567890123456789.123456789", "0.000000001", "0.12345678901234567890123456789012345678", "0.00000000000000000001",
           "1E0", "1E5", "1E-7", "1E+3", "1.5E-3", ".5E3", "100E0", "1E22", "1E23", "123456789E-3", "1E300", "1.E2", "0E0", "1E400", "4.9E-324")
# what a number's place takes: zero is left out, as its sign does not show
PLACED = ("007", "2147483648", "1.", ".050", "100.", "1.50", "1E5", "1.5E-3", "1E400")
# what the place of an identifier and of a string takes
NAMES = ('"a""b"', '"A b"', '"select"', '"a.b"', "Zz_9")
STRINGS = ("'it''s'", "''", "'\\'", "U&'\\0041\\+01F600\\\\'", "U&'d!0061!!' UESCAPE '!'")

# characters and texts which a program may take for something else
ODD = ("\u00a0", "\u0085", "\u2028", "\u200b", "\ufeff", "\u0301", "e\u0301", "\u212b", "\ufb01", "\u0130", "\u00df", "\u01c5", "  ", "a  b", " a ", "\t\t", "\r\n", "\\n", "\\'", "%s", "{}", "{0}", "$1", "a" * 300, "'" * 20, "ab " * 500, "--a", "/*a*/", "NULL", "TRUE", "1", "None", "\\u0041", "&amp;", "%20", "\x1b[0m")
LONG = 24  # tokens of a sentence
UESCAPES = "!#$%&()*,-./:;<=>?@[]^_`{|}~\\gzG"


def spelled(text, quote):
    return quote + text.replace(quote, quote + quote) + quote


def denoted_number(text, neg):
    if "E" in text:
        v = float(text)
    elif "." in text:
        v = D(text)
    else:
        v = int(text)
    return v if not neg else v.copy_negate() if isinstance(v, D) else -v


def same(a, b):
    """The same Python value, digit by digit."""
    if type(a) is not type(b):
        return False
    if isinstance(a, D):
        if a == b == 0:  # zero has no sign
            a, b = a.copy_abs(), b.copy_abs()
        return a.as_tuple() == b.as_tuple()
    return a == b and repr(a) == repr(b)


def read_unicode(body, esc):
    """The meaning of a unicode string."""
    out, i = [], 0
    while i < len(body):
        if body[i] != esc:
            out.append(body[i])
            i += 1
        elif body[i + 1: i + 2] == esc:
            out.append(esc)
            i += 2
        elif body[i + 1: i + 2] == "+":
            out.append(chr(int(body[i + 2: i + 8], 16)))
            i += 8
        else:
            out.append(chr(int(body[i + 1: i + 5], 16)))
            i += 5
    return "".join(out)


def literals(thorough):
    """[(kind, text, value)]"""
    out = []
    for n in range(0, 4 if thorough else 3):
        for cs in itertools.product(EDGE, repeat=n):
            s = "".join(cs)
            out.append(("string", spelled(s, "'"), s))
            if s:
                out.append(("name", spelled(s, '"'), s))
    for s in [chr(i) for i in range(1, 128)] + list(ODD):
        out.append(("string", spelled(s, "'"), s))
        out.append(("string", spelled("x" + s + "y", "'"), "x" + s + "y"))
        out.append(("name", spelled(s, '"'), s))
        out.append(("name", spelled("x" + s + "y", '"'), "x" + s + "y"))
    for c in UESCAPES:
        for t in ("%s0041", "%s%s", "a%s+01F600b", "%s005a%s%s", "%s00e9.%s00E9", "x%s%s0041"):
            u = t.replace("%s", c)
            out.append(("unicode", "U&'%s' UESCAPE '%s'" % (u, c), read_unicode(u, c)))
    for u in ("\\00E9", "\\+01f600", "\\+10FFFF", "\\ABCD", "\\abcd", "\\FEFF", "\\0000", "ab" * 200 + "\\0041"):
        out.append(("unicode", "U&'%s'" % u, read_unicode(u, "\\")))
    bits = ("a", "\\0041", "\\00e9", "\\+01F600", "\\+00000a", "\\\\", "''", "!", "+", "\\0027", "\\005c", "0041")
    for n in range(0, 4 if thorough else 3):
        for cs in itertools.product(bits, repeat=n):
            t = "".join(cs)
            out.append(("unicode", "U&'%s'" % t, read_unicode(t.replace("''", "'"), "\\")))
            if "!" not in t and "\\\\" not in t:
                for e in "!#$":
                    u = t.replace("\\", e)
                    out.append(("unicode", "U&'%s' UESCAPE '%s'" % (u, e), read_unicode(u.replace("''", "'"), e)))
    for t in NUMBERS:
        for sign in ("", "-"):
            if not (sign and "E" in t and float(t) == 0):
                out.append(("number", sign + t, denoted_number(t, bool(sign))))
    for t, v in (("TRUE", True), ("FALSE", False), ("true", True), ("false", False)):
        out.append(("boolean", t, v))
    for t in ("NULL", "null"):
        out.append(("null", t, None))
    for t in ("a", "A", "aB", "_", "_a", "a_1", "Z9", "a1b2"):
        out.append(("name", t, t))
    return out


def type_fits(v, t):
    """Whether a type has room for a literal's value and is of its kind; t is (name, parameters)."""
    n, ps = t
    if v is None:
        return n == "UNKNOWN"
    if isinstance(v, bool):
        return n == "BOOLEAN"
    if isinstance(v, int):
        return n == ("INTEGER" if -2 ** 31 <= v < 2 ** 31 else "BIGINT") or n == "BIGINT" and v == -2 ** 31
    if isinstance(v, float):
        return n == "DOUBLE"
    if isinstance(v, str):
        return n == "VARCHAR" and ps.get("max_chars") == len(v)
    _, digits, e = v.as_tuple()
    before, after = max(len(digits) + e, 0), max(-e, 0)
    return n == "DECIMAL" and ps.get("scale") == after and before <= ps.get("precision", 0) - after <= max(before, 1)


def words(W, text):
    return [t.text if t.hole is None else t.hole for t in W.lex(text)]


def rewritten(W, text):
    """The value of a rendered literal: (kind, value)."""
    toks = [t for t in W.lex(text) if t.type != "EOF"]
    neg = False
    if toks and toks[0].type == "MINUS":
        neg, toks = True, toks[1:]
    if len(toks) != 1:
        return None
    t = toks[0]
    x = t.text
    if not isinstance(x, str):
        return None
    if t.type in ("INTEGER_VALUE", "DECIMAL_VALUE", "DOUBLE_VALUE"):
        return denoted_number(x, neg)
    if neg:
        return None
    if t.type == "STRING":
        return x[1:-1].replace("''", "'")
    return {"TRUE": True, "FALSE": False}.get(t.type)


def run(rep, thorough):
    W = World()
    I = W.I
    c = Corpus(W)
    I.tracking = True
    lits = literals(thorough)

    def judge_literal(kind, text, value):
        try:
            toks = W.lex(text)
        except LexError as e:
            return "undecided: %s" % e, {}
        tree = TemplateParser(W.g, toks).parse("standaloneExpression")
        if tree is None:
            return "no literal", {}
        found = {}
        st = "decoded"
        for res, r in W.explore(lambda: W.convert(toks, "standaloneExpression", text=text), limit=2, max_runs=8):
            if isinstance(res, Unsupported):
                return "undecided: %s" % str(res)[:80], {}
            if isinstance(res, AbsRaise):
                found["a %s is refused" % kind] = "`%s` is refused: %s" % (text, res.text())
                continue
            cls = res.cls.name if isinstance(res, Obj) else type(res).__name__
            if kind == "name":
                if cls != "Field" or res.attrs.get("name") != value or res.attrs.get("table") is not None:
                    found["a name becomes another"] = "`%s` becomes %s" % (text, brief(I.call(I.builtins["repr"], (res,)) if isinstance(res, Obj) else res, 80))
                    continue
            else:
                got = res.attrs.get("value") if cls == "Literal" else MISS
                if got is MISS or not same(got, value):
                    found["a %s becomes another value" % kind] = "`%s` denotes %r and becomes %s" % (text, value, brief(got, 80))
                    continue
                t = res.attrs["data_type"]
                if not type_fits(value, (t.attrs["type_name"], t.attrs["parameters"])):
                    found["a %s gets another type" % kind] = "`%s` gets the type %s(%s)" % (text, t.attrs["type_name"], t.attrs["parameters"])
            for mode in ("DEFAULT", "PRETTY"):
                try:
                    s = W.render(res, mode)
                    if kind == "null":
                        ok = words(W, s) == ["NULL"]
                    elif kind == "name":
                        w = words(W, s)
                        ok = len(w) == 1 and isinstance(w[0], str) and (w[0] == value if w[0][:1] != '"' else w[0][1:-1].replace('""', '"') == value)
                    else:
                        ok = same(rewritten(W, s), value)
                except (AbsRaise, LexError) as e:
                    ok, s = False, str(e)
                if not ok:
                    found["a %s is rendered as another" % kind] = "`%s` is rendered as %s" % (text, brief(s, 80))
        return st, found

    MISS = object()

    def outcome(toks, root, tree, again=True):
        """(status, what differs)"""
        try:
            T = W.tc.c(tree)
        except Unsupported as e:
            return "undecided: %s" % str(e)[:60], []
        out, st = [], "refused"
        for res, r in W.explore(lambda: W.convert(toks, root), limit=2, max_runs=12):
            if isinstance(res, Unsupported):
                return "undecided: %s" % str(res)[:60], []
            if isinstance(res, AbsRaise):
                continue
            st = "converted"
            try:
                N = W.nc.v(res) if root == "standaloneExpression" else W.nc.c(res)
            except (Bad, Unsupported) as e:
                return "undecided: %s" % str(e)[:60], []
            if N != T:
                out.append("%s: %s" % first_diff(T, N))
            elif again:
                out += ["read again, " + k for _, k, _ in roundtrip(W, root, T, res, r)]
        return st, out

    def variants(t):
        if t.hole is not None:
            return []
        if t.type == "IDENTIFIER":
            return [("any quoted name", [Tok("QUOTED_IDENTIFIER", AStr(['"', Part("S", "any", (("replace", '"', '""'),), cls="other"), '"']))])] + [(x, W.lex(x)) for x in NAMES]
        if t.type == "STRING":
            return [("any string", [Tok("STRING", AStr(["'", Part("S", "any", (("replace", "'", "''"),), cls="string"), "'"]))])] + [(x, W.lex(x)) for x in STRINGS]
        if t.type in ("INTEGER_VALUE", "DECIMAL_VALUE", "DOUBLE_VALUE"):
            return [(x, [Tok(t.type, x)]) for x in NUMBERS if [y.type for y in W.lex(x) if y.type != "EOF"] == [t.type] and x in PLACED]
        return []

    def judge_place(root, tree, toks):
        if len(toks) > LONG and not thorough:
            return "long", {}, 0
        base, _ = outcome(toks, root, tree, False)
        if base != "converted":
            return "base " + base.split(":")[0], {}, 0
        found, n = {}, 0
        interval = any(t.type == "INTERVAL" for t in toks)
        for i, t in enumerate(toks):
            if t.type == "STRING" and interval:
                continue  # an interval's string has a form of its own
            for label, new in variants(t):
                new = [x for x in new if x.type != "EOF"]
                other = toks[:i] + new + toks[i + 1:]
                d = TemplateParser(W.g, other).parse(root)
                if d is None:
                    continue
                n += 1
                try:
                    st, diff = outcome(other, root, d)
                except LexError as e:
                    st, diff = "undecided: %s" % e, []
                if st.startswith("undecided"):
                    found.setdefault("UNDECIDED " + st, "")
                for x in diff:
                    found.setdefault("%s in place of %s: %s" % (kind_of(label), t.type, x), "`%s` is converted wrongly: %s" % (show(other), x))
        return "judged", found, n

    items = [("literal", x) for x in lits]
    for f in ("grammar1", "shapes") + (("grammar2",) if thorough else ()):
        items += [("place", m) for k, m in getattr(c, f)()]
    # group the literals
    batch = [("literals", lits[i:i + 60]) for i in range(0, len(lits), 60)]
    items = batch + [x for x in items if x[0] == "place"]

    def one(item):
        kind, what = item
        if kind == "literals":
            out, n, und = {}, {}, []
            for k, t, v in what:
                try:
                    st, found = judge_literal(k, t, v)
                except (Unsupported, LexError) as e:
                    st, found = "undecided: %s" % str(e)[:80], {}
                if st.startswith("undecided"):
                    und.append("%s `%s`: %s" % (k, t, st))
                else:
                    n[k] = n.get(k, 0) + 1
                for a, b in found.items():
                    out.setdefault(a, b)
            return "literals", out, n, und
        try:
            s = what()
            if s is None:
                return "no sentence", {}, 0, []
            st, found, n = judge_place(*s)
        except (Unsupported, LexError) as e:
            return "undecided", {}, 0, ["place: %s" % str(e)[:80]]
        und = [k for k in found if k.startswith("UNDECIDED")]
        return st, {k: m for k, m in found.items() if not k.startswith("UNDECIDED")}, n, und

    for st, found, n, und in pmap(one, items):
        if isinstance(n, dict):
            for k, x in n.items():
                rep.count("literals_" + k, x)
        else:
            rep.count("sentences_" + st.replace(" ", "_"))
            rep.count("places", n)
        for u in und:
            rep.undecide(u[:100])
        for k, m in found.items():
            rep.finding(k, m)
    for k, n in (("string", 200), ("name", 200), ("unicode", 200), ("number", 60), ("boolean", 4), ("null", 2)):
        rep.floor("literals_" + k, n)
    rep.floor("places", 4000)
    return "abstract interpretation of the converter on every literal and name over an alphabet of critical characters, and on every place of the grammar which takes one: the value equals what the token denotes, and rendering it denotes it again"


def kind_of(label):
    if label.startswith("any"):
        return label
    if label[0] == "U":
        return "a unicode string"
    return "a quoted name" if label[0] == '"' else "a string" if label[0] == "'" else "a number" if label[0].isdigit() or label[0] == "." else "a name"
