"""C22: Python operators on values build the SQL operators they stand for."""
import decimal

from engine.absval import AStr, Sym, Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.nodes import NodeGen, S
from engine.noderules import operator_classes, wanted
from engine.shape import shape
from engine.world import Broken, World

D = decimal.Decimal
# operator -> (node, fields of the left and the right operand)
UNARY = {"invert": ("Not", "value"), "pos": ("Positive", "value"), "neg": ("Negative", "value")}
BINARY = {"add": ("Add", "left", "right"), "sub": ("Minus", "left", "right"), "mul": ("Multiply", "left", "right"), "truediv": ("Divide", "left", "right"), "mod": ("Modulus", "left", "right"), "pow": ("Power", "x", "p"),
          "eq": ("Equal", "left", "right"), "ne": ("NotEqual", "left", "right"), "lt": ("LessThan", "left", "right"), "le": ("LessThanOrEqual", "left", "right"), "gt": ("GreaterThan", "left", "right"), "ge": ("GreaterThanOrEqual", "left", "right"),
          "and_": ("And", "left", "right"), "or_": ("Or", "left", "right")}
# a plain value on the left of a comparison is taken up by the mirrored comparison of the value on its right
MIRROR = {"lt": "GreaterThan", "le": "GreaterThanOrEqual", "gt": "LessThan", "ge": "LessThanOrEqual", "eq": "Equal", "ne": "NotEqual"}
SIGN = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "mod": "%", "pow": "**", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "and_": "&", "or_": "|", "invert": "~", "pos": "+", "neg": "-"}

PLAIN = [Sym("int", "n"), S("s"), 0, 1, -7, 2147483647, 2147483648, -2147483648, -2147483649, 12345678901, True, False, "", "it's", "a", 2.5, -0.0, 0.0, 1e300, 1e-7, 100.0,
         D("1.50"), D("-0.25"), D("5"), D("-5"), D("0"), D("123.45"), D("0.001"), D("1E+3"), D("1E-9"), D("-12.5E+4"), D("12345678901234567890.5")]


def matching(v, t):
    """Whether a type is the one of a plain value; t is (name, parameters)."""
    n, ps = t
    if isinstance(v, bool):
        return n == "BOOLEAN"
    if isinstance(v, int):
        return n == ("INTEGER" if -2 ** 31 <= v < 2 ** 31 else "BIGINT")
    if isinstance(v, Sym) and v.kind == "int":
        return n in ("INTEGER", "BIGINT")
    if isinstance(v, float):
        return n == "DOUBLE"
    if isinstance(v, str):
        return n == "VARCHAR" and ps.get("max_chars") == len(v)
    if isinstance(v, AStr):
        return n == "VARCHAR"
    if isinstance(v, D):
        _, digits, e = v.as_tuple()
        before, after = max(len(digits) + e, 0), max(-e, 0)
        if n != "DECIMAL":
            return False
        p, s = ps.get("precision"), ps.get("scale")
        # the zero before the point may count as a digit
        return s == after and before <= p - s <= max(before, 1)
    return False


def plain_text(v):
    return "a %s" % {"int": "int"}.get(v.kind, v.kind) if isinstance(v, Sym) else "a str" if isinstance(v, AStr) else repr(v)


def same(a, b):
    return type(a) is type(b) and (a == b if not isinstance(a, float) else repr(a) == repr(b)) and (not isinstance(a, D) or a.as_tuple() == b.as_tuple()) if isinstance(a, (bool, int, float, str, D)) else a == b


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    op = I.import_module("operator").ns
    need = {n for n, *_ in list(UNARY.values()) + list(BINARY.values())} | {"Literal", "Value"}
    gone = [n for n in need if n not in G.by_name]
    if gone:
        raise Broken("no class %s" % ", ".join(sorted(gone)))
    lit = G.by_name["Literal"]
    classes = [c for c in wanted("Value")(G)]
    items = [("", None)]
    for c in classes:
        if c is lit:
            continue
        try:
            items.append((c.name, G.plain(c, "")))
        except Unsupported as e:
            rep.undecide("%s: %s" % (c.name, e))
    items += [("Literal " + l, m) for l, m in G.literals("v") if l != "any a decimal"]

    def literal_of(x, v):
        if not isinstance(x, Obj) or x.cls is not lit:
            return "no literal"
        if not same(v, x.attrs.get("value")):
            return "a literal of %s" % plain_text(x.attrs.get("value")) if isinstance(x.attrs.get("value"), (str, int, float, D, Sym, AStr)) else "another literal"
        t = x.attrs.get("data_type")
        ps = t.attrs["parameters"]
        if not matching(v, (t.attrs["type_name"], ps)):
            return "a literal of type %s(%s)" % (t.attrs["type_name"], ", ".join(str(x) for x in ps.values()))
        return None

    def one(item):
        name, make = item
        out, n, err = [], 0, None

        def check(text, go):
            """go() returns a problem or None; every branch is looked at."""
            nonlocal n, err
            n += 1

            def guarded():
                # an operand that cannot be built is no operand
                try:
                    a = make and make()
                except AbsRaise:
                    return None
                return go(a)

            try:
                for res, _ in W.explore(guarded, limit=2, max_runs=16):
                    if isinstance(res, Unsupported):
                        err = str(res)[:100]
                    elif isinstance(res, AbsRaise):
                        out.append((text, "%s fails: %s" % (text, res.text())))
                    elif res is not None:
                        out.append((text, "%s %s" % (text, res)))
            except Unsupported as e:
                err = str(e)[:100]

        def verdict(r, want, parts, before):
            cls, *fields = want
            if not isinstance(r, Obj) or r.cls is not G.by_name[cls]:
                return "is a %s, not a %s" % (r.cls.name if isinstance(r, Obj) else type(r).__name__, cls)
            for f, v in zip(fields, parts):
                got = r.attrs.get(f)
                if isinstance(v, Obj):
                    if got is not v and shape(got) != shape(v):
                        return "has another operand as its %s" % f
                else:
                    w = literal_of(got, v)
                    if w:
                        return "has %s as its %s" % (w, f)
            for v, s in before:
                if shape(v) != s:
                    return "changes its operands"
            return None

        if make is None:
            wrap = G.by_name["Literal"] and I.import_module("treeno.expression").ns.get("wrap_literal")
            for v in PLAIN:
                check("the literal of %s" % plain_text(v), lambda a, v=v: (lambda w: w and "is " + w)(literal_of(I.call(wrap, (v,)), v)))
            return name, n, out, err
        for o, (cls, f) in UNARY.items():
            def go(a, o=o, cls=cls, f=f):
                b = [(a, shape(a))]
                return verdict(I.call(op[o], (a,)), (cls, f), (a,), b)
            check("%sx for a %s" % (SIGN[o], name), go)
        for o, want in BINARY.items():
            for what in ("value", "self", "plain"):
                for v in (PLAIN if what == "plain" and name == "Field" else (PLAIN[0], "a", True, 2.5, D("1.50")) if what == "plain" else (None,)):
                    def go(a, o=o, want=want, what=what, v=v):
                        b = W.hole("value", "other") if what == "value" else a if what == "self" else v
                        before = [(x, shape(x)) for x in (a, b) if isinstance(x, Obj)]
                        return verdict(I.call(op[o], (a, b)), want, (a, b), before)
                    check("x %s %s for a %s" % (SIGN[o], {"value": "y", "self": "x"}.get(what) or plain_text(v), name), go)
                    if what != "plain":
                        continue

                    def mirrored(a, o=o, want=want, v=v):
                        before = [(a, shape(a))]
                        try:
                            r = I.call(op[o], (v, a))
                        except AbsRaise as e:
                            if e.name == "TypeError":
                                return None  # the plain value has no such operator, nor has the value a mirrored one
                            raise
                        if isinstance(r, Obj) and o in MIRROR and r.cls is G.by_name[MIRROR[o]] and r.attrs.get(want[1]) is a:
                            return verdict(r, (MIRROR[o],) + tuple(want[1:]), (a, v), before)
                        return verdict(r, want, (v, a), before)
                    check("%s %s x for a %s" % (plain_text(v), SIGN[o], name), mirrored)
            if name in ops:
                for other, mk2 in ops.items():
                    def both(a, o=o, want=want, mk2=mk2):
                        b = mk2()
                        before = [(a, shape(a)), (b, shape(b))]
                        return verdict(I.call(op[o], (a, b)), want, (a, b), before)
                    check("x %s y for a %s and a %s" % (SIGN[o], name, other), both)
        return name, n, out, err

    opc = {c.name for c in operator_classes(W, G)}
    ops = {n: m for n, m in items if n in opc}
    for name, n, out, err in pmap(one, items, chunk=1):
        rep.count("kinds_of_values")
        rep.count("operations", n)
        if err:
            rep.undecide("%s: %s" % (name, err))
        for k, m in out:
            rep.finding(k, m)
        rep.sample(name)
    rep.floor("kinds_of_values", 120)
    rep.floor("operations", 10000)
    return "abstract interpretation of every operator on every kind of value, with values and plain Python values on either side"
