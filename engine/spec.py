"""The reference meaning of derivations and of nodes, as neutral trees.

`TreeCanon` reads a derivation of the grammar, `NodeCanon` reads a tree of treeno nodes through its public attributes.
Both produce the same neutral form for constructs SQL defines to mean the same: an omitted default and the
spelled-out default, noise words, redundant parentheses, the two spellings of an operator.
"""
import decimal

from .absval import AStr, Part, Sym, Unsupported, mk, parts_of
from .g4 import PNode, Tok
from .interp import Obj, ClassV, DefaultDict


class Bad(Exception):
    """A node tree that stands for no SQL construct (a bare string where a node belongs, a missing operand...)."""


# ----------------------------------------------------------------------------------------------- text values


def unquote(text, q):
    """The value a quoted token denotes."""
    ps = list(parts_of(text))
    if not (isinstance(ps[0], str) and ps[0].startswith(q) and isinstance(ps[-1], str) and ps[-1].endswith(q)):
        raise Unsupported("unquote %r" % (text,))
    ps[0] = ps[0][1:]
    ps[-1] = ps[-1][:-1]
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p.replace(q + q, q))
        elif isinstance(p, Part) and p.kind == "S" and p.ops and p.ops[-1] == ("replace", q, q + q):
            out.append(Part("S", p.key, p.ops[:-1], None, p.cls))
        elif isinstance(p, Part) and p.kind == "S":
            out.append(Part("S", p.key, p.ops + (("replace", q + q, q),), None, p.cls) if p.cls not in ("ident", "digitident") or ("replace", q, q + q) in p.ops else p)
        else:
            out.append(p)
    return mk(out)


def num(kind, text):
    ps = parts_of(text)
    if isinstance(ps[0], Part) and (len(ps) == 1 or len(ps) == 2 and isinstance(ps[1], str) and ps[0].ops):
        k = ps[0].key
        if ("fixed6",) in ps[0].ops:
            k = ("rounded", k)
        return ("num", kind, k)
    if not isinstance(text, str):
        raise Unsupported("number %r" % (text,))
    return num_value(kind, text)


def num_value(kind, text):
    if kind == "int":
        return ("num", "int", int(text))
    if kind == "dec":
        d = decimal.Decimal(text)
        t = d.as_tuple()
        digits = "".join(map(str, t.digits)) + "0" * max(t.exponent, 0)
        return ("num", "dec", (digits.lstrip("0") or "0", min(t.exponent, 0)))
    return ("num", "double", float(text))


def any_number(t):
    """A number of which only the value matters."""
    if isinstance(t, tuple) and t[:1] == ("neg",):
        return ("neg", any_number(t[1]))
    if not (isinstance(t, tuple) and t[:1] == ("num",)):
        return t
    v = t[2]
    if t[1] == "double" and isinstance(v, float):
        v = num_value("dec", repr(v))[2]
    if t[1] == "int" and isinstance(v, int):
        v = (str(v), 0)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], int):
        digits, e = v
        while e < 0 and digits.endswith("0") and digits != "0":
            digits, e = digits[:-1], e + 1
        v = (digits, 0 if digits == "0" else e)
    return ("num", "any", v)


NUM_KIND = {"INTEGER_VALUE": "int", "DECIMAL_VALUE": "dec", "DOUBLE_VALUE": "double"}

TYPE_SYNONYM = {"INT": "INTEGER", "DEC": "DECIMAL", "NUMERIC": "DECIMAL"}


def upper(v):
    if isinstance(v, str):
        return v.upper()
    from .models import to_upper

    return to_upper(v)


def type_norm(name, params):
    """Neutral form of a data type."""
    name = TYPE_SYNONYM.get(name, name)
    params = tuple(params)
    if name == "DECIMAL":
        params = params + (("num", "int", 38), ("num", "int", 0))[len(params) :]
    if name == "CHAR" and not params:
        params = (("num", "int", 1),)
    return ("type", name, params)


def query(with_, core, orderby, offset, limit):
    if not with_ and not orderby and offset is None and limit is None:
        return core
    if isinstance(core, tuple) and core[:1] == ("q",) and not core[1] and core[3] == () and core[4] is None and core[5] is None:
        core = core[2]
    if core[:1] == ("q",) and with_ and not core[1] and not orderby and offset is None and limit is None:
        return ("q", tuple(with_)) + core[2:]
    return ("q", tuple(with_), core, tuple(orderby), offset, limit)


def call(name, args, **extra):
    ex = tuple(sorted((k, v) for k, v in extra.items() if v not in (None, (), False)))
    return ("call", name, tuple(args), ex)


DEFAULT_FRAME = ("frame", "RANGE", ("unbounded", "PRECEDING"), ("current",))


# ----------------------------------------------------------------------------------------------- derivations


class TreeCanon:
    def __init__(self, grammar):
        self.g = grammar

    # -- access
    def kids(self, n, rule):
        return [c for _, c in n.children if isinstance(c, PNode) and c.rule == rule]

    def kid(self, n, rule):
        k = self.kids(n, rule)
        return k[0] if k else None

    def lab(self, n, label):
        for e, c in n.children:
            if e.label == label:
                return c
        return None

    def labs(self, n, label):
        return [c for e, c in n.children if e.label == label]

    def has(self, n, tok):
        return any(isinstance(c, Tok) and c.type == tok for _, c in n.children)

    def toks(self, n):
        return [c.type for _, c in n.children if isinstance(c, Tok)]

    def tok(self, n, *types):
        for _, c in n.children:
            if isinstance(c, Tok) and c.type in types:
                return c
        return None

    # -- dispatch
    def c(self, n):
        if isinstance(n, Tok):
            return ("tok", n.type, n.text if not self.g.is_keyword(n.type) else None)
        if n.hole is not None:
            h = n.hole
            if isinstance(h, Tok):
                h = h.hole
            return ("hole", h.key if isinstance(h, Part) else h)
        name = n.alt.label or n.rule
        f = getattr(self, "t_" + name, None)
        if f is not None:
            return f(n)
        real = [c for _, c in n.children]
        if len(real) == 1 and isinstance(real[0], PNode):
            return self.c(real[0])
        return ("?", name) + tuple(self.c(x) for x in real)

    def cs(self, ns):
        return tuple(self.c(x) for x in ns)

    def name(self, n):
        """The value of an identifier."""
        t = n.children[0][1]
        if isinstance(t, PNode):  # nonReserved
            t = t.children[0][1]
            return t.text if isinstance(t.text, str) else mk([t.text])
        if t.type == "QUOTED_IDENTIFIER":
            return unquote(t.text, '"')
        if t.type == "BACKQUOTED_IDENTIFIER":
            return unquote(t.text, "`")
        return t.text if isinstance(t.text, str) else mk([t.text])

    def t_unquotedIdentifier(self, n):
        return ("name", self.name(n))

    t_quotedIdentifier = t_backQuotedIdentifier = t_digitIdentifier = t_unquotedIdentifier

    def names(self, n):
        return tuple(self.name(x) for x in self.kids(n, "identifier"))

    def t_qualifiedName(self, n):
        return ("qname", self.names(n))

    def t_columnAliases(self, n):
        return self.names(n)

    def string(self, n):
        if n.alt.label == "unicodeStringLiteral":
            from . import lexemes

            return lexemes.decode_unicode(n)
        return unquote(n.children[0][1].text, "'")

    # -- statements
    def t_query(self, n):
        w = self.kid(n, "with_")
        body = self.c(self.kid(n, "queryNoWith"))
        if w is None:
            return body
        names = [self.c(x) for x in self.kids(w, "namedQuery")]
        if self.has(w, "RECURSIVE"):
            return ("?", "recursive", tuple(names), body)
        if body[:1] == ("q",) and not body[1]:
            return ("q", tuple(names)) + body[2:]
        return query(names, body, (), None, None)

    def t_namedQuery(self, n):
        ca = self.kid(n, "columnAliases")
        return ("named", self.name(self.lab(n, "name")), self.names(ca) if ca else (), self.c(self.kid(n, "query")))

    def t_queryNoWith(self, n):
        core = self.c(self.kid(n, "queryTerm"))
        off = self.lab(n, "offset")
        lim = self.lab(n, "limit")
        limit = None
        if lim is not None:
            limit = None if self.has(lim, "ALL") else self.rowcount(self.kid(lim, "rowCount"))
        if self.has(n, "FETCH"):
            f = self.lab(n, "fetchFirst")
            v = self.rowcount(f) if f is not None else ("num", "int", 1)
            limit = ("fetch", v, "TIES") if self.has(n, "TIES") else v
        return query((), core, self.cs(self.kids(n, "sortItem")), self.rowcount(off) if off is not None else None, limit)

    def rowcount(self, n):
        t = n.children[0][1]
        if t.type == "QUESTION_MARK":
            return ("?", "parameter")
        return num("int", t.text)

    def t_setOperation(self, n):
        op = self.lab(n, "operator").type
        q = self.kid(n, "setQuantifier")
        quant = "ALL" if q is not None and self.has(q, "ALL") else "DISTINCT"
        return ("set", op, quant, self.c(self.lab(n, "left")), self.c(self.lab(n, "right")))

    def t_queryTermDefault(self, n):
        return self.c(n.children[0][1])

    t_queryPrimaryDefault = t_queryTermDefault

    def t_table(self, n):
        return ("tablequery", ("table", self.names(self.kid(n, "qualifiedName"))))

    def t_inlineTable(self, n):
        return ("values", self.cs(self.kids(n, "expression")))

    def t_subquery(self, n):
        return self.c(self.kid(n, "queryNoWith"))

    def t_sortItem(self, n):
        o = self.lab(n, "ordering")
        nl = self.lab(n, "nullOrdering")
        return ("sort", self.c(self.kid(n, "expression")), o.type if o is not None else "ASC", nl.type if nl is not None else "LAST")

    def quant(self, n, default="ALL"):
        q = self.kid(n, "setQuantifier")
        if q is None:
            return default
        return "DISTINCT" if self.has(q, "DISTINCT") else "ALL"

    def t_querySpecification(self, n):
        rels = self.cs(self.kids(n, "relation"))
        g = self.kid(n, "groupBy")
        w = self.lab(n, "where")
        h = self.lab(n, "having")
        return (
            "select",
            self.quant(n),
            self.cs(self.kids(n, "selectItem")),
            rels,
            self.c(w) if w is not None else None,
            self.c(g) if g is not None else None,
            self.c(h) if h is not None else None,
            tuple((self.name(self.lab(d, "name")), self.c(self.kid(d, "windowSpecification"))) for d in self.kids(n, "windowDefinition")),
        )

    def t_groupBy(self, n):
        return ("groupby", self.quant(n), self.cs(self.kids(n, "groupingElement")))

    def t_groupingSet(self, n):
        return ("gset", self.cs(self.kids(n, "expression")))

    def t_rollup(self, n):
        return ("rollup", self.cs(self.kids(n, "expression")))

    def t_cube(self, n):
        return ("cube", self.cs(self.kids(n, "expression")))

    def t_multipleGroupingSets(self, n):
        return ("gsets", self.cs(self.kids(n, "groupingSet")))

    def t_windowSpecification(self, n):
        e = self.lab(n, "existingWindowName")
        f = self.kid(n, "windowFrame")
        frame = self.c(f) if f is not None else DEFAULT_FRAME
        return ("window", self.name(e) if e is not None else None, self.cs(self.labs(n, "partition")), self.cs(self.kids(n, "sortItem")), frame)

    def t_over(self, n):
        w = self.lab(n, "windowName")
        if w is not None:
            return ("window", self.name(w), (), (), DEFAULT_FRAME)
        return self.c(self.kid(n, "windowSpecification"))

    def t_windowFrame(self, n):
        rest = [c for _, c in n.children if not (isinstance(c, PNode) and c.rule == "frameExtent")]
        f = self.c(self.kid(n, "frameExtent"))
        if rest:
            return ("?", "windowFrame", f) + self.cs(rest)
        return f

    def t_frameExtent(self, n):
        end = self.lab(n, "end")
        return ("frame", self.lab(n, "frameType").type, self.c(self.lab(n, "start")), self.c(end) if end is not None else ("current",))

    def t_unboundedFrame(self, n):
        return ("unbounded", self.lab(n, "boundType").type)

    def t_currentRowBound(self, n):
        return ("current",)

    def t_boundedFrame(self, n):
        return ("bounded", self.lab(n, "boundType").type, self.c(self.kid(n, "expression")))

    def t_selectSingle(self, n):
        v = self.c(self.kid(n, "expression"))
        i = self.kid(n, "identifier")
        return ("aliased", v, self.name(i)) if i is not None else v

    def t_selectAll(self, n):
        p = self.kid(n, "primaryExpression")
        ca = self.kid(n, "columnAliases")
        s = ("star", self.c(p) if p is not None else None)
        return ("aliasedstar", s, self.names(ca)) if ca is not None else s

    # -- relations
    def t_joinRelation(self, n):
        left = self.c(self.lab(n, "left"))
        r = self.lab(n, "right")
        if r is None:
            r = self.lab(n, "rightRelation")
        right = self.c(r)
        if self.has(n, "CROSS"):
            return ("join", "CROSS", False, left, right, None)
        jt = self.kid(n, "joinType")
        t = "INNER"
        for x, y in (("LEFT", "LEFT"), ("RIGHT", "RIGHT"), ("FULL", "FULL")):
            if self.has(jt, x):
                t = y
        jc = self.kid(n, "joinCriteria")
        return ("join", t, self.has(n, "NATURAL"), left, right, self.c(jc) if jc is not None else None)

    def t_joinCriteria(self, n):
        if self.has(n, "USING"):
            return ("using", self.names(n))
        return ("on", self.c(self.kid(n, "booleanExpression")))

    def t_relationDefault(self, n):
        return self.c(n.children[0][1])

    def t_sampledRelation(self, n):
        r = self.c(self.kid(n, "patternRecognition"))
        if self.has(n, "TABLESAMPLE"):
            st = self.kid(n, "sampleType").children[0][1].type
            return ("sample", r, st, any_number(self.c(self.lab(n, "percentage"))))
        return r

    def t_aliasedRelation(self, n):
        r = self.c(self.kid(n, "relationPrimary"))
        i = self.kid(n, "identifier")
        if i is None:
            return r
        ca = self.kid(n, "columnAliases")
        return ("alias", r, self.name(i), self.names(ca) if ca is not None else ())

    def t_tableName(self, n):
        t = ("table", self.names(self.kid(n, "qualifiedName")))
        p = self.kid(n, "queryPeriod")
        return ("?", "queryPeriod", t, self.c(p)) if p is not None else t

    def t_subqueryRelation(self, n):
        return ("relq", self.c(self.kid(n, "query")))

    def t_unnest(self, n):
        return ("unnest", self.cs(self.kids(n, "expression")), self.has(n, "ORDINALITY"))

    def t_lateral(self, n):
        return ("lateral", self.c(self.kid(n, "query")))

    def t_parenthesizedRelation(self, n):
        return self.c(self.kid(n, "relation"))

    # -- boolean expressions
    def t_predicated(self, n):
        v = self.c(self.kid(n, "valueExpression"))
        p = self.kid(n, "predicate")
        if p is None:
            return v
        if p.hole is not None:
            raise Unsupported("predicate hole")
        r = getattr(self, "p_" + p.alt.label)(p, v)
        return r

    def p_comparison(self, p, v):
        op = self.kid(p, "comparisonOperator").children[0][1].type
        r = self.c(self.lab(p, "right"))
        if op == "NEQ":
            return ("not", ("op", "EQ", v, r))
        return ("op", op, v, r)

    def p_quantifiedComparison(self, p, v):
        op = self.kid(p, "comparisonOperator").children[0][1].type
        q = self.kid(p, "comparisonQuantifier").children[0][1].type
        return ("quantified", op, "ANY" if q == "SOME" else q, v, self.c(self.kid(p, "query")))

    def neg(self, p, x):
        return ("not", x) if self.has(p, "NOT") else x

    def p_between(self, p, v):
        return self.neg(p, ("between", v, self.c(self.lab(p, "lower")), self.c(self.lab(p, "upper"))))

    def p_inList(self, p, v):
        return self.neg(p, ("in", v, self.cs(self.kids(p, "expression"))))

    def p_inSubquery(self, p, v):
        return self.neg(p, ("inq", v, self.c(self.kid(p, "query"))))

    def p_like(self, p, v):
        e = self.lab(p, "escape")
        return self.neg(p, ("like", v, self.c(self.lab(p, "pattern")), self.c(e) if e is not None else None))

    def p_nullPredicate(self, p, v):
        return self.neg(p, ("isnull", v))

    def p_distinctFrom(self, p, v):
        return self.neg(p, ("distinct", v, self.c(self.lab(p, "right"))))

    def t_logicalNot(self, n):
        return ("not", self.c(self.kid(n, "booleanExpression")))

    def t_and_(self, n):
        return ("and",) + self.cs(self.kids(n, "booleanExpression"))

    def t_or_(self, n):
        return ("or",) + self.cs(self.kids(n, "booleanExpression"))

    # -- value expressions
    def t_arithmeticUnary(self, n):
        o = self.lab(n, "operator").type
        return ("neg" if o == "MINUS" else "pos", self.c(self.kid(n, "valueExpression")))

    def t_arithmeticBinary(self, n):
        return ("op", self.lab(n, "operator").type, self.c(self.lab(n, "left")), self.c(self.lab(n, "right")))

    def t_concatenation(self, n):
        return call("CONCAT", (self.c(self.lab(n, "left")), self.c(self.lab(n, "right"))))

    def t_atTimeZone(self, n):
        return ("?", "atTimeZone", self.c(self.kid(n, "valueExpression")), self.c(self.kid(n, "timeZoneSpecifier")))

    # -- primary expressions
    def t_nullLiteral(self, n):
        return ("null",)

    def t_numericLiteral(self, n):
        return self.number(self.kid(n, "number"))

    def number(self, n):
        t = self.tok(n, "INTEGER_VALUE", "DECIMAL_VALUE", "DOUBLE_VALUE")
        v = num(NUM_KIND[t.type], t.text)
        return ("neg", v) if self.has(n, "MINUS") else v

    def t_booleanLiteral(self, n):
        return ("bool", self.has(self.kid(n, "booleanValue"), "TRUE"))

    def t_stringLiteral(self, n):
        return ("str", self.string(self.kid(n, "string")))

    def t_binaryLiteral(self, n):
        return ("?", "binaryLiteral", n.children[0][1].text)

    def t_parameter(self, n):
        return ("?", "parameter")

    def t_intervalLiteral(self, n):
        return self.interval(self.kid(n, "interval"))

    def interval(self, n):
        s = self.string(self.kid(n, "string"))
        sign = self.lab(n, "sign")
        to = self.lab(n, "to")
        return interval_norm(s, sign is not None and sign.type == "MINUS", self.lab(n, "from_").children[0][1].type, to.children[0][1].type if to is not None else None)

    def t_typeConstructor(self, n):
        s = self.string(self.kid(n, "string"))
        i = self.kid(n, "identifier")
        return ("typector", TYPE_SYNONYM.get(upper(self.name(i)), upper(self.name(i))) if i is not None else "DOUBLE", s)

    def t_rowConstructor(self, n):
        return ("row", self.cs(self.kids(n, "expression")))

    def t_listagg(self, n):
        s = self.kid(n, "string")
        ob = self.kid(n, "listAggOverflowBehavior")
        over = None
        if ob is not None and not self.has(ob, "ERROR"):
            f = self.kid(ob, "string")
            over = (self.string(f) if f is not None else "...", "WITHOUT" if self.has(self.kid(ob, "listaggCountIndication"), "WITHOUT") else "WITH")
        sep = self.string(s) if s is not None else ""
        return call(
            "LISTAGG",
            (self.c(self.kid(n, "expression")),),
            distinct=self.quant(n) == "DISTINCT",
            separator=sep if sep != "" else None,
            overflow=over,
            orderby=self.cs(self.kids(n, "sortItem")),
        )

    def t_functionCall(self, n):
        q = self.names(self.kid(n, "qualifiedName"))
        name = upper(q[0]) if len(q) == 1 else tuple(q)
        args = self.cs(self.kids(n, "expression"))
        if self.has(n, "ASTERISK"):
            l = self.lab(n, "label")
            args = (("star", ("id", self.name(l)) if l is not None else None),)
        f = self.kid(n, "filter_")
        o = self.kid(n, "over")
        nt = self.kid(n, "nullTreatment")
        pm = self.kid(n, "processingMode")
        return call(
            name,
            args,
            distinct=self.quant(n) == "DISTINCT",
            orderby=self.cs(self.kids(n, "sortItem")),
            filter=self.c(self.kid(f, "booleanExpression")) if f is not None else None,
            over=self.c(o) if o is not None else None,
            nulls="IGNORE" if nt is not None and self.has(nt, "IGNORE") else None,
            processing=pm.children[0][1].type if pm is not None else None,
        )

    def t_lambda_(self, n):
        return ("lambda", self.names(n), self.c(self.kid(n, "expression")))

    def t_subqueryExpression(self, n):
        return ("subquery", self.c(self.kid(n, "query")))

    def t_exists(self, n):
        return ("exists", self.c(self.kid(n, "query")))

    def whens(self, n):
        return tuple((self.c(self.lab(w, "condition")), self.c(self.lab(w, "result"))) for w in self.kids(n, "whenClause"))

    def t_whenClause(self, n):
        return ("when", self.c(self.lab(n, "condition")), self.c(self.lab(n, "result")))

    def t_simpleCase(self, n):
        e = self.lab(n, "elseExpression")
        return ("case", self.c(self.lab(n, "operand")), self.whens(n), self.c(e) if e is not None else None)

    def t_searchedCase(self, n):
        e = self.lab(n, "elseExpression")
        return ("case", None, self.whens(n), self.c(e) if e is not None else None)

    def t_cast(self, n):
        return ("cast", "TRY_CAST" if self.has(n, "TRY_CAST") else "CAST", self.c(self.kid(n, "expression")), self.c(self.kid(n, "type_")))

    def t_arrayConstructor(self, n):
        return ("array", self.cs(self.kids(n, "expression")))

    def t_subscript(self, n):
        return ("subscript", self.c(self.lab(n, "value")), self.c(self.lab(n, "index")))

    def t_columnReference(self, n):
        return ("id", self.name(self.kid(n, "identifier")))

    def t_dereference(self, n):
        return ("deref", self.c(self.lab(n, "base")), self.name(self.lab(n, "fieldName")))

    def t_specialDateTimeFunction(self, n):
        p = self.lab(n, "precision")
        return call(self.lab(n, "name").type, (num("int", p.text),) if p is not None else ())

    def t_currentUser(self, n):
        return call(n.children[0][1].type, ())

    t_currentCatalog = t_currentSchema = t_currentPath = t_currentUser

    def t_normalize(self, n):
        f = self.kid(n, "normalForm")
        form = f.children[0][1].type if f is not None else "NFC"
        return call("NORMALIZE", (self.c(self.kid(n, "valueExpression")), ("form", form)))

    def t_parenthesizedExpression(self, n):
        return self.c(self.kid(n, "expression"))

    # -- types
    def t_rowType(self, n):
        return type_norm("ROW", self.cs(self.kids(n, "rowField")))

    def t_rowField(self, n):
        i = self.kid(n, "identifier")
        t = self.c(self.kid(n, "type_"))
        return ("field", self.name(i), t) if i is not None else t

    def t_intervalType(self, n):
        to = self.lab(n, "to")
        return ("type", "INTERVAL", (self.lab(n, "from_").children[0][1].type, to.children[0][1].type if to is not None else None))

    def t_dateTimeType(self, n):
        p = self.lab(n, "precision")
        return ("type", self.lab(n, "base").type, (self.c(p) if p is not None else None, self.has(n, "WITH")))

    def t_typeParameter(self, n):
        t = n.children[0][1]
        if isinstance(t, PNode):
            return self.c(t)
        return num("int", t.text)

    def t_doublePrecisionType(self, n):
        return type_norm("DOUBLE", ())

    def t_legacyArrayType(self, n):
        return type_norm("ARRAY", self.cs(self.kids(n, "type_")))

    def t_legacyMapType(self, n):
        return type_norm("MAP", self.cs(self.kids(n, "type_")))

    def t_arrayType(self, n):
        t = type_norm("ARRAY", self.cs(self.kids(n, "type_")))
        i = self.tok(n, "INTEGER_VALUE")
        return ("?", "sizedArray", t, num("int", i.text)) if i is not None else t

    def t_genericType(self, n):
        ident = upper(self.name(self.kid(n, "identifier")))
        params = self.cs(self.kids(n, "typeParameter"))
        if ident in ("TIME", "TIMESTAMP") and len(params) <= 1:
            return ("type", ident, (params[0] if params else None, False))
        return type_norm(ident, params)

    def t_listAggOverflowBehavior(self, n):
        f = self.kid(n, "string")
        if self.has(n, "ERROR"):
            return ("overflow", None)
        return ("overflow", (self.string(f) if f is not None else "...", "WITHOUT" if self.has(self.kid(n, "listaggCountIndication"), "WITHOUT") else "WITH"))

    def t_standaloneExpression(self, n):
        return self.c(n.children[0][1])

    t_standaloneType = t_standaloneExpression


def interval_norm(value, negative, from_, to):
    """The sign before the string and the sign inside it fold together."""
    ps = list(parts_of(value))
    if ps and isinstance(ps[0], str) and ps[0][:1] in ("+", "-"):
        if ps[0][0] == "-":
            negative = not negative
        value = mk([ps[0][1:]] + ps[1:])
    elif ps and isinstance(ps[0], Part):
        f = [o for o in ps[0].ops if o[0] == "lstrip"]
        for o in f:
            if o[1] == "-":
                negative = not negative
    return ("interval", negative, strip_sign(value), from_, to)


def strip_sign(v):
    ps = list(parts_of(v))
    if ps and isinstance(ps[0], Part):
        p = ps[0]
        ps[0] = Part(p.kind, p.key, tuple(o for o in p.ops if not (o[0] == "lstrip" and o[1] in "+-")), p.opts, p.cls)
        return mk(ps)
    return v


# ----------------------------------------------------------------------------------------------- nodes


class NodeCanon:
    """Neutral form of a node, read through the documented attributes of its class."""

    def __init__(self, I):
        self.I = I
        self.fn_base = I.import_module("treeno.functions.base").ns.get("Function")
        self.value_base = I.import_module("treeno.expression").ns.get("Value")
        self.query_base = I.import_module("treeno.relation").ns.get("Query")
        self.agg_base = I.import_module("treeno.functions.aggregate").ns.get("AggregateFunction")
        self.fnames = I.import_module("treeno.functions.base").ns.get("FUNCTIONS_TO_NAMES")

    def a(self, n, name):
        d = n.attrs
        if name in d:
            return d[name]
        v = self.I.get_attr(n, name, default=Bad)
        if v is Bad:
            raise Bad("%s has no %s" % (n.cls.name, name))
        return v

    def c(self, n):
        if n is None:
            raise Bad("None where a node belongs")
        if isinstance(n, (str, AStr)):
            raise Bad("the bare string %r where a node belongs" % (n,))
        if isinstance(n, (list, tuple, dict)):
            raise Bad("a %s where a node belongs" % type(n).__name__)
        if not isinstance(n, Obj):
            raise Bad("%r where a node belongs" % (n,))
        if n.hole is not None:
            return ("hole", n.hole)
        f = getattr(self, "n_" + n.cls.name, None)
        if f is not None:
            r = f(n)
        elif self.fn_base is not None and n.cls.is_sub(self.fn_base):
            r = self.function(n)
        else:
            raise Unsupported("no reference meaning for " + n.cls.name)
        return r

    def v(self, n):
        """An operand: queries among values are scalar subqueries."""
        r = self.c(n)
        if isinstance(n, Obj) and self.query_base is not None and n.cls.is_sub(self.query_base):
            return ("subquery", r)
        return r

    def vs(self, l):
        if l is None:
            return ()
        if not isinstance(l, (list, tuple)):
            raise Bad("%r where a list belongs" % (l,))
        return tuple(self.v(x) for x in l)

    def cs(self, l):
        if l is None:
            return ()
        if not isinstance(l, (list, tuple)):
            raise Bad("%r where a list belongs" % (l,))
        return tuple(self.c(x) for x in l)

    def name(self, s):
        if not isinstance(s, (str, AStr)):
            raise Bad("%r where a name belongs" % (s,))
        return s

    def names(self, l):
        if l is None:
            return ()
        if isinstance(l, (str, AStr)) or not isinstance(l, (list, tuple)):
            raise Bad("%r where a list of names belongs" % (l,))
        return tuple(self.name(x) for x in l)

    def enum(self, e):
        if isinstance(e, Obj) and "name" in e.attrs:
            return e.attrs["name"]
        n = self.I.get_attr(e, "name", default=None) if isinstance(e, Obj) else None
        if not isinstance(n, str):
            raise Bad("%r where an enumeration member belongs" % (e,))
        return n

    def opt(self, x):
        return None if x is None else self.v(x)

    def integer(self, x):
        if x is None:
            return None
        return self.number(x)

    def number(self, v):
        if isinstance(v, bool):
            raise Bad("a boolean where a number belongs")
        if isinstance(v, int):
            return ("num", "int", v) if v >= 0 else ("neg", ("num", "int", -v))
        if isinstance(v, decimal.Decimal):
            s = "{:f}".format(v)
            if s.startswith("-"):
                return ("neg", num_value("dec", s[1:]))
            return num_value("dec", s)
        if isinstance(v, float):
            import math

            if math.copysign(1.0, v) < 0:
                return ("neg", ("num", "double", -v))
            return ("num", "double", v)
        if isinstance(v, Sym):
            if isinstance(v.key, tuple) and v.key and v.key[0] == "neg":
                inner = v.key[1]
                inner = inner if isinstance(inner, Sym) else Sym(v.kind, inner)
                r = self.number(inner)
                return r[1] if r[0] == "neg" else ("neg", r)
            k = {"int": "int", "dec": "dec", "float": "double"}.get(v.kind)
            if k is None:
                raise Unsupported("symbolic %r" % (v,))
            key = v.key
            if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], AStr) and key[0] in ("int", "float", "dec"):
                ps = list(key[1].parts)
                sign = False
                while ps and isinstance(ps[0], str) and ps[0].strip() in ("-", "+", ""):
                    sign ^= ps[0].strip() == "-"
                    ps.pop(0)
                if len(ps) == 1 and isinstance(ps[0], Part) and ps[0].kind == "N" and not ps[0].ops:
                    r = ("num", k, ps[0].key)
                    return ("neg", r) if sign else r
            return ("num", k, key)
        if isinstance(v, (str, AStr)) or v is None or isinstance(v, (list, dict)):
            raise Bad("%r where a number belongs" % (v,))
        raise Unsupported("number %r" % (v,))

    # -- values
    def n_Literal(self, n):
        v = self.a(n, "value")
        if v is None:
            return ("null",)
        if isinstance(v, bool):
            return ("bool", v)
        if isinstance(v, (str, AStr)):
            return ("str", v)
        return self.number(v)

    def base(self, t):
        if t is None:
            return None
        if isinstance(t, (str, AStr)):
            return ("id", t)
        return self.v(t)

    def n_Field(self, n):
        t = self.a(n, "table")
        nm = self.name(self.a(n, "name"))
        return ("id", nm) if t is None else ("deref", self.base(t), nm)

    def n_Variable(self, n):
        return ("id", self.name(self.a(n, "name")))

    def n_AliasedValue(self, n):
        return ("aliased", self.v(self.a(n, "value")), self.name(self.a(n, "alias")))

    def n_Star(self, n):
        return ("star", self.base(self.a(n, "table")))

    def n_AliasedStar(self, n):
        return ("aliasedstar", self.c(self.a(n, "star")), self.names(self.a(n, "aliases")))

    def n_Lambda(self, n):
        ins = self.a(n, "inputs")
        names = []
        for i in ins:
            if not isinstance(i, Obj):
                raise Bad("%r among the lambda's inputs" % (i,))
            names.append(self.name(self.a(i, "name")))
        return ("lambda", tuple(names), self.v(self.a(n, "expr")))

    def n_Positive(self, n):
        return ("pos", self.v(self.a(n, "value")))

    def n_Negative(self, n):
        return ("neg", self.v(self.a(n, "value")))

    def n_Not(self, n):
        return ("not", self.v(self.a(n, "value")))

    def bin(self, op, n):
        return ("op", op, self.v(self.a(n, "left")), self.v(self.a(n, "right")))

    def n_Add(self, n):
        return self.bin("PLUS", n)

    def n_Minus(self, n):
        return self.bin("MINUS", n)

    def n_Multiply(self, n):
        return self.bin("ASTERISK", n)

    def n_Divide(self, n):
        return self.bin("SLASH", n)

    def n_Modulus(self, n):
        return self.bin("PERCENT", n)

    def n_Equal(self, n):
        return self.bin("EQ", n)

    def n_NotEqual(self, n):
        return ("not", self.bin("EQ", n))

    def n_GreaterThan(self, n):
        return self.bin("GT", n)

    def n_GreaterThanOrEqual(self, n):
        return self.bin("GTE", n)

    def n_LessThan(self, n):
        return self.bin("LT", n)

    def n_LessThanOrEqual(self, n):
        return self.bin("LTE", n)

    def n_And(self, n):
        return ("and", self.v(self.a(n, "left")), self.v(self.a(n, "right")))

    def n_Or(self, n):
        return ("or", self.v(self.a(n, "left")), self.v(self.a(n, "right")))

    def n_IsNull(self, n):
        return ("isnull", self.v(self.a(n, "value")))

    def n_DistinctFrom(self, n):
        return ("distinct", self.v(self.a(n, "left")), self.v(self.a(n, "right")))

    def n_Between(self, n):
        return ("between", self.v(self.a(n, "value")), self.v(self.a(n, "lower")), self.v(self.a(n, "upper")))

    def n_Array(self, n):
        return ("array", self.vs(self.a(n, "values")))

    def n_InQuery(self, n):
        return ("inq", self.v(self.a(n, "value")), self.c(self.a(n, "query")))

    def n_InList(self, n):
        return ("in", self.v(self.a(n, "value")), self.vs(self.a(n, "exprs")))

    def n_Like(self, n):
        return ("like", self.v(self.a(n, "value")), self.v(self.a(n, "pattern")), self.opt(self.a(n, "escape")))

    def n_TypeConstructor(self, n):
        t = self.a(n, "type_name")
        return ("typector", TYPE_SYNONYM.get(upper(t), upper(t)), self.name(self.a(n, "value")))

    def n_RowConstructor(self, n):
        return ("row", self.vs(self.a(n, "values")))

    def n_Interval(self, n):
        to = self.a(n, "to_interval")
        return interval_norm(self.name(self.a(n, "value")), False, upper(self.name(self.a(n, "from_interval"))), upper(to) if to is not None else None)

    def n_Cast(self, n):
        return ("cast", "CAST", self.v(self.a(n, "expr")), self.dtype(self.a(n, "data_type")))

    def n_TryCast(self, n):
        return ("cast", "TRY_CAST", self.v(self.a(n, "expr")), self.dtype(self.a(n, "data_type")))

    def n_Subscript(self, n):
        return ("subscript", self.v(self.a(n, "value")), self.v(self.a(n, "index")))

    def n_When(self, n):
        return ("when", self.v(self.a(n, "condition")), self.v(self.a(n, "value")))

    def n_Case(self, n):
        e = self.a(n, "else_")
        if e is not None:
            e = self.v(self.a(e, "value")) if isinstance(e, Obj) and e.cls.name == "Else" else self.v(e)
        bs = []
        for b in self.a(n, "branches"):
            r = self.c(b)
            bs.append(r[1:] if r[0] == "when" else r)
        return ("case", self.opt(self.a(n, "value")), tuple(bs), e)

    # -- functions
    def extras(self, n):
        ex = {}
        if self.agg_base is not None and n.cls.is_sub(self.agg_base):
            ob = self.a(n, "orderby")
            f = self.a(n, "filter_")
            w = self.a(n, "window")
            nt = self.enum(self.a(n, "null_treatment"))
            ex = dict(
                orderby=self.cs(ob),
                filter=self.v(f) if f is not None else None,
                over=self.c(w) if w is not None else None,
                nulls=nt if nt != "RESPECT" else None,
            )
            if "distinct" in n.attrs:
                ex["distinct"] = n.attrs["distinct"]
            for q in ("set_quantifier", "quantifier"):
                if q in n.attrs and n.attrs[q] is not None:
                    ex["distinct"] = self.enum(n.attrs[q]) == "DISTINCT"
        return ex

    def fields(self, cls):
        from .models import attr_fields

        return attr_fields(cls)

    def fname(self, n):
        nm = n.cls.lookup("FN_NAME")
        if not isinstance(nm, str):
            raise Bad("%s has no function name" % n.cls.name)
        return nm

    SKIP = {"orderby", "filter_", "window", "null_treatment", "data_type", "distinct", "set_quantifier", "quantifier"}

    def function(self, n):
        args = []
        for f in self.fields(n.cls):
            if f.name in self.SKIP:
                continue
            v = self.a(n, f.name)
            if v is None:
                continue
            if isinstance(v, (list, tuple)):
                args += self.vs(v)
            elif isinstance(v, Obj) and v.hole is None and "name" in v.attrs and "value" in v.attrs and len(v.attrs) <= 4 and self.is_enum(v):
                args.append(("form", self.enum(v)))
            elif isinstance(v, (int, Sym)) and not isinstance(v, bool):
                args.append(self.number(v))
            else:
                args.append(self.v(v))
        return call(self.fname(n), args, **self.extras(n))

    def is_enum(self, v):
        return any(c.name == "Enum" for c in v.cls.mro)

    def n_ApproxPercentile(self, n):
        w = self.a(n, "weight")
        args = [self.v(self.a(n, "value"))] + ([self.v(w)] if w is not None else []) + [self.v(self.a(n, "percentage"))]
        return call(self.fname(n), args, **self.extras(n))

    def special(self, n, default):
        p = self.a(n, "precision")
        if p == default and not isinstance(p, bool):
            return call(self.fname(n), ())
        return call(self.fname(n), (self.number(p),))

    def n_CurrentTime(self, n):
        return self.special(n, 3)

    n_CurrentTimestamp = n_LocalTime = n_LocalTimestamp = n_CurrentTime

    def n_Normalize(self, n):
        f = self.a(n, "normal_form")
        return call(self.fname(n), (self.v(self.a(n, "string")), ("form", self.enum(f) if f is not None else "NFC")))

    def n_ListAgg(self, n):
        ex = self.extras(n)
        o = self.a(n, "overflow_filler")
        if o is not None:
            ex["overflow"] = self.c(o)[1]
        s = self.name(self.a(n, "separator"))
        ex["separator"] = s if s != "" else None
        return call(self.fname(n), (self.v(self.a(n, "value")),), **ex)

    def n_OverflowFiller(self, n):
        return ("overflow", (self.name(self.a(n, "filler")), self.enum(self.a(n, "count_indication")).replace("_COUNT", "")))

    # -- ordering, grouping, windows
    def n_OrderTerm(self, n):
        return ("sort", self.v(self.a(n, "value")), self.enum(self.a(n, "order_type")), self.enum(self.a(n, "null_order")))

    def n_GroupBy(self, n):
        return ("groupby", self.enum(self.a(n, "groupby_quantifier")), self.cs(self.a(n, "groups")))

    def n_GroupingSet(self, n):
        return ("gset", self.vs(self.a(n, "values")))

    def n_GroupingSetList(self, n):
        return ("gsets", self.cs(self.a(n, "groups")))

    def n_Cube(self, n):
        return ("cube", self.vs(self.a(n, "values")))

    def n_Rollup(self, n):
        return ("rollup", self.vs(self.a(n, "values")))

    def n_Window(self, n):
        p = self.a(n, "parent_window")
        return (
            "window",
            self.name(p) if p is not None else None,
            self.vs(self.a(n, "partitions")),
            self.cs(self.a(n, "orderby")),
            ("frame", self.enum(self.a(n, "frame_type")), self.c(self.a(n, "start_bound")), self.c(self.a(n, "end_bound"))),
        )

    def n_BoundedFrameBound(self, n):
        return ("bounded", self.enum(self.a(n, "bound_type")), self.v(self.a(n, "offset")))

    def n_UnboundedFrameBound(self, n):
        return ("unbounded", self.enum(self.a(n, "bound_type")))

    def n_CurrentFrameBound(self, n):
        return ("current",)

    # -- queries and relations
    def q(self, n, core):
        w = self.a(n, "with_")
        with_ = []
        if w:
            if not isinstance(w, (list, tuple)):
                raise Bad("%r where the named queries belong" % (w,))
            for x in w:
                if not isinstance(x, Obj):
                    raise Bad("%r among the named queries" % (x,))
                if x.hole is not None:
                    with_.append(("hole", x.hole))
                    continue
                rel = self.a(x, "relation")
                with_.append(("named", self.name(self.a(x, "alias")), self.names(self.a(x, "column_aliases")), self.c(rel)))
        ob = self.a(n, "orderby")
        return query(with_, core, self.cs(ob), self.integer(self.a(n, "offset")), self.limit(self.a(n, "limit")))

    def limit(self, l):
        if isinstance(l, Obj):
            raise Unsupported("limit object")
        return self.integer(l)

    def set_query(self, op, n):
        return self.q(n, ("set", op, self.enum(self.a(n, "set_quantifier")), self.c(self.a(n, "left_query")), self.c(self.a(n, "right_query"))))

    def n_IntersectQuery(self, n):
        return self.set_query("INTERSECT", n)

    def n_ExceptQuery(self, n):
        return self.set_query("EXCEPT", n)

    def n_UnionQuery(self, n):
        return self.set_query("UNION", n)

    def n_SelectQuery(self, n):
        f = self.a(n, "from_")
        g = self.a(n, "groupby")
        w = self.a(n, "window")
        if f is not None and isinstance(f, (list, tuple)):
            rels = tuple(self.rel(x) for x in f)
        else:
            rels = (self.rel(f),) if f is not None else ()
        wins = ()
        if w:
            if isinstance(w, dict):
                wins = tuple((self.name(k), self.c(v)) for k, v in w.items())
            else:
                raise Unsupported("window clause shape")
        return self.q(
            n,
            (
                "select",
                self.enum(self.a(n, "select_quantifier")),
                self.vs(self.a(n, "select")),
                rels,
                self.opt(self.a(n, "where")),
                self.c(g) if g is not None else None,
                self.opt(self.a(n, "having")),
                wins,
            ),
        )

    def n_TableQuery(self, n):
        return self.q(n, ("tablequery", self.c(self.a(n, "table"))))

    def n_ValuesQuery(self, n):
        return self.q(n, ("values", self.vs(self.a(n, "exprs"))))

    def rel(self, n):
        r = self.c(n)
        if isinstance(n, Obj) and n.hole is None and self.query_base is not None and n.cls.is_sub(self.query_base):
            return ("relq", r)
        if isinstance(n, Obj) and n.hole is not None and self.query_base is not None and n.cls.is_sub(self.query_base):
            return ("relq", r)
        return r

    def n_Table(self, n):
        parts = [self.a(n, "catalog"), self.a(n, "schema"), self.a(n, "name")]
        return ("table", tuple(self.name(p) for p in parts if p is not None))

    def n_AliasedRelation(self, n):
        return ("alias", self.rel(self.a(n, "relation")), self.name(self.a(n, "alias")), self.names(self.a(n, "column_aliases")))

    def n_Join(self, n):
        cfg = self.a(n, "config")
        t = self.enum(self.a(cfg, "join_type"))
        cr = self.a(cfg, "criteria")
        return (
            "join",
            {"OUTER": "FULL"}.get(t, t),
            bool(self.a(cfg, "natural")),
            self.rel(self.a(n, "left_relation")),
            self.rel(self.a(n, "right_relation")),
            self.c(cr) if cr is not None else None,
        )

    def n_JoinUsingCriteria(self, n):
        return ("using", self.names(self.a(n, "column_names")))

    def n_JoinOnCriteria(self, n):
        return ("on", self.v(self.a(n, "constraint")))

    def n_Unnest(self, n):
        return ("unnest", self.vs(self.a(n, "arrays")), bool(self.a(n, "with_ordinality")))

    def n_Lateral(self, n):
        return ("lateral", self.c(self.a(n, "subquery")))

    def n_TableSample(self, n):
        return ("sample", self.rel(self.a(n, "relation")), self.enum(self.a(n, "sample_type")), any_number(self.v(self.a(n, "percentage"))))

    # -- types
    ORDER = {
        "DECIMAL": ("precision", "scale"),
        "VARCHAR": ("max_chars",),
        "CHAR": ("max_chars",),
        "ARRAY": ("dtype",),
        "MAP": ("from_dtype", "to_dtype"),
        "QDIGEST": ("dtype",),
    }

    def param(self, x):
        if isinstance(x, Obj):
            return self.dtype(x)
        return self.number(x)

    def n_DataType(self, n):
        return self.dtype(n)

    def dtype(self, t):
        if not isinstance(t, Obj):
            raise Bad("%r where a data type belongs" % (t,))
        if t.hole is not None:
            return ("hole", t.hole)
        name = self.a(t, "type_name")
        ps = self.a(t, "parameters")
        if not isinstance(ps, dict):
            raise Unsupported("type parameters")
        ps = dict(ps)
        if name in ("TIME", "TIMESTAMP"):
            p = ps.pop("precision", None)
            tz = ps.pop("timezone", False)
            if ps:
                raise Bad("unexpected parameters of " + name)
            if not isinstance(tz, bool):
                raise Unsupported("symbolic time zone flag")
            return ("type", name, (self.number(p) if p is not None else None, tz))
        if name == "INTERVAL":
            return ("type", "INTERVAL", (ps.get("from_interval"), ps.get("to_interval")))
        if name == "ROW":
            out = []
            d = ps.get("dtypes")
            if not isinstance(d, (list, tuple)):
                raise Bad("ROW without a list of types")
            names = ps.get("names")
            for i, x in enumerate(d):
                out.append(self.dtype(x))
            return type_norm("ROW", out)
        order = self.ORDER.get(name, ())
        out = []
        for k in order:
            if k in ps and ps[k] is not None:
                out.append(self.param(ps[k]))
            ps.pop(k, None)
        if ps:
            raise Bad("unexpected parameters %s of %s" % (sorted(map(str, ps)), name))
        return type_norm(name, out)


# ------------------------------------------------------------------------------------- equal by definition

DEFAULT_PRECISION = {"CURRENT_TIME": 3, "CURRENT_TIMESTAMP": 3, "LOCALTIME": 3, "LOCALTIMESTAMP": 3}


def facts_of(run):
    """Symbolic numbers which the branch taken fixes to a constant."""
    out = {}
    for k, v in run.memo.items():
        if v is True and isinstance(k, tuple) and len(k) == 3 and k[0] == "eq":
            a, b = k[1:]
            if isinstance(a, Sym):
                a, b = b, a
            if isinstance(b, Sym) and isinstance(a, (int, float)) and not isinstance(a, bool):
                out[b.key] = a
            for x, y in ((a, b), (b, a)):
                if isinstance(x, AStr) and y == "":
                    out[x] = ""
        if v is False and isinstance(k, tuple) and len(k) == 2 and k[0] == "empty" and isinstance(k[1], AStr):
            out[k[1]] = ""
    return out


def normal(t, facts=None):
    """The neutral form with what SQL defines to be the same written in one way."""
    if isinstance(t, AStr) and facts:
        return facts.get(t, t)
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("num",) and facts and len(t) == 3:
        try:
            return ("num", t[1], facts.get(t[2], t[2]))
        except TypeError:
            return t
    t = tuple(y for y in (normal(x, facts) for x in t) if y != ("separator", ""))
    if t[:1] == ("not",) and len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] == ("op",) and t[1][1] in ("EQ", "NEQ"):
        return ("op", "NEQ" if t[1][1] == "EQ" else "EQ") + t[1][2:]
    if t[:1] == ("call",) and t[1] in DEFAULT_PRECISION and t[2] == (("num", "int", DEFAULT_PRECISION[t[1]]),):
        return t[:2] + ((),) + t[3:]
    return t
