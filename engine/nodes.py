"""Instances of every node class: each field in each of its shapes, singly and in pairs."""
import ast
import decimal
import itertools

from .absval import AStr, Part, Sym, Unsupported, mk
from .interp import AbsRaise, ClassV, MISSING, Obj
from .models import attr_fields

# the grammar rule which reads what a class renders to
ENTRY = (
    ("AliasedValue", "selectItem"),
    ("AliasedStar", "selectItem"),
    ("Star", "selectItem"),
    ("Query", "query"),
    ("Value", "standaloneExpression"),
    ("Relation", "relation"),
    ("OrderTerm", "sortItem"),
    ("GroupBy", "groupBy"),
    ("Group", "groupingElement"),
    ("Window", "windowSpecification"),
    ("FrameBound", "frameBound"),
    ("When", "whenClause"),
    ("JoinCriteria", "joinCriteria"),
    ("OverflowFiller", "listAggOverflowBehavior"),
    ("DataType", "standaloneType"),
)

# strings of SQL, which may be empty; all other text is a name
FREE_TEXT = ("value", "separator", "filler")

INTERVALS = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]


def S(key, cls=None):
    return mk([Part("S", key, (), None, cls)])


def scalar(kind, key):
    """Any number."""
    return Sym(kind, key)


def name(key):
    """Any non-empty text."""
    return S(key, "name")

MANY = 12  # elements of the long list in the place of each list


class NodeGen:
    def __init__(self, W):
        self.W = W
        self.I = W.I
        self.by_name = {}
        self.classes = []
        self.fixups = {}
        seen = set()
        for m in W.modules:
            mod = W.I.modules.get(m)
            if mod is None:
                continue
            for v in list(mod.ns.values()):
                self._collect(v, m, seen)
        for c in self.classes:
            self.by_name.setdefault(c.name, c)
        for n in ("Value", "Query", "SetQuery", "Relation", "FrameBound", "Group", "JoinCriteria"):
            for m in W.modules:
                mod = W.I.modules.get(m)
                if mod and isinstance(mod.ns.get(n), ClassV) and mod.ns[n].module == m:
                    self.by_name[n] = mod.ns[n]

    def _collect(self, v, m, seen):
        if not isinstance(v, ClassV) or v.module != m or id(v) in seen:
            return
        seen.add(id(v))
        if v.is_sub(self.W.sql_base) and v is not self.W.sql_base and not self.is_abstract(v):
            self.classes.append(v)
        for x in list(v.ns.values()):
            if isinstance(x, ClassV):
                self._collect(x, m, seen)

    @staticmethod
    def is_abstract(c):
        return bool(c.abstract) or any(b.name == "ABC" for b in c.bases)

    def entry(self, cls):
        for n, r in ENTRY:
            b = self.by_name.get(n)
            if b is not None and cls.is_sub(b):
                return r
        return None

    # ------------------------------------------------------------- annotations
    def annotation(self, cls, f):
        a = f.kw.get("annotation")
        if a is None:
            raise Unsupported("field %s.%s has no annotation" % (cls.name, f.name))
        return self.norm(a)

    def norm(self, a):
        if isinstance(a, str):
            a = ast.parse(a, mode="eval").body
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                return self.norm(a.value)
            return ("none",)
        if isinstance(a, ast.Name):
            return ("name", a.id)
        if isinstance(a, ast.Attribute):
            return ("name", a.attr)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            xs = [self.norm(a.left), self.norm(a.right)]
            if ("none",) in xs:
                xs.remove(("none",))
                return ("Optional", xs[0])
            return ("Union", tuple(xs))
        if isinstance(a, ast.Subscript):
            h = self.norm(a.value)[1]
            s = a.slice
            xs = tuple(self.norm(x) for x in (s.elts if isinstance(s, ast.Tuple) else [s]))
            h = {"list": "List", "dict": "Dict", "Sequence": "List", "Iterable": "List"}.get(h, h)
            return (h,) + (xs if h != "Union" else (xs,))
        raise Unsupported("annotation " + ast.unparse(a))

    # ------------------------------------------------------------- shapes of one field
    def variants(self, cls, field, ann, key, depth=0, has_default=False):
        """[(label, make)]; the first is the plain one."""
        k = ann[0]
        sp = self.special(cls, field, key)
        if sp is not None:
            return sp
        if k == "Optional":
            return [("absent", lambda: MISSING)] + self.variants(cls, field, ann[1], key, depth, True)
        if k == "Union":
            return list(itertools.chain(*(self.variants(cls, field, x, key, depth) for x in ann[1])))
        if k == "List":
            el = self.variants(cls, field, ann[1], key + "0", depth + 1)
            el2 = self.variants(cls, field, ann[1], key + "1", depth + 1)
            out = [("one", lambda: [el[0][1]()])]
            out.append(("two", lambda: [el[0][1](), el2[0][1]()]))
            if has_default:
                # what has no default is a list which SQL does not let be empty
                out.append(("none", lambda: []))
            if depth == 0:
                el3 = self.variants(cls, field, ann[1], key + "2", depth + 1)
                out.append(("three", lambda: [el[0][1](), el2[0][1](), el3[0][1]()]))
                long = [self.variants(cls, field, ann[1], "%s_%d" % (key, i), depth + 1)[0][1] for i in range(MANY)]
                out.append(("many", lambda: [m() for m in long]))
                for l, m in el[1:]:
                    out.append(("of " + l, lambda m=m: [m()]))
                    out.append(("with " + l, lambda m=m: [el2[0][1](), m()]))
            return out
        if k == "Dict":
            v = self.variants(cls, field, ann[2], key + "v", depth + 1)
            v2 = self.variants(cls, field, ann[2], key + "w", depth + 1)
            return [
                ("one entry", lambda: {name(key + "k"): v[0][1]()}),
                ("two entries", lambda: {name(key + "k"): v[0][1](), name(key + "l"): v2[0][1]()}),
                ("no entry", lambda: {}),
            ]
        if k != "name":
            raise Unsupported("field type %r" % (ann,))
        n = ann[1]
        I, W = self.I, self.W
        if n == "str":
            if field in FREE_TEXT:
                return [("text", lambda: S(key)), ("empty", lambda: "")]
            return [("text", lambda: name(key))]
        if n == "int":
            return [("number", lambda: scalar("int", key)), ("0", lambda: 0), ("7", lambda: 7)]
        if n == "bool":
            return [("false", lambda: False), ("true", lambda: True)]
        if n == "Any":
            return [("text", lambda: name(key))]
        if n == "Value" or n == "GenericValue":
            out = [("value", lambda: W.hole("value", key))]
            if depth == 0:
                out.append(("query", lambda: W.hole("query", key + "q")))
            return out
        if n == "Query":
            return [("query", lambda: W.hole("query", key))]
        if n == "Relation":
            return [("relation", lambda: W.hole("relation", key)), ("query", lambda: W.hole("query", key + "q"))]
        if n == "DataType":
            return self.dtypes(key)
        if n == "Variable":
            return [("variable", lambda: self.make("Variable", {"name": S(key)}))]
        c = self.by_name.get(n) or self.lookup(cls, n)
        if isinstance(c, ClassV) and self.is_enum(c):
            return [(m, lambda m=m: I.get_attr(c, m)) for m in c.members]
        if isinstance(c, ClassV) and c.is_sub(W.sql_base):
            if self.is_abstract(c):
                subs = [x for x in self.classes if x.is_sub(c)]
            else:
                subs = [c]
            out = []
            for s in subs:
                for l, m in self.instances(s, key + ".", 1 if depth else 2):
                    out.append((s.name + (" " + l if l != "plain" else ""), m))
            if not out:
                raise Unsupported("no instance of " + n)
            return out
        raise Unsupported("field type %s" % n)

    def is_enum(self, c):
        return c.is_enum or any(b.name == "Enum" for b in c.mro)

    def lookup(self, cls, n):
        for c in cls.mro:
            mod = self.I.modules.get(c.module)
            if mod is not None and isinstance(mod.ns.get(n), ClassV):
                return mod.ns[n]
        return None

    def special(self, cls, field, key):
        I, W = self.I, self.W
        n = cls.name
        if n == "Interval" and field == "from_interval":
            return [(x, lambda x=x: x) for x in INTERVALS]
        if n == "Interval" and field == "to_interval":
            return [("absent", lambda: MISSING)] + [(x, lambda x=x: x) for x in INTERVALS]
        if n == "TypeConstructor" and field == "type_name":
            return [(x, lambda x=x: x) for x in ("DATE", "BIGINT", "VARCHAR", "BOOLEAN", "JSON", "IPADDRESS", "UUID", "REAL", "DOUBLE")]
        if field == "with_" or field == "with":
            def nq(k, cols=0):
                kw = {"relation": W.hole("query", k + "q"), "alias": name(k + "a")}
                if cols:
                    kw["column_aliases"] = [name(k + "c%d" % i) for i in range(cols)]
                return self.make("AliasedRelation", kw)

            return [
                ("absent", lambda: MISSING),
                ("one", lambda: [nq(key + "0")]),
                ("two", lambda: [nq(key + "0"), nq(key + "1")]),
                ("three", lambda: [nq(key + "0"), nq(key + "1"), nq(key + "2")]),
                ("with columns", lambda: [nq(key + "0", 2), nq(key + "1", 1)]),
                ("many", lambda: [nq("%s_%d" % (key, i)) for i in range(MANY)]),
                ("none", lambda: []),
            ]
        if n == "Join" and field == "config":
            jt = self.lookup(cls, "JoinType") or I.modules["treeno.relation"].ns["JoinType"]
            out = []
            for m in jt.members:
                kinds = [("", {})] if m == "CROSS" else [
                    ("on", {"criteria": lambda: self.make("JoinOnCriteria", {"constraint": W.hole("value", key + "on")})}),
                    ("using", {"criteria": lambda: self.make("JoinUsingCriteria", {"column_names": [name(key + "u0"), name(key + "u1")]})}),
                    ("natural", {"natural": lambda: True}),
                ]
                for l, kw in kinds:
                    out.append(((m + " " + l).strip(), lambda m=m, kw=kw: self.make("JoinConfig", dict({"join_type": I.get_attr(jt, m)}, **{k: v() for k, v in kw.items()}))))
            return sorted(out, key=lambda x: x[0] != "INNER on")
        if n == "AliasedStar" and field == "star":
            # SQL has a place for aliases only behind the star of a table
            st = lambda t: self.make("Star", {"table": t})
            return [("of a table", lambda: st(name(key + ".table"))), ("of a value", lambda: st(W.hole("value", key + ".table")))]
        if field == "select":
            val = lambda i: W.hole("value", key + str(i))
            star = lambda **k: self.make("Star", k)
            return [
                ("one", lambda: [val(0)]),
                ("two", lambda: [val(0), val(1)]),
                ("three", lambda: [val(0), val(1), val(2)]),
                ("many", lambda: [val("_%d" % i) for i in range(MANY)]),
                ("query", lambda: [W.hole("query", key + "q")]),
                ("star", lambda: [star()]),
                ("aliased", lambda: [self.make("AliasedValue", {"value": val(0), "alias": name(key + "a")}), val(1)]),
                ("table star", lambda: [val(0), star(table=name(key + "t"))]),
                ("aliased star", lambda: [self.make("AliasedStar", {"star": star(table=name(key + "t")), "aliases": [name(key + "a"), name(key + "b")]}), val(1)]),
            ]
        if field == "branches":
            w = lambda i: self.make("When", {"condition": W.hole("value", key + "c%d" % i), "value": W.hole("value", key + "v%d" % i)})
            return [("one", lambda: [w(0)]), ("two", lambda: [w(0), w(1)]), ("three", lambda: [w(0), w(1), w(2)]), ("many", lambda: [w(i) for i in range(MANY)])]
        if field == "exprs" and n == "ValuesQuery":
            val = lambda i: W.hole("value", key + str(i))
            row = lambda i, k: self.make("RowConstructor", {"values": [val("%d%d" % (i, j)) for j in range(k)]})
            return [("one", lambda: [val(0)]), ("two", lambda: [val(0), val(1)]), ("three", lambda: [val(0), val(1), val(2)]), ("many", lambda: [val("_%d" % i) for i in range(MANY)]), ("rows", lambda: [row(0, 2), row(1, 2)]), ("row of one", lambda: [row(0, 1)]), ("query", lambda: [W.hole("query", key + "q")])]
        return None

    def dtypes(self, key):
        b = self.I.modules.get("treeno.datatypes.builder")
        if b is None:
            raise Unsupported("no data type builders")
        call = self.I.call

        def t(n, **kw):
            return lambda: call(b.ns[n], (), {k: v() if callable(v) else v for k, v in kw.items()})

        p, s = scalar("int", key + "p"), scalar("int", key + "s")
        return [
            ("integer", t("integer")),
            ("varchar(n)", t("varchar", max_chars=p)),
            ("decimal(p,s)", t("decimal", precision=18, scale=4)),
            ("timestamp(3) with time zone", t("timestamp", precision=3, timezone=True)),
            ("time", t("time")),
            ("array", t("array", dtype=t("varchar", max_chars=p))),
            ("map", t("map_", from_dtype=t("integer"), to_dtype=t("array", dtype=t("double")))),
            ("row", lambda: call(b.ns["row"], (), {"dtypes": [call(b.ns["bigint"]), call(b.ns["varchar"], (), {"max_chars": 7})]})),
            ("interval", t("interval", from_interval="DAY", to_interval="SECOND")),
        ]

    # ------------------------------------------------------------- nodes
    def make(self, cls, kwargs):
        if isinstance(cls, str):
            c = self.by_name.get(cls)
            if c is None:
                raise Unsupported("no class " + cls)
            cls = c
        return self.I.call(cls, (), {k: v for k, v in kwargs.items() if v is not MISSING})

    def literals(self, key="v"):
        """[(label, make)] of literal values."""
        I, W = self.I, self.W
        e = I.modules.get("treeno.expression") or I.import_module("treeno.expression")
        wrap = e.ns["wrap_literal"]
        D = decimal.Decimal
        vals = [
            ("a number", scalar("int", key)),
            ("a string", S(key)),
            ("a decimal", scalar("dec", key)),
            ("a double", scalar("float", key)),
            ("0", 0),
            ("-7", -7),
            ("12345678901", 12345678901),
            ("true", True),
            ("false", False),
            ("''", ""),
            ("it's", "it's"),
            ("1.50", D("1.50")),
            ("-0.25", D("-0.25")),
            ("5", D("5")),
            ("1E+3", D("1E+3")),
            ("1E-9", D("1E-9")),
            ("2.5", 2.5),
            ("-2.5", -2.5),
            ("1e+300", 1e300),
            ("1e-07", 1e-07),
            ("100.0", 100.0),
        ]
        out = [("%s %s" % (type(v).__name__ if not isinstance(v, (Sym, AStr)) else "any", l), lambda v=v: I.call(wrap, (v,))) for l, v in vals]
        out.append(("null", lambda: e.ns["NULL"]))
        return out

    SKIP = {"data_type"}

    def fields(self, cls):
        """[(init name, [(label, make)])] of a class."""
        out = []
        for f in attr_fields(cls) or ():
            if not f.init or f.name.startswith("_"):
                continue
            if f.name == "data_type" and not self.needs_type(cls):
                continue
            if f.name == "parameters" and cls.name == "DataType":
                continue
            ann = self.annotation(cls, f)
            vs = self.variants(cls, f.name, ann, f.name, 0, f.default is not MISSING)
            if f.default is not MISSING and vs[0][0] != "absent":
                vs = [("absent", lambda: MISSING)] + vs
            out.append((f.name, vs))
        return out

    def needs_type(self, cls):
        return cls.name in ("Cast", "TryCast")

    def accepted(self, cls, fs, base):
        """The plain instance, or the nearest one the constructor accepts."""
        if cls not in self.fixups:
            self.fixups[cls] = self.fixup(cls, fs, base)
        fix = self.fixups[cls]
        if fix is not None:
            vs = dict(fs)[fix[0]]
            base = dict(base, **{fix[0]: [m for l, m in vs if l == fix[1]][0]})
        return base

    def fixup(self, cls, fs, base):
        def ok(kw):
            def go():
                try:
                    self.make(cls, {k: m() for k, m in kw.items()})
                    return True
                except AbsRaise:
                    return False

            return any(r is True for r, _ in self.W.explore(go, limit=2, max_runs=8))

        if not ok(base):
            for n, vs in fs:
                for l, m in vs[1:]:
                    if ok(dict(base, **{n: m})):
                        return n, l
        return None

    # ------------------------------------------------------------- nesting
    def kwargs(self, cls, prefix):
        """({field: maker} of the plain instance, [(field, annotation)]), names prefixed."""
        fs, anns = [], []
        for f in attr_fields(cls) or ():
            if not f.init or f.name.startswith("_") or f.name == "data_type" and not self.needs_type(cls):
                continue
            ann = self.annotation(cls, f)
            vs = self.variants(cls, f.name, ann, prefix + f.name, 0, f.default is not MISSING)
            if f.default is not MISSING and vs[0][0] != "absent":
                vs = [("absent", lambda: MISSING)] + vs
            fs.append((f.name, vs))
            anns.append((f.name, ann))
        base = self.accepted(cls, fs, {n: vs[0][1] for n, vs in fs})
        return base, anns

    def plain(self, cls, prefix):
        """A maker of the plain instance of a class."""
        base, _ = self.kwargs(cls, prefix)
        return lambda: self.make(cls, {k: m() for k, m in base.items()})

    def slots(self, cls, kinds, prefix=""):
        """[(slot label, child maker -> instance maker)]: the places of a class which hold a node of the given kinds."""
        W = self.W
        base, anns = self.kwargs(cls, prefix)
        out = []

        def place(label, field, shape, also=None):
            def fill(child, field=field, shape=shape):
                kw = dict(base)
                kw[field] = lambda: shape(child)
                kw.update(also or {})
                return lambda: self.make(cls, {k: m() for k, m in kw.items()})

            out.append((label, fill))

        hole = lambda k: W.hole("value", prefix + k)
        for n, ann in anns:
            while ann[0] == "Optional":
                ann = ann[1]
            if cls.name == "GroupBy":
                continue
            if n == "branches":
                w = lambda c, v: self.make("When", {"condition": c, "value": v})
                place("branches condition", n, lambda ch: [w(ch(), hole("bv"))])
                place("branches value", n, lambda ch: [w(hole("bc"), ch())])
                continue
            if ann[0] == "Union":
                ann = next((x for x in ann[1] if x in (("name", k) for k in kinds)), ann)
            if ann[0] == "name" and ann[1] in kinds:
                place(n, n, lambda ch: ch())
            elif ann[0] == "name" and ann[1] == "Any" and "Value" in kinds:
                place(n, n, lambda ch: ch())
            elif ann[0] == "List" and ann[1][0] == "name" and ann[1][1] in kinds and n not in ("with_",):
                place(n + " first", n, lambda ch, n=n: [ch(), hole(n + "z")] if "Value" in kinds else [ch()])
                if "Value" in kinds:
                    place(n + " only", n, lambda ch: [ch()])
                    place(n + " last", n, lambda ch, n=n: [hole(n + "y"), ch()])
        return out

    def pair_slots(self, cls, kinds):
        """[(label, (child maker, child maker) -> instance maker)]: every two places of a class which hold nodes of the given kinds."""
        W = self.W
        base, anns = self.kwargs(cls, "")
        scalars, out = [], []

        def put(label, **kw):
            def fill(a, b, kw=kw):
                full = dict(base)
                for f, v in kw.items():
                    full[f] = lambda v=v: v(a, b)
                return lambda: self.make(cls, {k: m() for k, m in full.items()})

            out.append((label, fill))

        for n, ann in anns:
            while ann[0] == "Optional":
                ann = ann[1]
            if cls.name == "GroupBy":
                continue
            if n == "branches":
                put("condition, value", **{n: lambda a, b: [self.make("When", {"condition": a(), "value": b()})]})
                put("value, condition", **{n: lambda a, b: [self.make("When", {"condition": W.hole("value", "bc"), "value": a()}), self.make("When", {"condition": b(), "value": W.hole("value", "bv")})]})
                continue
            if ann[0] == "Union":
                ann = next((x for x in ann[1] if x in (("name", k) for k in kinds)), ann)
            if ann[0] == "name" and (ann[1] in kinds or ann[1] == "Any"):
                scalars.append((n, False))
            elif ann[0] == "List" and ann[1][0] == "name" and ann[1][1] in kinds and n not in ("with_",):
                scalars.append((n, True))
                put("%s of two" % n, **{n: lambda a, b: [a(), b()]})
                put("%s around" % n, **{n: lambda a, b, n=n: [a(), W.hole("value", n + "z"), b()]})
        for i, (x, lx) in enumerate(scalars):
            for y, ly in scalars[i + 1:]:
                put("%s, %s" % (x, y), **{x: (lambda a, b: [a()]) if lx else (lambda a, b: a()), y: (lambda a, b: [b()]) if ly else (lambda a, b: b())})
        return out

    def instances(self, cls, prefix="", width=2, cap=4000):
        """[(label, make)]: every field in every shape, `width` fields at a time away from the plain instance."""
        if cls.name == "Literal":
            return self.literals(prefix + "v")
        if cls.name == "DataType":
            return self.dtypes(prefix)
        if prefix:
            fs = []
            for f in attr_fields(cls) or ():
                if not f.init or f.name.startswith("_") or f.name == "data_type" and not self.needs_type(cls):
                    continue
                vs = self.variants(cls, f.name, self.annotation(cls, f), prefix + f.name, 1, f.default is not MISSING)
                if f.default is not MISSING and vs[0][0] != "absent":
                    vs = [("absent", lambda: MISSING)] + vs
                fs.append((f.name, vs))
        else:
            fs = self.fields(cls)
        out = []

        lifted = {n: [m for l, m in vs if l != "absent"] for n, vs in fs}
        unset = {n: vs[0][1] for n, vs in fs if vs[0][0] == "absent"}

        def add(label, kw):
            if kw.get("null_treatment") is not unset.get("null_treatment") and kw.get("window") is unset.get("window") and "window" in lifted:
                # SQL has a place for the treatment of nulls only in front of OVER
                kw = dict(kw, window=lifted["window"][0])

            def mk_(kw=tuple(kw.items())):
                return self.make(cls, {k: m() for k, m in kw})

            out.append((label, mk_))

        base = {n: vs[0][1] for n, vs in fs}
        base = self.accepted(cls, fs, base)
        add("plain", base)
        if prefix:
            width -= 1
        for r in range(1, width + 1):
            for combo in itertools.combinations(fs, r):
                for pick in itertools.product(*([v for v in vs[1:] if r == 1 or v[0] != "many"] for _, vs in combo)):
                    kw = dict(base)
                    for (n, _), (_, m) in zip(combo, pick):
                        kw[n] = m
                    add(", ".join("%s %s" % (n, l) for (n, _), (l, _) in zip(combo, pick)), kw)
                    if len(out) >= cap:
                        return out
        return out
