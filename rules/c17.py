"""C17: resolving types changes nothing but types."""
from engine import nodes
from engine.absval import AStr, Part, Sym, Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, ClassV, Obj
from engine.nodes import NodeGen, attr_fields
from engine.shape import shape
from engine.world import Broken, World

TYPES = ("unknown", "bigint", "boolean", "varchar", "array")


class Leaves:
    """Nested nodes with columns of a type, which the schema may or may not know."""

    def __init__(self, W, G):
        self.W, self.G = W, G
        self.dtype = None
        W.hole = self.hole
        self.columns = []

    def type_(self):
        b = self.W.I.import_module("treeno.datatypes.builder").ns
        call = self.W.I.call
        if self.dtype == "array":
            return call(b["array"], (), {"dtype": call(b["bigint"], ())})
        return call(b[self.dtype or "unknown"], ())

    def column(self, key):
        kw = {"name": "c " + key}
        if sum(map(ord, key)) % 3 == 0:
            kw["table"] = "t"
        if kw not in self.columns:
            self.columns.append(kw)
        if self.dtype:
            kw = dict(kw, data_type=self.type_())
        return self.G.make("Field", kw)

    def hole(self, kind, key, **attrs):
        if kind == "value":
            return self.column(key)
        t = self.G.make("Table", {"name": "t"})
        if kind == "relation":
            return t
        saved, self.dtype = self.dtype, None
        try:
            return self.G.make("SelectQuery", {"select": [self.G.make("Field", {"name": "c " + key})], "from_": t})
        finally:
            self.dtype = saved

    def schema(self, known=True, foreign=True, source="t"):
        """A schema which knows the columns, and columns of other relations besides."""
        mod = self.W.I.import_module("treeno.relation").ns
        call = self.W.I.call
        t, u = self.G.make("Table", {"name": source}), self.G.make("Table", {"name": "u"})
        fs = []
        if known:
            done = set()
            for kw in self.columns:
                if kw["name"] not in done:
                    done.add(kw["name"])
                    fs.append(call(mod["SchemaField"], (), {"name": kw["name"], "source": t, "data_type": self.type_()}))
        if known and not fs:
            fs.append(call(mod["SchemaField"], (), {"name": "some", "source": t, "data_type": self.type_()}))
        if foreign:
            fs.append(call(mod["SchemaField"], (), {"name": "other", "source": u, "data_type": self.type_()}))
            fs.append(call(mod["SchemaField"], (), {"name": None, "source": u, "data_type": self.type_()}))
        return call(mod["Schema"], (), {"fields": fs, "relation_ids": {source, "u"} if foreign else {source}})


IGNORED = {"data_type", "_column_schema"}


def structure(v, table=False):
    """Node kinds and attributes, without types."""
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return ("enum", v.cls.name, v.attrs.get("_name_", v.attrs.get("name")))
        fs = attr_fields(v.cls)
        if fs is None:
            return ("object", v.cls.name)
        explicit = v.cls.name in ("Cast", "TryCast")
        return (v.cls.module, v.cls.name) + tuple((f.name, structure(v.attrs.get(f.name))) for f in fs if f.name not in IGNORED or explicit)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(structure(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((structure(k), structure(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__,) + tuple(sorted((structure(x) for x in v), key=repr))
    if v is None or isinstance(v, (str, int, float, bool, AStr, Part, Sym)):
        return (type(v).__name__, v)
    return repr(v)


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    res = I.import_module("treeno.datatypes.resolve").ns.get("resolve_fields")
    if res is None:
        raise Broken("treeno.datatypes.resolve has no resolve_fields")
    L = Leaves(W, G)
    rel = W.relation_base
    qb = W.query_base

    items = []
    for i, c in enumerate(G.classes):
        if c.name == "DataType":
            continue
        if not c.is_sub(rel) or c.is_sub(qb):
            # a relation is no expression
            items.append(("fields", i))
        if c.is_sub(rel):
            items.append(("relation", i))

    def attempt(fn):
        try:
            return fn(), None
        except AbsRaise as e:
            return None, e

    def differs(a, b):
        """Where two structures differ."""
        if type(a) is tuple and type(b) is tuple and a and b and len(a) == len(b):
            for x, y in zip(a, b):
                d = differs(x, y)
                if d is not None:
                    return (a[0] + "." if isinstance(a[0], str) and len(a) == 2 and isinstance(a[1], tuple) else "") + d
            return None
        return None if a == b and type(a) is type(b) else ""

    def one(item):
        kind, ci = item
        cls = G.classes[ci]
        out, n = [], 0

        def tables(x):
            """The relations whose stars occur in a tree."""
            if isinstance(x, (list, tuple)):
                return [t for y in x for t in tables(y)]
            if not isinstance(x, Obj) or x.cls.is_enum or x.cls.name == "DataType":
                return []
            t = x.attrs.get("table")
            if x.cls.name in ("Star", "Field") and t is not None and not isinstance(t, Obj):
                return [t]
            return [t for k, y in sorted(x.attrs.items()) if k not in IGNORED for t in tables(y)]

        def judge(label, make, dtype, known, foreign=True, own=False):
            nonlocal n
            L.columns = []
            L.dtype = None
            node, e = attempt(make)
            if e is not None or not isinstance(node, Obj):
                return
            L.dtype = dtype
            ts = tables(node) if own else ["t"]
            if not ts:
                return
            schema = L.schema(known, foreign, ts[0])
            where = "%s(%s) against a schema %s" % (cls.name, label, "of type %s" % dtype if known else "without its columns")
            # a tree that can't be built of columns of the type may be refused
            want, refused = (node, None) if not known else attempt(make)
            before, schema_before = shape(node), shape(schema)
            sql, no_sql = attempt(lambda: W.render(node))
            if kind == "fields":
                got, e = attempt(lambda: I.call(res, (node, schema)))
            else:
                got, e = attempt(lambda: I.invoke(node, "resolve", schema))
            n += 1
            if shape(schema) != schema_before:
                out.append(("%s: the schema is modified" % cls.name, "resolving %s modifies the schema" % where))
            if kind == "fields" and shape(node) != before:
                out.append(("%s: the argument is modified" % cls.name, "resolving the fields of %s modifies it" % where))
            if e is not None:
                if refused is None:
                    out.append(("%s can't be resolved" % cls.name, "resolving %s fails: %s" % (where, e.text())))
                return
            new = got if kind == "fields" else node
            if kind == "relation":
                if not (isinstance(got, Obj) and got.cls.name == "Schema"):
                    out.append(("%s resolves to no schema" % cls.name, "resolving %s gives no schema" % where))
                L.columns, L.dtype = [], None
                old = make()
            else:
                old = node
            d = differs(structure(old), structure(new))
            if d is not None:
                out.append(("%s: the tree changes" % cls.name, "resolving %s changes the tree (%s)" % (where, d.strip(".") or "its kind")))
                return
            if no_sql is None:
                s, e = attempt(lambda: W.render(new))
                if e is not None:
                    out.append(("%s: rendering fails after resolution" % cls.name, "rendering %s once resolved fails: %s" % (where, e.text())))
                elif s != sql:
                    out.append(("%s: the SQL changes" % cls.name, "resolving %s changes its SQL" % where))

        def go():
            nonlocal n
            n = 0
            del out[:]
            for label, make in G.instances(cls, "", 1):
                for t in TYPES if thorough or label == "plain" else TYPES[:2]:
                    judge(label, make, t, True)
                judge(label, make, "bigint", True, False)
                if kind == "fields":
                    judge(label, make, "bigint", True, False, True)
                    judge(label, make, "bigint", True, True, True)
                judge(label, make, "bigint", False)
            return True

        try:
            rs = list(W.explore(go, limit=2, max_runs=8))
        except Unsupported as e:
            return cls.name, kind, "undecided: %s" % str(e)[:90], [], n
        for r, _ in rs:
            if isinstance(r, AbsRaise):
                return cls.name, kind, "undecided: %s" % r.text()[:90], [], n
            if isinstance(r, Unsupported):
                return cls.name, kind, "undecided: %s" % str(r)[:90], [], n
        return cls.name, kind, "judged", list(dict(out).items())[:12], n

    for name, kind, st, out, n in pmap(one, items):
        if st != "judged":
            rep.undecide("%s (%s): %s" % (name, kind, st))
            continue
        rep.count("resolutions", n)
        rep.count("classes_" + kind)
        rep.sample(name)
        for k, m in out:
            rep.finding(k, m)
    rep.floor("classes_fields", 140)
    rep.floor("classes_relation", 10)
    rep.floor("resolutions", 3000)
    return "abstract interpretation of the resolution of every node class: the tree and its SQL are unchanged but for types, the argument and the schema are not written to"
