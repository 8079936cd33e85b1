"""C16: equality of nodes holds exactly for identical trees."""
import decimal
import zlib

from engine import nodes
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import MISSING, AbsRaise, ClassV, Nat, Obj
from engine.nodes import NodeGen, attr_fields
from engine.world import Broken, World


class Leaves:
    """Nested nodes and scalars which nothing but their key tells apart."""

    def __init__(self, W, G):
        self.W, self.G = W, G
        W.hole = self.hole
        nodes.S = lambda key, cls=None: "s " + key
        nodes.scalar = self.sym

    def hole(self, kind, key, **attrs):
        if kind == "value":
            return self.G.make("Field", {"name": "v " + key})
        t = self.G.make("Table", {"name": "t " + key})
        if kind == "relation":
            return t
        return self.G.make("TableQuery", {"table": t})

    @staticmethod
    def sym(kind, key):
        n = 10000 + zlib.crc32(repr(key).encode()) % 80000
        return {"int": n, "float": n + 0.5, "dec": decimal.Decimal(n) / 4}.get(kind, n)


def content(v):
    """What a value consists of, as the property understands it."""
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return ("enum", v.cls.name, v.attrs.get("_name_", v.attrs.get("name")))
        fs = attr_fields(v.cls)
        if fs is None:
            return ("object", id(v))
        return ("node", v.cls.module, v.cls.name) + tuple((f.name, content(v.attrs.get(f.name))) for f in fs)
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(content(x) for x in v)
    if isinstance(v, dict):
        return ("dict", frozenset((content(k), content(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(content(x) for x in v))
    if v is None or isinstance(v, (str, int, float, bool, decimal.Decimal)):
        return v
    raise Unsupported("content of %r" % (v,))


def places(W, o, path=(), depth=4, seen=()):
    """[(path, holder, key)]: every attribute and element within a node."""
    out = []
    if depth < 0 or id(o) in seen:
        return out
    seen = seen + (id(o),)
    if isinstance(o, Obj):
        if o.cls.is_enum or attr_fields(o.cls) is None:
            return out
        items = [(f.name, o.attrs, f.name) for f in attr_fields(o.cls) if f.name in o.attrs]
    elif isinstance(o, list):
        items = [("[%d]" % i, o, i) for i in range(len(o))]
    elif isinstance(o, dict):
        items = [("[%s]" % k, o, k) for k in o if isinstance(k, str)]
    else:
        return out
    for n, h, k in items:
        out.append((path + (n,), h, k))
        out += places(W, h[k], path + (n,), depth - 1, seen)
    return out


def others(W, G, v, kin):
    """[(label, value)]: values which differ from a given one."""
    if isinstance(v, Obj):
        if v.cls.is_enum:
            ms = [m for m in v.cls.members.values() if m is not v]
            return [("another member", m) for m in ms[:3]]
        if attr_fields(v.cls) is None:
            return []
        out = [("no node", None)]
        for c in kin(v.cls):
            out.append(("the same of kind " + c.name, Obj(c, dict(v.attrs))))
        return out
    if isinstance(v, bool):
        return [("the other truth value", not v)]
    if isinstance(v, str):
        return [("other text", v + "x"), ("less text", v[:-1])] + ([("other case", v.swapcase())] if v.swapcase() != v else []) if v else [("other text", "x")]
    if isinstance(v, (int, float, decimal.Decimal)):
        return [("another number", v + 1)]
    if v is None:
        return [("a node", G.make("Field", {"name": "other"})), ("text", "other"), ("an empty list", [])]
    if isinstance(v, list):
        out = [("one more element", v + [G.make("Field", {"name": "other"})])]
        if v:
            out += [("without its last element", v[:-1]), ("without its first element", v[1:]), ("its first element twice", [v[0]] + v)]
        if len(v) > 1:
            out += [("the reverse order", v[::-1]), ("the first two exchanged", [v[1], v[0]] + v[2:])]
        return out
    if isinstance(v, dict):
        out = [("one more entry", dict(v, **{"other": 1}))]
        ks = list(v)
        if ks:
            out.append(("without its last entry", {k: v[k] for k in ks[:-1]}))
            out.append(("another key", dict([(k, v[k]) for k in ks[:-1]] + [("other", v[ks[-1]])])))
        if len(ks) > 1:
            out.append(("its values exchanged", dict(zip(ks, [v[k] for k in ks[::-1]]))))
        return out
    return []


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    if not isinstance(W.sql_base.lookup("equals"), object) or W.sql_base.lookup("assert_equals") is None:
        raise Broken("Sql has no equals")
    Leaves(W, G)
    by_fields = {}
    for c in G.classes:
        by_fields.setdefault(tuple(f.name for f in attr_fields(c) or ()), []).append(c)

    def kin(c):
        """Other classes with the same attributes."""
        ks = [k for k in by_fields.get(tuple(f.name for f in attr_fields(c) or ()), ()) if k is not c]
        i = sum(map(ord, c.name))
        return ks if len(ks) <= 2 else [ks[i % len(ks)], ks[(i * 7 + 3) % len(ks)]]

    def verdict(a, b, method="equals"):
        try:
            return I.invoke(a, method, b)
        except AbsRaise as e:
            return e

    def judge(out, a, b, where, key, both=True):
        want = content(a) == content(b)
        for x, y, turn in ((a, b, ""), (b, a, " (the other way round)")):
            got = verdict(x, y)
            if isinstance(got, AbsRaise):
                out.append((key + " fails", "comparing %s fails%s: %s" % (where, turn, got.text())))
            elif got is not True and got is not False:
                out.append((key + " gives no boolean", "comparing %s gives no boolean%s" % (where, turn)))
            elif got != want:
                out.append((key, "comparing %s says %s%s" % (where, "equal" if got else "different", turn)))
            if not both:
                break
        return want

    plain = {}

    def one(item):
        kind, ci, j = item
        cls = G.classes[ci]
        out, n = [], 0

        def inst(make):
            try:
                o = make()
            except AbsRaise:
                return None
            return o if isinstance(o, Obj) and o.cls.is_sub(W.sql_base) else None

        def go():
            nonlocal n
            n = 0
            del out[:]
            mine = G.instances(cls, "", 1) if kind != "wide" else G.instances(cls, "", 2)
            if kind == "same":
                # every instance against a rebuilt one, and against every other of the class
                for label, make in mine:
                    a, b = inst(make), inst(make)
                    if a is None or b is None:
                        continue
                    n += 1
                    judge(out, a, b, "two %s(%s) built alike" % (cls.name, label), "%s built twice" % cls.name)
                    judge(out, a, a, "%s(%s) with itself" % (cls.name, label), "%s with itself" % cls.name, False)
                    r = verdict(a, b, "assert_equals")
                    if r is not None:
                        out.append(("%s: assert_equals" % cls.name, "asserting that two %s(%s) built alike are equal fails" % (cls.name, label)))
                # leaving out a list, a mapping or a set is giving an empty one
                for f in attr_fields(cls) or ():
                    if not f.init or f.default is MISSING or f.name.startswith("_"):
                        continue
                    empty = {"List": list, "Dict": dict, "Set": set}.get(G.annotation(cls, f)[0])
                    if empty is None:
                        continue
                    base, _ = G.kwargs(cls, "")
                    base = {k: m for k, m in base.items() if k != f.name}
                    a = inst(lambda: G.make(cls, {k: m() for k, m in base.items()}))
                    b = inst(lambda: G.make(cls, dict({k: m() for k, m in base.items()}, **{f.name: empty()})))
                    if a is not None and b is not None:
                        n += 1
                        if verdict(a, b) is not True and not (cls.name == "DataType" or a.attrs.get(f.name)):
                            out.append(("%s: without %s" % (cls.name, f.name), "%s without %s differs from one with an empty %s for it" % (cls.name, f.name, empty.__name__)))
                xs = [(l, inst(m)) for l, m in mine]
                xs = [(l, o) for l, o in xs if o is not None]
                if len(xs) > 40:
                    xs = xs[:40]
                for p, (l, a) in enumerate(xs):
                    for q, b in xs[p + 1:]:
                        n += 1
                        same = judge(out, a, b, "%s(%s) with %s(%s)" % (cls.name, l, cls.name, q), "%s: two instances" % cls.name, False)
                        if p == 0 and not same:
                            r = verdict(a, b, "assert_equals")
                            if not isinstance(r, AbsRaise) or r.exc.cls.name != "AssertionError":
                                out.append(("%s: assert_equals" % cls.name, "asserting that %s(%s) equals %s(%s) passes" % (cls.name, l, cls.name, q)))
            elif kind == "changed":
                # one change anywhere within an instance
                for label, make in mine:
                    a, b = inst(make), inst(make)
                    if a is None or b is None:
                        continue
                    for path, holder, k in places(W, b, depth=6 if thorough else 4):
                        old = holder[k]
                        for what, new in others(W, G, old, kin):
                            n += 1
                            holder[k] = new
                            try:
                                judge(out, a, b, "%s(%s) with one whose %s is changed to %s" % (cls.name, label, ".".join(path), what), "%s: a changed %s" % (cls.name, path[0]))
                            finally:
                                holder[k] = old
            else:
                # against nodes of every other class, and what is no node
                a = next((o for o in (inst(m) for _, m in mine) if o is not None), None)
                if a is None:
                    return True
                for c in G.classes:
                    if c is cls:
                        continue
                    o = inst(G.instances(c, "", 0)[0][1])
                    if o is not None:
                        n += 1
                        judge(out, a, o, "%s with %s" % (cls.name, c.name), "%s with a node of another kind" % cls.name, False)
                    if attr_fields(c) is not None and c in by_fields.get(tuple(f.name for f in attr_fields(cls)), ()):
                        n += 1
                        judge(out, a, Obj(c, dict(a.attrs)), "%s with %s of the same attributes" % (cls.name, c.name), "%s with a node of another kind" % cls.name)
                for x in (None, 1, "text", [], [a], {}, True):
                    n += 1
                    got = verdict(a, x)
                    if got is not False:
                        out.append(("%s with what is no node" % cls.name, "comparing %s with %r does not say different" % (cls.name, type(x).__name__)))
            return True

        try:
            rs = list(W.explore(go, limit=2, max_runs=4))
        except Unsupported as e:
            return cls.name, kind, "undecided: %s" % str(e)[:90], [], n
        for r, _ in rs:
            if isinstance(r, AbsRaise):
                return cls.name, kind, "undecided: %s" % r.text()[:90], [], n
            if isinstance(r, Unsupported):
                return cls.name, kind, "undecided: %s" % str(r)[:90], [], n
        return cls.name, kind, "judged", out[:20], n

    items = [(k, i, 0) for k in ("changed", "same", "kinds") for i in range(len(G.classes))]
    for name, kind, st, out, n in pmap(one, items):
        if st != "judged":
            rep.undecide("%s (%s): %s" % (name, kind, st))
            continue
        rep.count("comparisons", n)
        rep.count("classes_" + kind)
        if kind == "same":
            rep.sample(name)
        for k, m in out:
            rep.finding(k, m)
    for k in ("changed", "same", "kinds"):
        rep.floor("classes_" + k, 140)
    rep.floor("comparisons", 50000)
    return "abstract interpretation of the comparison of every node class with itself rebuilt, with every one change at any depth, and with every other class: true exactly where the contents are identical"
