"""C31: plain Python values become literals wherever functions and operations take operands."""
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, Obj
from engine.nodes import NodeGen, attr_fields
from engine.shape import shape
from engine.world import World, Broken

# what isn't an operand: the body of a lambda, what is subscripted, the condition of a FILTER
OTHER = {("Lambda", "expr"), ("Subscript", "value"), ("Lambda", "inputs")}
CONDITIONS = {"filter_"}


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    ex = I.import_module("treeno.expression").ns
    for n in ("wrap_literal", "Literal", "Expression", "Value"):
        if n not in ex:
            raise Broken("treeno.expression has no " + n)
    function = I.import_module("treeno.functions.base").ns.get("Function")
    if function is None:
        raise Broken("treeno.functions.base has no Function")
    from decimal import Decimal

    plain = [1, "abc", True, 2.5, 10 ** 12, -3, "", "it's", 0, False]
    kinds = {"count": 0, "shift": 0}
    opaque = W.hole

    def hole(kind, key, **attrs):
        if kind != "value":
            return opaque(kind, key, **attrs)
        kinds["count"] += 1
        return I.call(ex["wrap_literal"], (plain[(kinds["count"] * 3 + kinds["shift"]) % len(plain)],))

    W.hole = hole
    classes = [c for c in G.classes if (c.is_sub(function) or c.is_sub(ex["Expression"])) and c.name not in ("Literal",)]

    def literal(x):
        return isinstance(x, Obj) and x.cls is ex["Literal"] and not isinstance(x.attrs.get("value"), Obj) and x.attrs.get("value") is not None

    def construct(cls, kw):
        return I.call(cls, (), kw)

    for v in plain:
        rep.count("plain_values")
        try:
            x = I.call(ex["wrap_literal"], (v,))
        except AbsRaise as e:
            rep.finding("wrap_literal: fails", "wrap_literal(%r) fails: %s" % (v, e.text()))
            continue
        if not literal(x) or type(x.attrs["value"]) is not type(v) or x.attrs["value"] != v:
            rep.finding("wrap_literal: another value", "wrap_literal(%r) isn't the literal of that value" % (v,))

    def one(i):
        cls = classes[i]
        out, n = {}, [0]

        def judge(label, make):
            node = make()
            if not isinstance(node, Obj):
                return
            kw, bare = {}, []
            for f in attr_fields(node.cls) or ():
                if not f.init or f.name.startswith("_") or f.name == "data_type" and node.cls.name not in ("Cast", "TryCast"):
                    continue
                v = node.attrs.get(f.name)
                kw[f.name] = v
                if (cls.name, f.name) in OTHER or f.name in CONDITIONS:
                    continue
                if literal(v):
                    bare.append((f.name, v.attrs["value"]))
                elif isinstance(v, (list, tuple)) and v and all(literal(x) for x in v):
                    bare.append((f.name, type(v)(x.attrs["value"] for x in v)))
            if not bare:
                return
            want = shape(construct(node.cls, dict(kw)))
            for which in [bare] + [[b] for b in bare if len(bare) > 1]:
                n[0] += 1
                where = "%s(%s) with plain values for %s" % (cls.name, label, ", ".join("%s=%r" % b for b in which))
                try:
                    got = construct(node.cls, dict(kw, **dict(which)))
                    got = shape(got) if isinstance(got, Obj) else got
                except AbsRaise as e:
                    out["%s.%s: construction fails" % (cls.name, which[0][0])] = "%s can't be built: %s" % (where, e.text())
                    continue
                if got != want:
                    out["%s.%s: no literal" % (cls.name, which[0][0])] = "%s isn't the tree with literals in these places" % where

        def go():
            out.clear()
            n[0] = 0
            for shift in range(4 if thorough else 2):
                for label, make in G.instances(cls, "", 1):
                    kinds["count"], kinds["shift"] = 0, shift
                    try:
                        judge(label, make)
                    except AbsRaise:
                        continue
            return True

        try:
            for r, _ in W.explore(go, limit=2, max_runs=4):
                if isinstance(r, Unsupported):
                    return cls.name, "undecided: %s" % str(r)[:90], 0, []
        except Unsupported as e:
            return cls.name, "undecided: %s" % str(e)[:90], 0, []
        return cls.name, "judged", n[0], list(out.items())

    for name, st, n, out in pmap(one, range(len(classes))):
        if st != "judged":
            rep.undecide("%s: %s" % (name, st))
            continue
        if n:
            rep.count("classes")
            rep.count("constructions", n)
            rep.sample(name)
        else:
            rep.count("classes_without_operands")
        for k, m in out:
            rep.finding(k, m)
    rep.floor("classes", 90)
    rep.floor("constructions", 500)
    return "abstract interpretation of the constructors of functions and operations: with plain values as operands they build the same tree as with literals"
