"""C11: visiting reaches every nested node."""
from engine import noderules
from engine.absval import Unsupported
from engine.harness import pmap
from engine.interp import AbsRaise, ClassV, MISSING, Nat, Obj
from engine.nodes import NodeGen, attr_fields
from engine.world import Broken, World

# what a tree refers to without containing it: the type of a value, the relation a resolved field came from, the schema of a table
REFERENCES = {"data_type", "source", "_column_schema", "column_schema"}


def nested(W, node):
    """[(attribute, node)]: the nodes directly within a node."""
    out = []

    def walk(f, v):
        if isinstance(v, Obj):
            if v.hole is not None or v.cls.is_sub(W.sql_base):
                out.append((f, v))
        elif isinstance(v, dict):
            for x in v.values():
                walk(f, x)
        elif isinstance(v, (list, tuple, set, frozenset)):
            for x in v:
                walk(f, x)

    for f in attr_fields(node.cls) or ():
        n = f.name
        if n in REFERENCES or n not in node.attrs:
            continue
        walk(n, node.attrs[n])
    return out


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    vis = I.import_module("treeno.visitor").ns.get("TreenoVisitor")
    if not isinstance(vis, ClassV):
        raise Broken("treeno.visitor has no TreenoVisitor")
    dt = G.by_name.get("DataType")

    def describe(v):
        return "%s" % (v.cls.name if isinstance(v, Obj) and v.hole is None else "the nested %s" % v.hole if isinstance(v, Obj) else "None" if v is None else "a %s" % type(v).__name__)

    # every class has a hook of its own, which dispatch selects
    names = {}
    for (m, n), c in sorted(W.all_sql_classes().items()):
        if G.is_abstract(c):
            continue
        names.setdefault(n, []).append(m)
        rep.count("node_classes")
        rep.sample(n)
        o = Obj(c, {})
        hooks = [x for k in vis.mro for x in k.ns if x.startswith("visit_")]
        try:
            v = Obj(vis, {})
            seen = []
            saved = {}
            for h in set(hooks):
                saved[h] = vis.ns.get(h, MISSING)
                vis.ns[h] = Nat(h, lambda I, a, k, h=h: seen.append((h, a[1:])), method=True)
            try:
                I.steps = 0
                W.one(lambda: I.invoke(v, "visit", o))
            finally:
                for h, f in saved.items():
                    if f is MISSING:
                        vis.ns.pop(h, None)
                    else:
                        vis.ns[h] = f
        except AbsRaise as e:
            rep.finding("%s has no hook" % n, "visiting a %s fails: %s" % (n, e.text()))
            continue
        except Unsupported as e:
            rep.undecide("dispatch of %s: %s" % (n, e))
            continue
        if len(seen) != 1 or len(seen[0][1]) != 1 or seen[0][1][0] is not o:
            rep.finding("%s is not dispatched once" % n, "visiting a %s calls %s" % (n, ", ".join(h for h, _ in seen) or "no hook"))
        elif seen[0][0] != "visit_" + n:
            rep.finding("%s is dispatched to %s" % (n, seen[0][0]), "visiting a %s calls %s" % (n, seen[0][0]))
    for n, ms in names.items():
        if len(ms) > 1:
            rep.finding("%s is shared" % n, "the hook visit_%s is shared by the classes of %s" % (n, " and ".join(ms)))

    # every traversal
    rec = ClassV("TraversalRecorder", [], {}, "verif")
    rec.mro, rec.host_base, rec.frozen, rec.attrs_fields = [rec], None, False, None
    items = []
    for c in G.classes:
        if dt is not None and c is dt:
            continue
        try:
            items += [(c, l, m, None) for l, m in G.instances(c, "", 2)]
        except Unsupported as e:
            items.append((c, None, str(e), None))
    items += noderules.nested_relations(W, G, 1)

    def one(item):
        cls, label, make, rule = item
        if label is None:
            return cls.name, "undecided: %s" % make, []
        out, st = [], "refused"

        def go():
            node = make()
            if not isinstance(node, Obj) or node.hole is not None or not node.cls.is_sub(W.sql_base):
                return None
            got = []
            r = Obj(rec, {})
            rec.ns["visit"] = Nat("visit", lambda I, a, k: got.append(a[1] if len(a) > 1 else MISSING), method=True)
            try:
                I.invoke(node, "visit", r)
            except AbsRaise as e:
                return node, e
            return node, got

        try:
            for res, _ in W.explore(go, limit=2, max_runs=16):
                if isinstance(res, Unsupported):
                    return cls.name, "undecided: %s" % str(res)[:80], out
                if isinstance(res, AbsRaise) or res is None:
                    continue
                node, got = res
                st = "visited"
                where = "%s(%s)" % (cls.name, label)
                if isinstance(got, AbsRaise):
                    out.append(("%s: traversal fails" % cls.name, "the traversal of %s fails: %s" % (where, got.text())))
                    continue
                want = nested(W, node)
                for v in got:
                    if not isinstance(v, Obj) or not (v.hole is not None or v.cls.is_sub(W.sql_base)):
                        out.append(("%s hands over %s" % (cls.name, describe(v)), "the traversal of %s hands over %s, which is no node" % (where, describe(v))))
                for f, w in want:
                    n = sum(1 for v in got if v is w)
                    m = sum(1 for _, v in want if v is w)
                    if n < m:
                        out.append(("%s: %s is not visited" % (cls.name, f), "the traversal of %s does not hand over %s of its %s" % (where, describe(w), f)))
                    elif n > m:
                        out.append(("%s: %s is visited twice" % (cls.name, f), "the traversal of %s hands over %s of its %s more than once" % (where, describe(w), f)))
                known = [w for _, w in want]
                for v in got:
                    if isinstance(v, Obj) and (v.hole is not None or v.cls.is_sub(W.sql_base)) and not any(v is w for w in known) and not (dt is not None and v.cls is dt):
                        out.append(("%s hands over a foreign %s" % (cls.name, v.cls.name), "the traversal of %s hands over %s, which is not directly in it" % (where, describe(v))))
        except Unsupported as e:
            return cls.name, "undecided: %s" % str(e)[:80], out
        return cls.name, st, out

    classes = set()
    for name, st, out in pmap(one, items):
        rep.count("traversals")
        rep.count("traversals_" + st.split(":")[0])
        if st.startswith("undecided"):
            rep.undecide("%s: %s" % (name, st))
        else:
            classes.add(name)
        for k, m in out:
            rep.finding(k, m)
    rep.count("classes_traversed", len(classes))
    rep.floor("node_classes", 150)
    rep.floor("classes_traversed", 140)
    rep.floor("traversals_visited", 3000)
    return "dispatch of every node class and abstract interpretation of the traversal of every class with its optional parts present and absent: each directly nested node is handed over exactly once"
