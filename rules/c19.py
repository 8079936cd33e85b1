"""C19: statements do not influence each other."""
from engine.absval import AStr, Part, Sym, Unsupported
from engine.corpus import Corpus
from engine.harness import pmap
from engine.interp import AbsRaise, BoundM, ClassMethodV, ClassV, Env, Factory, FuncV, Obj, PropV, StaticMethodV
from engine.nodes import NodeGen, attr_fields
from engine.shape import shape
from engine.sqltext import LexError, show
from engine.world import Broken, World

OPERATORS = ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__truediv__", "__mod__", "__pow__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__and__", "__or__")


def shared_state(W):
    """{id: (name, object)} of every container and object which modules, classes, functions and closures hold."""
    out, seen = {}, {}
    todo = []
    for m in W.modules:
        mod = W.I.modules.get(m)
        if mod is not None and not mod.__dict__.get("opaque"):
            out[id(mod.ns)] = (m, mod.ns)
            for n, v in list(mod.ns.items()):
                if not n.startswith("__"):
                    todo.append(("%s.%s" % (m, n), v))
    while todo:
        name, v = todo.pop()
        if isinstance(v, (str, int, float, bool, type(None), AStr, Part, Sym)) or id(v) in seen:
            continue
        seen[id(v)] = v
        if isinstance(v, Obj):
            out[id(v)] = (name, v)
            todo += [("%s.%s" % (name, k), x) for k, x in v.attrs.items()]
        elif isinstance(v, dict):
            out[id(v)] = (name, v)
            todo += [(name, x) for kv in v.items() for x in kv]
        elif isinstance(v, (list, set)):
            out[id(v)] = (name, v)
            todo += [(name, x) for x in v]
        elif isinstance(v, (tuple, frozenset)):
            todo += [(name, x) for x in v]
        elif isinstance(v, ClassV):
            if not (v.module or "").startswith("treeno"):
                continue
            out[id(v)] = ("%s.%s" % (v.module, v.name), v)
            out[id(v.ns)] = ("%s.%s" % (v.module, v.name), v.ns)
            todo += [("%s.%s.%s" % (v.module, v.name, k), x) for k, x in v.ns.items()]
            for f in attr_fields(v) or ():
                n = "the default of %s.%s" % (v.name, f.name)
                todo.append((n, f.default.fn if isinstance(f.default, Factory) else f.default))
        elif isinstance(v, FuncV):
            todo += [("a default of %s" % v.qualname, x) for x in list(v.defaults or ()) + list((v.kwdefaults or {}).values())]
            e = v.env
            while isinstance(e, Env) and e.kind != "module":
                out.setdefault(id(e.vars), ("what %s closes over" % v.qualname, e.vars))
                todo += [("%s of %s" % (k, v.qualname), x) for k, x in e.vars.items()]
                e = e.parent
        elif isinstance(v, (ClassMethodV, StaticMethodV, PropV, BoundM)):
            for a in ("func", "fget", "fset", "fn"):
                f = getattr(v, a, None)
                if isinstance(f, FuncV):
                    todo.append((name, f))
    return out


def mutable(x, out=None):
    """{id: (path, object)} of what can be changed in a tree: its containers and objects, enumeration members aside."""
    out = {} if out is None else out
    todo = [("", x)]
    while todo:
        p, v = todo.pop()
        if isinstance(v, Obj):
            if v.cls.is_enum or id(v) in out:
                continue
            out[id(v)] = (p or v.cls.name, v)
            todo += [("%s.%s" % (v.cls.name, k), y) for k, y in v.attrs.items()]
        elif isinstance(v, dict):
            if id(v) not in out:
                out[id(v)] = (p, v)
                todo += [(p, y) for kv in v.items() for y in kv]
        elif isinstance(v, (list, set)):
            if id(v) not in out:
                out[id(v)] = (p, v)
                todo += [(p, y) for y in v]
        elif isinstance(v, (tuple, frozenset)):
            todo += [(p, y) for y in v]
    return out


class Judge:
    def __init__(self, W, G):
        self.W, self.G, self.I = W, G, W.I
        self.shared = shared_state(W)
        self.done = {}

    def writes(self, mark, doing):
        for kind, obj, key, _, where in self.I.writes[mark:]:
            if kind == "cache":
                continue
            s = self.shared.get(id(obj))
            if s is not None and not (isinstance(obj, Obj) and obj.cls.is_enum and key in ("_hash",)):
                n = s[0] + (".%s" % key if kind in ("attr", "global") and isinstance(key, str) else "")
                w = where.split(" ")[0]
                yield "%s changes in %s" % (n, w), "%s modifies %s, which all trees share, in %s" % (doing, n, where)

    def apart(self, a, b, doing, allowed=()):
        """Two results own everything that can change in them."""
        A, B = mutable(a), mutable(b)
        for i, (p, v) in A.items():
            if i in self.shared:
                yield "%s is %s" % (p, self.shared[i][0]), "%s puts %s, which all trees share, into the tree (%s)" % (doing, self.shared[i][0], p)
            elif i in B and i not in allowed:
                yield "%s is shared" % p, "%s twice gives two trees with one and the same %s (%s)" % (doing, v.cls.name if isinstance(v, Obj) else type(v).__name__, p)

    def attempt(self, fn):
        try:
            return fn(), None
        except AbsRaise as e:
            return None, e

    def uses(self, node):
        """What one does with a tree."""
        W, I = self.W, self.I
        for mode, spaces in (("DEFAULT", None), ("PRETTY", 7)):
            yield "rendering", lambda m=mode, s=spaces: W.render(node, m, s)
        yield "printing", lambda: I.invoke(node, "__str__")
        yield "printing", lambda: I.invoke(node, "__repr__")
        yield "comparing", lambda: I.invoke(node, "equals", node)
        vis = W.I.modules.get("treeno.visitor")
        v = vis.ns.get("TreenoVisitor") if vis is not None else None
        if v is not None:
            yield "visiting", lambda: I.invoke(I.call(v, ()), "visit", node)
        yield "resolving", lambda: self.resolve(node)

    def resolve(self, node):
        W, I = self.W, self.I
        r = I.import_module("treeno.relation").ns
        schema = I.call(r["Schema"], (), {"fields": [], "relation_ids": set()})
        if node.cls.is_sub(W.relation_base):
            return I.invoke(node, "resolve", schema)
        return I.call(I.import_module("treeno.datatypes.resolve").ns["resolve_fields"], (node, schema))

    def explore(self, go):
        """(status, {key: message}) over the branches; go() yields findings."""
        found = {}
        worked = False
        try:
            for r, _ in self.W.explore(lambda: list(go()), limit=2, max_runs=24):
                if isinstance(r, Unsupported):
                    return "undecided: %s" % str(r)[:90], {}
                if isinstance(r, AbsRaise):
                    continue
                worked = True
                found.update(r)
        except Unsupported as e:
            return "undecided: %s" % str(e)[:90], {}
        return "judged" if worked else "refused", found


def run(rep, thorough):
    W = World()
    I = W.I
    G = NodeGen(W)
    c = Corpus(W)
    J = Judge(W, G)
    rep.count("shared_objects", len(J.shared))
    items = []

    # every class in every shape: its construction and its use
    for cls in G.classes:
        try:
            for label, make in G.instances(cls, "", 2 if thorough else 1):
                if (cls.name, label) != ("Literal", "null"):
                    # the constant NULL is shared by those who ask for it
                    items.append(("node", cls.name, label, make))
        except Unsupported as e:
            items.append(("node", cls.name, None, str(e)))
    for f in ("grammar1", "types", "constructors", "shapes") + (("free", "grammar2") if thorough else ()):
        items += [("sentence", f, k, m) for k, m in getattr(c, f)()]
    for k, m in c.functions():
        if thorough or "|" not in k or k.split(" ")[1].split("/")[0] in ("COUNT", "ARRAY_AGG", "LAG"):
            items.append(("sentence", "functions", k, m))
    for n, make in helpers(W, G):
        items.append(("helper", n, "", make))

    def use(node, what):
        for doing, fn in J.uses(node):
            mark = len(I.writes)
            J.attempt(fn)
            yield from J.writes(mark, "%s %s" % (doing, what))

    def judge_node(cname, label, make):
        what = "%s(%s)" % (cname, label)
        made = []
        orig = G.make

        def watch(cls, kwargs):
            before = {k: shape(v) for k, v in kwargs.items() if isinstance(v, (list, dict, set, Obj))}
            n = orig(cls, kwargs)
            for k, s in before.items():
                if shape(kwargs[k]) != s:
                    made.append(("%s: the argument %s is modified" % (cname, k), "building %s modifies what was given as %s" % (what, k)))
            return n

        def go():
            del made[:]
            G.make = watch
            mark = len(I.writes)
            try:
                a = make()
                b = make()
            finally:
                G.make = orig
            yield from made
            yield from J.writes(mark, "building " + what)
            yield from J.apart(a, b, "building " + what)
            if isinstance(a, Obj):
                yield from use(a, what)

        return J.explore(go)

    def judge_sentence(fam, key, make):
        s = make()
        if s is None:
            return "no sentence", {}
        root, tree, toks = s
        text = show(toks)

        def go():
            mark = len(I.writes)
            a, e = J.attempt(lambda: W.convert(toks, root))
            yield from J.writes(mark, "converting `%s`" % text)
            if e is not None:
                return
            mark = len(I.writes)
            b, e = J.attempt(lambda: W.convert(toks, root))
            if e is not None:
                yield "converting twice fails", "converting `%s` works once but not twice: %s" % (text, e.text())
                return
            if shape(a) != shape(b):
                yield "converting twice differs", "converting `%s` twice gives different trees" % text
            yield from J.apart(a, b, "converting `%s`" % text)
            if fam == "shapes" and isinstance(a, Obj):
                yield from use(a, "the tree of `%s`" % text)

        return J.explore(go)

    def judge_helper(name, make):
        def go():
            mark = len(I.writes)
            args, call = make()
            before = {k: shape(v) for k, v in args.items()}
            a, e = J.attempt(call)
            for k, v in args.items():
                if shape(v) != before[k]:
                    yield "%s: the argument %s is modified" % (name, k), "%s modifies what was given as %s" % (name, k)
            yield from J.writes(mark, name)
            if e is not None:
                return
            held = mutable(list(args.values()))
            args, call = make()
            b, e = J.attempt(call)
            yield from J.apart(a, b, name, set(held))

        return J.explore(go)

    def one(item):
        kind, name, label, make = item
        I.tracking = True
        if label is None:
            return kind, name, "", "undecided: %s" % make, {}
        try:
            if kind == "node":
                st, found = judge_node(name, label, make)
            elif kind == "sentence":
                st, found = judge_sentence(name, label, make)
            else:
                st, found = judge_helper(name, make)
        except (LexError, Unsupported) as e:
            return kind, name, label, "undecided: %s" % str(e)[:90], {}
        return kind, name, label, st, dict(list(found.items())[:12])

    for kind, name, label, st, found in pmap(one, items):
        rep.count(kind + "s")
        rep.count("%s_%s" % (kind, st.split(":")[0].replace(" ", "_")))
        if st.startswith("undecided"):
            rep.undecide("%s %s: %s" % (kind, name, st))
        for k, m in found.items():
            rep.finding(k, m)
    rep.floor("shared_objects", 300)
    rep.floor("node_judged", 700)
    rep.floor("sentence_judged", 700)
    rep.floor("helper_judged", 150)
    return "write-effect and aliasing analysis by abstract interpretation: nothing that outlives a tree is written to, and trees own what can change in them"


def helpers(W, G):
    """Functions over types and values: the type constructors, the common type of two types, operators."""
    I = W.I
    out = []
    b = I.import_module("treeno.datatypes.builder")
    conv = I.import_module("treeno.datatypes.conversions").ns

    def arg(n):
        if n == "dtypes":
            return [I.call(b.ns["bigint"], ()), I.call(b.ns["unknown"], ())]
        if "dtype" in n:
            return I.call(b.ns["varchar"], (), {})
        if n.startswith(("from", "to")):
            return {"from_interval": "DAY", "to_interval": "SECOND"}.get(n)
        if n == "timezone":
            return True
        return 3

    for n, f in sorted(b.ns.items()):
        if not isinstance(f, FuncV) or f.module != "treeno.datatypes.builder":
            continue
        names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
        need = names[: len(f.node.args.args) - len(f.node.args.defaults)]
        for which in {tuple(need), tuple(names)}:
            def make(f=f, which=which):
                kw = {x: arg(x) for x in which}
                return kw, lambda: I.call(f, (), kw)
            out.append(("builder.%s(%s)" % (n, ", ".join(which)), make))
    types = [(l, m) for l, m in G.dtypes("x.")]
    for fname in ("common_supertype",):
        f = conv.get(fname)
        if not isinstance(f, FuncV):
            continue
        for l1, m1 in types:
            for l2, m2 in types:
                def make(f=f, m1=m1, m2=m2):
                    kw = {"left": m1(), "right": m2()}
                    return kw, lambda: I.call(f, (kw["left"], kw["right"]))
                out.append(("%s of %s and %s" % (fname, l1, l2), make))
    def dtype():
        kw = {"parameters": {"scale": 0}}
        return kw, lambda: G.make("DataType", dict(kw, type_name="decimal"))

    def table():
        r = I.import_module("treeno.relation").ns
        kw = {"column_schema": I.call(r["Schema"], (), {"fields": [], "relation_ids": {"u"}})}
        return kw, lambda: I.call(r["Table"], (), dict(kw, name="t"))

    out += [("DataType with parameters", dtype), ("Table with a schema", table)]
    for op in OPERATORS:
        for right in ("value", 1, "text", None):
            def make(op=op, right=right):
                kw = {"left": W.hole("value", "x"), "right": W.hole("value", "y") if right == "value" else right}
                return kw, lambda: I.invoke(kw["left"], op, kw["right"])
            out.append(("%s with %s" % (op, right), make))
    return out
