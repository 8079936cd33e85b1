"""C23: the command line handles each construct kind and shows every node."""
from engine.absval import AStr, Part, Sym, Unsupported, mk, parts_of
from engine.corpus import Corpus
from engine.g4 import PNode, Tok
from engine.harness import brief, pmap
from engine.interp import AbsRaise, ClassV, FuncV, Obj
from engine.nodes import attr_fields
from engine.sqltext import LexError, show
from engine.world import Broken, ENTRY, World

KINDS = {"query": "query", "standaloneExpression": "expression", "standaloneType": "type"}
# quoted texts in which the parts that a program may take for its own show
TEXTS = ("'a  b'", "' a '", "'a\n\nb'", "'a \nb'", "'a\tb'", "'it''s'", "'--'", "'/*'", "'a;'", "'('", "')'", "''", "'\u00e9'", "'aBc'", "'None'", "\"a  b\"", "\" a\"", "\"A\"", "\"a\"\"b\"", "\"a;\"", "\"select\"", "0", "FALSE", "1.50", "1E5", "-1")
COMMANDS = ("format", "tree", "antlr_tree", "schema")


def enum_default(I, v):
    """Whether an enumeration's own default is the value."""
    try:
        d = I.invoke(v.cls, "default") if isinstance(v.cls, ClassV) else None
    except (AbsRaise, Unsupported):
        try:
            d = I.call(I.get_attr(v.cls, "default"), ())
        except (AbsRaise, Unsupported):
            return False
    return d is v


class Shown:
    """Whether a printed tree has every node and set attribute of a converted one, and nothing else."""

    def __init__(self, W, tree_cls):
        self.W, self.I, self.tree = W, W.I, tree_cls

    def is_tree(self, t):
        return isinstance(t, Obj) and t.cls.is_sub(self.tree)

    def parts(self, t):
        return self.I.invoke(t, "label"), list(self.I.iterate(t))

    def text(self, v):
        return self.I.call(self.I.builtins["str"], (v,))

    def same_text(self, t, v):
        if self.is_tree(t):
            l, kids = self.parts(t)
            return not kids and self.same_text(l, v)
        return self.text(t) == self.text(v)

    def node(self, v):
        return isinstance(v, Obj) and not v.cls.is_enum and v.cls.is_sub(self.W.sql_base) and v.cls.name != "DataType"

    def miss(self, t, v, path):
        """What the printed tree t lacks or has beyond the value v, or None."""
        if self.node(v):
            if not self.is_tree(t):
                return "%s: the %s isn't shown" % (path, v.cls.name)
            l, kids = self.parts(t)
            if self.text(l) != v.cls.name:
                return "%s: the %s is shown as %s" % (path, v.cls.name, brief(l, 60))
            shown = {}
            for k in kids:
                if not self.is_tree(k):
                    return "%s: %s among the attributes of %s" % (path, brief(k, 60), v.cls.name)
                n, sub = self.parts(k)
                n = self.text(n)
                if not isinstance(n, str):
                    return "%s: a %s has an attribute named by its value" % (path, v.cls.name)
                if n in shown:
                    return "%s.%s is shown twice" % (v.cls.name, n)
                shown[n] = sub
            have = {f.name for f in attr_fields(v.cls)}
            for n in shown:
                if n not in have:
                    return "%s has no %s, which is shown" % (v.cls.name, n)
            for f in attr_fields(v.cls):
                x = v.attrs.get(f.name)
                if f.name not in shown:
                    if self.set(f.name, x):
                        return "%s.%s isn't shown" % (v.cls.name, f.name)
                    continue
                m = self.content(shown[f.name], x, "%s.%s" % (v.cls.name, f.name))
                if m is not None:
                    return m
            return None
        if isinstance(v, (list, tuple, set, frozenset)):
            if not self.is_tree(t):
                return "%s: the list isn't shown" % path
            return self.items(self.parts(t)[1], list(v), path)
        if isinstance(v, dict):
            if not self.is_tree(t):
                return "%s: the mapping isn't shown" % path
            _, kids = self.parts(t)
            if len(kids) != len(v):
                return "%s: %d of %d entries shown" % (path, len(kids), len(v))
            for k, (n, x) in zip(kids, v.items()):
                if not self.is_tree(k):
                    return "%s: an entry isn't shown" % path
                l, sub = self.parts(k)
                if self.text(l) != self.text(n):
                    return "%s: an entry is shown under another name" % path
                m = self.content(sub, x, path)
                if m is not None:
                    return m
            return None
        return None if self.same_text(t, v) else "%s: the value is shown as %s" % (path, "a tree" if self.is_tree(t) else brief(t, 60))

    def content(self, kids, v, path):
        """What is shown below a name: the value, or the items of a list right away."""
        if len(kids) == 1:
            m = self.miss(kids[0], v, path)
            if m is None or not isinstance(v, (list, tuple)):
                return m
        if isinstance(v, (list, tuple)):
            return self.items(kids, list(v), path)
        return "%s: %d things are shown for one" % (path, len(kids))

    def items(self, kids, vs, path):
        if len(kids) != len(vs):
            return "%s: %d of %d items are shown" % (path, len(kids), len(vs))
        for k, v in zip(kids, vs):
            m = self.miss(k, v, path)
            if m is not None:
                return m
        return None

    def set(self, name, v):
        if name.startswith("_") or v is None:
            return False
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            return bool(len(v))
        if isinstance(v, Obj) and v.cls.is_enum:
            return not enum_default(self.I, v)
        return True


def lines_of(text):
    """A text cut at the newlines the program wrote itself."""
    out, cur = [], []
    for p in parts_of(text) if isinstance(text, AStr) else [text]:
        if isinstance(p, str):
            bits = p.split("\n")
            cur.append(bits[0])
            for b in bits[1:]:
                out.append(mk(cur))
                cur = [b]
        else:
            cur.append(p)
    out.append(mk(cur))
    return out


def starts(line, name):
    a, b = list(parts_of(mk([line]))) if line != "" else [], list(parts_of(mk([name]))) if name != "" else []
    for i, p in enumerate(b):
        if i >= len(a):
            return False
        if a[i] == p:
            continue
        return isinstance(p, str) and isinstance(a[i], str) and a[i].startswith(p) and i == len(b) - 1
    return True


def run(rep, thorough):
    W = World()
    I = W.I
    cli = I.modules.get("treeno.cli")
    if cli is None or "treeno.cli" in W.skipped:
        raise Broken("treeno.cli can't be loaded: %s" % W.skipped.get("treeno.cli"))
    kinds = cli.ns.get("SqlConstruct")
    commands = {}
    for f, name in I.cli_commands:
        n = name if isinstance(name, str) else getattr(f, "name", "?")
        commands[n.replace("-", "_")] = f
    for n in COMMANDS:
        if n not in commands:
            rep.finding("no command %s" % n, "the command %s isn't registered" % n)
    nltk = I.import_module("nltk.tree").ns["Tree"]
    sh = Shown(W, nltk)
    c = Corpus(W)
    W.I.tracking = True

    def attempt(fn):
        try:
            return fn(), None
        except AbsRaise as e:
            return None, e

    def command(name, root, toks, text):
        """(what the command writes, the trees it prints, the error)."""
        recorded = []
        I.extern["record"] = lambda I, kind, o: recorded.append((kind, o))
        del I.output[:]
        W.pending = {"tokens": list(toks), "scenario": None, "text": text}
        try:
            args = [text] if name == "schema" else [I.call(kinds, (KINDS[root],)), text]
            _, e = attempt(lambda: I.call(commands[name], tuple(args)))
        finally:
            W.pending = None
            I.extern.pop("record", None)
        return list(I.output), [o for k, o in recorded if k == "tree"], e

    def derivation(t):
        """The derivation in words: rules over rules and token texts."""
        if isinstance(t, PNode):
            kids = [derivation(k) for _, k in t.children]
            kids = [k for k in kids if k != "<EOF>"]
            return (t.rule, kids) if kids else t.rule
        return t.text if t.hole is None else mk([t.hole])

    def words(t):
        if not sh.is_tree(t):
            return sh.text(t)
        l, kids = sh.parts(t)
        kids = [words(k) for k in kids]
        kids = [k for k in kids if k != "<EOF>"]
        return (sh.text(l), kids) if kids else sh.text(l)

    def judge(root, tree, toks):
        text = W.text(toks)
        shown = show(toks)
        kind = KINDS[root]

        def go():
            out = []
            node, e = attempt(lambda: W.convert(toks, root))
            if "antlr_tree" in commands:
                echoed, trees, err = command("antlr_tree", root, toks, text)
                n = "antlr_tree %s" % kind
                if err is not None:
                    out.append(("%s fails: %s" % (n, err.name), "`%s` `%s` fails: %s" % (n, shown, err.text())))
                elif len(trees) != 1 or not echoed:
                    out.append(("%s shows %d trees" % (n, len(trees)), "`%s` `%s` shows %d trees" % (n, shown, len(trees))))
                else:
                    d = parting(derivation(tree), words(trees[0]))
                    if d is not None:
                        out.append(("%s: %s" % (n, d[0]), "`%s` `%s` shows %s instead of %s" % (n, shown, brief(d[2], 120), brief(d[1], 120))))
            if e is not None:
                return "refused", out
            if "format" in commands:
                n = "format %s" % kind
                echoed, trees, err = command("format", root, toks, text)
                want, no = attempt(lambda: W.render(node, "PRETTY"))
                if err is not None:
                    if no is None:
                        out.append(("%s fails: %s in %s" % (n, err.name, err.where.split(" ")[0]), "`%s` `%s` fails: %s" % (n, shown, err.text())))
                elif len(echoed) != 1:
                    out.append(("%s prints %d texts" % (n, len(echoed)), "`%s` `%s` prints %d texts" % (n, shown, len(echoed))))
                elif want is not None and echoed[0] != want:
                    out.append(("%s prints something else" % n, "`%s` `%s` prints %s instead of %s" % (n, shown, brief(echoed[0], 120), brief(want, 120))))
            resolved = None
            if "tree" in commands:
                n = "tree %s" % kind
                echoed, trees, err = command("tree", root, toks, text)
                # a query is shown with the types found in it
                other, _ = attempt(lambda: W.convert(toks, root))
                if root == "query" and other is not None:
                    schema = I.call(I.import_module("treeno.relation").ns["Schema"], (), {"fields": [], "relation_ids": set()})
                    resolved, _ = attempt(lambda: I.invoke(other, "resolve", schema))
                if err is not None:
                    out.append(("%s fails: %s in %s" % (n, err.name, err.where.split(" ")[0]), "`%s` `%s` fails: %s" % (n, shown, err.text())))
                elif len(trees) != 1 or len(echoed) != 1:
                    out.append(("%s shows %d trees" % (n, len(trees)), "`%s` `%s` shows %d trees" % (n, shown, len(trees))))
                elif not any(isinstance(p, str) and "<pretty tree>" in p for p in (parts_of(echoed[0]) if isinstance(echoed[0], AStr) else [echoed[0]])):
                    out.append(("%s prints no tree" % n, "`%s` `%s` prints %s" % (n, shown, brief(echoed[0], 80))))
                else:
                    t = trees[0]
                    if kind == "type":
                        ok = sh.same_text(t, node) or (lambda x: len(x[1]) == 1 and sh.same_text(x[1][0], node))(sh.parts(t))
                        m = None if ok else "the type isn't shown"
                    else:
                        ms = [sh.miss(t, v, v.cls.name) for v in (other, node) if v is not None]
                        m = None if None in ms else ms[0]
                    if m is not None:
                        out.append(("tree: %s" % m, "`%s` `%s`: %s" % (n, shown, m)))
            if root == "query" and "schema" in commands:
                echoed, trees, err = command("schema", root, toks, text)
                fs = [x for x in I.get_attr(resolved, "fields")] if resolved is not None else None
                if err is not None:
                    if resolved is not None:
                        out.append(("schema fails: %s" % err.name, "`schema` `%s` fails: %s" % (shown, err.text())))
                elif fs:
                    lines = lines_of(echoed[0]) if len(echoed) == 1 else echoed
                    if len(lines) != len(fs):
                        out.append(("schema: other number of columns", "`schema` `%s` prints %d lines for %d columns" % (shown, len(lines), len(fs))))
                    else:
                        for l, f in zip(lines, fs):
                            name, ty = f.attrs.get("name"), f.attrs.get("data_type")
                            tt = sh.text(ty)
                            if name is not None and not starts(l, mk([sh.text(name), " - "])):
                                out.append(("schema: a column's name", "`schema` `%s` prints %s for a column" % (shown, brief(l, 80))))
                            elif name is None and (starts(l, "None") or starts(l, " - ")):
                                out.append(("schema: a column without a name", "`schema` `%s` prints %s for a column without a name" % (shown, brief(l, 80))))
                            elif tt != "UNKNOWN" and not ends(l, mk([" - ", tt])):
                                out.append(("schema: a column's type", "`schema` `%s` prints %s for a column of type %s" % (shown, brief(l, 80), brief(tt, 40))))
                elif not fs and fs is not None and not echoed:
                    out.append(("schema: silent", "`schema` `%s` prints nothing" % shown))
            return "shown", out

        found, st = {}, "refused"
        for r, _ in W.explore(go, limit=2, max_runs=24):
            if isinstance(r, Unsupported):
                return "undecided: %s" % str(r)[:90], {}
            if isinstance(r, AbsRaise):
                return "undecided: %s" % r.text()[:90], {}
            if r[0] == "shown":
                st = "shown"
            found.update(r[1])
        return st, found

    items = []
    for f in ("grammar1", "types", "constructors", "shapes") + (("free", "grammar2") if thorough else ()):
        items += [(f, k, m) for k, m in getattr(c, f)()]
    for k, m in c.functions():
        if thorough or "|" not in k:
            items.append(("functions", k, m))

    for t in TEXTS:
        items.append(("texts",) + c.from_text("text " + t, t, "standaloneExpression"))
        items.append(("texts",) + c.from_text("text " + t, "SELECT %s AS \"x  y\"" % t, "query"))

    def one(item):
        fam, key, make = item
        try:
            s = make()
            if s is None:
                return fam, "no sentence", {}
            root, tree, toks = s
            if root not in KINDS:
                return fam, "no sentence", {}
            st, found = judge(root, tree, toks)
            return fam, st, dict(list(found.items())[:12])
        except (LexError, Unsupported) as e:
            return fam, "undecided: %s" % str(e)[:90], {}

    for fam, st, found in pmap(one, items):
        rep.count("sentences")
        rep.count(st.split(":")[0].replace(" ", "_"))
        if st.startswith("undecided"):
            rep.undecide("%s: %s" % (fam, st))
        for k, m in found.items():
            rep.finding(k, m)
    rep.count("commands", len(commands))
    rep.floor("commands", 4)
    rep.floor("shown", 500)
    return "abstract interpretation of the commands on each sentence of the grammar: what they write is compared with the converted tree"


def parting(a, b):
    """(what, there, here) where two trees in words part."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return "other rules", a[0], b[0]
        if len(a[1]) != len(b[1]):
            return "parts of %s" % a[0], a[1], b[1]
        for x, y in zip(a[1], b[1]):
            d = parting(x, y)
            if d is not None:
                return d
        return None
    return None if a == b and type(a) is type(b) else ("a rule for a token" if isinstance(b, tuple) else "other tokens", a, b)


def ends(line, tail):
    a, b = list(parts_of(mk([line]))), list(parts_of(mk([tail])))
    for i in range(1, len(b) + 1):
        if i > len(a):
            return False
        x, y = a[-i], b[-i]
        if x == y:
            continue
        return isinstance(y, str) and isinstance(x, str) and x.endswith(y) and i == len(b)
    return True
