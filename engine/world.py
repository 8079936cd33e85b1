"""The analysed program: treeno's current source, loaded into the abstract interpreter, plus its grammar."""
import os
import sys

from .absval import AStr, Part, Sym, Unsupported, mk, parts_of
from .g4 import Grammar, PNode, TemplateParser, Tok
from .interp import AbsRaise, ClassV, Infeasible, Interp, MISSING, Obj, Run, explore
from .spec import Bad, NodeCanon, TreeCanon
from .sqltext import CtxBuilder, LexError, Lexer, show, tokens_of

sys.setrecursionlimit(20000)

REPO = os.environ.get("TREENO_REPO", "/repo")
ENTRY = {"query": "query_from_sql", "standaloneExpression": "expression_from_sql", "standaloneType": "type_from_sql"}


class Broken(Exception):
    """What the analysis is anchored in has vanished from the source."""


def load_source(name):
    p = os.path.join(REPO, *name.split("."))
    for f in (os.path.join(p, "__init__.py"), p + ".py"):
        if os.path.exists(f) and not os.path.islink(os.path.dirname(f)):
            with open(f, encoding="utf-8") as h:
                return f, h.read()
    return None


def module_names():
    out = []
    root = os.path.join(REPO, "treeno")
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("gen", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                out.append(m[: -len(".__init__")] if m.endswith(".__init__") else m)
    return out


class World:
    def __init__(self):
        if not os.path.isdir(os.path.join(REPO, "treeno")):
            raise Broken("no treeno package in " + REPO)
        self.I = I = Interp(load_source)
        self.entry_module = I.import_module("treeno.builder.convert")
        base = I.import_module("treeno.functions.base")
        reg = base.ns.get("NAMES_TO_FUNCTIONS")
        # what is callable from SQL once the conversion module, and nothing else, has been imported
        self.registry = dict(reg) if isinstance(reg, dict) else None
        self.modules = module_names()
        self.skipped = {}
        for m in self.modules:
            try:
                I.import_module(m)
            except (AbsRaise, Unsupported) as e:
                self.skipped[m] = str(e)
        gpath = os.path.join(REPO, "treeno", "grammar", "SqlBase.g4")
        if not os.path.exists(gpath):
            raise Broken("no grammar file")
        with open(gpath, encoding="utf-8") as h:
            self.g = Grammar(h.read())
        self.lexer = Lexer(self.g)
        self.ctx = CtxBuilder(I)
        self.tc = TreeCanon(self.g)
        self.nc = NodeCanon(I)
        self.holes = {}
        self.pending = None
        self.parser_base = I.import_module("treeno.grammar.gen.SqlBaseParser").ns["SqlBaseParser"]
        for r in self.g.rules:
            I.hooks.setdefault(r, self._parser_hook)
        self.PO = self.cls("treeno.base", "PrintOptions")
        self.PM = self.cls("treeno.base", "PrintMode")
        self.sql_base = self.cls("treeno.base", "Sql")
        self.value_base = self.cls("treeno.expression", "Value")
        self.relation_base = self.cls("treeno.relation", "Relation")
        self.query_base = self.cls("treeno.relation", "Query")
        self._hole_cls = {}
        I.tracking = True

    def cls(self, module, name):
        m = self.I.modules.get(module) or self.I.import_module(module)
        c = m.ns.get(name)
        if c is None:
            raise Broken("%s has no %s" % (module, name))
        return c

    # ------------------------------------------------------------- conversion of derivations
    def _parser_hook(self, I, f, args, kwargs):
        if not args or self.pending is None or not isinstance(args[0], Obj) or not args[0].cls.is_sub(self.parser_base):
            return MISSING
        tree = self.pending.get(f.name)
        scenario = self.pending.get("scenario")
        if scenario is not None:
            scenario(self, args[0], f.name)
        if tree is None:
            toks = self.pending["tokens"]
            read, given = self.read_text(args[0]), self.pending.get("text")
            other = read is not None and given is not None and read != given
            if other:
                # what is parsed is not the text that was given
                try:
                    toks = self.lex(read)
                except LexError as e:
                    I.fail("ValueError", "Malformed SQL: %s" % e)
            tree = TemplateParser(self.g, toks).parse(f.name)
            if tree is None:
                I.fail("ValueError", "Malformed SQL")
            self.pending[f.name] = tree
        return self.ctx.build(tree)

    def read_text(self, parser):
        """The text a parser reads, if it can be told."""
        o = parser
        for names in (("_input",), ("tokenSource",), ("_input", "inputStream"), ("strdata", "data")):
            if not isinstance(o, Obj):
                return None
            o = next((o.attrs[n] for n in names if n in o.attrs), None)
        return o if isinstance(o, (str, AStr)) else None

    def convert(self, tokens, entry, scenario=None, text=None):
        """What treeno's public function makes of the text (a node), or the exception it raises."""
        if not isinstance(tokens, (list, tuple)):
            tokens = tokens_of(tokens)
        fn = self.entry_module.ns.get(ENTRY[entry])
        if fn is None:
            raise Broken("treeno.builder.convert has no " + ENTRY[entry])
        text = self.text(tokens) if text is None else text
        self.pending = {"tokens": list(tokens), "scenario": scenario, "text": text}
        try:
            return self.I.call(fn, (text,))
        finally:
            self.pending = None

    def text(self, tokens):
        out = []
        for i, t in enumerate(tokens):
            if i:
                out.append(" ")
            out.append(t.text if t.hole is None else t.hole)
        return mk(out)

    def explore(self, fn, limit=2, max_runs=60):
        self.I.steps = 0
        return explore(self.I, fn, limit, max_runs)

    def one(self, fn):
        """The outcome on the default branch."""
        self.I.steps = 0
        self.I.run = Run()
        try:
            return fn()
        except RecursionError:
            raise Unsupported("recursion depth")

    # ------------------------------------------------------------- rendering
    def opts(self, mode="DEFAULT", spaces=None):
        kw = {"mode": self.I.get_attr(self.PM, mode)}
        if spaces is not None:
            kw["spaces"] = spaces
        return self.I.call(self.PO, (), kw)

    def render(self, node, mode="DEFAULT", spaces=None, opts=None):
        return self.I.invoke(node, "sql", opts if opts is not None else self.opts(mode, spaces))

    def lex(self, text, cats=None, problems=None):
        return self.lexer.lex(text, cats=cats or self.hole_cats, problems=problems)

    def parse(self, text, rule, problems=None, cats=None):
        toks = self.lex(text, cats, problems)
        return TemplateParser(self.g, toks).parse(rule)

    # ------------------------------------------------------------- nested nodes of which only the kind is known
    CATS = {
        "value": ("primaryExpression",),
        "query": ("queryNoWith",),
        "relation": ("relationPrimary",),
        "dtype": ("type_",),
        "orderterm": ("sortItem",),
        "groupby": ("groupBy",),
        "group": ("groupingElement",),
        "window": ("windowSpecification",),
        "bound": ("frameBound",),
        "when": ("whenClause",),
        "criteria": ("joinCriteria",),
        "overflow": ("listAggOverflowBehavior",),
    }

    def hole_cats(self, part):
        h = self.holes.get(part.key)
        return self.CATS.get(h, ()) if h else ()

    def hole_class(self, kind):
        c = self._hole_cls.get(kind)
        if c is None:
            base = {
                "value": self.value_base,
                "query": self.query_base,
                "relation": self.relation_base,
            }[kind]
            I = self.I
            c = ClassV("Some" + kind.capitalize(), [base], {}, "hole")
            c.mro = [c] + list(base.mro)
            c.host_base = None
            c.frozen = False
            c.attrs_fields = base.attrs_fields
            from .interp import Nat

            def sql(I, a, k, kind=kind):
                o = a[1] if len(a) > 1 else k.get("opts")
                return mk([Part("R", a[0].hole, opts=o)])

            c.ns["sql"] = Nat("sql", sql, method=True)
            c.ns["visit"] = Nat("visit", lambda I, a, k: None, method=True)
            c.ns["__str__"] = Nat("__str__", lambda I, a, k: mk([Part("R", a[0].hole, opts="str()")]), method=True)
            c.ns["__repr__"] = c.ns["__str__"]
            self._hole_cls[kind] = c
        return c

    def hole(self, kind, key, **attrs):
        self.holes[key] = kind
        o = Obj(self.hole_class(kind), dict(attrs), hole=key)
        if kind in ("value", "query") and "data_type" not in o.attrs:
            o.attrs["data_type"] = self.I.call(self.cls("treeno.datatypes.builder", "unknown"))
        return o

    # ------------------------------------------------------------- classes
    def all_sql_classes(self):
        """Every concrete node class, by module of definition."""
        out = {}
        for m in self.modules:
            mod = self.I.modules.get(m)
            if mod is None:
                continue
            for n, v in mod.ns.items():
                if isinstance(v, ClassV) and v.module == m and v.is_sub(self.sql_base) and v is not self.sql_base:
                    out[(m, v.name)] = v
        return out
