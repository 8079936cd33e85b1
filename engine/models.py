"""What the interpreter knows about Python's builtins and the external libraries treeno imports."""
import ast
import decimal
import itertools
import re

from . import prelude
from .absval import AStr, Part, Sym, Unsupported, mk, parts_of
from .interp import (
    MISSING, NOTIMPL, AbsRaise, AttrField, AttrIB, BoundM, ClassMethodV, ClassV, Compiler, DefaultDict, DictView, Env,
    Factory, FuncV, ModuleV, Nat, Obj, Opaque, Partial, PropV, PyIter, StaticMethodV, SuperV, c3,
)

ANTLR_MODULES = ("antlr4",)
EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError", "OSError": "Exception",
    "SyntaxError": "Exception", "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "RuntimeWarning": "Warning", "FutureWarning": "Warning",
}

HOST_TYPES = {
    "str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "set": set,
    "frozenset": frozenset, "bytes": bytes, "type": type, "slice": slice, "range": range, "complex": complex,
    "bytearray": bytearray, "memoryview": memoryview,
}
AUTO = Opaque("enum.auto()")
NOTHING = Opaque("attr.NOTHING")


# ------------------------------------------------------------------------------------------------ set up


def setup(I):
    b = {}
    I.builtins = b
    for n, t in HOST_TYPES.items():
        b[n] = t
    b["object"] = I.object
    b["NotImplemented"] = NOTIMPL
    b["Ellipsis"] = Opaque("...")
    b["__debug__"] = True
    b["__name__"] = "builtins"
    for n, base in EXC_TREE.items():
        c = ClassV(n, [b[base]] if base else [I.object], {}, "builtins")
        c.mro = c3(c, c.bases)
        c.exc = True
        c.host_base = None
        b[n] = c
    I.object.host_base = None
    for k, v in list(globals().items()):
        if k.startswith("b_"):
            b[k[2:]] = Nat(k[2:], v)
    b["property"] = Nat("property", lambda I, a, k: PropV(*a[:2]))
    b["classmethod"] = Nat("classmethod", lambda I, a, k: ClassMethodV(a[0]))
    b["staticmethod"] = Nat("staticmethod", lambda I, a, k: StaticMethodV(a[0]))
    I.extern = {}
    I.output = []
    for n in ("record", "inside", "la"):
        b["__verif_%s__" % n] = Nat(n, lambda I, a, k, n=n: I.extern[n](I, *a) if n in I.extern else None)
    ob = I.object.ns
    ob["__init_subclass__"] = ClassMethodV(Nat("__init_subclass__", lambda I, a, k: None))


def prelude_module(I, name, src):
    m = ModuleV(name)
    m.ns["__name__"] = name
    I.modules[name] = m
    body = Compiler(I, name).block(ast.parse(src, "<%s>" % name).body)
    saved, I.tracking = I.tracking, False
    try:
        body(Env(m.ns, None, name, "module"))
    finally:
        I.tracking = saved
    return m


OPAQUE_MODULES = {"typing", "typing_extensions", "re", "os", "logging", "warnings", "textwrap", "string", "json", "pathlib", "math", "datetime", "collections.abc", "__future__", "types", "weakref", "numbers", "dataclasses", "contextlib", "setuptools"}


def is_modelled(name):
    top = name.split(".")[0]
    return top in ("antlr4", "nltk", "attr", "enum", "abc", "typing")


def model_module(I, name):
    top = name.split(".")[0]
    if top == "antlr4":
        root = I.modules.get("antlr4 ")
        if root is None:
            root = prelude_module(I, "antlr4 ", prelude.ANTLR)
            for n in ("ATNDeserializer", "DFA", "ATN", "PredictionContextCache", "LexerATNSimulator", "ParserATNSimulator", "PredictionMode", "str_list", "FileStream", "StdinStream", "DiagnosticErrorListener"):
                root.ns[n] = Opaque("antlr4." + n)
        return ModuleV(name, dict(root.ns))
    if top == "nltk":
        root = I.modules.get("nltk ")
        if root is None:
            root = prelude_module(I, "nltk ", prelude.NLTK)
        return ModuleV(name, dict(root.ns))
    if name == "io":
        return prelude_module(I, "io", prelude.STRINGIO)
    f = MODULES.get(name)
    if f is not None:
        return ModuleV(name, f(I))
    return None


def nat(name):
    def deco(f):
        return Nat(name, f)

    return deco


def ident_deco(name):
    return Nat(name, lambda I, a, k: a[0] if a and not isinstance(a[0], (str, type(None))) else Nat(name, lambda I, b, k2: b[0]))


def m_typing(I):
    ns = {n: Opaque("typing." + n) for n in (
        "Any", "Callable", "ClassVar", "Dict", "Generic", "Iterable", "Iterator", "List", "Mapping", "Optional", "Sequence",
        "Set", "Tuple", "Type", "TypeVar", "Union", "TextIO", "FrozenSet", "NoReturn", "Protocol", "Final", "Literal",
        "MutableMapping", "Generator", "Collection", "Hashable", "Text", "AnyStr", "DefaultDict", "Deque", "NewType",
        "Pattern", "Match", "SupportsInt", "Annotated", "ParamSpec", "Self", "TypeAlias", "Container", "Sized", "Reversible",
    )}
    ns["TYPE_CHECKING"] = False
    ns["cast"] = Nat("cast", lambda I, a, k: a[1])
    ns["overload"] = ident_deco("overload")
    ns["final"] = ident_deco("final")
    ns["no_type_check"] = ident_deco("no_type_check")
    return ns


def m_abc(I):
    c = I.modules.get(" ABC")
    if c is None:
        c = ClassV("ABC", [I.object], {}, "abc")
        c.mro = c3(c, c.bases)
        c.host_base = None
        I.modules[" ABC"] = c

    def abstractmethod(I, a, k):
        f = a[0]
        if isinstance(f, (ClassMethodV, StaticMethodV)):
            f.func.abstract = True
        elif isinstance(f, PropV):
            f.fget.abstract = True
        elif isinstance(f, FuncV):
            f.abstract = True
        return f

    def abstractproperty(I, a, k):
        a[0].abstract = True
        return PropV(a[0])

    return {
        "ABC": c, "ABCMeta": Opaque("abc.ABCMeta"), "abstractmethod": Nat("abstractmethod", abstractmethod),
        "abstractproperty": Nat("abstractproperty", abstractproperty),
    }


def enum_root(I):
    c = I.modules.get(" Enum")
    if c is None:
        c = ClassV("Enum", [I.object], {}, "enum")
        c.mro = c3(c, c.bases)
        c.is_enum = True
        c.host_base = None
        I.modules[" Enum"] = c
    return c


def m_enum(I):
    e = enum_root(I)

    def sub(name, host):
        c = ClassV(name, [e], {}, "enum")
        c.mro = c3(c, c.bases)
        c.is_enum = True
        c.host_base = host
        return c

    return {
        "Enum": e, "EnumMeta": Opaque("enum.EnumMeta"), "EnumType": Opaque("enum.EnumType"), "auto": Nat("auto", lambda I, a, k: AUTO),
        "unique": ident_deco("unique"), "IntEnum": sub("IntEnum", int), "StrEnum": sub("StrEnum", str), "Flag": sub("Flag", None),
    }


def m_functools(I):
    def partial(I, a, k):
        return Partial(a[0], a[1:], k)

    def reduce(I, a, k):
        items = I.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                I.fail("TypeError", "reduce() of empty iterable with no initial value")
            acc, items = items[0], items[1:]
        for x in items:
            acc = I.call(a[0], [acc, x])
        return acc

    def wraps(I, a, k):
        return Nat("wraps", lambda I, b, k2: b[0])

    def cached_property(I, a, k):
        return PropV(a[0])

    def memo_key(v):
        if isinstance(v, (tuple, frozenset)):
            return (type(v).__name__,) + tuple(memo_key(x) for x in v)
        if v is None or isinstance(v, (str, bytes, int, float, bool, decimal.Decimal, AStr, Sym, Part)):
            return (type(v).__name__, v)
        return ("id", id(v))

    def remember(f):
        memo = {}

        def call(I, a, k):
            for v in list(a) + list(k.values()):
                if isinstance(v, (list, dict, set)):
                    I.fail("TypeError", "unhashable type: '%s'" % type(v).__name__)
            key = (tuple(memo_key(v) for v in a), tuple((n, memo_key(v)) for n, v in sorted(k.items())))
            if key not in memo:
                # the arguments are kept alive, so that their ids stay theirs
                r = (I.call(f, tuple(a), dict(k)), tuple(a), dict(k))
                I.note("cache", memo, key, lambda: memo.pop(key, None))
                memo[key] = r
            return memo[key][0]

        return Nat(getattr(f, "name", "cached"), call, method=True)

    def lru_cache(I, a, k):
        if a and not isinstance(a[0], (int, type(None))):
            return remember(a[0])
        return Nat("lru_cache", lambda I, b, k2: remember(b[0]))

    return {
        "partial": Nat("partial", partial), "reduce": Nat("reduce", reduce), "wraps": Nat("wraps", wraps),
        "lru_cache": Nat("lru_cache", lru_cache), "cache": Nat("cache", lru_cache), "cached_property": Nat("cached_property", cached_property),
        "total_ordering": ident_deco("total_ordering"), "singledispatch": Opaque("functools.singledispatch"),
        "cmp_to_key": Opaque("functools.cmp_to_key"), "update_wrapper": Nat("update_wrapper", lambda I, a, k: a[0]),
        "partialmethod": Opaque("functools.partialmethod"),
    }


def m_itertools(I):
    def islice(I, a, k):
        src = a[0] if isinstance(a[0], PyIter) else PyIter(I.iterate(a[0]))
        args = a[1:]
        if any(isinstance(x, Sym) for x in args):
            raise Unsupported("symbolic islice")
        return PyIter(itertools.islice(iter(src), *args))

    def chain(I, a, k):
        out = []
        for x in a:
            out.extend(I.iterate(x))
        return PyIter(out)

    def from_iterable(I, a, k):
        out = []
        for x in I.iterate(a[0]):
            out.extend(I.iterate(x))
        return PyIter(out)

    def lift(f):
        return lambda I, a, k: PyIter(list(f(*[I.iterate(x) for x in a], **k)))

    def takewhile(keep):
        def g(I, a, k):
            out, on = [], True
            for x in I.iterate(a[1]):
                if on and not I.truth(I.call(a[0], [x])):
                    on = False
                if on == keep:
                    out.append(x)
            return PyIter(out)

        return g

    def accumulate(I, a, k):
        out = []
        f = a[1] if len(a) > 1 else None
        for x in I.iterate(a[0]):
            out.append(x if not out else (I.call(f, [out[-1], x]) if f is not None else I.binop(I.BIN[ast.Add], out[-1], x)))
        return PyIter(out)

    def starmap(I, a, k):
        return PyIter([I.call(a[0], I.iterate(x)) for x in I.iterate(a[1])])

    ch = Nat("chain", chain)
    ns = {
        "islice": Nat("islice", islice), "chain": ch, "takewhile": Nat("takewhile", takewhile(True)),
        "dropwhile": Nat("dropwhile", takewhile(False)), "accumulate": Nat("accumulate", accumulate), "starmap": Nat("starmap", starmap),
        "zip_longest": Nat("zip_longest", lift(itertools.zip_longest)), "product": Nat("product", lift(itertools.product)),
        "combinations": Nat("combinations", lambda I, a, k: PyIter(list(itertools.combinations(I.iterate(a[0]), a[1])))),
        "permutations": Nat("permutations", lambda I, a, k: PyIter(list(itertools.permutations(I.iterate(a[0]), *a[1:])))),
        "pairwise": Nat("pairwise", lift(itertools.pairwise)),
        "repeat": Nat("repeat", lambda I, a, k: PyIter([a[0]] * a[1]) if len(a) > 1 else _unsup("repeat")),
        "count": Nat("count", lambda I, a, k: PyIter(range(a[0] if a else 0, 1000))),
    }
    I.modules[" chain"] = Nat("from_iterable", from_iterable)
    return ns


def _unsup(w):
    raise Unsupported(w)


def m_copy(I):
    def copy_(I, a, k):
        v = a[0]
        if isinstance(v, Obj):
            f = v.cls.lookup("__copy__")
            if f is not MISSING:
                return I.call_method(v, f, [], {})
            if v.cls.is_enum:
                return v
            return Obj(v.cls, dict(v.attrs), v.hole, v.data)
        if isinstance(v, DefaultDict):
            d = DefaultDict(v)
            d.factory = v.factory
            return d
        if isinstance(v, (list, dict, set)):
            return type(v)(v)
        return v

    def deepcopy(I, a, k):
        memo = {}

        def go(v):
            if isinstance(v, Obj):
                if v.cls.is_enum or v.hole is not None:
                    return v
                if id(v) in memo:
                    return memo[id(v)]
                f = v.cls.lookup("__deepcopy__")
                if f is not MISSING:
                    return I.call_method(v, f, [{}], {})
                n = Obj(v.cls, {}, v.hole, v.data)
                memo[id(v)] = n
                for q, x in v.attrs.items():
                    n.attrs[q] = go(x)
                return n
            if isinstance(v, DefaultDict):
                d = DefaultDict((go(q), go(x)) for q, x in v.items())
                d.factory = v.factory
                return d
            if isinstance(v, (list, tuple, set, frozenset)):
                return type(v)(go(x) for x in v)
            if isinstance(v, dict):
                return {go(q): go(x) for q, x in v.items()}
            return v

        return go(a[0])

    return {"copy": Nat("copy", copy_), "deepcopy": Nat("deepcopy", deepcopy)}


def m_inspect(I):
    def isabstract(I, a, k):
        return isinstance(a[0], ClassV) and bool(a[0].abstract)

    def getmembers(I, a, k):
        c = a[0]
        if not isinstance(c, (ClassV, ModuleV)):
            raise Unsupported("getmembers")
        names = sorted(set(itertools.chain(*[b.ns for b in c.mro])) if isinstance(c, ClassV) else c.ns)
        out = [(n, I.get_attr(c, n)) for n in names if not n.startswith("__verif")]
        if len(a) > 1:
            out = [x for x in out if I.truth(I.call(a[1], [x[1]]))]
        return out

    return {
        "isabstract": Nat("isabstract", isabstract), "getmembers": Nat("getmembers", getmembers),
        "isclass": Nat("isclass", lambda I, a, k: isinstance(a[0], (ClassV, type))),
        "isfunction": Nat("isfunction", lambda I, a, k: isinstance(a[0], FuncV)),
        "getmro": Nat("getmro", lambda I, a, k: tuple(a[0].mro)),
        "signature": Opaque("inspect.signature"),
    }


def m_collections(I):
    def defaultdict(I, a, k):
        d = DefaultDict()
        d.factory = a[0] if a else None
        if len(a) > 1:
            for q, v in dict_items(I, a[1]):
                d[q] = v
        d.update(k)
        return d

    def counter(I, a, k):
        d = DefaultDict()
        d.factory = Nat("zero", lambda I, a, k: 0)
        for x in I.iterate(a[0]) if a else []:
            d[x] = d.get(x, 0) + 1
        return d

    return {
        "defaultdict": Nat("defaultdict", defaultdict), "OrderedDict": dict, "Counter": Nat("Counter", counter), "deque": list,
        "namedtuple": Opaque("collections.namedtuple"), "abc": ModuleV("collections.abc", opaque=True), "ChainMap": Opaque("ChainMap"),
    }


def m_decimal(I):
    return {"Decimal": decimal.Decimal, "InvalidOperation": I.builtins["ArithmeticError"], "getcontext": Opaque("decimal.getcontext"), "localcontext": Opaque("localcontext")}


def m_overrides(I):
    return {"overrides": ident_deco("overrides"), "override": ident_deco("override"), "final": ident_deco("final"), "EnforceOverrides": I.object}


def m_sys(I):
    return {"version_info": (3, 12, 3, "final", 0), "stderr": Opaque("sys.stderr"), "stdout": Opaque("sys.stdout"), "argv": [], "maxsize": 2**63 - 1, "modules": Opaque("sys.modules"), "exit": Nat("exit", lambda I, a, k: I.fail("SystemExit", *a))}


def m_typer(I):
    def command(I, a, k):
        def deco(I, b, k2):
            I.cli_commands.append((b[0], k.get("name", a[0] if a else None)))
            return b[0]

        return Nat("command", deco)

    app = ClassV("Typer", [I.object], {}, "typer")
    app.mro = c3(app, app.bases)
    app.host_base = None
    app.ns["__init__"] = Nat("__init__", lambda I, a, k: None, True)
    app.ns["command"] = Nat("command", lambda I, a, k: command(I, a[1:], k), True)
    app.ns["callback"] = Nat("callback", lambda I, a, k: ident_deco("callback"), True)
    app.ns["__call__"] = Nat("__call__", lambda I, a, k: None, True)
    I.cli_commands = []

    def echo(I, a, k):
        I.output.append(to_str(I, a[0]) if a else "")

    def style(I, a, k):
        return mk(["\x1b[", "m", to_str(I, a[0]), "\x1b[0m"])

    return {
        "Typer": app, "echo": Nat("echo", echo), "style": Nat("style", style), "secho": Nat("secho", echo), "colors": ModuleV("typer.colors", opaque=True),
        "Option": Nat("Option", lambda I, a, k: a[0] if a else None), "Argument": Nat("Argument", lambda I, a, k: a[0] if a else None),
        "Exit": I.builtins["Exception"], "BadParameter": I.builtins["Exception"], "run": Nat("run", lambda I, a, k: None), "Context": Opaque("typer.Context"),
        "prompt": Opaque("typer.prompt"), "Abort": I.builtins["Exception"], "get_text_stream": Opaque("typer.get_text_stream"),
    }


def m_operator(I):
    ns = {}
    for cls, (d, r, s) in I.BIN.items():
        n = d.strip("_")
        ns[n] = Nat(n, lambda I, a, k, q=(d, r, s): I.binop(q, a[0], a[1]))
    for cls, (d, r, s) in I.CMP.items():
        n = d.strip("_")
        ns[n] = Nat(n, lambda I, a, k, q=(d, r, s): I.compare(q, a[0], a[1]))
    ns["eq"] = Nat("eq", lambda I, a, k: I.eq(a[0], a[1]))
    ns["ne"] = Nat("ne", lambda I, a, k: I.ne(a[0], a[1]))
    ns["not_"] = Nat("not_", lambda I, a, k: not I.truth(a[0]))
    ns["is_"] = Nat("is_", lambda I, a, k: I.is_(a[0], a[1]))
    ns["contains"] = Nat("contains", lambda I, a, k: I.contains(a[0], a[1]))
    for n in ("neg", "pos", "invert"):
        ns[n] = Nat(n, lambda I, a, k, d="__%s__" % n: unary(I, d, a[0]))
    for n in ("and", "or"):
        ns[n + "_"] = ns[n]
    ns["getitem"] = Nat("getitem", lambda I, a, k: I.getitem(a[0], a[1]))

    def attrgetter(I, a, k):
        def g(I, b, k2):
            out = []
            for n in a:
                v = b[0]
                for p in n.split("."):
                    v = I.get_attr(v, p)
                out.append(v)
            return out[0] if len(out) == 1 else tuple(out)

        return Nat("attrgetter", g)

    def itemgetter(I, a, k):
        def g(I, b, k2):
            out = [I.getitem(b[0], i) for i in a]
            return out[0] if len(out) == 1 else tuple(out)

        return Nat("itemgetter", g)

    def methodcaller(I, a, k):
        return Nat("methodcaller", lambda I, b, k2: I.call(I.get_attr(b[0], a[0]), a[1:], k))

    ns["attrgetter"] = Nat("attrgetter", attrgetter)
    ns["itemgetter"] = Nat("itemgetter", itemgetter)
    ns["methodcaller"] = Nat("methodcaller", methodcaller)
    return ns


def unary(I, d, v):
    if isinstance(v, Obj):
        m = v.cls.lookup(d)
        if m is MISSING:
            I.fail("TypeError", "bad operand type for unary operator")
        return I.call_method(v, m, [], {})
    return host_unop(I, d, v)


def _re_first(pat):
    """The character every match of the pattern starts with, if it is one fixed character."""
    try:
        try:
            from re import _parser as sp
        except ImportError:
            import sre_parse as sp
        t = sp.parse(pat)
    except Exception:
        return None
    if len(t) and str(t[0][0]) == "LITERAL":
        return chr(t[0][1])
    return None


def _cannot_match(pat, s):
    """No match is possible in s: every match starts with a character that s cannot contain."""
    c = _re_first(pat)
    if c is None or c.isalnum() or c == "_":
        return False
    return all((c not in p) if isinstance(p, str) else p.kind in ("N",) or p.kind == "S" and p.cls == "ident" for p in parts_of(s))


def _re_plain(pat):
    return bool(pat) and re.escape(pat) == pat or len(pat) == 1 and pat not in "\\.^$*+?{}[]|()"


def m_re(I):
    def sub(I, a, k):
        pat, repl, s = a[:3]
        if isinstance(pat, RePat):
            pat, flags = pat.pat, pat.flags
        else:
            flags = k.get("flags", a[4] if len(a) > 4 else 0)
        count = k.get("count", a[3] if len(a) > 3 else 0)
        if not isinstance(pat, str):
            raise Unsupported("re.sub")
        if isinstance(s, str):
            if isinstance(repl, str):
                return I.native(re.sub, pat, repl, s, count, flags)
            if isinstance(repl, AStr):
                raise Unsupported("re.sub")
            out, pos = [], 0
            for i, m in enumerate(re.finditer(pat, s, flags)):
                if count and i >= count:
                    break
                out += [s[pos : m.start()], I.call(repl, (ReMatch(m),))]
                pos = m.end()
            out.append(s[pos:])
            return mk(out)
        if isinstance(s, AStr):
            if _cannot_match(pat, s):
                return s
            if isinstance(repl, str) and _re_plain(pat) and "\\" not in repl and not flags and not count:
                return STR["replace"](I, s, pat, repl)
            text, back = re_template(pat, s)
            if isinstance(repl, str):
                return back(I.native(re.sub, pat, repl, text, count, flags))
            if not isinstance(repl, AStr):
                out, pos = [], 0
                for i, m in enumerate(re.finditer(pat, text, flags)):
                    if count and i >= count:
                        break
                    out += [back(text[pos : m.start()]), I.call(repl, (ReMatch(m, back),))]
                    pos = m.end()
                out.append(back(text[pos:]))
                return mk(out)
        raise Unsupported("re.sub")

    def go(name):
        def f(I, a, k):
            a = list(a)
            flags = 0
            if a and isinstance(a[0], RePat):
                a[0], flags = a[0].pat, a[0].flags
            if name == "sub":
                return sub(I, a, dict(k, flags=flags or k.get("flags", 0)))
            if flags:
                k = dict(k, flags=flags)
            if all(isinstance(x, (str, int)) for x in a):
                if name in ("split", "findall", "escape"):
                    return I.native(getattr(re, name), *a, **k)
                if name in ("match", "fullmatch", "search"):
                    return re_match(I, I.native(getattr(re, name), *a, **k))
                if name == "finditer":
                    return [ReMatch(m) for m in re.finditer(*a, **k)]
                if name == "compile":
                    return RePat(a[0], k.get("flags", a[1] if len(a) > 1 else 0))
            if name in ("split", "findall", "finditer") and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], AStr):
                text, back = re_template(a[0], a[1])
                if name == "finditer":
                    return [ReMatch(m, back) for m in re.finditer(a[0], text, **k)]
                return back_deep(I.native(getattr(re, name), a[0], text, **k), back)
            if name in ("match", "fullmatch", "search") and isinstance(a[0], str) and isinstance(a[1], AStr):
                if _cannot_match(a[0], a[1]):
                    return None
                return I.run.choose(("re", name, a[0], a[1]), [True, None])
            raise Unsupported("re.%s" % name)

        return Nat(name, f)

    ns = {n: go(n) for n in ("sub", "split", "findall", "escape", "match", "fullmatch", "search", "compile", "finditer")}
    for n in ("IGNORECASE", "I", "DOTALL", "S", "MULTILINE", "M", "VERBOSE", "X", "ASCII", "A", "UNICODE", "U"):
        ns[n] = int(getattr(re, n))
    return ns


class RePat:
    def __init__(self, pat, flags):
        self.pat, self.flags = pat, flags


class ReMatch:
    def __init__(self, m, back=None):
        self.m, self.back = m, back


def _re_chars(t, out):
    """The characters and classes a parsed pattern mentions."""
    for op, arg in t:
        op = str(op)
        if op in ("LITERAL", "NOT_LITERAL"):
            out.add(chr(arg))
        elif op == "IN":
            for o, x in arg:
                o = str(o)
                if o == "LITERAL":
                    out.add(chr(x))
                elif o == "RANGE":
                    out.update(chr(c) for c in range(x[0], min(x[1], x[0] + 300) + 1))
                elif o == "CATEGORY":
                    out.add(str(x))
        elif op == "CATEGORY":
            out.add(str(arg))
        elif op == "BRANCH":
            for x in arg[1]:
                _re_chars(x, out)
        elif op == "SUBPATTERN":
            _re_chars(arg[3], out)
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            _re_chars(arg[2], out)
        elif op == "ATOMIC_GROUP":
            _re_chars(arg, out)
        elif op in ("ASSERT", "ASSERT_NOT"):
            _re_chars(arg[1], out)
        elif op not in ("ANY", "AT"):
            raise Unsupported("regular expression " + op)
    return out


def re_template(pat, s):
    """A text in which every hole of the template is one character the pattern cannot tell from any other
    character of the hole, and the way back.  Quotes are the exception: the text of a nested node holds them in
    pairs, and a name or string has those of its own kind doubled."""
    try:
        try:
            from re import _parser as sp
        except ImportError:
            import sre_parse as sp
        used = _re_chars(sp.parse(pat), set())
    except Unsupported:
        raise
    except Exception:
        raise Unsupported("regular expression")
    holes, chars = {}, []
    for p in s.parts:
        if isinstance(p, str):
            chars.append(p)
            continue
        if p.kind == "N":
            ok = not any(c in used for c in "0123456789.eE+-") and not any(len(c) > 1 for c in used)
        elif p.kind == "S" and p.cls in ("ident", "digits", "digitident"):
            ok = not any(c.isalnum() or c in "_@:$" or len(c) > 1 for c in used)
        elif p.kind == "W":
            ok = not any(c.isspace() or len(c) > 1 for c in used)
        else:
            ok = used <= {"'", '"'}
        if not ok:
            raise Unsupported("regular expression over a hole")
        c = chr(0xF0000 + len(holes))
        holes[c] = p
        chars.append(c)
    return "".join(chars), lambda x: mk([holes.get(c, c) for c in x]) if isinstance(x, str) else x


def back_deep(x, back):
    if isinstance(x, (list, tuple)):
        return type(x)(back_deep(y, back) for y in x)
    return back(x)


def re_match(I, m):
    return None if m is None else ReMatch(m)


def m_string(I):
    import string as s

    return {n: getattr(s, n) for n in ("ascii_letters", "digits", "ascii_lowercase", "ascii_uppercase", "whitespace", "punctuation", "hexdigits")}


def m_contextlib(I):
    return {"suppress": Opaque("contextlib.suppress"), "contextmanager": Opaque("contextlib.contextmanager"), "redirect_stdout": Opaque("x"), "redirect_stderr": Opaque("x")}


def m_math(I):
    import math

    def lift(n):
        return Nat(n, lambda I, a, k: I.native(getattr(math, n), *a) if all(isinstance(x, (int, float, decimal.Decimal)) for x in a) else Sym("int", (n,) + tuple(a)))

    ns = {n: lift(n) for n in ("floor", "ceil", "log10", "log", "log2", "sqrt", "isnan", "isinf", "isfinite", "fabs", "trunc")}
    ns["inf"] = math.inf
    ns["pi"] = math.pi
    ns["nan"] = math.nan
    return ns


# ------------------------------------------------------------------------------------------------ attrs


def attr_own_fields(c):
    return c.ns.get("__attrs_attrs__")


def attr_fields(c):
    if not isinstance(c, ClassV):
        return None
    for b in c.mro:
        if "__attrs_attrs__" in b.ns:
            return b.ns["__attrs_attrs__"]
    return None


def m_attr(I):
    def ib(I, a, k):
        kw = dict(k)
        if a:
            kw["default"] = a[0]
        if kw.get("default", MISSING) is NOTHING:
            del kw["default"]
        if kw.pop("factory", None) is not None or ("factory" in k and k["factory"] is not None):
            if "default" in kw:
                I.fail("ValueError", "The `default` and `factory` arguments are mutually exclusive.")
            kw["default"] = Factory(k["factory"])
        conv = kw.get("converter")
        if isinstance(conv, (list, tuple)):
            fs = list(conv)

            def pipe(I, b, k2):
                v = b[0]
                for f in fs:
                    v = I.call(f, [v])
                return v

            kw["converter"] = Nat("pipe", pipe)
        val = kw.get("validator")
        if isinstance(val, (list, tuple)):
            fs2 = list(val)

            def allv(I, b, k2):
                for f in fs2:
                    I.call(f, b)

            kw["validator"] = Nat("and_", allv)
        return AttrIB(kw)

    def s(I, a, k):
        if a and isinstance(a[0], ClassV):
            return attrs_class(I, a[0], k)
        kw = dict(k)
        return Nat("attr.s", lambda I, b, k2: attrs_class(I, b[0], kw))

    def define(frozen):
        def d(I, a, k):
            kw = dict(k)
            kw.setdefault("auto_detect", True)
            kw.setdefault("auto_attribs", None)
            kw.setdefault("order", False)
            if frozen:
                kw["frozen"] = True
            if a and isinstance(a[0], ClassV):
                return attrs_class(I, a[0], kw)
            return Nat("attr.define", lambda I, b, k2: attrs_class(I, b[0], kw))

        return d

    def fields(I, a, k):
        f = attr_fields(a[0])
        if f is None:
            if not isinstance(a[0], ClassV):
                I.fail("TypeError", "Passed object must be a class.")
            I.fail("TypeError", "%s is not an attrs-decorated class." % I.describe(a[0]))
        return tuple(f)

    def fields_dict(I, a, k):
        return {f.name: f for f in fields(I, a, k)}

    def has(I, a, k):
        return attr_fields(a[0]) is not None

    def evolve(I, a, k):
        inst, ch = a[0], dict(k)
        for f in fields(I, [type_of(I, inst)], {}):
            if not f.init:
                continue
            n = f.name if not f.name.startswith("_") else f.name[1:]
            if n not in ch:
                ch[n] = I.get_attr(inst, f.name)
        return I.call(inst.cls, [], ch)

    def asdict(I, a, k):
        return attr_asdict(I, a[0], k)

    def astuple(I, a, k):
        if not k.get("recurse", True) and set(k) <= {"recurse"}:
            return tuple(I.get_attr(a[0], f.name) for f in fields(I, [type_of(I, a[0])], {}))
        if set(k) <= {"recurse"}:
            def deep(v):
                if isinstance(v, Obj) and attr_fields(v.cls) is not None and v.hole is None:
                    return astuple(I, [v], {})
                if isinstance(v, (list, tuple, set, frozenset)):
                    return [deep(x) for x in v]
                if isinstance(v, dict):
                    return {deep(q): deep(x) for q, x in v.items()}
                return v

            return tuple(deep(I.get_attr(a[0], f.name)) for f in fields(I, [type_of(I, a[0])], {}))
        raise Unsupported("attr.astuple with options")

    def optional(I, a, k):
        conv = a[0]
        return Nat("optional", lambda I, b, k2: None if b[0] is None else I.call(conv, [b[0]]))

    def default_if_none(I, a, k):
        def f(I, b, k2):
            if b[0] is not None:
                return b[0]
            d = a[0] if a else Factory(k["factory"])
            return I.call(d.fn) if isinstance(d, Factory) else d

        return Nat("default_if_none", f)

    def v_instance_of(I, a, k):
        t = a[0]

        def f(I, b, k2):
            if not I.truth(isinstance_(I, b[2], t)):
                raise AbsRaise(I.make_exc("TypeError", "must be instance"), False, I.where())

        return Nat("instance_of", f)

    def v_optional(I, a, k):
        v = a[0]
        return Nat("optional", lambda I, b, k2: None if b[2] is None else I.call(v, b))

    def v_in(I, a, k):
        c = a[0]

        def f(I, b, k2):
            if not I.contains(c, b[2]):
                raise AbsRaise(I.make_exc("ValueError", "must be in"), False, I.where())

        return Nat("in_", f)

    conv = ModuleV("attr.converters", {"optional": Nat("optional", optional), "default_if_none": Nat("default_if_none", default_if_none)})
    val = ModuleV("attr.validators", {"instance_of": Nat("instance_of", v_instance_of), "optional": Nat("optional", v_optional), "in_": Nat("in_", v_in)})
    I.modules.setdefault("attr.converters", conv)
    I.modules.setdefault("attr.validators", val)
    n = {
        "s": s, "attrs": s, "attributes": s, "ib": ib, "attrib": ib, "attr": ib, "dataclass": lambda I, a, k: s(I, a, dict(k, auto_attribs=True)),
        "define": define(False), "mutable": define(False), "frozen": define(True), "field": ib, "fields": fields, "fields_dict": fields_dict,
        "has": has, "evolve": evolve, "asdict": asdict, "astuple": astuple,
    }
    ns = {q: Nat("attr." + q, f) for q, f in n.items()}
    ns["Factory"] = Nat("attr.Factory", lambda I, a, k: Factory(a[0], (a[1] if len(a) > 1 else k.get("takes_self", False))))
    ns["NOTHING"] = NOTHING
    ns["converters"] = conv
    ns["validators"] = val
    ns["Attribute"] = Opaque("attr.Attribute")
    return ns


def attrs_class(I, c, kw):
    own = {}
    ann = c.ns.get("__annotations__", {})
    auto = kw.get("auto_attribs")
    ibs = [(n, v) for n, v in c.ns.items() if isinstance(v, AttrIB)]
    if auto is None and "auto_attribs" in kw:
        auto = all(n in ann for n, _ in ibs)
    if auto:
        names = []
        for n, a in ann.items():
            t = ast.unparse(a)
            if t.split("[")[0].split(".")[-1].strip("'\"") == "ClassVar":
                continue
            v = c.ns.get(n, MISSING)
            if not isinstance(v, AttrIB):
                v = AttrIB({} if v is MISSING else {"default": v})
            v.kw.setdefault("annotation", a)
            names.append((n, v))
        ibs = names
    else:
        ibs.sort(key=lambda x: x[1].counter)
    for n, v in ibs:
        k = dict(v.kw)
        own[n] = AttrField(n, k)
        if n in c.ns:
            del c.ns[n]
    taken = set(own)
    base = []
    for b in c.mro[1:-1]:
        for f in attr_fields(b) or []:
            if f.name in taken:
                continue
            taken.add(f.name)
            base.append(f)
    if kw.get("collect_by_mro"):
        raise Unsupported("collect_by_mro")
    ownl = list(own.values())
    if kw.get("kw_only"):
        ownl = [f.but(kw_only=True) for f in ownl]
        base = [f.but(kw_only=True) for f in base]
    fields = base + ownl
    had = False
    for f in fields:
        if f.init and not f.kw_only:
            if had and f.default is MISSING:
                raise AbsRaise(I.make_exc("ValueError", "No mandatory attributes allowed after an attribute with a default value or factory: %s.%s" % (c.name, f.name)), True, c.qualname)
            if f.default is not MISSING:
                had = True
    c.ns["__attrs_attrs__"] = tuple(fields)
    c.attrs_fields = list(fields)
    detect = kw.get("auto_detect", False)

    def flag(name, default, *dunders):
        v = kw.get(name, None)
        if v is None:
            if detect and any(d in c.ns for d in dunders):
                return False
            return default
        return v

    eq = kw.get("cmp")
    if eq is None:
        eq = flag("eq", True, "__eq__", "__ne__")
    order = kw.get("order", None)
    if order is None:
        order = eq
    frozen = bool(kw.get("frozen"))
    c.frozen = frozen or any(getattr(b, "frozen", False) for b in c.mro[1:])
    if flag("repr", True, "__repr__"):
        c.ns["__repr__"] = Nat("__repr__", attrs_repr, True)
    if kw.get("str"):
        c.ns["__str__"] = Nat("__str__", attrs_repr, True)
    init = Nat("__init__", lambda I, a, k: attrs_init(I, c, fields, a, k), True, data=fields)
    if flag("init", True, "__init__"):
        c.ns["__init__"] = init
    else:
        c.ns["__attrs_init__"] = init
    if eq:
        c.ns["__eq__"] = Nat("__eq__", lambda I, a, k: attrs_eq(I, fields, a[0], a[1]), True)
        c.ns["__ne__"] = Nat("__ne__", attrs_ne, True)
    if order:
        for d in ("__lt__", "__le__", "__gt__", "__ge__"):
            c.ns[d] = Nat(d, lambda I, a, k, d=d: NOTIMPL if not isinstance(a[1], Obj) or a[1].cls is not a[0].cls else _unsup("attrs order"), True)
    h = kw.get("hash", kw.get("unsafe_hash"))
    if h is None and eq and not frozen:
        c.ns["__hash__"] = None
    elif h is True or (h is None and eq and frozen):
        c.ns["__hash__"] = Nat("__hash__", lambda I, a, k: hash(repr(a[0])), True)
    return c


def attrs_init(I, c, fields, a, k):
    self, pos = a[0], a[1:]
    given = {}
    names = [(f, f.name.lstrip("_")) for f in fields if f.init]
    posn = [(f, n) for f, n in names if not f.kw_only]
    if len(pos) > len(posn):
        I.fail("TypeError", "%s.__init__() takes %d positional arguments but %d were given" % (c.name, len(posn) + 1, len(pos) + 1))
    for (f, n), v in zip(posn, pos):
        given[n] = v
    valid = {n for _, n in names}
    for q, v in k.items():
        if q not in valid:
            I.fail("TypeError", "%s.__init__() got an unexpected keyword argument %r" % (c.name, q))
        if q in given:
            I.fail("TypeError", "%s.__init__() got multiple values for argument %r" % (c.name, q))
        given[q] = v
    missing = [n for f, n in names if n not in given and f.default is MISSING]
    if missing:
        I.fail("TypeError", "%s.__init__() missing required argument: %s" % (c.name, ", ".join(missing)))
    for f in fields:
        n = f.name.lstrip("_")
        if f.init and n in given and given[n] is not NOTHING:
            v = given[n]
        elif f.default is not MISSING:
            d = f.default
            if isinstance(d, Factory):
                v = I.call(d.fn, [self] if d.takes_self else [])
            else:
                v = d
        else:
            continue
        if f.converter is not None:
            v = I.call(f.converter, [v])
        I.set_attr_raw(self, f.name, v)
    for f in fields:
        if f.validator is not None:
            I.call(f.validator, [self, f, I.get_attr(self, f.name)])
    post = self.cls.lookup("__attrs_post_init__")
    if c.lookup("__attrs_post_init__") is not MISSING:
        I.call_method(self, post, [], {})


def attrs_eq(I, fields, a, b):
    if not isinstance(b, Obj) or b.cls is not a.cls:
        return NOTIMPL
    for f in fields:
        if not f.eq:
            continue
        x, y = I.get_attr(a, f.name), I.get_attr(b, f.name)
        if x is y:
            continue
        if not I.truth(I.eq(x, y)):
            return False
    return True


def attrs_ne(I, a, k):
    f = a[0].cls.lookup("__eq__")
    r = I.call_method(a[0], f, [a[1]], {})
    if r is NOTIMPL:
        return r
    return not I.truth(r)


def attrs_repr(I, a, k):
    o = a[0]
    out = [o.cls.qualname.split(">.")[-1], "("]
    first = True
    for f in attr_fields(o.cls):
        if not f.repr:
            continue
        if not first:
            out.append(", ")
        first = False
        out += [f.name, "=", to_repr(I, o.attrs.get(f.name))]
    return mk(out + [")"])


def attr_asdict(I, inst, k):
    retain = k.get("retain_collection_types", False)
    rec = k.get("recurse", True)
    flt = k.get("filter")
    ser = k.get("value_serializer")
    fs = attr_fields(type_of(I, inst))
    if fs is None:
        I.fail("TypeError", "not an attrs class")

    def anything(v):
        if isinstance(v, Obj) and attr_fields(v.cls) is not None:
            if v.hole is not None:
                return v
            return attr_asdict(I, v, {kk: vv for kk, vv in k.items() if kk != "filter" or True})
        if isinstance(v, (tuple, list, set, frozenset)):
            cf = type(v) if retain else list
            return cf([anything(x) for x in I.iterate(v)])
        if isinstance(v, dict):
            return {anything(q): anything(x) for q, x in v.items()}
        return v

    out = {}
    for f in fs:
        v = I.get_attr(inst, f.name)
        if flt is not None and not I.truth(I.call(flt, [f, v])):
            continue
        if ser is not None:
            v = I.call(ser, [inst, f, v])
        out[f.name] = anything(v) if rec else v
    return out


MODULES = {
    "typing": m_typing, "typing_extensions": m_typing, "abc": m_abc, "enum": m_enum, "functools": m_functools, "itertools": m_itertools,
    "copy": m_copy, "inspect": m_inspect, "collections": m_collections, "decimal": m_decimal, "overrides": m_overrides, "sys": m_sys,
    "typer": m_typer, "attr": m_attr, "attrs": m_attr, "operator": m_operator, "re": m_re, "string": m_string, "contextlib": m_contextlib,
    "math": m_math,
}


# ------------------------------------------------------------------------------------------------ classes


def make_class(I, name, bases, ns, kw, module, qual):
    host = None
    bs = []
    for b in bases:
        if isinstance(b, ClassV):
            bs.append(b)
        elif isinstance(b, type):
            host = b
        elif isinstance(b, Opaque):
            continue
        else:
            raise Unsupported("base class %r" % (b,))
    bs = bs or [I.object]
    c = ClassV(name, bs, ns, module, qual)
    try:
        c.mro = c3(c, bs)
    except Unsupported:
        I.fail("TypeError", "Cannot create a consistent method resolution order")
    c.host_base = host
    for b in c.mro[1:]:
        c.exc = c.exc or b.exc
        c.is_enum = c.is_enum or b.is_enum
        if c.host_base is None:
            c.host_base = getattr(b, "host_base", None)
    c.attrs_fields = attr_fields(c)
    c.frozen = any(getattr(b, "frozen", False) for b in c.mro[1:])
    for n, v in ns.items():
        setclass(v, c)
    for n in ("__init_subclass__", "__class_getitem__"):
        if isinstance(ns.get(n), FuncV):
            ns[n] = ClassMethodV(ns[n])
    if isinstance(ns.get("__new__"), FuncV):
        ns["__new__"] = StaticMethodV(ns["__new__"])
    if "__eq__" in ns and "__hash__" not in ns:
        ns["__hash__"] = None
    if c.is_enum:
        make_enum(I, c)
    # abstract methods
    names = set()
    for b in bs:
        names |= b.abstract
    for n, v in ns.items():
        if is_abstract_val(v):
            names.add(n)
    c.abstract = frozenset(n for n in names if is_abstract_val(c.lookup(n)))
    if not any(b.name == "ABC" for b in c.mro) and "metaclass" not in kw:
        c.abstract = frozenset()
    for n, v in list(ns.items()):
        if isinstance(v, Obj):
            f = v.cls.lookup("__set_name__")
            if f is not MISSING:
                I.call_method(v, f, [c, n], {})
    kws = {k: v for k, v in kw.items() if k != "metaclass"}
    c.kwargs = kws
    c.line = None
    for b in c.mro[1:]:
        if "__init_subclass__" in b.ns:
            I.call(b.ns["__init_subclass__"].func, [c], kws)
            break
    return c


def setclass(v, c):
    if isinstance(v, FuncV):
        if v.defclass is None:
            v.defclass = c
    elif isinstance(v, (ClassMethodV, StaticMethodV)):
        setclass(v.func, c)
    elif isinstance(v, PropV):
        setclass(v.fget, c)
        setclass(v.fset, c)


def is_abstract_val(v):
    if isinstance(v, FuncV):
        return v.abstract
    if isinstance(v, (ClassMethodV, StaticMethodV)):
        return is_abstract_val(v.func)
    if isinstance(v, PropV):
        return is_abstract_val(v.fget)
    return False


def make_enum(I, c):
    last = 0
    members = {}
    ns = c.ns
    for n in list(ns):
        v = ns[n]
        if n.startswith("_") or isinstance(v, (FuncV, ClassMethodV, StaticMethodV, PropV, Nat, BoundM)) or (isinstance(v, ClassV)):
            continue
        if v is AUTO:
            v = last + 1 if c.host_base is not str else n.lower()
        if isinstance(v, int) and not isinstance(v, bool):
            last = v
        del ns[n]
        for m in members.values():
            if type(m.attrs["value"]) is type(v) and m.attrs["value"] == v:
                members[n] = m
                break
        else:
            o = Obj(c, {"name": n, "value": v, "_name_": n, "_value_": v})
            init = ns.get("__init__")
            if isinstance(init, FuncV):
                I.call(init, [o] + (list(v) if isinstance(v, tuple) else [v]), {})
            members[n] = o
    c.members = members


def enum_lookup(I, c, args):
    if len(args) != 1:
        I.fail("TypeError", "enum call")
    v = args[0]
    if isinstance(v, Obj) and v.cls is c:
        return v
    for m in c.members.values():
        x = m.attrs["value"]
        if type(x) is type(v) or isinstance(v, (AStr, Sym)):
            if I.truth(I.eq(x, v)):
                return m
    f = c.lookup("_missing_")
    if f is not MISSING:
        r = I.call(f.func if isinstance(f, ClassMethodV) else f, [c, v])
        if r is not None:
            return r
    I.fail("ValueError", mk([to_repr(I, v), " is not a valid ", c.name]))


def type_of(I, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, ClassV) or isinstance(v, type):
        return type
    if isinstance(v, AStr):
        return str
    if isinstance(v, Sym):
        t = {"int": int, "float": float, "dec": decimal.Decimal, "bool": bool}.get(v.kind)
        if t is None:
            raise Unsupported("type of %r" % (v,))
        return t
    if v is None or isinstance(v, (str, int, float, bool, list, dict, set, tuple, frozenset, bytes, decimal.Decimal, range)):
        return dict if isinstance(v, DefaultDict) else type(v)
    return Opaque("type(%s)" % type(v).__name__)


def call_type(I, t, args, kw):
    if t is type:
        if len(args) == 1:
            return type_of(I, args[0])
        if len(args) == 3:
            return make_class(I, args[0], list(args[1]), dict(args[2]), {}, "<dynamic>", args[0])
    if t is str:
        if not args:
            return ""
        return to_str(I, args[0])
    if t is bool:
        return I.truth(args[0]) if args else False
    if t in (int, float, decimal.Decimal):
        return to_number(I, t, args, kw)
    if t in (list, tuple):
        if not args:
            return t()
        return t(I.iterate(args[0]))
    if t in (set, frozenset):
        if not args:
            return t()
        xs = I.iterate(args[0])
        for x in xs:
            I.check_hash(x)
        return t(xs)
    if t is dict:
        d = {}
        if args:
            for k, v in dict_items(I, args[0]):
                d[k] = v
        d.update(kw)
        return d
    if t is range:
        if any(isinstance(a, Sym) for a in args):
            raise Unsupported("symbolic range")
        return I.native(range, *args)
    if t is slice:
        return slice(*args)
    if t is bytes:
        return Opaque("bytes()")
    if t is type(None):
        return None
    raise Unsupported("call of %r" % (t,))


def dict_items(I, v):
    if isinstance(v, dict):
        return list(v.items())
    if isinstance(v, Obj) and v.cls.lookup("keys") is not MISSING:
        return [(k, I.getitem(v, k)) for k in I.iterate(I.invoke(v, "keys"))]
    out = []
    for x in I.iterate(v):
        p = I.iterate(x)
        if len(p) != 2:
            I.fail("ValueError", "dictionary update sequence element")
        I.check_hash(p[0])
        out.append((p[0], p[1]))
    return out


def to_number(I, t, args, kw):
    if not args:
        return t(0)
    v = args[0]
    kind = {int: "int", float: "float", decimal.Decimal: "dec"}[t]
    if isinstance(v, Sym):
        if v.kind == kind:
            return v
        if v.kind == "bool" and kind == "int":
            return Sym("int", ("bool", v.key))
        return Sym(kind, (kind + "of", v))
    if isinstance(v, AStr):
        if len(v.parts) == 1 and v.parts[0].kind == "N" and not v.parts[0].ops:
            key = v.parts[0].key
            if kind == "int" and isinstance(key, tuple) and key[0] in ("DECIMAL_VALUE", "DOUBLE_VALUE"):
                I.fail("ValueError", "invalid literal for int()")
            return Sym(kind, key)
        if len(v.parts) == 2 and v.parts[0] in ("-", "+") and getattr(v.parts[1], "kind", "") == "N" and not v.parts[1].ops:
            r = to_number(I, t, [AStr([v.parts[1]])], kw)
            return r if v.parts[0] == "+" else host_unop(I, "__neg__", r)
        if any(not isinstance(p, str) and p.kind in "SX" for p in v.parts) and len(args) == 1:
            if not I.run.choose(("numeric", kind, v), [True, False]):
                I.fail("ValueError" if kind != "dec" else "ArithmeticError", "invalid literal")
        return Sym(kind, (kind, v))
    if isinstance(v, Obj):
        for d in {"int": ("__int__", "__index__"), "float": ("__float__",), "dec": ()}[kind]:
            f = v.cls.lookup(d)
            if f is not MISSING:
                return I.call_method(v, f, [], {})
        I.fail("TypeError", "argument must be a string or a number, not %s" % v.cls.name)
    if isinstance(v, (str, int, float, decimal.Decimal, bytes)) or (t is decimal.Decimal and isinstance(v, tuple)):
        try:
            return t(*args, **kw)
        except decimal.InvalidOperation:
            I.fail("ArithmeticError", "InvalidOperation")
        except (ValueError, TypeError, OverflowError) as e:
            I.fail(type(e).__name__, str(e))
    if isinstance(v, Opaque):
        raise Unsupported("number of %r" % (v,))
    I.fail("TypeError", "argument must be a string or a number")


# ------------------------------------------------------------------------------------------------ attributes


def obj_attr(I, v, name):
    c = v.cls
    if name == "__class__":
        return c
    if name == "__dict__":
        return v.attrs
    if name == "__doc__":
        return None
    if name == "__module__":
        return c.module
    if c.is_enum and name in c.members:
        return c.members[name]
    if name in ("__str__", "__repr__"):
        return Nat(name, lambda I, a, k: to_str(I, v) if name == "__str__" else to_repr(I, v))
    if name in ("__eq__", "__ne__"):
        return Nat(name, lambda I, a, k: I.eq(v, a[0]) if name == "__eq__" else I.ne(v, a[0]))
    if name == "__hash__":
        return Nat(name, lambda I, a, k: b_hash(I, [v], {}))
    if name == "__init__":
        return Nat(name, lambda I, a, k: None)
    if name == "__init_subclass__":
        return Nat(name, lambda I, a, k: None)
    if name == "__setattr__":
        return Nat(name, lambda I, a, k: I.set_attr_raw(v, a[0], a[1]))
    if c.exc and name == "with_traceback":
        return Nat(name, lambda I, a, k: v)
    if c.is_enum and c.host_base is not None:
        return host_attr(I, v.attrs["value"], name)
    return MISSING


def class_attr(I, c, name):
    if name == "__name__":
        return c.name
    if name == "__qualname__":
        return c.qualname
    if name == "__module__":
        return c.module
    if name == "__bases__":
        return tuple(c.bases)
    if name == "__mro__":
        return tuple(c.mro)
    if name == "mro":
        return Nat("mro", lambda I, a, k: list(c.mro))
    if name == "__dict__":
        return dict(c.ns)
    if name == "__doc__":
        return None
    if name == "__class__":
        return type
    if name == "__annotations__":
        return dict(c.ns.get("__annotations__", {}))
    if name == "__abstractmethods__":
        return c.abstract
    if name == "__attrs_attrs__":
        f = attr_fields(c)
        return MISSING if f is None else f
    if name == "__members__" and c.is_enum:
        return c.members
    if name == "_value2member_map_" and c.is_enum:
        return {m.attrs["value"]: m for m in c.members.values()}
    if name == "_member_names_" and c.is_enum:
        return list(c.members)
    if name == "__subclasses__":
        return Nat(name, lambda I, a, k: [x for x in all_classes(I) if c in x.bases])
    if name == "__new__":
        return Nat(name, lambda I, a, k: Obj(a[0]))
    if name == "__init__":
        return Nat(name, lambda I, a, k: None)
    if name == "__setattr__":
        return Nat(name, lambda I, a, k: I.set_attr_raw(a[0], a[1], a[2]))
    if name in ("__str__", "__repr__"):
        return Nat(name, lambda I, a, k: default_repr(I, a[0]))
    if name in ("__eq__",):
        return Nat(name, lambda I, a, k: True if a[0] is a[1] else NOTIMPL)
    if name == "__hash__":
        return Nat(name, lambda I, a, k: 1)
    return MISSING


def all_classes(I):
    out = []
    for m in list(I.modules.values()):
        if isinstance(m, ModuleV):
            for v in list(m.ns.values()):
                if isinstance(v, ClassV) and v not in out:
                    out.append(v)
    return out


def super_attr(I, s, name):
    o = s.obj
    if name == "__new__":
        return Nat(name, lambda I, a, k: Obj(a[0]))
    if name in ("__init__", "__init_subclass__", "__attrs_post_init__"):
        if name == "__attrs_post_init__":
            return MISSING
        return Nat(name, lambda I, a, k: I.set_attr_raw(o, "args", tuple(a)) if isinstance(o, Obj) and o.cls.exc and name == "__init__" else None)
    if name == "__setattr__":
        return Nat(name, lambda I, a, k: I.set_attr_raw(o, a[0], a[1]))
    if name == "__eq__":
        return Nat(name, lambda I, a, k: True if a[0] is o else NOTIMPL)
    if name == "__ne__":
        return Nat(name, lambda I, a, k: False if a[0] is o else NOTIMPL)
    if name == "__hash__":
        return Nat(name, lambda I, a, k: 1)
    if name in ("__str__", "__repr__"):
        return Nat(name, lambda I, a, k: default_repr(I, o))
    if name == "__getattribute__":
        return Nat(name, lambda I, a, k: I.get_attr(o, a[0]))
    if isinstance(o, Obj) and o.cls.is_enum and name in ("__str__",):
        return Nat(name, lambda I, a, k: o.cls.name + "." + o.attrs["name"])
    return MISSING


def method(f):
    return f


def host_attr(I, v, name):
    if isinstance(v, (str, AStr)):
        f = STR.get(name)
        if f is not None:
            return Nat("str." + name, lambda I, a, k: f(I, v, *a, **k))
        if name in ("__len__",):
            return Nat(name, lambda I, a, k: length(I, v))
        if name == "__class__":
            return str
        if name in ("__eq__",):
            return Nat(name, lambda I, a, k: I.eq(v, a[0]))
        if hasattr("", name):
            if isinstance(v, str):
                return Nat("str." + name, lambda I, a, k: I.native(getattr(v, name), *a, **k))
            return Nat("str." + name, lambda I, a, k: _unsup("str." + name))
        return MISSING
    if isinstance(v, (bytes, bytearray)) and hasattr(v, name):
        return Nat("bytes." + name, lambda I, a, k: I.native(getattr(v, name), *a, **k))
    if isinstance(v, list):
        f = LIST.get(name)
        if f:
            return Nat("list." + name, lambda I, a, k: f(I, v, *a, **k))
        if name == "__len__":
            return Nat(name, lambda I, a, k: len(v))
    if isinstance(v, dict):
        f = DICT.get(name)
        if f:
            return Nat("dict." + name, lambda I, a, k: f(I, v, *a, **k))
        if name == "default_factory" and isinstance(v, DefaultDict):
            return v.factory
    if isinstance(v, (set, frozenset)):
        f = SET.get(name)
        if f:
            return Nat("set." + name, lambda I, a, k: f(I, v, *a, **k))
    if isinstance(v, DictView) and name in ("isdisjoint",):
        return Nat(name, lambda I, a, k: set(v.items()).isdisjoint(I.iterate(a[0])))
    if isinstance(v, tuple) and name in ("index", "count"):
        return Nat("tuple." + name, lambda I, a, k: LIST[name](I, list(v), *a))
    if isinstance(v, PyIter) and name in ("__next__", "__iter__", "send", "close"):
        return Nat(name, lambda I, a, k: b_next(I, [v], {}) if name == "__next__" else v)
    if isinstance(v, AttrField):
        if name == "default":
            return NOTHING if v.default is MISSING else v.default
        if name == "type":
            return v.type
        if name in ("name", "init", "kw_only", "converter", "validator", "eq", "repr"):
            return getattr(v, name)
        if name == "metadata":
            return v.kw.get("metadata", {})
        if name == "alias":
            return v.name.lstrip("_")
        if name in ("hash", "order", "inherited"):
            return v.kw.get(name)
        return MISSING
    if isinstance(v, AttrIB):
        if name == "default":

            def d(I, a, k):
                v.kw["default"] = Factory(a[0], True)
                return a[0]

            return Nat("default", d)
        if name == "validator":

            def d2(I, a, k):
                v.kw["validator"] = a[0]
                return a[0]

            return Nat("validator", d2)
        return MISSING
    if isinstance(v, Factory):
        if name == "factory":
            return v.fn
        return v.takes_self if name == "takes_self" else MISSING
    if isinstance(v, FuncV):
        if name in v.attrs:
            return v.attrs[name]
        if name == "__name__":
            return v.name
        if name == "__qualname__":
            return v.qualname
        if name == "__module__":
            return v.module
        if name == "__doc__":
            return None
        if name == "__isabstractmethod__":
            return v.abstract
        if name == "__defaults__":
            return tuple(v.defaults)
        return MISSING
    if isinstance(v, BoundM):
        if name == "__self__":
            return v.self
        if name == "__func__":
            return v.func
        return I.get_attr(v.func, name, MISSING) if isinstance(v.func, FuncV) else MISSING
    if isinstance(v, PropV):
        if name == "setter":
            return Nat("setter", lambda I, a, k: PropV(v.fget, a[0]))
        if name == "fget":
            return v.fget
        if name == "getter":
            return Nat("getter", lambda I, a, k: PropV(a[0], v.fset))
        return MISSING
    if isinstance(v, (ClassMethodV, StaticMethodV)):
        if name == "__func__":
            return v.func
        return MISSING
    if isinstance(v, Nat):
        if name == "from_iterable" and v.name == "chain":
            return I.modules[" chain"]
        if name in ("__name__", "__qualname__"):
            return v.name
        if name == "__doc__":
            return None
        return MISSING
    if isinstance(v, Partial):
        return {"func": v.func, "args": tuple(v.args), "keywords": v.kwargs}.get(name, MISSING)
    if isinstance(v, type):
        if name in ("__name__", "__qualname__"):
            return v.__name__
        if name == "__module__":
            return v.__module__
        if name == "__mro__":
            return (v, I.object)
        if name == "__bases__":
            return (I.object,)
        if v is str:
            if name == "maketrans":
                return Nat(name, lambda I, a, k: I.native(str.maketrans, *a))
            f = STR.get(name)
            if f:
                return Nat("str." + name, lambda I, a, k: f(I, a[0], *a[1:], **k))
            return Nat(name, lambda I, a, k: I.call(host_attr(I, a[0], name), a[1:], k))
        if v is dict and name == "fromkeys":
            return Nat(name, lambda I, a, k: {x: (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})
        if v in (list, dict, set, tuple) and hasattr(v, name):
            return Nat(name, lambda I, a, k: I.call(host_attr(I, a[0], name), a[1:], k))
        if hasattr(v, name) and v in (int, float, decimal.Decimal):
            return Nat(name, lambda I, a, k: I.call(host_attr(I, a[0], name), a[1:], k))
        return MISSING
    if isinstance(v, decimal.Decimal):
        if name == "as_tuple":
            return Nat(name, lambda I, a, k: DecTuple(v.as_tuple()))
        if hasattr(v, name):
            x = getattr(v, name)
            return Nat(name, lambda I, a, k: I.native(x, *a, **k)) if callable(x) else x
        return MISSING
    if isinstance(v, DecTuple):
        return getattr(v.t, name, MISSING)
    if isinstance(v, Sym):
        return sym_attr(I, v, name)
    if isinstance(v, (int, float)) and hasattr(v, name):
        x = getattr(v, name)
        return Nat(name, lambda I, a, k: I.native(x, *a, **k)) if callable(x) else x
    if isinstance(v, (RePat,)):
        return Nat("re." + name, lambda I, a, k: I.call(I.import_module("re").ns[name], [v] + list(a), k) if name not in ("pattern", "flags") else _unsup("re." + name))
    if isinstance(v, ReMatch):
        x = getattr(v.m, name, MISSING)
        if v.back is not None:
            if name not in ("group", "groups", "__getitem__", "lastgroup", "lastindex"):
                raise Unsupported("match." + name)
            return Nat(name, lambda I, a, k: back_deep(I.native(x, *a, **k), v.back)) if callable(x) else x
        return Nat(name, lambda I, a, k: I.native(x, *a, **k)) if callable(x) else x
    if name == "__class__":
        return type_of(I, v)
    if v is None or isinstance(v, (bool, tuple, list, dict, set)):
        if v is not None and hasattr(v, name):
            return Nat(name, lambda I, a, k: _unsup("%s.%s" % (type(v).__name__, name)))
        return MISSING
    return MISSING


class DecTuple:
    def __init__(self, t):
        self.t = t


def sym_attr(I, v, name):
    if v.kind == "dec":
        if name == "as_tuple":
            return Nat(name, lambda I, a, k: SymTuple(v))
        if name in ("is_finite", "is_nan", "is_infinite", "is_signed"):
            return Nat(name, lambda I, a, k: {"is_finite": True, "is_nan": False, "is_infinite": False}.get(name, Sym("bool", (name, v))))
        if name in ("normalize", "quantize", "copy_abs", "to_eng_string", "adjusted", "scaleb"):
            return Nat(name, lambda I, a, k: Sym("int" if name == "adjusted" else "dec", (name, v) + tuple(a)))
    if v.kind == "int" and name in ("bit_length",):
        return Nat(name, lambda I, a, k: Sym("int", (name, v)))
    if v.kind == "float" and name in ("is_integer",):
        return Nat(name, lambda I, a, k: Sym("bool", (name, v)))
    if v.kind == "any":
        raise Unsupported("attribute %s of %r" % (name, v))
    if name in ("real", "imag", "numerator") or (v.kind == "float" and name in ("hex", "as_integer_ratio")):
        raise Unsupported(name)
    return MISSING


class SymTuple:
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------------------------------------ strings


def mapparts(s, lit, hole):
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(lit(p))
        else:
            out.append(hole(p))
    return mk(out)


def s_case(name):
    def f(I, s):
        def hole(p):
            if p.kind in "WN" and not p.ops and not (isinstance(p.key, tuple) and p.key[0] == "DOUBLE_VALUE"):
                return p
            return p.op((name,))

        return mapparts(s, lambda x: getattr(x, name)(), hole)

    return f


def to_upper(s):
    return STR["upper"](None, s)


def s_strip(left, right):
    def f(I, s, chars=None):
        if isinstance(s, str):
            n = "strip" if left and right else ("lstrip" if left else "rstrip")
            return I.native(getattr(s, n), chars)
        if isinstance(chars, AStr):
            raise Unsupported("strip of symbolic characters")
        parts = list(s.parts)
        edges = []
        if left:
            while parts and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(chars)
                if parts[0] != "":
                    break
                parts.pop(0)
            if parts and not isinstance(parts[0], str):
                edges.append(0)
        if right:
            while parts and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(chars)
                if parts[-1] != "":
                    break
                parts.pop()
            if parts and not isinstance(parts[-1], str):
                edges.append(len(parts) - 1)
        for e in sorted(set(edges)):
            p = parts[e]
            n = "strip"
            if len(parts) > 1:
                n = "lstrip" if e == 0 else "rstrip"
            if not strip_noop(p, chars):
                parts[e] = p.op((n, chars))
        return mk(parts)

    return f


def strip_noop(p, chars):
    """Stripping `chars` cannot change the hole's text."""
    if p.kind == "N":
        return chars is None or not any(c in "0123456789.eE+-" for c in chars)
    if p.kind == "S" and p.cls in ("ident", "digits", "digitident") and not p.ops:
        return chars is None or not any(c.isalnum() or c in "_@:$" for c in chars)
    if p.kind == "R":
        return chars is None
    return False


def s_join(I, s, it):
    items = I.iterate(it)
    out = []
    for i, x in enumerate(items):
        if not isinstance(x, (str, AStr)):
            if isinstance(x, (Sym, Opaque)) and not (isinstance(x, Sym) and x.kind in ("int", "float", "dec", "bool")):
                raise Unsupported("join of %r" % (x,))
            if isinstance(x, Obj) and x.cls.is_enum and x.cls.host_base is str:
                x = x.attrs["value"]
            else:
                I.fail("TypeError", "sequence item %d: expected str instance, %s found" % (i, I.describe(x)))
        if i:
            out.append(s)
        out.append(x)
    return mk(out)


def blank(b):
    """Whether a template is nothing but white space."""
    return all(not p.strip() if isinstance(p, str) else p.kind == "W" for p in parts_of(b))


def s_replace(I, s, a, b, count=-1):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b, count)
    if not isinstance(a, str) or count != -1:
        raise Unsupported("replace")
    if isinstance(b, AStr):
        # by a text with holes: only for the text between holes
        if a == "" or not all(p.kind == "R" and a == "\n" and blank(b) or p.kind == "N" and a == "\n" for p in parts_of(s) if isinstance(p, Part)):
            raise Unsupported("replace")
        out = []
        for p in parts_of(s):
            if isinstance(p, str):
                for i, x in enumerate(p.split(a)):
                    out += list(b.parts) if i else []
                    out.append(x)
            else:
                out.append(p.op(("relined",)) if p.kind == "R" else p)
        return mk(out)

    def hole(p):
        if p.kind == "N" and not any(c in "0123456789.eE+-" for c in a):
            return p
        if p.kind == "S" and p.cls in ("ident", "digits", "digitident") and not p.ops and not all(c.isalnum() or c in "_@:$" for c in a):
            return p
        if p.kind == "R" and a == "\n" and b[:1] == "\n" and not b.strip():
            return p.op(("relined",))
        return p.op(("replace", a, b))

    return mapparts(s, lambda x: x.replace(a, b), hole)


def first_literal(s):
    p = parts_of(s)
    return p[0] if p and isinstance(p[0], str) else ""


def last_literal(s):
    p = parts_of(s)
    return p[-1] if p and isinstance(p[-1], str) else ""


def s_startswith(I, s, x, *rest):
    if rest:
        raise Unsupported("startswith range")
    if isinstance(x, tuple):
        return any(I.truth(s_startswith(I, s, y)) for y in x)
    if isinstance(s, str) and isinstance(x, str):
        return s.startswith(x)
    if not isinstance(x, str):
        raise Unsupported("startswith")
    lit = first_literal(s)
    if len(lit) >= len(x):
        return lit.startswith(x)
    if not x.startswith(lit):
        return False
    p = parts_of(s)
    h = p[1] if lit else p[0]
    rest = x[len(lit) :]
    if not hole_may_start(h, rest[:1]):
        return False
    return I.run.choose(("starts", s, x), [False, True])


def s_endswith(I, s, x, *rest):
    if rest:
        raise Unsupported("endswith range")
    if isinstance(x, tuple):
        return any(I.truth(s_endswith(I, s, y)) for y in x)
    if isinstance(s, str) and isinstance(x, str):
        return s.endswith(x)
    if not isinstance(x, str):
        raise Unsupported("endswith")
    lit = last_literal(s)
    if len(lit) >= len(x):
        return lit.endswith(x)
    if not x.endswith(lit):
        return False
    p = parts_of(s)
    h = p[-2] if lit else p[-1]
    c = x[: len(x) - len(lit)][-1:]
    if not hole_may_start(h, c):
        return False
    return I.run.choose(("ends", s, x), [False, True])


def hole_may_start(h, c):
    if h.kind == "N":
        return c.isdigit() or c in ".eE-+"
    if h.kind == "S" and h.cls in ("ident", "digits", "digitident"):
        return c.isalnum() or c in "_@:$"
    if h.kind == "W":
        return True
    return True


def s_split(I, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return I.native(s.split, sep, maxsplit)
    if not isinstance(sep, str) or maxsplit != -1:
        raise Unsupported("split")
    out = [[]]
    for p in s.parts:
        if isinstance(p, str):
            bits = p.split(sep)
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        else:
            if p.kind == "N" and not any(c in "0123456789.eE+-" for c in sep):
                out[-1].append(p)
            elif p.kind == "S" and p.cls in ("ident", "digits", "digitident") and not p.ops and not all(c.isalnum() or c in "_@:$" for c in sep):
                out[-1].append(p)
            else:
                raise Unsupported("split at a hole")
    return [mk(x) for x in out]


def s_splitlines(I, s, keepends=False):
    if isinstance(s, str):
        return s.splitlines(keepends)
    if keepends:
        raise Unsupported("splitlines(keepends)")
    out = [[]]
    for i, p in enumerate(s.parts):
        if isinstance(p, str):
            bits = p.split("\n")
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        elif p.kind in "NW" or (p.kind == "S" and p.cls in ("ident", "digits", "digitident")):
            out[-1].append(p)
        else:
            out[-1].append(p.op(("relined",)))
    if out and not out[-1] or (out[-1] == [""]):
        out.pop()
    return [mk(x) for x in out]


def s_just(name):
    def f(I, s, n, fill=" "):
        if isinstance(s, str) and isinstance(n, int) and isinstance(fill, str):
            return I.native(getattr(s, name), n, fill)
        if not isinstance(fill, str) or fill.strip():
            raise Unsupported("justify")
        w = Part("W", ("just", name))
        return mk([s, w] if name == "ljust" else ([w, s] if name == "rjust" else [w, s, w]))

    return f


def s_format(I, s, *args, **kw):
    if not isinstance(s, str):
        raise Unsupported("format of a template")
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in I.native(lambda: list(string.Formatter().parse(s))):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^([^.\[]*)(.*)$", field)
        head, rest = m.group(1), m.group(2)
        if head == "":
            if auto >= len(args):
                I.fail("IndexError", "Replacement index out of range")
            v = args[auto]
            auto += 1
        elif head.isdigit():
            if int(head) >= len(args):
                I.fail("IndexError", "Replacement index out of range")
            v = args[int(head)]
        else:
            if head not in kw:
                I.fail("KeyError", head)
            v = kw[head]
        for a, b in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = I.get_attr(v, a) if a else I.getitem(v, int(b) if b.isdigit() else b)
        if conv == "r":
            v = to_repr(I, v)
        elif conv == "s":
            v = to_str(I, v)
        out.append(format_value(I, v, spec or ""))
    return mk(out)


def s_pred(name):
    def f(I, s):
        if isinstance(s, str):
            return getattr(s, name)()
        ps = s.parts
        if name in ("isdigit", "isnumeric", "isdecimal"):
            if all((isinstance(p, str) and p.isdigit()) or (not isinstance(p, str) and p.kind == "N" and isinstance(p.key, tuple) and p.key[0] in ("INTEGER_VALUE", "int")) for p in ps):
                return True
            if any(isinstance(p, str) and not p.isdigit() for p in ps):
                return False
        if name == "isspace" and any(isinstance(p, str) and not p.isspace() for p in ps):
            return False
        if name in ("isidentifier", "isalnum", "isalpha") and any(isinstance(p, str) and not p.replace("_", "a").isalnum() for p in ps):
            return False
        return I.run.choose((name, s), [True, False])

    return f


def s_find(name):
    def f(I, s, x, *rest):
        if isinstance(s, str) and isinstance(x, str):
            return I.native(getattr(s, name), x, *rest)
        if x == "." and not rest and s_count(I, s, x) == 1:
            return Sym("int", (name, s, x))
        raise Unsupported("str." + name)

    return f


def s_partition(name):
    def f(I, s, sep):
        if isinstance(s, str):
            return getattr(s, name)(sep)
        raise Unsupported(name)

    return f


def s_removeprefix(I, s, x):
    if I.truth(s_startswith(I, s, x)):
        return astr_getitem(I, s, slice(len(x), None, None))
    return s


def s_removesuffix(I, s, x):
    if x and I.truth(s_endswith(I, s, x)):
        return astr_getitem(I, s, slice(None, -len(x), None))
    return s


def s_encode(I, s, *a):
    if isinstance(s, str) and all(isinstance(x, str) for x in a):
        return I.native(s.encode, *a)
    return Opaque("bytes")


def s_count(I, s, x):
    if isinstance(s, str):
        return s.count(x)
    if x == ".":
        n = 0
        for p in parts_of(s):
            o = p.ops[0][0] if isinstance(p, Part) and p.kind == "N" and len(p.ops) == 1 else None
            if isinstance(p, str):
                n += p.count(x)
            elif o in ("decpoint", "pyfix", "fixed6"):
                n += 1
            elif o != "decint":
                break
        else:
            return n
    return Sym("int", ("count", s, x))


def s_translate(I, s, table):
    if isinstance(s, str):
        return s.translate(table)
    out = s
    for k, v in table.items():
        out = s_replace(I, out, chr(k) if isinstance(k, int) else k, v)
    return out


def s_zfill(I, s, n):
    if isinstance(s, str):
        return s.zfill(n)
    raise Unsupported("zfill")


STR = {
    "upper": s_case("upper"), "lower": s_case("lower"), "title": s_case("title"), "capitalize": s_case("capitalize"), "casefold": s_case("lower"),
    "swapcase": s_case("swapcase"), "strip": s_strip(True, True), "lstrip": s_strip(True, False), "rstrip": s_strip(False, True), "join": s_join,
    "replace": s_replace, "startswith": s_startswith, "endswith": s_endswith, "split": s_split, "splitlines": s_splitlines,
    "rjust": s_just("rjust"), "ljust": s_just("ljust"), "center": s_just("center"), "format": s_format,
    "isdigit": s_pred("isdigit"), "isnumeric": s_pred("isnumeric"), "isdecimal": s_pred("isdecimal"), "isspace": s_pred("isspace"),
    "isidentifier": s_pred("isidentifier"), "isalnum": s_pred("isalnum"), "isalpha": s_pred("isalpha"), "isupper": s_pred("isupper"), "islower": s_pred("islower"),
    "find": s_find("find"), "rfind": s_find("rfind"), "index": s_find("index"), "rindex": s_find("rindex"),
    "partition": s_partition("partition"), "rpartition": s_partition("rpartition"), "removeprefix": s_removeprefix, "removesuffix": s_removesuffix,
    "encode": s_encode, "count": s_count, "translate": s_translate, "zfill": s_zfill,
}


def astr_getitem(I, s, i):
    if isinstance(s, str):
        return I.native(lambda: s[i])
    parts = list(s.parts)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Unsupported("slice step")
        start, stop = i.start or 0, i.stop
        if isinstance(start, Sym) or isinstance(stop, Sym) or start < 0 or (stop is not None and stop >= 0):
            raise Unsupported("slice of a template")
        n = start
        while n:
            if not parts or not isinstance(parts[0], str):
                raise Unsupported("slice inside a hole")
            k = min(n, len(parts[0]))
            parts[0] = parts[0][k:]
            n -= k
            if parts[0] == "":
                parts.pop(0)
        n = -stop if stop is not None else 0
        while n:
            if not parts or not isinstance(parts[-1], str):
                raise Unsupported("slice inside a hole")
            k = min(n, len(parts[-1]))
            parts[-1] = parts[-1][: len(parts[-1]) - k]
            n -= k
            if parts[-1] == "":
                parts.pop()
        return mk(parts)
    if isinstance(i, int):
        if i >= 0 and isinstance(parts[0], str) and i < len(parts[0]):
            return parts[0][i]
        if i < 0 and isinstance(parts[-1], str) and -i <= len(parts[-1]):
            return parts[-1][i]
    raise Unsupported("character of a template")


def iter_astr(I, s):
    raise Unsupported("iteration over the characters of a template")


def rx(s):
    out = []
    for p in parts_of(s):
        if isinstance(p, str):
            out.append(re.escape(p))
        elif p.kind == "N":
            out.append(r"[-+.0-9eE]+")
        elif p.kind == "S":
            if p.cls == "ident":
                out.append(r"\w[\w@:$]*")
            elif p.cls == "digits":
                out.append(r"\d+")
            else:
                out.append(".*")
        elif p.kind == "W":
            out.append(r"\s*")
        else:
            out.append(".+" if p.kind == "R" else ".*")
    return re.compile("".join(out), re.S)


def may_equal(I, a, b):
    if a == b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return False
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        for p in a.parts:
            if isinstance(p, Part):
                for o in p.ops:
                    if o[0] == "upper" and len(a.parts) == 1 and b != b.upper():
                        return False
                    if o[0] == "lower" and len(a.parts) == 1 and b != b.lower():
                        return False
                if p.kind == "R" and len(a.parts) == 1 and re.fullmatch("[A-Z]+( [A-Z]+)+|USING|ON", b):
                    # no node renders to a run of bare keywords
                    return False
                if p.kind == "S" and p.cls in ("ident", "other"):
                    # a user's name: the analysis takes it to be none of the words the program knows
                    return False
        return rx(a).fullmatch(b) is not None
    fa, fb = first_literal(a), first_literal(b)
    n = min(len(fa), len(fb))
    if fa[:n] != fb[:n]:
        return False
    la, lb = last_literal(a), last_literal(b)
    n = min(len(la), len(lb))
    if n and la[-n:] != lb[-n:]:
        return False
    return True


def astr_eq(I, a, b):
    if a == b:
        return True
    if not isinstance(a, (str, AStr)) or not isinstance(b, (str, AStr)):
        if isinstance(a, Sym) or isinstance(b, Sym):
            x = a if isinstance(a, Sym) else b
            if x.kind in ("int", "float", "dec", "bool"):
                return False
            return I.run.choose(("eq", a, b), [False, True])
        return False
    if not may_equal(I, a, b):
        return False
    return I.run.choose(("eq",) + tuple(sorted([a, b], key=repr)), [False, True])


def astr_contains(I, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(s, str):
        raise Unsupported("template in a string")
    if not isinstance(x, str):
        raise Unsupported("membership of a template")
    if any(isinstance(p, str) and x in p for p in s.parts):
        return True
    if x == "":
        return True
    for p in s.parts:
        if isinstance(p, Part):
            if p.kind == "N":
                k = p.key[0] if isinstance(p.key, tuple) else None
                shape = p.ops[0][0] if p.ops else None
                if shape in ("pyfix", "pyexp", "decexp", "decpoint", "decint") and len(x) == 1:
                    case = p.ops[1][0] if len(p.ops) == 2 else "upper" if shape == "decexp" else "lower"
                    if case in ("upper", "lower"):
                        if x in "eE":
                            if shape in ("pyexp", "decexp") and x == ("E" if case == "upper" else "e"):
                                return True
                            continue
                        if x == "." and shape in ("pyfix", "decpoint"):
                            return True
                        if x == "." and shape == "decint":
                            continue
                        if not x.isdigit() and x not in ".+-":
                            continue
                if x == "." and k == "DECIMAL_VALUE" and not p.ops:
                    return True  # the token has a decimal point
                if x in ("e", "E") and k in ("DECIMAL_VALUE", "DOUBLE_VALUE") and not p.ops:
                    if (x, k) == ("E", "DOUBLE_VALUE"):
                        return True
                    continue
                if all(c in "0123456789" for c in x) or (k not in ("INTEGER_VALUE", "int", "len") and all(c in "0123456789.eE+-" for c in x)):
                    break
                continue
            if p.kind == "S" and p.cls in ("ident", "digits", "digitident") and not all(c.isalnum() or c in "_@:$" for c in x):
                continue
            break
    else:
        if len(s.parts) == 1 or len(x) == 1:
            return False
    return I.run.choose(("contains", s, x), [False, True])


# ------------------------------------------------------------------------------------------------ containers


def l_sort(I, l, key=None, reverse=False):
    I.mutate(l)
    l[:] = do_sort(I, l, key, reverse)


def in_order(I, a, b, reverse):
    if all(isinstance(k, str) for k in (a, b)) or all(isinstance(k, int) for k in (a, b)):
        return a >= b if reverse else a <= b
    x, y = sorted([a, b], key=repr)
    v = I.run.choose(("sorted", x, y), [True, False])
    return v if (x is a) != bool(reverse) else not v


def do_sort(I, items, key, reverse):
    ks = [I.call(key, [x]) if key is not None else x for x in items]
    if len(items) <= 1:
        return list(items)
    if all(isinstance(k, (str, int, float, tuple, bool)) for k in ks):
        idx = I.native(lambda: sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse)))
        return [items[i] for i in idx]
    if all(isinstance(k, (Sym, int, AStr, str)) for k in ks):
        # the order of symbolic keys is undetermined: split on every comparison that is needed
        out = []
        for x, k in zip(items, ks):
            i = len(out)
            while i > 0 and out[i - 1][1] != k and not in_order(I, out[i - 1][1], k, reverse):
                i -= 1
            out.insert(i, (x, k))
        return [x for x, _ in out]
    for k in ks:
        if isinstance(k, Obj):
            f = k.cls.lookup("__lt__")
            if f is MISSING:
                I.fail("TypeError", "'<' not supported between instances")
    raise Unsupported("sorting")


def l_append(I, l, x):
    I.mutate(l)
    l.append(x)


def l_extend(I, l, x):
    xs = I.iterate(x)
    I.mutate(l)
    l.extend(xs)


def l_insert(I, l, i, x):
    I.mutate(l)
    l.insert(i, x)


def l_pop(I, l, *a):
    I.mutate(l)
    return I.native(l.pop, *a)


def l_remove(I, l, x):
    for i, y in enumerate(l):
        if y is x or I.truth(I.eq(y, x)):
            I.mutate(l)
            del l[i]
            return
    I.fail("ValueError", "list.remove(x): x not in list")


def l_index(I, l, x, *a):
    for i, y in enumerate(l):
        if y is x or I.truth(I.eq(y, x)):
            return i
    I.fail("ValueError", "not in list")


def l_count(I, l, x):
    return sum(1 for y in l if y is x or I.truth(I.eq(y, x)))


def l_reverse(I, l):
    I.mutate(l)
    l.reverse()


def l_clear(I, l):
    I.mutate(l)
    l.clear()


LIST = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "remove": l_remove, "index": l_index, "count": l_count,
    "reverse": l_reverse, "clear": l_clear, "sort": l_sort, "copy": lambda I, l: list(l), "popleft": lambda I, l: l_pop(I, l, 0),
    "appendleft": lambda I, l, x: l_insert(I, l, 0, x),
}


def d_get(I, d, k, default=None):
    q = I.lookup_key(d, k)
    return default if q is MISSING else d[q]


def d_setdefault(I, d, k, default=None):
    q = I.lookup_key(d, k)
    if q is MISSING:
        I.mutate(d)
        d[k] = default
        return default
    return d[q]


def d_pop(I, d, k, *default):
    q = I.lookup_key(d, k)
    if q is MISSING:
        if default:
            return default[0]
        I.fail("KeyError", k)
    I.mutate(d)
    return d.pop(q)


def d_update(I, d, *a, **kw):
    I.mutate(d)
    for x in a:
        for k, v in dict_items(I, x):
            d[k] = v
    d.update(kw)


def d_popitem(I, d, last=True):
    if not d:
        I.fail("KeyError", "popitem")
    I.mutate(d)
    return d.popitem()


def d_clear(I, d):
    I.mutate(d)
    d.clear()


DICT = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "update": d_update, "clear": d_clear, "popitem": d_popitem,
    "keys": lambda I, d: DictView(d, "keys"), "values": lambda I, d: DictView(d, "values"), "items": lambda I, d: DictView(d, "items"),
    "copy": lambda I, d: dict(d), "__contains__": lambda I, d, k: I.contains(d, k), "__getitem__": lambda I, d, k: I.getitem(d, k),
    "__len__": lambda I, d: len(d),
}


def set_add(I, s, x):
    I.check_hash(x)
    I.mutate(s)
    s.add(x)


def set_update(I, s, *a):
    I.mutate(s)
    for x in a:
        s.update(I.iterate(x))


def set_discard(I, s, x):
    I.mutate(s)
    s.discard(x)


def set_remove(I, s, x):
    if x not in s:
        I.fail("KeyError", x)
    I.mutate(s)
    s.remove(x)


def set_op(name):
    return lambda I, s, *a: getattr(s, name)(*[set(I.iterate(x)) for x in a])


def set_pop(I, s):
    if not s:
        I.fail("KeyError", "pop from an empty set")
    I.mutate(s)
    x = I.set_list(s)[0]
    s.discard(x)
    return x


SET = {
    "add": set_add, "update": set_update, "discard": set_discard, "remove": set_remove, "pop": set_pop, "copy": lambda I, s: set(s),
    "union": set_op("union"), "intersection": set_op("intersection"), "difference": set_op("difference"),
    "symmetric_difference": set_op("symmetric_difference"), "issubset": set_op("issubset"), "issuperset": set_op("issuperset"), "isdisjoint": set_op("isdisjoint"),
    "clear": lambda I, s: (I.mutate(s), s.clear())[1],
}


# ------------------------------------------------------------------------------------------------ operators

SYMKINDS = ("int", "float", "dec", "bool")


def num_kind(v):
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, bool):
        return "int"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, decimal.Decimal):
        return "dec"
    return None


def host_binop(I, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("op")
    if isinstance(a, (str, AStr)):
        if op == "+":
            if isinstance(b, (str, AStr)):
                return mk([a, b])
            if isinstance(b, Sym) and b.kind == "any":
                raise Unsupported("+")
            I.fail("TypeError", "can only concatenate str to str")
        if op == "*":
            if isinstance(b, int):
                return mk([a] * b)
            if isinstance(b, Sym) and b.kind == "int":
                if isinstance(a, str) and a.strip() == "":
                    return mk([Part("W", ("times", a, b))])
                raise Unsupported("repetition")
        if op == "%":
            return percent(I, a, b)
        I.fail("TypeError", "unsupported operand type(s) for %s: str and %s" % (op, I.describe(b)))
    if isinstance(b, (str, AStr)) and op == "*" and (isinstance(a, int) or isinstance(a, Sym)):
        return host_binop(I, op, b, a)
    if isinstance(a, (list, tuple)):
        if op == "+" and type(a) is type(b):
            return a + b
        if op == "*" and isinstance(b, int):
            return a * b
        if op == "*" and isinstance(b, Sym):
            raise Unsupported("repetition")
        I.fail("TypeError", "unsupported operand type(s) for %s" % op)
    if isinstance(b, (list, tuple)) and op == "*" and isinstance(a, int):
        return a * b
    if isinstance(a, DictView) or isinstance(b, DictView):
        a = set(a.items()) if isinstance(a, DictView) else a
        b = set(b.items()) if isinstance(b, DictView) else b
        if not isinstance(b, (set, frozenset)):
            b = set(I.iterate(b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return I.native({"|": a.__or__, "&": a.__and__, "-": a.__sub__, "^": a.__xor__}[op], b)
    if isinstance(a, dict) and isinstance(b, dict) and op == "|":
        return {**a, **b}
    if isinstance(a, (ClassV, type, type(None))) and op == "|" and isinstance(b, (ClassV, type, type(None))):
        return Opaque("union type") if a is not None or b is not None else None
    ka, kb = num_kind(a), num_kind(b)
    if ka and kb:
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            f = {
                "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b, "**": lambda: a**b,
                "//": lambda: a // b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b,
            }.get(op)
            if f is None:
                I.fail("TypeError", "unsupported operand")
            return I.native(f)
        if "any" in (ka, kb):
            raise Unsupported("arithmetic on %r %r" % (a, b))
        kind = "float" if "float" in (ka, kb) or op == "/" else ("dec" if "dec" in (ka, kb) else "int")
        if op == "+":
            if a == 0 and not isinstance(a, Sym):
                return b
            if b == 0 and not isinstance(b, Sym):
                return a
            return add_norm(kind, a, b)
        if op == "-":
            if b == 0 and not isinstance(b, Sym):
                return a
            if a == b:
                return 0
            if kind == "int":
                return add_norm(kind, a, host_unop(I, "__neg__", b))
        if op == "*":
            if kind == "int" and not isinstance(a, Sym) and a == -1:
                return host_unop(I, "__neg__", b)
            if kind == "int" and not isinstance(b, Sym) and b == -1:
                return host_unop(I, "__neg__", a)
            if 1 in (a, b) and not (isinstance(a, Sym) and isinstance(b, Sym)):
                return b if a == 1 else a
            if not isinstance(a, Sym) and a == 0 or not isinstance(b, Sym) and b == 0:
                return 0
        return Sym(kind, (op, a, b))
    if isinstance(a, Sym) and a.kind in ("any", "type") or isinstance(b, Sym) and b.kind in ("any", "type"):
        raise Unsupported("operator %s on %r and %r" % (op, a, b))
    I.fail("TypeError", "unsupported operand type(s) for %s: %s and %s" % (op, I.describe(a), I.describe(b)))


def add_norm(kind, a, b):
    terms = []
    const = 0

    def flat(x):
        nonlocal const
        if isinstance(x, Sym) and isinstance(x.key, tuple) and x.key[0] == "+":
            for y in x.key[1:]:
                flat(y)
        elif isinstance(x, Sym):
            terms.append(x)
        else:
            const += x

    flat(a)
    flat(b)
    for t in list(terms):
        # a term and its negation cancel out
        if kind == "int" and t in terms and isinstance(t.key, tuple) and t.key[0] == "neg" and t.key[1] in terms:
            terms.remove(t)
            terms.remove(t.key[1])
    terms.sort(key=repr)
    if const or not terms:
        terms.append(const)
    if len(terms) == 1:
        return terms[0]
    return Sym(kind, ("+",) + tuple(terms))


def percent(I, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported("% formatting of a template")
    out, i, n = [], 0, 0
    seq = args if isinstance(args, tuple) else (args,)
    for m in re.finditer(r"%(\((\w+)\))?([-#0 +]*)(\d+)?(\.\d+)?([a-zA-Z%])", fmt):
        out.append(fmt[i : m.start()])
        i = m.end()
        if m.group(6) == "%":
            out.append("%")
            continue
        if m.group(2):
            v = I.getitem(args, m.group(2))
        else:
            if n >= len(seq):
                I.fail("TypeError", "not enough arguments for format string")
            v = seq[n]
            n += 1
        if m.group(3) or m.group(4) or m.group(5):
            raise Unsupported("% formatting")
        out.append(to_repr(I, v) if m.group(6) == "r" else to_str(I, v))
    out.append(fmt[i:])
    return mk(out)


def host_unop(I, d, v):
    if isinstance(v, Sym):
        if d == "__neg__" and v.kind in SYMKINDS:
            if isinstance(v.key, tuple) and v.key[0] == "neg":
                return v.key[1]
            return Sym("int" if v.kind == "bool" else v.kind, ("neg", v))
        if d == "__pos__":
            return v
        raise Unsupported("unary %s" % d)
    if isinstance(v, (int, float, decimal.Decimal)):
        return I.native({"__neg__": lambda: -v, "__pos__": lambda: +v, "__invert__": lambda: ~v}[d])
    if isinstance(v, Opaque):
        raise Unsupported("unary")
    I.fail("TypeError", "bad operand type for unary operator: %s" % I.describe(v))


def interval(v):
    """A lower and upper bound of a symbolic integer (None: unknown)."""
    if not isinstance(v, Sym):
        return (v, v) if isinstance(v, (int, float, decimal.Decimal)) else (None, None)
    k = v.key
    if v.kind == "int":
        if isinstance(k, tuple):
            if k[0] == "neg":
                lo, hi = interval(k[1])
                return (None if hi is None else -hi, None if lo is None else -lo)
            if k[0] == "+":
                los, his = zip(*[interval(x) for x in k[1:]])
                return (None if None in los else sum(los), None if None in his else sum(his))
            if k[0] in ("-", "*", "//", "%", "/", "intof", "int"):
                return (None, None)
            if k[0] == "max":
                los = [interval(x)[0] for x in k[1:]]
                los = [x for x in los if x is not None]
                return (max(los) if los else None, None)
            if k[0] == "min":
                los = [interval(x)[0] for x in k[1:]]
                return (None if None in los else min(los), None)
            if k[0] == "bounded":
                return (k[2], k[3])
        return (0, None)
    if isinstance(k, tuple) and k[0] == "neg":
        lo, hi = interval(k[1])
        return (None if hi is None else -hi, None if lo is None else -lo)
    if v.kind in ("dec", "float") and not (isinstance(k, tuple) and k[0] in ("-", "*", "decof", "floatof", "dec", "float")):
        return (0, None)
    return (None, None)


def sym_compare(I, op, a, b):
    if op == "==":
        if a == b and type(a) is type(b):
            return True
        ka, kb = num_kind(a), num_kind(b)
        if ka is None or kb is None:
            x = a if isinstance(a, Sym) else b
            if x.kind in SYMKINDS:
                return False
            return I.run.choose(("eq", a, b), [False, True])
        la, ha = interval(a)
        lb, hb = interval(b)
        if (ha is not None and lb is not None and ha < lb) or (hb is not None and la is not None and hb < la):
            return False
        return I.run.choose(("eq",) + tuple(sorted([a, b], key=repr)), [False, True])
    ka, kb = num_kind(a), num_kind(b)
    if ka is None or kb is None:
        I.fail("TypeError", "%s not supported between instances" % op)
    if op == ">":
        return sym_compare(I, "<", b, a)
    if op == ">=":
        return not sym_compare(I, "<", a, b)
    if op == "<=":
        return not sym_compare(I, "<", b, a)
    # a < b
    if a == b:
        return False
    la, ha = interval(a)
    lb, hb = interval(b)
    if ha is not None and lb is not None and ha < lb:
        return True
    if la is not None and hb is not None and la >= hb:
        return False
    if ("eq",) + tuple(sorted([a, b], key=repr)) in I.run.memo and I.run.memo[("eq",) + tuple(sorted([a, b], key=repr))]:
        return False
    if I.run.memo.get(("lt", b, a)):
        return False
    return I.run.choose(("lt", a, b), [False, True])


def host_compare(I, op, a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if (isinstance(a, Sym) and a.kind == "any") or (isinstance(b, Sym) and b.kind == "any"):
            raise Unsupported("comparison of %r and %r" % (a, b))
        return sym_compare(I, op, a, b)
    if isinstance(a, AStr) or isinstance(b, AStr):
        if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
            return I.run.choose((op, a, b), [False, True])
        I.fail("TypeError", "comparison")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of opaque values")
    if isinstance(a, DictView):
        a = set(a.items())
    if isinstance(b, DictView):
        b = set(b.items())
    if isinstance(a, (list, tuple)) and type(a) is type(b) and any(isinstance(x, (Sym, AStr, Obj)) for x in list(a) + list(b)):
        for x, y in zip(a, b):
            if x is y or I.truth(I.eq(x, y)):
                continue
            n = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            return I.compare((n, n, op), x, y)
        return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
    return I.native({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op])


# ------------------------------------------------------------------------------------------------ text of values


def num_text(I, v):
    """The text of a symbolic number; what Python writes for a float or Decimal has more than one shape."""
    k = v.key
    if v.kind == "int":
        if isinstance(k, tuple) and k[0] == "neg":
            return mk(["-", num_text(I, k[1])])
        return mk([Part("N", k)])
    if isinstance(k, tuple) and k[0] == "neg":
        return mk(["-", num_text(I, k[1])])
    if v.kind == "dec":
        if I.run.choose(("written with an exponent", k), [False, True]):
            return mk([Part("N", k, (("decexp",),))])
        return dec_fixed(I, k)
    return mk([Part("N", k, (("pyexp",),) if I.run.choose(("written with an exponent", k), [False, True]) else (("pyfix",),))])


def dec_fixed(I, k):
    """The digits of a Decimal: with a point when it has decimals."""
    return mk([Part("N", k, (("decpoint",),) if I.run.choose(("has decimals", k), [True, False]) else (("decint",),))])


def to_str(I, v):
    if isinstance(v, (str, AStr)):
        return v
    if v is None or isinstance(v, (bool, int, float, decimal.Decimal)):
        return str(v)
    if isinstance(v, Sym):
        if v.kind in ("int", "dec", "float"):
            return num_text(I, v)
        if v.kind == "bool":
            return "True" if I.truth(v) else "False"
        return mk([Part("X", ("str", v))])
    if isinstance(v, Obj):
        f = v.cls.lookup("__str__")
        if f is not MISSING:
            return I.call_method(v, f, [], {})
        if v.cls.is_enum:
            if v.cls.host_base is str and any(b.name == "StrEnum" for b in v.cls.mro):
                return v.attrs["value"]
            return v.cls.name + "." + v.attrs["name"]
        if v.cls.exc:
            a = v.attrs.get("args", ())
            return "" if not a else (to_str(I, a[0]) if len(a) == 1 else to_repr(I, tuple(a)))
        return to_repr(I, v)
    return to_repr(I, v)


def default_repr(I, v):
    if isinstance(v, Obj):
        return "<%s object>" % v.cls.name
    return to_repr(I, v)


def to_repr(I, v):
    if isinstance(v, AStr):
        return mk(["'"] + [p if isinstance(p, str) else p.op(("repr",)) for p in v.parts] + ["'"])
    if v is None or isinstance(v, (str, bool, int, float, decimal.Decimal, bytes)):
        return repr(v)
    if isinstance(v, Sym):
        if v.kind == "dec":
            return mk(["Decimal('", num_text(I, v), "')"])
        return to_str(I, v)
    if isinstance(v, Obj):
        f = v.cls.lookup("__repr__")
        if f is not MISSING:
            return I.call_method(v, f, [], {})
        if v.cls.is_enum:
            return "<%s.%s: %s>" % (v.cls.name, v.attrs["name"], v.attrs["value"] if isinstance(v.attrs["value"], (int, str)) else "")
        if v.cls.exc:
            return mk([v.cls.name, to_repr(I, tuple(v.attrs.get("args", ())))])
        return "<%s object>" % v.cls.name
    if isinstance(v, (list, tuple, set, frozenset)):
        xs = [to_repr(I, x) for x in I.iterate(v)]
        o, c = {list: "[]", tuple: "()"}.get(type(v), "{}")
        if not xs and isinstance(v, (set, frozenset)):
            return "set()"
        out = [o]
        for i, x in enumerate(xs):
            if i:
                out.append(", ")
            out.append(x)
        if isinstance(v, tuple) and len(xs) == 1:
            out.append(",")
        r = mk(out + [c])
        if isinstance(v, (set, frozenset)) and len(xs) > 1 and not isinstance(r, str):
            return r
        return r
    if isinstance(v, dict):
        out = ["{"]
        for i, (k, x) in enumerate(v.items()):
            if i:
                out.append(", ")
            out += [to_repr(I, k), ": ", to_repr(I, x)]
        return mk(out + ["}"])
    if isinstance(v, DictView):
        return mk(["dict_%s(" % v.kind, to_repr(I, v.items()), ")"])
    if isinstance(v, ClassV):
        if v.is_enum:
            return "<enum '%s'>" % v.name
        return "<class '%s.%s'>" % (v.module, v.qualname)
    if isinstance(v, type):
        return repr(v)
    return "<%s>" % type(v).__name__


def format_value(I, v, spec):
    if isinstance(v, Obj):
        f = v.cls.lookup("__format__")
        if f is not MISSING:
            return I.call_method(v, f, [spec], {})
    if spec == "":
        return to_str(I, v)
    if isinstance(v, (str, int, float, decimal.Decimal, bool)) and isinstance(spec, str):
        return I.native(format, v, spec)
    if isinstance(v, (str, AStr)):
        m = re.fullmatch(r"(.?[<>^])?.*", spec) if isinstance(spec, str) else None
        w = Part("W", ("fmt", spec))
        if isinstance(spec, AStr) and all(isinstance(p, Part) and p.kind == "N" or isinstance(p, str) for p in spec.parts):
            lit = first_literal(spec)
            return mk([w, v] if ">" in lit else [v, w])
        if m and spec.strip("<>^ 0123456789") == "":
            return mk([w, v] if ">" in spec else [v, w])
    if isinstance(v, Sym) and isinstance(spec, str):
        if spec == "d" and v.kind == "int":
            return num_text(I, v)
        if v.kind in ("dec", "float") and spec in ("f",):
            k = v.key
            neg = isinstance(k, tuple) and k[0] == "neg"
            k = k[1].key if neg else k
            p = dec_fixed(I, k) if v.kind == "dec" else mk([Part("N", k, (("fixed6",),))])
            return mk(["-", p] if neg else [p])
        if v.kind in ("dec", "float", "int"):
            k = v.key
            neg = isinstance(k, tuple) and k[0] == "neg"
            p = Part("N", k[1].key if neg else k, (("fmt", spec),))
            return mk(["-", p] if neg else [p])
    raise Unsupported("format spec %r" % (spec,))


# ------------------------------------------------------------------------------------------------ isinstance


def isinstance_(I, v, t):
    if isinstance(t, tuple):
        return any(I.truth(isinstance_(I, v, x)) for x in t)
    if isinstance(t, ClassV):
        if t is I.object:
            return True
        if isinstance(v, Obj):
            if v.cls.is_sub(t):
                return True
            if v.hole is not None:
                h = I.extern.get("isinstance")
                if h is not None:
                    r = h(I, v, t)
                    if r is not MISSING:
                        return r
            return False
        if isinstance(v, Sym) and v.kind == "any":
            return False
        return False
    if isinstance(t, Opaque):
        if t.name in ("typing.Callable", "collections.abc.Callable"):
            return callable_(v)
        if t.name == "union type":
            raise Unsupported("isinstance with a union")
        if t.name.startswith(("collections.abc.", "typing.")):
            n = t.name.split(".")[-1]
            table = {
                "Iterable": (list, tuple, set, dict, str, AStr, PyIter, DictView), "Sequence": (list, tuple, str, AStr), "Mapping": (dict,),
                "Set": (set, frozenset), "Collection": (list, tuple, set, dict, str, AStr), "Hashable": (str, int, tuple), "Sized": (list, tuple, set, dict, str),
                "MutableSequence": (list,), "MutableMapping": (dict,), "Iterator": (PyIter,),
                "List": (list,), "Dict": (dict,), "Tuple": (tuple,),
            }
            if n in table:
                return isinstance(v, table[n])
        raise Unsupported("isinstance with %r" % (t,))
    if isinstance(t, type):
        if isinstance(v, AStr):
            return t is str
        if isinstance(v, Sym):
            if v.kind == "any":
                return I.run.choose(("isinstance", v, t.__name__), [False, True])
            return t in {"int": (int,), "float": (float,), "dec": (decimal.Decimal,), "bool": (bool, int)}[v.kind]
        if isinstance(v, Obj):
            return v.cls.host_base is not None and issubclass(v.cls.host_base, t)
        if isinstance(v, (ClassV, type)):
            return t is type
        if isinstance(v, (Opaque, FuncV, BoundM, Nat, Partial, PyIter, DictView, ModuleV, PropV, SuperV, AttrField)):
            if isinstance(v, Opaque):
                raise Unsupported("isinstance of %r" % (v,))
            return False
        return isinstance(v, t)
    I.fail("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")


def callable_(v):
    if isinstance(v, (FuncV, BoundM, Nat, Partial, ClassV, type)):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup("__call__") is not MISSING
    if isinstance(v, Opaque):
        raise Unsupported("callable")
    return False


# ------------------------------------------------------------------------------------------------ builtins


def length(I, v):
    if isinstance(v, (str, list, tuple, dict, set, frozenset, range, bytes)):
        return len(v)
    if isinstance(v, DictView):
        return len(v.d)
    if isinstance(v, AStr):
        return Sym("int", ("len", v))
    if isinstance(v, Obj):
        f = v.cls.lookup("__len__")
        if f is not MISSING:
            return I.call_method(v, f, [], {})
    if isinstance(v, ClassV) and v.is_enum:
        return len(v.members)
    if isinstance(v, (Opaque, Sym)):
        if isinstance(v, Sym) and v.kind in SYMKINDS:
            I.fail("TypeError", "object has no len()")
        raise Unsupported("len of %r" % (v,))
    I.fail("TypeError", "object of type %s has no len()" % I.describe(v))


def b_len(I, a, k):
    return length(I, a[0])


def b_isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


def b_issubclass(I, a, k):
    c, t = a
    if isinstance(t, tuple):
        return any(b_issubclass(I, [c, x], {}) for x in t)
    if isinstance(c, ClassV):
        if isinstance(t, ClassV):
            return c.is_sub(t)
        if isinstance(t, type):
            return c.host_base is not None and issubclass(c.host_base, t)
        raise Unsupported("issubclass")
    if isinstance(c, type):
        if isinstance(t, type):
            return issubclass(c, t)
        return t is I.object
    I.fail("TypeError", "issubclass() arg 1 must be a class")


def b_getattr(I, a, k):
    n = a[1]
    if isinstance(n, AStr):
        raise Unsupported("getattr with a symbolic name")
    return I.get_attr(a[0], n, *a[2:3])


def b_setattr(I, a, k):
    if isinstance(a[1], AStr):
        raise Unsupported("setattr with a symbolic name")
    I.set_attr(a[0], a[1], a[2])


def b_delattr(I, a, k):
    raise Unsupported("delattr")


def b_hasattr(I, a, k):
    if isinstance(a[1], AStr):
        raise Unsupported("hasattr with a symbolic name")
    try:
        return I.find_attr(a[0], a[1]) is not MISSING
    except AbsRaise as e:
        if e.name == "AttributeError":
            return False
        raise


def b_callable(I, a, k):
    return callable_(a[0])


def b_repr(I, a, k):
    return to_repr(I, a[0])


def b_print(I, a, k):
    I.output.append(mk([x for v in a for x in (to_str(I, v), " ")]))


def b_enumerate(I, a, k):
    start = k.get("start", a[1] if len(a) > 1 else 0)
    return PyIter([(start + i, x) for i, x in enumerate(I.iterate(a[0]))])


def b_zip(I, a, k):
    ls = [I.iterate(x) for x in a]
    if k.get("strict") and len({len(x) for x in ls}) > 1:
        I.fail("ValueError", "zip() arguments have different lengths")
    return PyIter(list(zip(*ls)))


def b_map(I, a, k):
    return PyIter([I.call(a[0], list(t)) for t in zip(*[I.iterate(x) for x in a[1:]])])


def b_filter(I, a, k):
    return PyIter([x for x in I.iterate(a[1]) if I.truth(I.call(a[0], [x]) if a[0] is not None else x)])


def b_sorted(I, a, k):
    xs = I.iterate(a[0])
    return do_sort(I, xs, k.get("key"), k.get("reverse", False))


def b_reversed(I, a, k):
    return PyIter(list(reversed(I.iterate(a[0]))))


def b_sum(I, a, k):
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iterate(a[0]):
        acc = I.binop(I.BIN[ast.Add], acc, x)
    return acc


def minmax(name):
    def f(I, a, k):
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in k:
                return k["default"]
            I.fail("ValueError", "%s() arg is an empty sequence" % name)
        key = k.get("key")
        if key is not None:
            ks = [I.call(key, [x]) for x in xs]
        else:
            ks = xs
        if all(isinstance(x, (int, float, str, decimal.Decimal, tuple)) for x in ks):
            try:
                i = ks.index((max if name == "max" else min)(ks))
            except TypeError as e:
                I.fail("TypeError", str(e))
            return xs[i]
        if key is None and all(num_kind(x) in SYMKINDS for x in xs):
            return sym_minmax(name, xs)
        best = 0
        for i in range(1, len(xs)):
            n = ("__gt__", "__lt__", ">") if name == "max" else ("__lt__", "__gt__", "<")
            if I.truth(I.compare(n, ks[i], ks[best])):
                best = i
        return xs[best]

    return f


def sym_minmax(name, xs):
    flat = []
    for x in xs:
        if isinstance(x, Sym) and isinstance(x.key, tuple) and x.key[0] == name:
            flat.extend(x.key[1:])
        else:
            flat.append(x)
    conc = [x for x in flat if not isinstance(x, Sym)]
    syms = sorted(set(x for x in flat if isinstance(x, Sym)), key=repr)
    f = max if name == "max" else min
    if conc:
        c = f(conc)
        if name == "max":
            los = [interval(s)[0] for s in syms]
            if not any(lo is not None and lo >= c for lo in los):
                syms.append(c)
        else:
            syms = [s for s in syms if not (interval(s)[0] is not None and interval(s)[0] >= c)]
            syms.append(c)
    if len(syms) == 1:
        return syms[0]
    kind = "int" if all(num_kind(x) in ("int", "bool") for x in syms) else "dec"
    return Sym(kind, (name,) + tuple(syms))


b_max = minmax("max")
b_min = minmax("min")


def b_any(I, a, k):
    return any(I.truth(x) for x in (a[0] if isinstance(a[0], PyIter) else I.iterate(a[0])))


def b_all(I, a, k):
    return all(I.truth(x) for x in (a[0] if isinstance(a[0], PyIter) else I.iterate(a[0])))


def b_iter(I, a, k):
    return a[0] if isinstance(a[0], PyIter) else PyIter(I.iterate(a[0]))


def b_next(I, a, k):
    it = a[0]
    if not isinstance(it, PyIter):
        if isinstance(it, Obj) and it.cls.lookup("__next__") is not MISSING:
            return I.invoke(it, "__next__")
        I.fail("TypeError", "object is not an iterator")
    for x in it:
        return x
    if len(a) > 1:
        return a[1]
    I.fail("StopIteration")


def b_id(I, a, k):
    return id(a[0])


def b_hash(I, a, k):
    I.check_hash(a[0])
    return Sym("int", ("hash", id(a[0]) if isinstance(a[0], (Obj, ClassV)) else a[0]))


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return I.invoke(v, "__abs__")
    if isinstance(v, Sym):
        if isinstance(v.key, tuple) and v.key[0] == "neg":
            v = v.key[1]
        lo, _ = interval(v)
        return v if lo is not None and lo >= 0 else Sym(v.kind, ("abs", v))
    return I.native(abs, v)


def b_round(I, a, k):
    if all(isinstance(x, (int, float, decimal.Decimal)) for x in a):
        return I.native(round, *a)
    raise Unsupported("round")


def b_divmod(I, a, k):
    return (I.binop(I.BIN[ast.FloorDiv], a[0], a[1]), I.binop(I.BIN[ast.Mod], a[0], a[1]))


def b_pow(I, a, k):
    return I.binop(I.BIN[ast.Pow], a[0], a[1])


def b_chr(I, a, k):
    return I.native(chr, a[0])


def b_ord(I, a, k):
    if isinstance(a[0], AStr):
        raise Unsupported("ord")
    return I.native(ord, a[0])


def b_super(I, a, k):
    return SuperV(a[0], a[1])


def b_vars(I, a, k):
    return a[0].attrs if isinstance(a[0], Obj) else I.get_attr(a[0], "__dict__")


def b_dir(I, a, k):
    v = a[0]
    names = set()
    if isinstance(v, Obj):
        names |= set(v.attrs)
        v = v.cls
    if isinstance(v, ClassV):
        for c in v.mro:
            names |= set(c.ns)
    if isinstance(v, ModuleV):
        names |= set(v.ns)
    return sorted(names)


def b_format(I, a, k):
    return format_value(I, a[0], a[1] if len(a) > 1 else "")


def b_open(I, a, k):
    return Opaque("open()")


def b_input(I, a, k):
    return mk([Part("X", "input")])


def b_ascii(I, a, k):
    return to_repr(I, a[0])


def b_bin(I, a, k):
    return I.native(bin, a[0])


def b_hex(I, a, k):
    return I.native(hex, a[0])


def b_exec(I, a, k):
    raise Unsupported("exec")


def b_eval(I, a, k):
    raise Unsupported("eval")


def b___import__(I, a, k):
    return I.import_module(a[0])
