"""A disjunctive abstract interpreter for the Python subset (and beyond) that treeno is written in.

It evaluates the *source* of the analysed modules over abstract values (engine.absval): strings are templates with
holes, scalars may be symbolic, nested nodes may be opaque.  A test whose outcome the abstraction does not determine
splits the analysis; `explore` enumerates the outcomes.  Nothing of the analysed program is imported or executed.
"""
import ast
import decimal
import string as _string

from .absval import AStr, Part, Sym, Unsupported, mk, parts_of

MISSING = object()
NOTIMPL = NotImplemented


class AbsRaise(Exception):
    """An exception of the analysed program. accidental: not raised by a raise/assert statement of the program."""

    def __init__(self, exc, accidental, where):
        self.exc, self.accidental, self.where = exc, accidental, where

    @property
    def name(self):
        return self.exc.cls.name

    def text(self):
        a = self.exc.attrs.get("args") or ()
        return "%s(%s) in %s" % (self.name, ", ".join(_short(x) for x in a), self.where)

    def __str__(self):
        return self.text()


def _short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


class Infeasible(Exception):
    """The split chose an outcome that contradicts an earlier one."""


# ------------------------------------------------------------------------------------------------ heap objects


class Obj:
    __slots__ = ("cls", "attrs", "serial", "hole", "data")
    counter = 0

    def __init__(self, cls, attrs=None, hole=None, data=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.hole = hole
        self.data = data
        Obj.counter += 1
        self.serial = Obj.counter

    def __repr__(self):
        if self.hole is not None:
            return "<%s %s>" % (self.cls.name, self.hole)
        if self.cls.is_enum:
            return "%s.%s" % (self.cls.name, self.attrs.get("name"))
        return "%s(%s)" % (
            self.cls.name,
            ", ".join("%s=%r" % (k, v) for k, v in self.attrs.items() if k not in ("data_type", "parser", "parentCtx")),
        )


class ClassV:
    def __init__(self, name, bases, ns, module, qualname=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.qualname = qualname or name
        self.mro = None
        self.is_enum = False
        self.members = {}
        self.attrs_fields = None
        self.abstract = frozenset()
        self.exc = False
        self.kwargs = {}

    def __repr__(self):
        return "<class %s>" % self.name

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def find(self, name):
        for c in self.mro:
            if name in c.ns:
                return c
        return None

    def is_sub(self, other):
        return other in self.mro


def c3(cls, bases):
    seqs = [list(b.mro) for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        out.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class FuncV:
    __slots__ = ("name", "node", "env", "defaults", "kwdefaults", "module", "defclass", "abstract", "qualname", "body", "isgen", "attrs", "binds")

    def __init__(self, name, node, env, defaults, kwdefaults, module, qualname):
        self.name, self.node, self.env, self.defaults, self.kwdefaults = name, node, env, defaults, kwdefaults
        self.module, self.qualname = module, qualname
        self.defclass = None
        self.abstract = False
        self.body = None
        self.isgen = None
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qualname


class BoundM:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Nat:
    """A modelled function: fn(interp, args, kwargs)."""

    __slots__ = ("name", "fn", "method", "data")

    def __init__(self, name, fn, method=False, data=None):
        self.name, self.fn, self.method, self.data = name, fn, method, data

    def __repr__(self):
        return "<native %s>" % self.name


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class StaticMethodV:
    def __init__(self, func):
        self.func = func


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ModuleV:
    def __init__(self, name, ns=None, opaque=False):
        self.name, self.ns, self.opaque = name, {} if ns is None else ns, opaque

    def __repr__(self):
        return "<module %s>" % self.name


class Opaque:
    """Something of an external library of which nothing is modelled."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class AttrIB:
    counter = 0

    def __init__(self, kw):
        AttrIB.counter += 1
        self.counter = AttrIB.counter
        self.kw = kw


class Factory:
    def __init__(self, fn, takes_self=False):
        self.fn, self.takes_self = fn, takes_self


class AttrField:
    def __init__(self, name, kw):
        self.name = name
        self.kw = kw
        self.default = kw.get("default", MISSING)
        self.converter = kw.get("converter")
        self.validator = kw.get("validator")
        self.init = kw.get("init", True)
        self.kw_only = kw.get("kw_only", False)
        self.eq = kw.get("eq", kw.get("cmp", True))
        if self.eq is None:
            self.eq = True
        self.repr = kw.get("repr", True)
        self.type = kw.get("type")
        self.annotation = kw.get("annotation")

    def but(self, **kw):
        d = dict(self.kw)
        d.update(kw)
        f = AttrField(self.name, d)
        return f

    def __repr__(self):
        return "<field %s>" % self.name


class PyIter:
    """An iterator over a list computed eagerly."""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0

    def __iter__(self):
        while self.pos < len(self.items):
            x = self.items[self.pos]
            self.pos += 1
            yield x


class DictView:
    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def items(self):
        if self.kind == "keys":
            return list(self.d.keys())
        if self.kind == "values":
            return list(self.d.values())
        return [(k, v) for k, v in self.d.items()]


class DefaultDict(dict):
    factory = None


class Env:
    __slots__ = ("vars", "parent", "func", "module", "yields", "kind", "exc")

    def __init__(self, vars, parent, module, kind="func"):
        self.vars, self.parent, self.module, self.kind = vars, parent, module, kind
        self.func = None
        self.yields = None
        self.exc = None


RET, BRK, CNT = "ret", "brk", "cnt"


# ------------------------------------------------------------------------------------------------ splitting


class Run:
    """One branch of the disjunctive analysis: the outcomes chosen so far."""

    def __init__(self, prefix=(), limit=10**9):
        self.prefix = list(prefix)
        self.trace = []  # (key, options, index)
        self.memo = {}

    def choose(self, key, options):
        if len(options) == 1:
            return options[0]
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= len(options):
            raise Infeasible()
        self.trace.append((key, len(options), idx))
        v = options[idx]
        self.memo[key] = v
        return v

    def cost(self):
        return sum(1 for _, _, i in self.trace if i)


def explore(interp, fn, limit=2, max_runs=400):
    """All outcomes of fn within `limit` non-default choices. Yields (result-or-exception, run)."""
    todo = [()]
    n = 0
    while todo:
        prefix = todo.pop()
        run = Run(prefix)
        n += 1
        if n > max_runs:
            return
        interp.run = run
        mark = len(interp.writes)
        try:
            res = fn()
        except Infeasible:
            res = None
            interp.undo(mark)
            continue
        except (AbsRaise, Unsupported) as e:
            res = e
        except RecursionError:
            res = Unsupported("recursion depth")
        yield res, run
        interp.undo(mark)
        base = sum(1 for x in prefix if x)
        for i in range(len(prefix), len(run.trace)):
            key, k, idx = run.trace[i]
            # positions after the prefix all took option 0
            if base + 1 <= limit:
                for alt in range(1, k):
                    todo.append(tuple(t[2] for t in run.trace[:i]) + (alt,))


# ------------------------------------------------------------------------------------------------ interpreter


class Interp:
    MAX_DEPTH = 220
    MAX_STEPS = 2_000_000

    def __init__(self, load_source):
        """load_source(module name) -> (path, source text) or None for modules that are not analysed."""
        self.load_source = load_source
        self.modules = {}
        self.paths = {}
        self.run = Run()
        self.writes = []
        self.tracking = False
        self.stack = []
        self.steps = 0
        self.calls_seen = set()
        self.hooks = {}  # method name -> fn(interp, func, self, args, kwargs) called before interpreted calls
        self.set_reverse = False
        self.exc_classes = {}
        self.line = None
        self.facts = {}
        from . import models

        self.models = models
        self.object = ClassV("object", [], {}, "builtins")
        self.object.mro = [self.object]
        models.setup(self)

    # ---- errors
    def where(self):
        for f in reversed(self.stack):
            if isinstance(f, FuncV):
                return f.qualname + " (" + f.module + ")"
        return "<module>"

    def make_exc(self, name, *args):
        c = self.exc_class(name)
        return Obj(c, {"args": tuple(args)})

    def exc_class(self, name):
        return self.builtins[name]

    def fail(self, name, *args):
        raise AbsRaise(self.make_exc(name, *args), True, self.where())

    def native(self, f, *a, **k):
        """Apply a host operation to host values; host errors are errors of the analysed program."""
        try:
            return f(*a, **k)
        except (TypeError, ValueError, KeyError, IndexError, AttributeError, ZeroDivisionError, OverflowError, LookupError) as e:
            self.fail(type(e).__name__ if type(e).__name__ in self.builtins else "ValueError", str(e))
        except decimal.InvalidOperation as e:
            self.fail("ValueError", "InvalidOperation " + str(e))

    # ---- writes
    def note(self, kind, obj, key, restore):
        if self.tracking:
            self.writes.append((kind, obj, key, restore, self.where()))

    def undo(self, mark):
        while len(self.writes) > mark:
            self.writes.pop()[3]()

    def set_attr_raw(self, o, k, v):
        d = o.attrs
        if self.tracking:
            old = d.get(k, MISSING)

            def restore():
                if old is MISSING:
                    d.pop(k, None)
                else:
                    d[k] = old

            self.writes.append(("attr", o, k, restore, self.where()))
        d[k] = v

    def mutate(self, c):
        """Record that the container c is about to change."""
        if not self.tracking:
            return
        if isinstance(c, list):
            old = list(c)

            def restore():
                c[:] = old

        else:
            old = dict(c) if isinstance(c, dict) else set(c)

            def restore():
                c.clear()
                c.update(old)

        self.writes.append(("container", c, None, restore, self.where()))

    def set_global(self, ns, k, v):
        if self.tracking:
            old = ns.get(k, MISSING)

            def restore():
                if old is MISSING:
                    ns.pop(k, None)
                else:
                    ns[k] = old

            self.writes.append(("global", ns, k, restore, self.where()))
        ns[k] = v

    # ---- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
        else:
            parent = None
        m = self.models.model_module(self, name)
        if m is None:
            src = self.load_source(name)
            if src is None:
                m = ModuleV(name, opaque=True)
                self.modules[name] = m
            else:
                path, text = src
                m = ModuleV(name)
                self.modules[name] = m
                self.paths[name] = path
                m.ns["__name__"] = name
                m.ns["__file__"] = path
                m.ns["__doc__"] = None
                tree = ast.parse(text, path)
                env = Env(m.ns, None, name, "module")
                body = Compiler(self, name).block(tree.body)
                saved, self.tracking = self.tracking, False
                try:
                    body(env)
                finally:
                    self.tracking = saved
        self.modules[name] = m
        if parent is not None and not (name.startswith("antlr4.") and name.rsplit(".", 1)[1] in parent.ns):
            parent.ns[name.rsplit(".", 1)[1]] = m
        return m

    # ---- truth
    def truth(self, v):
        if v is None or v is True or v is False:
            return bool(v)
        if isinstance(v, (int, float, str, bytes, list, tuple, dict, set, frozenset, decimal.Decimal)):
            return bool(v)
        if isinstance(v, AStr):
            return self.astr_truth(v)
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if isinstance(v, Obj):
            f = v.cls.lookup("__bool__")
            if f is not MISSING:
                return self.truth(self.call_method(v, f, [], {}))
            f = v.cls.lookup("__len__")
            if f is not MISSING:
                return self.truth(self.call_method(v, f, [], {}))
            if v.cls.is_enum and v.cls.host_base is not None:
                return self.truth(v.attrs["value"])
            return True
        if isinstance(v, DictView):
            return bool(v.d)
        if isinstance(v, range):
            return bool(v)
        if isinstance(v, Opaque):
            if v.name == "typing.TYPE_CHECKING":
                return False
            raise Unsupported("truth of %r" % (v,))
        if v is NOTIMPL:
            return True
        return True

    def astr_truth(self, v):
        for p in v.parts:
            if isinstance(p, str):
                return True
            if p.kind in ("R", "N"):
                return True
            if p.kind == "S" and p.cls not in ("string", None) and not p.ops:
                return True
        return self.run.choose(("empty", v), [True, False])

    def sym_truth(self, v):
        if v.kind == "bool":
            return self.run.choose(("bool", v.key), [True, False])
        if v.kind in ("int", "float", "dec"):
            if isinstance(v.key, tuple) and v.key[0] == "len" and isinstance(v.key[1], AStr):
                return self.truth(v.key[1])
            if isinstance(v.key, tuple) and v.key[0] == "neg":
                return self.sym_truth(v.key[1])
            return self.run.choose(("nonzero", v), [True, False])
        return self.run.choose(("truth", v), [True, False])

    # ---- calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Nat):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, type):
            return self.models.call_type(self, f, list(args), kwargs)
        if isinstance(f, (ClassMethodV, StaticMethodV)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is MISSING:
                self.fail("TypeError", "%r object is not callable" % f.cls.name)
            return self.call_method(f, m, list(args), kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if isinstance(f, Sym):
            raise Unsupported("call of %r" % (f,))
        self.fail("TypeError", "%s object is not callable" % (type(f).__name__,))

    def call_method(self, obj, f, args, kwargs):
        if isinstance(f, ClassMethodV):
            return self.call(f.func, [obj.cls] + args, kwargs)
        if isinstance(f, StaticMethodV):
            return self.call(f.func, args, kwargs)
        return self.call(f, [obj] + args, kwargs)

    def invoke(self, obj, name, *args, **kwargs):
        return self.call(self.get_attr(obj, name), list(args), kwargs)

    def call_func(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported("step budget exhausted")
        if len(self.stack) > self.MAX_DEPTH:
            raise Unsupported("call depth in %s" % f.qualname)
        h = self.hooks.get(f.name)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not MISSING:
                return r
        if f.body is None:
            comp = Compiler(self, f.module, f.qualname)
            if isinstance(f.node, ast.Lambda):
                e = comp.expr(f.node.body)
                f.body = lambda env: (RET, e(env))
                f.isgen = False
            else:
                f.isgen = _is_gen(f.node)
                f.binds = None
                comp.set_scope(f.node)
                f.body = comp.block(f.node.body)
        vars = self.bind(f, args, kwargs)
        env = Env(vars, f.env, f.module)
        env.func = f
        self.calls_seen.add(f.qualname)
        self.stack.append(f)
        try:
            if f.isgen:
                env.yields = []
                f.body(env)
                return PyIter(env.yields)
            r = f.body(env)
            if r is None:
                return None
            return r[1]
        finally:
            self.stack.pop()

    def bind(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        pos = a.posonlyargs + a.args
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.fail("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[n:])
        extra = {}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in vars:
                    self.fail("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.fail("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (n - nd)
                if j < 0:
                    self.fail("TypeError", "%s() missing required argument %r" % (f.name, p.arg))
                vars[p.arg] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vars:
                if p.arg not in f.kwdefaults:
                    self.fail("TypeError", "%s() missing required keyword argument %r" % (f.name, p.arg))
                vars[p.arg] = f.kwdefaults[p.arg]
        return vars

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            return self.models.enum_lookup(self, cls, args)
        if cls.exc:
            new = Obj(cls, {"args": tuple(args)})
            init = cls.lookup("__init__")
            if isinstance(init, FuncV):
                self.call(init, [new] + args, kwargs)
            return new
        if cls.abstract:
            self.fail("TypeError", "Can't instantiate abstract class %s with abstract methods %s" % (cls.name, ", ".join(sorted(cls.abstract))))
        newf = cls.lookup("__new__")
        if newf is not MISSING and isinstance(newf, (FuncV, StaticMethodV)):
            o = self.call(newf, [cls] + args, kwargs)
            if not (isinstance(o, Obj) and o.cls.is_sub(cls)):
                return o
        else:
            o = Obj(cls)
        init = cls.lookup("__init__")
        if init is MISSING:
            if (args or kwargs) and newf is MISSING:
                self.fail("TypeError", "%s() takes no arguments" % cls.name)
        else:
            self.call(init, [o] + args, kwargs)
        return o

    # ---- attributes
    def get_attr(self, v, name, default=MISSING):
        r = self.find_attr(v, name)
        if r is MISSING:
            if default is not MISSING:
                return default
            self.fail("AttributeError", "%s has no attribute %r" % (self.describe(v), name))
        return r

    def describe(self, v):
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, ClassV):
            return "class " + v.name
        if isinstance(v, ModuleV):
            return "module " + v.name
        if isinstance(v, AStr):
            return "str"
        return type(v).__name__

    def find_attr(self, v, name):
        if isinstance(v, Obj):
            c = v.cls
            ca = c.lookup(name)
            if isinstance(ca, PropV):
                return self.call(ca.fget, [v])
            if name in v.attrs:
                return v.attrs[name]
            if ca is not MISSING:
                return self.bind_attr(ca, v, c)
            r = self.models.obj_attr(self, v, name)
            if r is not MISSING:
                return r
            ga = c.lookup("__getattr__")
            if ga is not MISSING:
                try:
                    return self.call_method(v, ga, [name], {})
                except AbsRaise as e:
                    if e.name == "AttributeError":
                        return MISSING
                    raise
            return MISSING
        if isinstance(v, ClassV):
            if v.is_enum and name in v.members:
                return v.members[name]
            ca = v.lookup(name)
            if ca is not MISSING:
                if isinstance(ca, ClassMethodV):
                    return BoundM(ca.func, v)
                if isinstance(ca, StaticMethodV):
                    return ca.func
                return ca
            return self.models.class_attr(self, v, name)
        if isinstance(v, ModuleV):
            if name in v.ns:
                return v.ns[name]
            if v.opaque:
                return Opaque(v.name + "." + name)
            if name == "__name__":
                return v.name
            if name == "__dict__":
                return v.ns
            # a submodule not imported yet
            full = v.name + "." + name
            if full in self.modules:
                return self.modules[full]
            return MISSING
        if isinstance(v, SuperV):
            mro = v.obj.mro if isinstance(v.obj, ClassV) else v.obj.cls.mro
            i = mro.index(v.cls)
            for c in mro[i + 1 :]:
                if name in c.ns:
                    ca = c.ns[name]
                    if isinstance(v.obj, ClassV):
                        if isinstance(ca, ClassMethodV):
                            return BoundM(ca.func, v.obj)
                        if isinstance(ca, StaticMethodV):
                            return ca.func
                        return ca
                    return self.bind_attr(ca, v.obj, v.obj.cls)
            return self.models.super_attr(self, v, name)
        if isinstance(v, Opaque):
            return Opaque(v.name + "." + name)
        return self.models.host_attr(self, v, name)

    def bind_attr(self, ca, obj, cls):
        if isinstance(ca, FuncV):
            return BoundM(ca, obj)
        if isinstance(ca, Nat):
            return BoundM(ca, obj) if ca.method else ca
        if isinstance(ca, ClassMethodV):
            return BoundM(ca.func, cls)
        if isinstance(ca, StaticMethodV):
            return ca.func
        if isinstance(ca, PropV):
            return self.call(ca.fget, [obj])
        if isinstance(ca, Partial) and False:
            return ca
        return ca

    def set_attr(self, v, name, val):
        if isinstance(v, Obj):
            ca = v.cls.lookup(name)
            if isinstance(ca, PropV):
                if ca.fset is None:
                    self.fail("AttributeError", "can't set attribute")
                self.call(ca.fset, [v, val])
                return
            sa = v.cls.lookup("__setattr__")
            if isinstance(sa, FuncV):
                self.call(sa, [v, name, val])
                return
            if getattr(v.cls, "frozen", False):
                self.fail("AttributeError", "frozen instance")
            self.set_attr_raw(v, name, val)
            return
        if isinstance(v, ClassV):
            self.set_global(v.ns, name, val)
            return
        if isinstance(v, ModuleV):
            self.set_global(v.ns, name, val)
            return
        if isinstance(v, FuncV):
            v.attrs[name] = val
            return
        if isinstance(v, Opaque):
            return
        self.fail("AttributeError", "can't set attribute %s of %s" % (name, self.describe(v)))

    # ---- iteration
    def iterate(self, v):
        """The elements of v as a host list."""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return self.set_list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, DictView):
            return v.items()
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            if len(v) > 5000:
                raise Unsupported("long range")
            return list(v)
        if isinstance(v, PyIter):
            return list(v)
        if isinstance(v, ClassV) and v.is_enum:
            return [m for n, m in v.members.items() if m.attrs.get("name") == n]
        if isinstance(v, Obj):
            f = v.cls.lookup("__iter__")
            if f is not MISSING:
                return self.iterate(self.call_method(v, f, [], {}))
            f = v.cls.lookup("__getitem__")
            if f is not MISSING:
                out = []
                for i in range(100):
                    try:
                        out.append(self.call_method(v, f, [i], {}))
                    except AbsRaise as e:
                        if e.name == "IndexError":
                            return out
                        raise
            self.fail("TypeError", "%r object is not iterable" % v.cls.name)
        if isinstance(v, Opaque):
            return []
        if isinstance(v, AStr):
            return self.models.iter_astr(self, v)
        if isinstance(v, Sym):
            raise Unsupported("iteration over %r" % (v,))
        self.fail("TypeError", "%s object is not iterable" % self.describe(v))

    def set_list(self, s):
        def key(x):
            if isinstance(x, Obj):
                return (1, x.cls.name, str(x.attrs.get("name")), x.serial)
            if isinstance(x, ClassV):
                return (2, x.qualname, "", 0)
            return (0, repr(x), "", 0)

        out = sorted(s, key=key)
        if self.set_reverse:
            out.reverse()
        return out

    # ---- equality and hashing
    def eq(self, a, b):
        """a == b as an abstract value."""
        r = self.eq_dunder(a, b)
        return r

    def eq_dunder(self, a, b):
        if isinstance(a, Obj):
            f = a.cls.lookup("__eq__")
            if f is not MISSING:
                r = self.call_method(a, f, [b], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Obj):
            f = b.cls.lookup("__eq__")
            if f is not MISSING:
                r = self.call_method(b, f, [a], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(a, Obj) or isinstance(b, Obj):
            if a is b:
                return True
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and x.cls.is_enum and x.cls.host_base is not None and not isinstance(y, Obj):
                    return self.eq(x.attrs["value"], y)
            return False
        if isinstance(a, AStr) or isinstance(b, AStr):
            return self.models.astr_eq(self, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.models.sym_compare(self, "==", a, b)
        if isinstance(a, (list, tuple)) and type(a) is type(b) or (isinstance(a, list) and isinstance(b, list)):
            if len(a) != len(b):
                return False
            return all(x is y or self.truth(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k, x in a.items():
                if k not in b:
                    return False
                y = b[k]
                if not (x is y or self.truth(self.eq(x, y))):
                    return False
            return True
        if isinstance(a, DictView) and isinstance(b, DictView):
            return set(a.items()) == set(b.items())
        if isinstance(a, DictView):
            a = set(a.items())
        if isinstance(b, DictView):
            b = set(b.items())
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
            if a is b:
                return True
            raise Unsupported("comparison with %r" % (a if isinstance(a, Opaque) else b,))
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("equality of %r and %r" % (a, b))

    def ne(self, a, b):
        if isinstance(a, Obj):
            f = a.cls.lookup("__ne__")
            if f is not MISSING:
                r = self.call_method(a, f, [b], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Obj):
            f = b.cls.lookup("__ne__")
            if f is not MISSING:
                r = self.call_method(b, f, [a], {})
                if r is not NOTIMPL:
                    return r
        r = self.eq(a, b)
        if isinstance(r, Sym):
            return not self.truth(r)
        return not self.truth(r)

    def check_hash(self, v):
        if isinstance(v, (list, dict, set)):
            self.fail("TypeError", "unhashable type: %s" % type(v).__name__)
        if isinstance(v, Obj):
            for c in v.cls.mro:
                if "__hash__" in c.ns:
                    if c.ns["__hash__"] is None:
                        self.fail("TypeError", "unhashable type: %s" % v.cls.name)
                    if isinstance(c.ns["__hash__"], FuncV):
                        raise Unsupported("__hash__ of %s" % c.name)
                    return
                if "__eq__" in c.ns:
                    self.fail("TypeError", "unhashable type: %s" % v.cls.name)
        if isinstance(v, tuple):
            for x in v:
                self.check_hash(x)

    def contains(self, c, x):
        if isinstance(c, DictView):
            if c.kind == "keys":
                c = c.d
            else:
                c = c.items()
        if isinstance(c, (list, tuple, PyIter)):
            if isinstance(c, PyIter):
                c = list(c)
            for y in c:
                if x is y or self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(c, (dict, set, frozenset)):
            return self.lookup_key(c, x) is not MISSING
        if isinstance(c, (str, AStr)):
            if not isinstance(x, (str, AStr)):
                self.fail("TypeError", "'in <string>' requires string")
            return self.models.astr_contains(self, c, x)
        if isinstance(c, range):
            if isinstance(x, int):
                return x in c
            raise Unsupported("in range")
        if isinstance(c, ClassV) and c.is_enum:
            return any(m is x for m in c.members.values())
        if isinstance(c, Obj):
            f = c.cls.lookup("__contains__")
            if f is not MISSING:
                return self.truth(self.call_method(c, f, [x], {}))
            return self.contains(self.iterate(c), x)
        if isinstance(c, Opaque):
            raise Unsupported("membership in %r" % (c,))
        self.fail("TypeError", "argument of type %s is not iterable" % self.describe(c))

    def lookup_key(self, c, x):
        """The key of the dict or set c that equals x, or MISSING."""
        self.check_hash(x)
        if isinstance(x, (AStr, Sym)):
            if x in c:
                return x
            cands = []
            for k in c:
                if isinstance(x, AStr) and isinstance(k, (str, AStr)):
                    if self.models.may_equal(self, x, k):
                        cands.append(k)
                elif isinstance(x, Sym) and not isinstance(k, (Obj, ClassV, str, AStr)):
                    cands.append(k)
            if not cands:
                return MISSING
            if len(cands) > 12:
                cands = []
            key = ("key", x, tuple(sorted(map(repr, cands))))
            k = self.run.choose(key, [MISSING] + sorted(cands, key=repr))
            if k is not MISSING and isinstance(x, AStr) and isinstance(k, str):
                self.facts_equal(x, k)
            return k
        if isinstance(x, (str, int, float, bool, type(None), tuple, bytes, decimal.Decimal)):
            if x in c:
                return x
            for k in c:
                if isinstance(k, (AStr, Sym)) and isinstance(x, (str, int)):
                    if self.truth(self.eq(k, x)):
                        return k
            return MISSING
        try:
            return x if x in c else MISSING
        except TypeError as e:
            self.fail("TypeError", str(e))

    def facts_equal(self, x, k):
        pass

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Sym) and a.kind == "bool" and isinstance(b, bool):
                return self.truth(a) == b
            if isinstance(b, Sym) and b.kind == "bool" and isinstance(a, bool):
                return self.truth(b) == a
            return False
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return False
        return False

    # ---- subscripts
    def getitem(self, c, i):
        if isinstance(c, (list, tuple, str)):
            if isinstance(i, slice):
                if any(isinstance(z, Sym) for z in (i.start, i.stop, i.step)):
                    raise Unsupported("symbolic slice")
                return self.native(c.__getitem__, i)
            if isinstance(i, bool) or isinstance(i, int):
                return self.native(lambda: c[i])
            if isinstance(i, Sym):
                raise Unsupported("symbolic index")
            self.fail("TypeError", "indices must be integers")
        if isinstance(c, dict):
            k = self.lookup_key(c, i)
            if k is MISSING:
                if isinstance(c, DefaultDict) and c.factory is not None:
                    self.mutate(c)
                    v = self.call(c.factory)
                    c[i] = v
                    return v
                self.fail("KeyError", i)
            return c[k]
        if isinstance(c, AStr):
            return self.models.astr_getitem(self, c, i)
        if isinstance(c, ClassV):
            if c.is_enum:
                if isinstance(i, str):
                    if i in c.members:
                        return c.members[i]
                    self.fail("KeyError", i)
                if isinstance(i, AStr):
                    k = self.lookup_key(c.members, i)
                    if k is MISSING:
                        self.fail("KeyError", i)
                    return c.members[k]
            f = c.lookup("__class_getitem__")
            return c
        if isinstance(c, Obj):
            f = c.cls.lookup("__getitem__")
            if f is not MISSING:
                return self.call_method(c, f, [i], {})
            self.fail("TypeError", "%s object is not subscriptable" % c.cls.name)
        if isinstance(c, Opaque):
            return Opaque(c.name + "[]")
        if isinstance(c, type):
            return c
        if isinstance(c, (PyIter, DictView, set, type(None), int, FuncV)):
            self.fail("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %r" % (c,))

    def setitem(self, c, i, v):
        if isinstance(c, list):
            self.mutate(c)
            self.native(c.__setitem__, i, v)
        elif isinstance(c, dict):
            self.mutate(c)
            k = self.lookup_key(c, i)
            c[i if k is MISSING else k] = v
        elif isinstance(c, Obj):
            f = c.cls.lookup("__setitem__")
            if f is MISSING:
                self.fail("TypeError", "object does not support item assignment")
            self.call_method(c, f, [i, v], {})
        elif isinstance(c, Opaque):
            pass
        else:
            self.fail("TypeError", "object does not support item assignment")

    def delitem(self, c, i):
        if isinstance(c, (list, dict)):
            self.mutate(c)
            if isinstance(c, dict):
                k = self.lookup_key(c, i)
                if k is MISSING:
                    self.fail("KeyError", i)
                del c[k]
            else:
                self.native(c.__delitem__, i)
        else:
            raise Unsupported("del item")

    # ---- operators
    BIN = {
        ast.Add: ("__add__", "__radd__", "+"), ast.Sub: ("__sub__", "__rsub__", "-"), ast.Mult: ("__mul__", "__rmul__", "*"),
        ast.Div: ("__truediv__", "__rtruediv__", "/"), ast.Mod: ("__mod__", "__rmod__", "%"), ast.Pow: ("__pow__", "__rpow__", "**"),
        ast.FloorDiv: ("__floordiv__", "__rfloordiv__", "//"), ast.BitAnd: ("__and__", "__rand__", "&"), ast.BitOr: ("__or__", "__ror__", "|"),
        ast.BitXor: ("__xor__", "__rxor__", "^"), ast.LShift: ("__lshift__", "__rlshift__", "<<"), ast.RShift: ("__rshift__", "__rrshift__", ">>"),
        ast.MatMult: ("__matmul__", "__rmatmul__", "@"),
    }
    CMP = {ast.Lt: ("__lt__", "__gt__", "<"), ast.LtE: ("__le__", "__ge__", "<="), ast.Gt: ("__gt__", "__lt__", ">"), ast.GtE: ("__ge__", "__le__", ">=")}

    def binop(self, names, a, b):
        d, r, sym = names
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f = a.cls.lookup(d)
                if f is not MISSING:
                    v = self.call_method(a, f, [b], {})
                    if v is not NOTIMPL:
                        return v
            if isinstance(b, Obj):
                f = b.cls.lookup(r)
                if f is not MISSING:
                    v = self.call_method(b, f, [a], {})
                    if v is not NOTIMPL:
                        return v
            self.fail("TypeError", "unsupported operand type(s) for %s: %s and %s" % (sym, self.describe(a), self.describe(b)))
        return self.models.host_binop(self, sym, a, b)

    def compare(self, names, a, b):
        d, r, sym = names
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f = a.cls.lookup(d)
                if f is not MISSING:
                    v = self.call_method(a, f, [b], {})
                    if v is not NOTIMPL:
                        return v
            if isinstance(b, Obj):
                f = b.cls.lookup(r)
                if f is not MISSING:
                    v = self.call_method(b, f, [a], {})
                    if v is not NOTIMPL:
                        return v
            self.fail("TypeError", "%s not supported between %s and %s" % (sym, self.describe(a), self.describe(b)))
        return self.models.host_compare(self, sym, a, b)

    # ---- conversions
    def to_str(self, v):
        return self.models.to_str(self, v)

    def isinstance_(self, v, t):
        return self.models.isinstance_(self, v, t)


def _is_gen(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


# ------------------------------------------------------------------------------------------------ compiler


class Compiler:
    """Turns syntax trees into closures over environments."""

    def __init__(self, interp, module, qual=""):
        self.I = interp
        self.module = module
        self.qual = qual
        self.globals_ = set()
        self.nonlocals = set()

    def set_scope(self, node):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Global):
                self.globals_ |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def unsupported(self, n):
        what = type(n).__name__

        def f(env):
            raise Unsupported("construct %s" % what)

        return f

    # ---------------- statements
    def block(self, stmts):
        fs = [self.stmt(s) for s in stmts]
        if len(fs) == 1:
            return fs[0]

        def run(env):
            for f in fs:
                r = f(env)
                if r is not None:
                    return r
            return None

        return run

    def stmt(self, s):
        return getattr(self, "s_" + type(s).__name__, self.unsupported)(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return lambda env: None
        e = self.expr(s.value)

        def f(env):
            e(env)

        return f

    def s_Pass(self, s):
        return lambda env: None

    def s_Global(self, s):
        return lambda env: None

    s_Nonlocal = s_Global

    def s_Return(self, s):
        if s.value is None:
            return lambda env: (RET, None)
        e = self.expr(s.value)
        return lambda env: (RET, e(env))

    def s_Break(self, s):
        return lambda env: (BRK, None)

    def s_Continue(self, s):
        return lambda env: (CNT, None)

    def s_Assign(self, s):
        e = self.expr(s.value)
        ts = [self.target(t) for t in s.targets]
        if len(ts) == 1:
            t = ts[0]

            def f1(env):
                t(env, e(env))

            return f1

        def f(env):
            v = e(env)
            for t in ts:
                t(env, v)

        return f

    def s_AnnAssign(self, s):
        ann = s.annotation
        name = s.target.id if isinstance(s.target, ast.Name) else None

        def annotate(env):
            if name is not None and env.kind == "class":
                env.vars.setdefault("__annotations__", {})[name] = ann

        if s.value is None:
            return annotate
        e = self.expr(s.value)
        t = self.target(s.target)

        def f(env):
            annotate(env)
            v = e(env)
            if isinstance(v, AttrIB):
                v.kw["annotation"] = ann
            t(env, v)

        return f

    def s_AugAssign(self, s):
        I = self.I
        load = self.expr(_as_load(s.target))
        store = self.target(s.target)
        e = self.expr(s.value)
        names = I.BIN[type(s.op)]
        iname = names[0].replace("__", "__i", 1)
        sym = names[2]

        def f(env):
            a = load(env)
            b = e(env)
            if isinstance(a, list) and sym == "+":
                items = I.iterate(b)
                I.mutate(a)
                a.extend(items)
                store(env, a)
                return
            if isinstance(a, set) and sym in "|&-^" and isinstance(b, (set, frozenset, DictView)):
                I.mutate(a)
                bb = set(I.iterate(b))
                if sym == "|":
                    a |= bb
                elif sym == "&":
                    a &= bb
                elif sym == "-":
                    a -= bb
                else:
                    a ^= bb
                store(env, a)
                return
            if isinstance(a, dict) and sym == "|" and isinstance(b, dict):
                I.mutate(a)
                a.update(b)
                store(env, a)
                return
            if isinstance(a, Obj):
                m = a.cls.lookup(iname)
                if m is not MISSING:
                    store(env, I.call_method(a, m, [b], {}))
                    return
            store(env, I.binop(names, a, b))

        return f

    def s_If(self, s):
        t = self.expr(s.test)
        b = self.block(s.body)
        o = self.block(s.orelse) if s.orelse else None
        I = self.I

        def f(env):
            if I.truth(t(env)):
                return b(env)
            if o is not None:
                return o(env)

        return f

    def s_For(self, s):
        it = self.expr(s.iter)
        t = self.target(s.target)
        b = self.block(s.body)
        o = self.block(s.orelse) if s.orelse else None
        I = self.I

        def f(env):
            src = it(env)
            seq = src if isinstance(src, PyIter) else I.iterate(src)
            if isinstance(src, list):
                seq = _live(src)
            for x in seq:
                I.steps += 1
                t(env, x)
                r = b(env)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
            if o is not None:
                return o(env)

        return f

    def s_While(self, s):
        t = self.expr(s.test)
        b = self.block(s.body)
        o = self.block(s.orelse) if s.orelse else None
        I = self.I

        def f(env):
            n = 0
            while I.truth(t(env)):
                n += 1
                if n > 2000:
                    raise Unsupported("long loop")
                r = b(env)
                if r is not None:
                    if r[0] is BRK:
                        return None
                    if r[0] is RET:
                        return r
            if o is not None:
                return o(env)

        return f

    def s_Assert(self, s):
        t = self.expr(s.test)
        m = self.expr(s.msg) if s.msg is not None else None
        I = self.I

        def f(env):
            if not I.truth(t(env)):
                args = ()
                if m is not None:
                    try:
                        args = (m(env),)
                    except Unsupported:
                        args = ()
                raise AbsRaise(I.make_exc("AssertionError", *args), False, I.where())

        return f

    def s_Raise(self, s):
        e = self.expr(s.exc) if s.exc is not None else None
        I = self.I

        def f(env):
            if e is None:
                x = env
                while x is not None:
                    if x.exc is not None:
                        raise x.exc
                    x = x.parent
                I.fail("RuntimeError", "No active exception to reraise")
            try:
                v = e(env)
            except Unsupported:
                v = I.make_exc("Exception")
            if isinstance(v, ClassV):
                v = I.instantiate(v, [], {})
            if isinstance(v, Opaque):
                v = I.make_exc("Exception", v.name)
            if not (isinstance(v, Obj) and v.cls.exc):
                I.fail("TypeError", "exceptions must derive from BaseException")
            raise AbsRaise(v, False, I.where())

        return f

    def s_Try(self, s):
        b = self.block(s.body)
        hs = [(self.expr(h.type) if h.type is not None else None, h.name, self.block(h.body)) for h in s.handlers]
        o = self.block(s.orelse) if s.orelse else None
        fin = self.block(s.finalbody) if s.finalbody else None
        I = self.I

        def inner(env):
            depth = len(I.stack)
            try:
                r = b(env)
            except AbsRaise as e:
                del I.stack[depth:]
                for t, name, body in hs:
                    if t is None:
                        ok = True
                    else:
                        ts = t(env)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        ok = any(isinstance(c, ClassV) and e.exc.cls.is_sub(c) for c in ts)
                    if ok:
                        if name:
                            env.vars[name] = e.exc
                        saved, env.exc = env.exc, e
                        try:
                            return body(env)
                        finally:
                            env.exc = saved
                raise
            if r is not None:
                return r
            if o is not None:
                return o(env)

        if fin is None:
            return inner

        def f(env):
            try:
                r = inner(env)
            except (AbsRaise,):
                q = fin(env)
                if q is not None:
                    return q
                raise
            q = fin(env)
            return q if q is not None else r

        return f

    def s_With(self, s):
        items = [(self.expr(i.context_expr), self.target(i.optional_vars) if i.optional_vars is not None else None) for i in s.items]
        b = self.block(s.body)
        I = self.I

        def f(env):
            exits = []
            for e, t in items:
                cm = e(env)
                if isinstance(cm, Opaque):
                    v = cm
                    exits.append(None)
                else:
                    v = I.invoke(cm, "__enter__")
                    exits.append(cm)
                if t is not None:
                    t(env, v)
            try:
                r = b(env)
            except AbsRaise as ex:
                for cm in reversed(exits):
                    if cm is not None and I.truth(I.invoke(cm, "__exit__", ex.exc.cls, ex.exc, None)):
                        return None
                raise
            for cm in reversed(exits):
                if cm is not None:
                    I.invoke(cm, "__exit__", None, None, None)
            return r

        return f

    def s_Delete(self, s):
        I = self.I
        fs = []
        for t in s.targets:
            if isinstance(t, ast.Name):

                def f(env, n=t.id):
                    if n not in env.vars:
                        I.fail("NameError", n)
                    del env.vars[n]

            elif isinstance(t, ast.Subscript):
                o, i = self.expr(t.value), self.expr(t.slice)

                def f(env, o=o, i=i):
                    I.delitem(o(env), i(env))

            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)

                def f(env, o=o, n=t.attr):
                    v = o(env)
                    if isinstance(v, Obj) and n in v.attrs:
                        old = v.attrs[n]
                        I.note("attr", v, n, lambda: v.attrs.__setitem__(n, old))
                        del v.attrs[n]
                    else:
                        I.fail("AttributeError", n)

            else:
                f = self.unsupported(t)
            fs.append(f)

        def g(env):
            for f in fs:
                f(env)

        return g

    def s_Import(self, s):
        I = self.I
        names = [(a.name, a.asname) for a in s.names]

        def f(env):
            for n, a in names:
                m = I.import_module(n)
                if a:
                    self.store(env, a, m)
                else:
                    self.store(env, n.split(".")[0], I.import_module(n.split(".")[0]))

        return f

    def s_ImportFrom(self, s):
        I = self.I
        names = [(a.name, a.asname or a.name) for a in s.names]
        mod = s.module or ""
        level = s.level

        def f(env):
            name = mod
            if level:
                base = self.module.split(".")
                is_pkg = I.paths.get(self.module, "").endswith("__init__.py")
                k = level - 1 if is_pkg else level
                base = base[: len(base) - k] if k else base
                name = ".".join(base + ([mod] if mod else []))
            m = I.import_module(name)
            for n, a in names:
                if n == "*":
                    allv = m.ns.get("__all__")
                    for k, v in list(m.ns.items()):
                        if (allv is not None and k in allv) or (allv is None and not k.startswith("_")):
                            self.store(env, k, v)
                    continue
                v = I.find_attr(m, n)
                if v is MISSING:
                    if I.load_source(name + "." + n) is not None or I.models.is_modelled(name + "." + n):
                        v = I.import_module(name + "." + n)
                    else:
                        I.fail("ImportError", "cannot import name %r from %r" % (n, name))
                self.store(env, a, v)

        return f

    def s_FunctionDef(self, s):
        mkf = self.func(s, s.name)
        decs = [self.expr(d) for d in s.decorator_list]
        store = self.storer(s.name)
        I = self.I

        def f(env):
            v = mkf(env)
            for d in reversed(decs):
                v = I.call(d(env), [v])
            store(env, v)

        return f

    def s_ClassDef(self, s):
        I = self.I
        bases = [self.expr(b) for b in s.bases]
        kws = [(k.arg, self.expr(k.value)) for k in s.keywords]
        decs = [self.expr(d) for d in s.decorator_list]
        store = self.storer(s.name)
        qual = (self.qual + "." if self.qual else "") + s.name
        comp = Compiler(I, self.module, qual)
        body = comp.block(s.body)
        module = self.module

        def f(env):
            bs = [b(env) for b in bases]
            kw = {k: e(env) for k, e in kws}
            ns = {}
            cenv = Env(ns, env, module, "class")
            ns["__module__"] = module
            body(cenv)
            c = I.models.make_class(I, s.name, bs, ns, kw, module, qual)
            for d in reversed(decs):
                c = I.call(d(env), [c])
            store(env, c)

        return f

    def s_Match(self, s):
        subj = self.expr(s.subject)
        cases = [(self.pattern(c.pattern), self.expr(c.guard) if c.guard is not None else None, self.block(c.body)) for c in s.cases]
        I = self.I

        def f(env):
            v = subj(env)
            for p, g, b in cases:
                if p(env, v) and (g is None or I.truth(g(env))):
                    return b(env)

        return f

    def pattern(self, p):
        I = self.I
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value)
            return lambda env, v: I.truth(I.eq(v, e(env)))
        if isinstance(p, ast.MatchSingleton):
            return lambda env, v: I.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            ps = [self.pattern(q) for q in p.patterns]
            return lambda env, v: any(q(env, v) for q in ps)
        if isinstance(p, ast.MatchAs):
            q = self.pattern(p.pattern) if p.pattern is not None else None
            st = self.storer(p.name) if p.name else None

            def f(env, v):
                if q is not None and not q(env, v):
                    return False
                if st is not None:
                    st(env, v)
                return True

            return f
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls)
            pos = [self.pattern(q) for q in p.patterns]
            kw = [(k, self.pattern(q)) for k, q in zip(p.kwd_attrs, p.kwd_patterns)]

            def f(env, v):
                cls = c(env)
                if not I.truth(I.isinstance_(v, cls)):
                    return False
                if pos:
                    if isinstance(cls, type):
                        return len(pos) == 1 and pos[0](env, v)
                    names = [a.name for a in cls.attrs_fields or [] if a.init and not a.kw_only]
                    for q, n in zip(pos, names):
                        if not q(env, I.get_attr(v, n)):
                            return False
                for k, q in kw:
                    x = I.get_attr(v, k, None)
                    if not q(env, x):
                        return False
                return True

            return f
        if isinstance(p, ast.MatchSequence):
            ps = p.patterns
            star = [i for i, q in enumerate(ps) if isinstance(q, ast.MatchStar)]
            cs = [self.pattern(q) if not isinstance(q, ast.MatchStar) else (self.storer(q.name) if q.name else None) for q in ps]

            def f(env, v):
                if not isinstance(v, (list, tuple)):
                    return False
                v = list(v)
                if not star:
                    return len(v) == len(cs) and all(q(env, x) for q, x in zip(cs, v))
                k = star[0]
                after = len(cs) - k - 1
                if len(v) < len(cs) - 1:
                    return False
                for q, x in zip(cs[:k], v[:k]):
                    if not q(env, x):
                        return False
                for q, x in zip(cs[k + 1 :], v[len(v) - after :]):
                    if not q(env, x):
                        return False
                if cs[k] is not None:
                    cs[k](env, v[k : len(v) - after])
                return True

            return f
        return self.unsupported(p)

    # ---------------- targets
    def storer(self, name):
        I = self.I
        if name in self.globals_:
            mod = self.module

            def g(env, v):
                I.set_global(I.modules[mod].ns, name, v)

            return g
        if name in self.nonlocals:

            def n(env, v):
                e = env.parent
                while e is not None:
                    if name in e.vars and e.kind != "class":
                        e.vars[name] = v
                        return
                    e = e.parent
                raise Unsupported("nonlocal")

            return n

        def f(env, v):
            if env.kind == "comp":
                env.vars[name] = v
            else:
                env.vars[name] = v

        return f

    def store(self, env, name, v):
        self.storer(name)(env, v)

    def target(self, t):
        I = self.I
        if isinstance(t, ast.Name):
            return self.storer(t.id)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            n = t.attr
            return lambda env, v: I.set_attr(o(env), n, v)
        if isinstance(t, ast.Subscript):
            o, i = self.expr(t.value), self.expr(t.slice)
            return lambda env, v: I.setitem(o(env), i(env), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            ts = [self.target(x.value if isinstance(x, ast.Starred) else x) for x in t.elts]

            def f(env, v):
                xs = I.iterate(v)
                if not star:
                    if len(xs) != len(ts):
                        I.fail("ValueError", "not enough or too many values to unpack")
                    for q, x in zip(ts, xs):
                        q(env, x)
                    return
                k = star[0]
                after = len(ts) - k - 1
                if len(xs) < len(ts) - 1:
                    I.fail("ValueError", "not enough values to unpack")
                for q, x in zip(ts[:k], xs[:k]):
                    q(env, x)
                ts[k](env, xs[k : len(xs) - after])
                for q, x in zip(ts[k + 1 :], xs[len(xs) - after :]):
                    q(env, x)

            return f
        u = self.unsupported(t)
        return lambda env, v: u(env)

    # ---------------- expressions
    def expr(self, e):
        return getattr(self, "e_" + type(e).__name__, self.unsupported)(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis:
            v = Opaque("...")
        return lambda env: v

    def e_Name(self, e):
        n = e.id
        I = self.I

        def f(env):
            x = env
            first = True
            while x is not None:
                if first or x.kind != "class":
                    v = x.vars.get(n, MISSING)
                    if v is not MISSING:
                        return v
                if x.kind != "comp":
                    first = False
                x = x.parent
            v = I.builtins.get(n, MISSING)
            if v is MISSING:
                I.fail("NameError", "name %r is not defined" % n)
            return v

        return f

    def e_Attribute(self, e):
        o = self.expr(e.value)
        n = e.attr
        I = self.I
        return lambda env: I.get_attr(o(env), n)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        i = self.expr(e.slice)
        I = self.I
        return lambda env: I.getitem(o(env), i(env))

    def e_Slice(self, e):
        a, b, c = [self.expr(x) if x is not None else None for x in (e.lower, e.upper, e.step)]
        return lambda env: slice(a and a(env), b and b(env), c and c(env))

    def e_Call(self, e):
        I = self.I
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:

            def sup(env):
                x = env
                while x is not None and x.func is None:
                    x = x.parent
                f = x.func
                if f.defclass is None:
                    raise Unsupported("super()")
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperV(f.defclass, x.vars[first])

            return sup
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            if e.func.id == "globals":
                return lambda env: I.modules[self.module].ns
            return lambda env: dict(env.vars)
        f = self.expr(e.func)
        args = []
        simple = True
        for a in e.args:
            if isinstance(a, ast.Starred):
                simple = False
                args.append((True, self.expr(a.value)))
            else:
                args.append((False, self.expr(a)))
        kws = [(k.arg, self.expr(k.value)) for k in e.keywords]
        if simple and not kws:
            fs = [a for _, a in args]

            def c0(env):
                return I.call(f(env), [a(env) for a in fs], {})

            return c0

        def c(env):
            fn = f(env)
            av = []
            for st, a in args:
                if st:
                    av.extend(I.iterate(a(env)))
                else:
                    av.append(a(env))
            kv = {}
            for k, x in kws:
                v = x(env)
                if k is None:
                    if isinstance(v, Opaque):
                        raise Unsupported("opaque keywords")
                    for kk in I.iterate(v):
                        if kk in kv:
                            I.fail("TypeError", "got multiple values for keyword argument %r" % (kk,))
                        kv[kk] = I.getitem(v, kk)
                else:
                    kv[k] = v
            return I.call(fn, av, kv)

        return c

    def e_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        names = self.I.BIN[type(e.op)]
        I = self.I
        return lambda env: I.binop(names, a(env), b(env))

    def e_UnaryOp(self, e):
        o = self.expr(e.operand)
        I = self.I
        if isinstance(e.op, ast.Not):

            def nt(env):
                return not I.truth(o(env))

            return nt
        d = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]

        def f(env):
            v = o(env)
            if isinstance(v, Obj):
                m = v.cls.lookup(d)
                if m is MISSING:
                    I.fail("TypeError", "bad operand type for unary operator: %s" % v.cls.name)
                return I.call_method(v, m, [], {})
            return I.models.host_unop(I, d, v)

        return f

    def e_BoolOp(self, e):
        vs = [self.expr(v) for v in e.values]
        I = self.I
        if isinstance(e.op, ast.And):

            def f(env):
                for v in vs[:-1]:
                    x = v(env)
                    if not I.truth(x):
                        return x
                return vs[-1](env)

        else:

            def f(env):
                for v in vs[:-1]:
                    x = v(env)
                    if I.truth(x):
                        return x
                return vs[-1](env)

        return f

    def e_Compare(self, e):
        I = self.I
        first = self.expr(e.left)
        rest = [(type(o), self.expr(c)) for o, c in zip(e.ops, e.comparators)]

        def one(op, a, b):
            if op is ast.Eq:
                return I.eq(a, b)
            if op is ast.NotEq:
                return I.ne(a, b)
            if op is ast.Is:
                return I.is_(a, b)
            if op is ast.IsNot:
                return not I.is_(a, b)
            if op is ast.In:
                return I.contains(b, a)
            if op is ast.NotIn:
                return not I.contains(b, a)
            return I.compare(I.CMP[op], a, b)

        if len(rest) == 1:
            op, c = rest[0]
            return lambda env: one(op, first(env), c(env))

        def f(env):
            a = first(env)
            r = True
            for op, c in rest:
                b = c(env)
                r = one(op, a, b)
                if not I.truth(r):
                    return r
                a = b
            return r

        return f

    def e_IfExp(self, e):
        t, a, b = self.expr(e.test), self.expr(e.body), self.expr(e.orelse)
        I = self.I
        return lambda env: a(env) if I.truth(t(env)) else b(env)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        st = self.storer(e.target.id)

        def f(env):
            x = v(env)
            t = env
            while t.kind == "comp":
                t = t.parent
            st(t, x)
            return x

        return f

    def e_List(self, e):
        mkl = self.items(e.elts)
        return lambda env: mkl(env)

    def e_Tuple(self, e):
        mkl = self.items(e.elts)
        return lambda env: tuple(mkl(env))

    def e_Set(self, e):
        mkl = self.items(e.elts)
        I = self.I

        def f(env):
            xs = mkl(env)
            for x in xs:
                I.check_hash(x)
            return set(xs)

        return f

    def items(self, elts):
        I = self.I
        fs = [(isinstance(x, ast.Starred), self.expr(x.value if isinstance(x, ast.Starred) else x)) for x in elts]

        def f(env):
            out = []
            for st, g in fs:
                if st:
                    out.extend(I.iterate(g(env)))
                else:
                    out.append(g(env))
            return out

        return f

    def e_Dict(self, e):
        I = self.I
        ks = [(self.expr(k) if k is not None else None, self.expr(v)) for k, v in zip(e.keys, e.values)]

        def f(env):
            d = {}
            for k, v in ks:
                if k is None:
                    x = v(env)
                    for kk in I.iterate(x):
                        d[kk] = I.getitem(x, kk)
                else:
                    kv = k(env)
                    I.check_hash(kv)
                    d[kv] = v(env)
            return d

        return f

    def comp(self, gens, emit):
        """emit(env) is called for every combination."""
        I = self.I
        gs = [(self.target(g.target), self.expr(g.iter), [self.expr(c) for c in g.ifs]) for g in gens]

        def run(env0):
            env = Env({}, env0, env0.module, "comp")

            def go(i):
                if i == len(gs):
                    emit(env)
                    return
                t, it, ifs = gs[i]
                src = it(env0 if i == 0 else env)
                for x in I.iterate(src):
                    I.steps += 1
                    t(env, x)
                    for c in ifs:
                        if not I.truth(c(env)):
                            break
                    else:
                        go(i + 1)

            go(0)

        return run

    def e_ListComp(self, e):
        el = self.expr(e.elt)
        acc = []

        def emit(env):
            env.parent_acc.append(el(env)) if False else acc[-1].append(el(env))

        run = self.comp(e.generators, emit)

        def f(env):
            acc.append([])
            try:
                run(env)
                return acc[-1]
            finally:
                acc.pop()

        return f

    def e_GeneratorExp(self, e):
        lc = self.e_ListComp(e)
        return lambda env: PyIter(lc(env))

    def e_SetComp(self, e):
        lc = self.e_ListComp(e)
        I = self.I

        def f(env):
            xs = lc(env)
            for x in xs:
                I.check_hash(x)
            return set(xs)

        return f

    def e_DictComp(self, e):
        pair = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        lc = self.e_ListComp(pair)
        return lambda env: dict(lc(env))

    def e_Lambda(self, e):
        return self.func(e, "<lambda>")

    def func(self, s, name):
        I = self.I
        defaults = [self.expr(d) for d in s.args.defaults]
        kwd = [(a.arg, self.expr(d)) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None]
        qual = (self.qual + "." if self.qual else "") + name
        module = self.module

        def f(env):
            fv = FuncV(name, s, env, [d(env) for d in defaults], {k: d(env) for k, d in kwd}, module, qual)
            e = env
            # methods do not see the class scope
            while e is not None and e.kind == "class":
                e = e.parent
            fv.env = e
            return fv

        return f

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else (lambda env: None)

        def f(env):
            x = env
            while x.yields is None:
                x = x.parent
            x.yields.append(v(env))
            if len(x.yields) > 3000:
                raise Unsupported("unbounded generator")
            return None

        return f

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        I = self.I

        def f(env):
            x = env
            while x.yields is None:
                x = x.parent
            x.yields.extend(I.iterate(v(env)))
            return None

        return f

    def e_JoinedStr(self, e):
        I = self.I
        vs = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                vs.append(v.value)
            else:
                vs.append((self.expr(v.value), v.conversion, self.expr(v.format_spec) if v.format_spec is not None else None))

        def f(env):
            out = []
            for v in vs:
                if isinstance(v, str):
                    out.append(v)
                else:
                    g, conv, spec = v
                    x = g(env)
                    if conv == 114:
                        x = I.models.to_repr(I, x)
                    elif conv == 115:
                        x = I.to_str(x)
                    sp = spec(env) if spec is not None else ""
                    out.append(I.models.format_value(I, x, sp))
            return mk(out)

        return f

    def e_Starred(self, e):
        return self.unsupported(e)


def _live(lst):
    i = 0
    while i < len(lst):
        yield lst[i]
        i += 1


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
