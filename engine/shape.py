"""The exact shape of a value: classes and every attribute, nothing normalised away."""
from .absval import AStr, Part, Sym
from .interp import ClassV, Obj


def shape(v, seen=()):
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return ("enum", v.cls.name, v.attrs.get("_name_", v.attrs.get("name")))
        if v.hole is not None:
            return ("hole", v.hole)
        if id(v) in seen:
            return ("cycle", v.cls.name)
        s = seen + (id(v),)
        return (v.cls.name, tuple((k, shape(x, s)) for k, x in sorted(v.attrs.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(shape(x, seen) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((shape(k, seen), shape(x, seen)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__,) + tuple(sorted((shape(x, seen) for x in v), key=repr))
    if isinstance(v, ClassV):
        return ("class", v.name)
    if isinstance(v, (AStr, Part, Sym)):
        return v
    if v is None or isinstance(v, (str, int, float, bool)):
        return (type(v).__name__, v)
    return ("?", repr(v))
