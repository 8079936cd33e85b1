"""Abstract values: string templates with holes, and symbolic scalars."""


class Unsupported(Exception):
    """The analysis has no transfer function for a construct: the instance is undecided."""


class Part:
    """A hole of a string template.

    kind 'R': the text a nested node renders to          (key = the node, opts = the print options it was given)
         'S': the characters of a user-supplied string    (key = its name)
         'N': the digits of a number                      (key = the symbolic number or its name)
         'W': some whitespace, possibly none
         'X': text of which nothing is known
    ops: the string operations that were applied to the hole's text, in order.
    """

    __slots__ = ("kind", "key", "ops", "opts", "cls")

    def __init__(self, kind, key, ops=(), opts=None, cls=None):
        self.kind, self.key, self.ops, self.opts, self.cls = kind, key, tuple(ops), opts, cls

    def ident(self):
        return (self.kind, self.key if not isinstance(self.key, list) else id(self.key), self.ops)

    def __eq__(self, o):
        return isinstance(o, Part) and self.ident() == o.ident()

    def __hash__(self):
        return hash(self.ident())

    def op(self, o):
        return Part(self.kind, self.key, self.ops + (o,), self.opts, self.cls)

    def __repr__(self):
        s = "<%s:%s" % (self.kind, self.key)
        for o in self.ops:
            s += "|" + ":".join(map(str, o))
        return s + ">"


# pairs of operations that cancel out when the second follows the first
CANCEL = {
    (("replace", '"', '""'), ("replace", '""', '"')),
    (("replace", "'", "''"), ("replace", "''", "'")),
}


def simplify_ops(ops):
    out = []
    for o in ops:
        if out and (out[-1], o) in CANCEL:
            out.pop()
            continue
        if out and o[0] in ("upper", "lower") and out[-1][0] in ("upper", "lower"):
            out.pop()
        out.append(o)
    return tuple(out)


class AStr:
    """A string template: literal pieces and holes."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "`" + "".join(p if isinstance(p, str) else repr(p) for p in self.parts) + "`"


def mk(parts):
    """Normalised template; a host str when there are no holes."""
    out = []
    for p in parts:
        if isinstance(p, AStr):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
            continue
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, Part) and p.ops:
            s = simplify_ops(p.ops)
            if s != p.ops:
                p = Part(p.kind, p.key, s, p.opts, p.cls)
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(out)


def parts_of(s):
    return (s,) if isinstance(s, str) else s.parts


class Sym:
    """A symbolic scalar: kind in int, bool, float, dec, any, type; key identifies it structurally."""

    __slots__ = ("kind", "key")

    def __init__(self, kind, key):
        self.kind, self.key = kind, key

    def __eq__(self, o):
        return isinstance(o, Sym) and (self.kind, self.key) == (o.kind, o.key)

    def __hash__(self):
        return hash((self.kind, self.key))

    def __repr__(self):
        return "?%s(%s)" % (self.kind, self.key)
