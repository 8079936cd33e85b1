"""What the lexical forms of the grammar denote."""
import re

from .absval import Part, Unsupported, mk, parts_of


def decode_unicode(n):
    """The value of a unicode string literal: U&'...' with an optional UESCAPE character."""
    from .spec import unquote

    toks = [c for _, c in n.children]
    body = toks[0].text
    ps = list(parts_of(body))
    ps[0] = ps[0][2:]
    text = unquote(mk(ps), "'")
    esc = "\\"
    if len(toks) > 1:
        esc = unquote(toks[2].text, "'")
        if not isinstance(esc, str) or len(esc) != 1:
            raise Unsupported("UESCAPE %r" % (esc,))
    out = []
    for p in parts_of(text):
        out.append(decode(p, esc) if isinstance(p, str) else p)
    return mk(out)


def decode(s, esc):
    e = re.escape(esc)

    def sub(m):
        if m.group(1):
            return esc
        return chr(int(m.group(2) or m.group(3), 16))

    return re.sub(e + r"(?:(" + e + r")|([0-9A-Fa-f]{4})|\+([0-9A-Fa-f]{6}))", sub, s)
