"""SQL text as templates: lexing of texts with holes, and parse trees presented to the analysed converter."""
import re

from .absval import AStr, Part, Sym, mk, parts_of, Unsupported
from .g4 import Tok, PNode, TemplateParser
from .interp import Obj

BASE = 0xE000


def number_token(p, after):
    """(kind of token, how much of the following text belongs to it, text left over) of a number of which the digits are symbolic."""
    key = p.key
    kind = "INTEGER_VALUE"
    if isinstance(key, tuple) and key[0] in ("DECIMAL_VALUE", "DOUBLE_VALUE"):
        kind = key[0]
    shape = p.ops[0][0] if p.ops else None
    case = p.ops[-1][0]  if len(p.ops) > 1 else None
    if shape in ("pyexp", "decexp"):
        lower = case == "lower" or shape == "pyexp" and case != "upper"
        return ("DECIMAL_VALUE", 0, "e") if lower else ("DOUBLE_VALUE", 0, None)
    if shape in ("pyfix", "decpoint", "fixed6"):
        kind = "DECIMAL_VALUE"
    if shape == "decint":
        kind = "INTEGER_VALUE"
    if shape in ("pyfix", "decpoint", "decint"):
        m = re.match(r"E[+-]?0+(?![0-9.])", after)
        if m:
            return "DOUBLE_VALUE", m.end(), None
        m = re.match(r"\.0*(?![0-9])", after)
        if m and shape == "decint":
            return "DECIMAL_VALUE", m.end(), None
    return kind, 0, None


class LexError(Exception):
    pass


def _cls_regex(g, chars, extra=""):
    return chars + extra


class Lexer:
    """Longest-match tokenizer derived from the lexer rules of the grammar, over texts with holes."""

    def __init__(self, grammar):
        self.g = grammar
        self.rules = []
        for name, e in grammar.lex.items():
            if name in grammar.fragments or name in ("UNRECOGNIZED", "DELIMITER"):
                continue
            self.rules.append((name, re.compile(self.rx(e), re.S)))
        self.implicit = sorted(grammar.implicit, key=len, reverse=True)
        self.skip = {n for n in grammar.lex if "COMMENT" in n or n == "WS"}

    def rx(self, e):
        k = e.kind
        if k == "tok":
            if e.name.startswith("'"):
                return re.escape(e.name[1:-1].encode().decode("unicode_escape"))
            if e.name == "LETTER":
                return "[A-Za-z\ue000-\ue0ff]"  # holes of identifier class sit in this range
            return "(?:" + self.rx(self.g.lex[e.name]) + ")"
        if k == "cset":
            return "[" + e.name[1:-1] + "]"
        if k == "not":
            x = e.items[0]
            if x.kind == "tok":
                return "[^" + re.escape(x.name[1:-1].encode().decode("unicode_escape")) + "]"
            return "[^" + x.name[1:-1] + "]"
        if k == "any":
            return "[\\s\\S]"
        if k == "seq":
            return "".join(self.rx(x) for x in e.items)
        if k == "alt":
            return "(?:" + "|".join(self.rx(x) for x in e.items) + ")"
        inner = "(?:" + self.rx(e.items[0]) + ")"
        q = {"opt": "?", "star": "*", "plus": "+"}[k]
        if e.items[0].kind == "any":
            q += "?"
        return inner + q

    def lex(self, text, cats=None, problems=None):
        """Tokens of a template.  cats(node) -> grammar categories of a nested node.
        problems: list receiving (kind, detail) findings about how holes sit in the text."""
        problems = [] if problems is None else problems
        holes = {}
        chars = []
        nid, nother, nr = 0, 0x100, 0x1000
        for p in parts_of(text):
            if isinstance(p, str):
                chars.append(p)
                continue
            if p.kind == "W":
                chars.append(" ")
                continue
            if p.kind == "X":
                raise Unsupported("unknown text in the rendered template")
            if p.kind == "S":
                if p.cls == "ident":
                    c = chr(BASE + nid)
                    nid += 1
                else:
                    c = chr(BASE + nother)
                    nother += 1
            else:
                c = chr(BASE + nr)
                nr += 1
            holes[c] = p
            chars.append(c)
        s = "".join(chars)
        self.problems = problems

        def back(sub):
            return mk([holes.get(c, c) for c in sub])

        out = []
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if c in holes:
                p = holes[c]
                if p.kind == "R":
                    for o in altering(p):
                        problems.append(("altered", "the text of a nested node is changed by %s" % " ".join(map(repr, o))))
                    if i and (s[i - 1].isalnum() or s[i - 1] == "_" or s[i - 1] in holes):
                        problems.append(("glued", "the text of a nested node directly follows %r" % str(back(s[max(0, i - 12) : i]))))
                    if i + 1 < n and (s[i + 1].isalnum() or s[i + 1] == "_" or s[i + 1] in holes):
                        problems.append(("glued", "the text of a nested node is directly followed by %r" % str(back(s[i + 1 : i + 12]))))
                    out.append(Tok("<hole>", None, hole=p, cats=cats(p) if cats else (), info=p))
                    i += 1
                    continue
                if p.kind == "N":
                    kind, used, tail = number_token(p, s[i + 1 :])
                    nb = (s[i - 1] if i else " ") + (s[i + 1 + used] if i + 1 + used < n else " ")
                    if any(x.isalnum() or x in "_." or x in holes for x in nb):
                        problems.append(("glued", "the digits of a number touch %r" % str(back(s[max(0, i - 5) : i + 6]))))
                    out.append(Tok(kind, AStr([p] + ([s[i + 1 : i + 1 + used]] if used else [])), info=[p]))
                    if tail:
                        out.append(Tok("IDENTIFIER", tail))
                    i += 1 + used
                    continue
                if p.cls != "ident":
                    problems.append(("bare", "the name or string %r stands in the text without quotes" % (p,)))
                    out.append(Tok("IDENTIFIER", AStr([p]), info=[p]))
                    i += 1
                    continue
            best, bl = None, 0
            for name, r in self.rules:
                m = r.match(s, i)
                if m and m.end() - i > bl:
                    best, bl = name, m.end() - i
            for lit in self.implicit:
                if s.startswith(lit, i) and len(lit) >= bl:
                    best, bl = self.g.implicit[lit], len(lit)
            if best is None:
                raise LexError("unrecognised text at %r" % str(back(s[i : i + 20])))
            sub = s[i : i + bl]
            hs = [holes[x] for x in sub if x in holes]
            if best in self.skip:
                if "COMMENT" in best:
                    problems.append(("comment", "the text %r is read as a comment" % str(back(sub))[:40]))
                i += bl
                continue
            for h in hs:
                if h.kind != "S":
                    problems.append(("inside", "%r stands inside the token %r" % (h, str(back(sub))[:60])))
                    continue
                q = sub[0]
                if best in ("QUOTED_IDENTIFIER", "STRING", "BACKQUOTED_IDENTIFIER"):
                    q = {"QUOTED_IDENTIFIER": '"', "STRING": "'", "BACKQUOTED_IDENTIFIER": "`"}[best]
                    if h.cls not in ("ident", "digitident") and ("replace", q, q + q) not in h.ops:
                        problems.append(("unescaped", "%r is put between %s quotes without doubling them" % (h, q)))
            out.append(Tok(best, back(sub), info=hs))
            i += bl
        return out


def altering(p):
    """The operations on the text of a nested node which may change more of it than the space around its tokens."""
    return [o for o in p.ops if not (o[0] == "relined" or o[0] in ("strip", "lstrip", "rstrip") and (len(o) < 2 or o[1] is None or not str(o[1]).strip()))]


class CtxBuilder:
    """Builds the interpreted parse-tree contexts of a derivation, as the generated parser would."""

    def __init__(self, I):
        self.I = I
        m = I.import_module("treeno.grammar.gen.SqlBaseParser")
        self.P = m.ns["SqlBaseParser"]
        self.antlr = None
        self.types = None

    def ns(self, name):
        f = self.P.lookup(name)
        return f

    def token_type(self, name):
        if name == "EOF":
            return -1
        if name.startswith("'"):
            lits = self.ns("literalNames")
            return list(lits).index(name)
        v = self.ns(name)
        return v

    def terminal(self, tok):
        I = self.I
        T = self.cls("Token")
        t = I.call(T, (self.token_type(tok.type), tok.text if tok.text is not None else ""))
        return I.call(self.cls("TerminalNodeImpl"), (t,))

    def cls(self, name):
        return self.I.modules["antlr4 "].ns[name]

    def build(self, node, parent=None, value=None):
        I = self.I
        rname = node.rule[0].upper() + node.rule[1:] + "Context"
        base = self.ns(rname)
        kw = {}
        if value is not None and node.rule == "predicate":
            kw["value"] = value
        obj = I.call(base, (None, parent, 0), kw)
        if node.hole is not None:
            obj.hole = node.hole
            return obj
        cn = node.alt.ctx_class
        if cn != rname:
            obj2 = I.call(self.ns(cn), (None, obj))
            if kw:
                obj2.attrs.setdefault("value", value)
            obj = obj2
            if parent is not None and obj.attrs.get("parentCtx") is None:
                obj.attrs["parentCtx"] = parent
        kids = []
        for e, c in node.children:
            if isinstance(c, PNode):
                prev = kids[-1] if kids else None
                k = self.build(c, obj, prev if c.rule == "predicate" else None)
            else:
                k = self.terminal(c)
                k.attrs["parentCtx"] = obj
            kids.append(k)
            if e.label:
                v = k if isinstance(c, PNode) else k.attrs["symbol"]
                if e.plus:
                    cur = obj.attrs.get(e.label)
                    if not isinstance(cur, list):
                        obj.attrs[e.label] = cur = []
                    cur.append(v)
                else:
                    obj.attrs[e.label] = v
        obj.attrs["children"] = kids
        if kids:
            a, b = kids[0].attrs, kids[-1].attrs
            labels = {e.label for e, _ in node.children}
            if "start" not in labels:
                obj.attrs["start"] = first_token(a)
            if "stop" not in labels:
                obj.attrs["stop"] = first_token(b, "stop")
        return obj


def first_token(attrs, end="start"):
    if "symbol" in attrs:
        return attrs["symbol"]
    t = attrs.get(end)
    return t if isinstance(t, Obj) and "text" in t.attrs else None


def tokens_of(node, out=None):
    out = [] if out is None else out
    if node.hole is not None:
        out.append(node.hole)
        return out
    for _, c in node.children:
        if isinstance(c, PNode):
            tokens_of(c, out)
        elif c.type != "EOF":
            out.append(c)
    return out


def show(tokens):
    """Readable form of a token sequence."""
    out = []
    for t in tokens:
        if t.hole is not None:
            out.append(repr(t))
        else:
            out.append(t.text if isinstance(t.text, str) else "".join(p if isinstance(p, str) else "⟨%s⟩" % (p.key if isinstance(p.key, str) else (p.key[-1] if isinstance(p.key, tuple) else p.key),) for p in t.text.parts))
    return " ".join(out)
