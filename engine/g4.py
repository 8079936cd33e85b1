"""Reader for the ANTLR grammar SqlBase.g4, and a parser for token sequences that may contain holes.

The reader keeps the element structure of every alternative (labels, options, repetitions), so that the abstract
interpreter can present parse-tree contexts of any shape to the converter, and so that rendered templates can be
re-derived.  Left recursion is resolved as ANTLR does it (precedence climbing; lower alternative number binds tighter).
"""
import re


class Elem:
    __slots__ = ("kind", "name", "label", "plus", "items", "path", "lazy")

    def __init__(self, kind, name=None, label=None, plus=False, items=()):
        self.kind, self.name, self.label, self.plus, self.items = kind, name, label, plus, list(items)
        self.path = None
        self.lazy = False

    def __repr__(self):
        l = (self.label + ("+=" if self.plus else "=")) if self.label else ""
        if self.kind in ("tok", "ref"):
            return l + str(self.name)
        return l + self.kind + repr(self.items)


class Alt:
    def __init__(self, rule, index, label, elem):
        self.rule, self.index, self.label, self.elem = rule, index, label, elem

    @property
    def ctx_class(self):
        n = self.label or self.rule
        return n[0].upper() + n[1:] + "Context"

    def __repr__(self):
        return "%s#%s/%d" % (self.rule, self.label or "", self.index)


class Rule:
    def __init__(self, name):
        self.name = name
        self.alts = []

    def is_left_recursive(self):
        return any(self.left_rec(a) for a in self.alts)

    def left_rec(self, alt):
        e = alt.elem.items[0] if alt.elem.items else None
        return e is not None and e.kind == "ref" and e.name == self.name


TOKEN_RE = re.compile(
    r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<id>[A-Za-z_][A-Za-z_0-9]*)
    |(?P<op>\+=|->|[:;|()*+?~.=#,{}$<>])|(?P<other>.)""",
    re.X | re.S,
)


def _tokenize(text):
    out = []
    for m in TOKEN_RE.finditer(text):
        k = m.lastgroup
        if k is None:
            continue
        out.append((k, m.group(k)))
    return out


class Grammar:
    def __init__(self, text):
        self.rules = {}
        self.order = []
        self.lex = {}  # token name -> lexer element tree
        self.fragments = set()
        self.commands = {}  # token name -> the text of its commands
        self.arguments = {}  # (rule, rule called) -> the elements whose contexts are handed over
        self.params = {}  # rule -> its parameters
        self.declared = []  # tokens { ... }
        self._read(text)
        # literal -> token name
        self.literals = {}
        for name, elem in self.lex.items():
            for s in self._literal_spellings(elem):
                self.literals.setdefault(s, name)
        self._fix_implicit()
        for r in self.rules.values():
            for a in r.alts:
                self._number(a.elem, ())

    # ---------------------------------------------------------------- reading
    def _read(self, text):
        toks = _tokenize(text)
        i = 0
        n = len(toks)
        # skip header
        while i < n:
            k, v = toks[i]
            if k == "id" and v in ("grammar", "lexer", "parser"):
                while toks[i][1] != ";":
                    i += 1
                i += 1
                continue
            if k == "id" and v in ("tokens", "options") and toks[i + 1][1] == "{":
                while toks[i][1] != "}":
                    if v == "tokens" and toks[i][0] == "id" and toks[i][1] != v:
                        self.declared.append(toks[i][1])
                    i += 1
                i += 1
                continue
            frag = False
            if k == "id" and v == "fragment":
                frag = True
                i += 1
                k, v = toks[i]
            assert k == "id", (k, v, toks[i - 5 : i + 5])
            name = v
            i += 1
            # rule arguments [ParserRuleContext value]
            if toks[i][0] == "set":
                self.params[name] = [p.split()[-1] for p in toks[i][1][1:-1].split(",") if p.split()]
                i += 1
            assert toks[i][1] == ":", (name, toks[i])
            i += 1
            if name[0].isupper():
                elem, i = self._alts(toks, i, None)
                if toks[i][1] == "->":
                    j = i
                    while toks[i][1] != ";":
                        i += 1
                    self.commands[name] = "".join(t[1] for t in toks[j + 1 : i])
                assert toks[i][1] == ";", (name, toks[i])
                i += 1
                self.lex[name] = elem
                if frag:
                    self.fragments.add(name)
            else:
                rule = Rule(name)
                self.reading = name
                self.rules[name] = rule
                self.order.append(name)
                while True:
                    seq, i = self._seq(toks, i)
                    label = None
                    if toks[i][1] == "#":
                        label = toks[i + 1][1]
                        i += 2
                    rule.alts.append(Alt(name, len(rule.alts) + 1, label, seq))
                    if toks[i][1] == "|":
                        i += 1
                        continue
                    assert toks[i][1] == ";", (name, toks[i - 3 : i + 3])
                    i += 1
                    break

    def _alts(self, toks, i, close):
        alts = []
        while True:
            seq, i = self._seq(toks, i)
            alts.append(seq)
            if toks[i][1] == "|":
                i += 1
                continue
            break
        if len(alts) == 1:
            return alts[0], i
        return Elem("alt", items=alts), i

    def _seq(self, toks, i):
        items = []
        while True:
            k, v = toks[i]
            if k == "op" and v in ("|", ";", ")", "#", "->"):
                break
            label, plus = None, False
            if k == "id" and toks[i + 1][1] in ("=", "+=") and toks[i + 1][0] == "op":
                label, plus = v, toks[i + 1][1] == "+="
                i += 2
                k, v = toks[i]
            neg = False
            if v == "~":
                neg = True
                i += 1
                k, v = toks[i]
            if k == "lit":
                e = Elem("tok", v, label, plus)
                i += 1
            elif k == "set":
                e = Elem("cset", v, label, plus)
                i += 1
            elif k == "id":
                e = Elem("ref" if v[0].islower() else "tok", v, label, plus)
                i += 1
                if toks[i][0] == "set" and v[0].islower():
                    m = re.fullmatch(r"\[\$(\w+)\.ctx\]", toks[i][1])
                    self.arguments.setdefault((self.reading, v), set()).update([m.group(1)] if m else [])
                    i += 1  # rule argument
            elif v == ".":
                e = Elem("any")
                i += 1
            elif v == "(":
                inner, i = self._alts(toks, i + 1, ")")
                assert toks[i][1] == ")", toks[i]
                i += 1
                if inner.kind == "seq" and len(inner.items) == 1 and not label and not inner.items[0].label:
                    e = inner.items[0]
                else:
                    e = inner
                    if label:
                        # label=(A | B): a token set
                        e = Elem("alt", label=label, plus=plus, items=inner.items if inner.kind == "alt" else [inner])
            elif v == "{":
                while toks[i][1] != "}":
                    i += 1
                i += 1
                continue
            else:
                raise ValueError("g4: unexpected %r" % ((k, v),))
            if neg:
                e = Elem("not", items=[e])
            while toks[i][0] == "op" and toks[i][1] in ("?", "*", "+"):
                q = toks[i][1]
                i += 1
                lazy = toks[i][1] == "?" and toks[i][0] == "op"
                if lazy:
                    i += 1
                e = Elem({"?": "opt", "*": "star", "+": "plus"}[q], items=[e])
                e.lazy = lazy
            items.append(e)
        return Elem("seq", items=items), i

    def _fix_implicit(self):
        """Replace literal tokens in parser rules by their token name."""

        def lit(v):
            s = v[1:-1].encode().decode("unicode_escape")
            return s

        self.implicit = {}

        def walk(e):
            if e.kind == "tok" and e.name.startswith("'"):
                s = lit(e.name)
                if s in self.literals:
                    e.name = self.literals[s]
                else:
                    self.implicit[s] = "'" + s + "'"
                    e.name = "'" + s + "'"
            for x in e.items:
                walk(x)

        for r in self.rules.values():
            for a in r.alts:
                walk(a.elem)

    def _number(self, e, path):
        e.path = path
        for i, x in enumerate(e.items):
            self._number(x, path + (i,))

    # ---------------------------------------------------------------- lexical queries
    def _literal_spellings(self, e):
        """The spellings of a token that is a choice of literals, else []."""
        if e.kind == "tok" and e.name.startswith("'"):
            return [e.name[1:-1].encode().decode("unicode_escape")]
        if e.kind == "alt":
            out = []
            for x in e.items:
                s = self._literal_spellings(x)
                if not s:
                    return []
                out += s
            return out
        if e.kind == "seq" and len(e.items) == 1:
            return self._literal_spellings(e.items[0])
        return []

    def spellings(self, tok):
        if tok.startswith("'"):
            return [tok[1:-1]]
        if tok == "EOF" or tok not in self.lex:
            return []
        return self._literal_spellings(self.lex[tok])

    def is_keyword(self, tok):
        s = self.spellings(tok)
        return bool(s) and s[0][0].isalpha()

    # Sets of characters are represented by predicates over a probe alphabet
    PROBE = [chr(c) for c in range(32, 127)] + ["\n", "\t", "é", "\u2028"]

    def _chars(self, e):
        """(possible chars, nullable, first chars, chars that occur in every word)."""
        P = set(self.PROBE)
        k = e.kind
        if k == "tok":
            if e.name.startswith("'"):
                s = e.name[1:-1].encode().decode("unicode_escape")
                return set(s), not s, set(s[:1]), set(s), set(s[-1:])
            return self._chars(self.lex[e.name])
        if k == "cset":
            body = e.name[1:-1]
            out = set()
            i = 0
            cs = re.findall(r"\\.|.", body, re.S)
            cs = [c.encode().decode("unicode_escape") if len(c) == 2 else c for c in cs]
            while i < len(cs):
                if i + 2 < len(cs) and cs[i + 1] == "-":
                    out |= {chr(c) for c in range(ord(cs[i]), ord(cs[i + 2]) + 1)}
                    i += 3
                else:
                    out.add(cs[i])
                    i += 1
            return out, False, out, out if len(out) == 1 else set(), out
        if k == "not":
            c = self._chars(e.items[0])[0]
            out = P - c
            return out, False, out, set(), out
        if k == "any":
            return P, False, P, set(), P
        if k == "seq":
            poss, null, first, must, last = set(), True, set(), set(), set()
            for x in e.items:
                p, n, f, m, l = self._chars(x)
                poss |= p
                must |= m
                if null:
                    first |= f
                null = null and n
            nl = True
            for x in reversed(e.items):
                p, n, f, m, l = self._chars(x)
                if nl:
                    last |= l
                nl = nl and n
            return poss, null, first, must, last
        if k == "alt":
            rs = [self._chars(x) for x in e.items]
            return (
                set().union(*[r[0] for r in rs]),
                any(r[1] for r in rs),
                set().union(*[r[2] for r in rs]),
                set.intersection(*[r[3] for r in rs]),
                set().union(*[r[4] for r in rs]),
            )
        if k in ("opt", "star"):
            p, n, f, m, l = self._chars(e.items[0])
            return p, True, f, set(), l
        if k == "plus":
            return self._chars(e.items[0])
        raise ValueError(k)

    def token_chars(self, tok):
        """Facts about the token's language: dict with 'possible', 'first', 'must', 'last' character sets."""
        p, n, f, m, l = self._chars(self.lex[tok])
        return {"possible": p, "nullable": n, "first": f, "must": m, "last": l}

    # ---------------------------------------------------------------- structure queries
    def refs(self, e, out=None):
        out = [] if out is None else out
        if e.kind in ("ref", "tok"):
            out.append(e)
        for x in e.items:
            self.refs(x, out)
        return out

    def reachable(self, roots):
        seen = []
        todo = list(roots)
        while todo:
            r = todo.pop(0)
            if r in seen:
                continue
            seen.append(r)
            for a in self.rules[r].alts:
                for e in self.refs(a.elem):
                    if e.kind == "ref":
                        todo.append(e.name)
        return seen

    def alts_of_ctx_class(self, cls):
        return [a for r in self.rules.values() for a in r.alts if a.ctx_class == cls]


# -------------------------------------------------------------------- parsing token sequences with holes


class Tok:
    """A token of a template: a keyword/symbol/lexical token, or a hole standing for a whole phrase."""

    __slots__ = ("type", "text", "hole", "cats", "info")

    def __init__(self, type, text=None, hole=None, cats=(), info=None):
        self.type, self.text, self.hole, self.cats, self.info = type, text, hole, tuple(cats), info

    def __repr__(self):
        if self.hole is not None:
            return "<%s>" % (self.text if self.text is not None else self.hole,)
        return str(self.text)


class PNode:
    __slots__ = ("rule", "alt", "children", "hole")

    def __init__(self, rule, alt, children, hole=None):
        self.rule, self.alt, self.children, self.hole = rule, alt, children, hole

    def __repr__(self):
        if self.hole is not None:
            return "%s<%r>" % (self.rule, self.hole)
        return "(%s %s)" % (self.alt, " ".join(repr(c) for _, c in self.children))


class TemplateParser:
    def __init__(self, grammar, tokens):
        self.g = grammar
        self.toks = tokens
        self.memo = {}
        self.far = 0
        self.active = set()

    def parse(self, rule):
        """The derivation of the whole token sequence from `rule`, or None."""
        for tree, end in self.rule(rule, 0, 0):
            if end == len(self.toks):
                return tree
        return None

    def rule(self, name, p, pos):
        key = (name, p, pos)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return []  # hidden left recursion through nullable prefix: not in this grammar
        self.active.add(key)
        r = self.g.rules[name]
        res = {}
        order = []

        def add(tree, end):
            if end not in res:
                res[end] = tree
                order.append(end)
                return True
            return False

        if pos < len(self.toks):
            t = self.toks[pos]
            if t.hole is not None and name in t.cats:
                add(PNode(name, None, [], hole=t), pos + 1)
        n = len(r.alts)
        for a in r.alts:
            if r.left_rec(a):
                continue
            prec = n - a.index + 1
            items = a.elem.items
            tail_prec = 0
            if items and items[-1].kind == "ref" and items[-1].name == name:
                tail_prec = prec
            for ch, end in self.seq(items, pos, tail_prec, name):
                add(PNode(name, a, ch), end)
        if r.is_left_recursive():
            i = 0
            while i < len(order):
                end = order[i]
                i += 1
                left = res[end]
                for a in r.alts:
                    if not r.left_rec(a):
                        continue
                    prec = n - a.index + 1
                    if prec < p:
                        continue
                    items = a.elem.items
                    for ch, e2 in self.seq(items[1:], end, prec + 1, name):
                        add(PNode(name, a, [(items[0], left)] + ch), e2)
        out = [(res[e], e) for e in order]
        # longer first: the greedy reading
        out.sort(key=lambda x: -x[1])
        self.active.discard(key)
        self.memo[key] = out
        return out

    def seq(self, items, pos, tail_prec, rname):
        cur = [([], pos)]
        for i, e in enumerate(items):
            last = i == len(items) - 1
            nxt = {}
            order = []
            for ch, q in cur:
                tp = tail_prec if (last and e.kind == "ref" and e.name == rname) else 0
                for c2, q2 in self.elem(e, q, tp):
                    if q2 not in nxt:
                        nxt[q2] = ch + c2
                        order.append(q2)
            cur = [(nxt[q], q) for q in order]
            if not cur:
                return []
        return cur

    def elem(self, e, pos, tp=0):
        k = e.kind
        if k == "tok":
            if e.name == "EOF":
                return [([(e, Tok("EOF", "<EOF>"))], pos)] if pos == len(self.toks) else []
            if pos < len(self.toks):
                t = self.toks[pos]
                if t.type == e.name or (t.hole is not None and e.name in t.cats):
                    if pos + 1 > self.far:
                        self.far = pos + 1
                    return [([(e, t)], pos + 1)]
            return []
        if k == "ref":
            return [([(e, tree)], end) for tree, end in self.rule(e.name, tp, pos)]
        if k == "seq":
            return self.seq(e.items, pos, 0, None)
        if k == "alt":
            out, seen = [], set()
            for x in e.items:
                for ch, q in self.elem(x, pos):
                    if q not in seen:
                        seen.add(q)
                        if e.label:
                            ch = [(_relabel(c[0], e), c[1]) for c in ch]
                        out.append((ch, q))
            return out
        if k == "opt":
            out = list(self.elem(e.items[0], pos))
            if all(q != pos for _, q in out):
                out.append(([], pos))
            return out
        if k in ("star", "plus"):
            res = {}
            order = []
            cur = [([], pos)]
            first = True
            if k == "star":
                res[pos] = []
                order.append(pos)
            while cur:
                nxt = []
                for ch, q in cur:
                    for c2, q2 in self.elem(e.items[0], q):
                        if q2 == q or q2 in res:
                            continue
                        res[q2] = ch + c2
                        order.append(q2)
                        nxt.append((ch + c2, q2))
                cur = nxt
            return [(res[q], q) for q in sorted(order, reverse=True)]
        raise ValueError(k)


def _relabel(e, lab):
    x = Elem(e.kind, e.name, lab.label, lab.plus, e.items)
    x.path = e.path
    return x
