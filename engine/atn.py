"""The transition networks of the generated recognizers, and those the grammar file asks for.

A network is read from the serialized text in the generated source (format 3 of ANTLR 4.9) or built from the grammar
as ANTLR builds it, left recursion included.  Both are compared as ordered graphs: the order of the alternatives of a
decision matters, as the first viable one is taken."""
import ast

EPSILON, RANGE, RULE, PREDICATE, ATOM, ACTION, SET, NOT_SET, WILDCARD, PRECEDENCE = range(1, 11)
RULE_STOP, LOOP_END = 7, 12
BLOCK_STARTS = (3, 4, 5)
MAXCHAR = 0x10FFFF


class Broken(Exception):
    pass


class ATN:
    """states: number -> (type, rule); edges: number -> [(kind, ...)]"""

    def __init__(self, text):
        d = [ord(c) for c in text]
        d = [d[0]] + [v - 2 if v > 1 else v + 65533 for v in d[1:]]
        self.d, self.p = d, 0
        if self.int() != 3:
            raise Broken("not a network of format 3")
        uuid = [self.int() for _ in range(8)]
        self.wide = True
        self.lexer = self.int() == 0
        self.max_type = self.int()
        self.type, self.rule, self.edges = {}, {}, {}
        for i in range(self.int()):
            t = self.int()
            if t == 0:
                continue
            self.type[i] = t
            self.rule[i] = self.int()
            self.edges[i] = []
            if t == LOOP_END or t in BLOCK_STARTS:
                self.int()
        self.lazy = {self.int() for _ in range(self.int())}
        self.precedence_starts = {self.int() for _ in range(self.int())}
        self.start, self.token_type = [], []
        for _ in range(self.int()):
            self.start.append(self.int())
            if self.lexer:
                self.token_type.append(self.int())
        self.modes = [self.int() for _ in range(self.int())]
        sets = []
        for read in (self.int, self.int32):
            for _ in range(self.int()):
                n, eof = self.int(), self.int()
                rs = [(-1, -1)] if eof else []
                for _ in range(n):
                    a = read()
                    rs.append((a, read()))
                sets.append(tuple(sorted(rs)))
        for _ in range(self.int()):
            src, trg, k, a, b, c = [self.int() for _ in range(6)]
            if k == EPSILON:
                e = ("eps", trg)
            elif k == RULE:
                e = ("rule", b, c, trg)  # rule, precedence, follow
            elif k == ATOM:
                e = ("set", ((-1, -1),) if c else ((a, a),), trg)
            elif k == RANGE:
                e = ("set", ((-1 if c else a, b),), trg)
            elif k == SET:
                e = ("set", merge(sets[a]), trg)
            elif k == NOT_SET:
                e = ("set", invert(sets[a], 0 if self.lexer else 1, MAXCHAR if self.lexer else self.max_type), trg)
            elif k == WILDCARD:
                e = ("set", ((0, MAXCHAR) if self.lexer else (1, self.max_type),), trg)
            elif k == PRECEDENCE:
                e = ("pred", a, trg)
            elif k == ACTION and not self.lexer:
                e = ("eps", trg)  # the recognizer's left recursion only: this grammar has no actions of its own
            elif k == ACTION:
                e = ("action", b, trg)
            else:
                e = ("other", k, a, b, trg)
            self.edges[src].append(e)
        self.decisions = [self.int() for _ in range(self.int())]
        if self.lexer:
            acts = [(self.int(), self.int(), self.int()) for _ in range(self.int())]
            for es in self.edges.values():
                es[:] = [("action", acts[e[1]], e[2]) if e[0] == "action" else e for e in es]

    def int(self):
        self.p += 1
        return self.d[self.p - 1]

    def int32(self):
        a = self.int()
        return a | self.int() << 16


def merge(ranges):
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def invert(ranges, low, high):
    out, at = [], low
    for a, b in merge(ranges):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= high:
        out.append((at, high))
    return tuple(out)


def serialized(tree):
    """The text serializedATN() builds, read from its source."""
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and f.name == "serializedATN":
            out = []
            for c in ast.walk(f):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "write":
                    out.append((c.lineno, c.col_offset, c.args[0].value))
            if not out:
                raise Broken("serializedATN() writes nothing")
            return "".join(x[2] for x in sorted(out))
    raise Broken("there is no serializedATN()")


# ---------------------------------------------------------------------------------------------- the grammar's networks
class Net:
    """A network built from a grammar; nodes are numbers, edges as in ATN, with ("set", ranges, target, position)."""

    def __init__(self):
        self.edges = {}
        self.lazy = set()
        self.n = 0

    def node(self):
        self.n += 1
        self.edges[self.n] = []
        return self.n

    def eps(self, *targets):
        n = self.node()
        self.edges[n] = [("eps", t) for t in targets]
        return n


class Builder:
    """Builds the networks of the rules of a grammar. `types` numbers the tokens."""

    def __init__(self, g, types):
        self.g, self.types = g, types
        self.net = Net()
        self.ruleno = {r: i for i, r in enumerate(g.order)}
        self.info = {}  # position -> (element, alternative or None)
        self.alt = None
        self.stop = self.net.node()
        self.lexer = False

    def consume(self, ranges, target, elem):
        n = self.net.node()
        self.net.edges[n] = [("set", merge(ranges), target)]
        self.info[n] = (elem, self.alt)
        return n

    def elem(self, e, to, prec=0):
        N = self.net
        k = e.kind
        if k == "tok" and not self.lexer:
            t = -1 if e.name == "EOF" else self.types.get(e.name)
            if t is None:
                raise Broken("the token %s is not among the generated ones" % e.name)
            return self.consume([(t, t)], to, e)
        if k == "tok":
            if e.name.startswith("'"):
                s = unescape(e.name[1:-1])
                for c in reversed(s):
                    to = self.consume([(ord(c), ord(c))], to, e)
                return to
            return self.call(e, self.ruleno[e.name], 0, to)
        if k == "ref":
            return self.call(e, self.ruleno[e.name], prec, to)
        if k in ("cset", "not", "any"):
            return self.consume(self.chars(e), to, e)
        if k == "seq":
            for x in reversed(e.items):
                to = self.elem(x, to)
            return to
        if k == "alt":
            if not self.lexer and all(x.kind == "tok" or (x.kind == "seq" and len(x.items) == 1 and x.items[0].kind == "tok") for x in e.items) and (
                    e.label or not any((x.items[0] if x.kind == "seq" else x).label for x in e.items)):
                return self.consume([(self.types[(x.items[0] if x.kind == "seq" else x).name],) * 2 for x in e.items], to, e)
            return N.eps(*[self.elem(x, to) for x in e.items])
        if k == "opt":
            x = e.items[0]
            if x.kind == "alt":
                # the choice takes the empty alternative along, unless it makes a set of tokens
                b = self.elem(x, to)
                alts = [b] if b in self.info else [t for _, t in N.edges[b]]
            else:
                alts = [self.elem(x, to)]
            return self.choice(e.lazy, alts, to)
        if k == "star":
            entry = N.node()
            b = self.elem(e.items[0], entry)
            N.edges[entry] = self.exits(e.lazy, b, to)
            if e.lazy:
                N.lazy.add(entry)
            return entry
        if k == "plus":
            back = N.node()
            b = self.elem(e.items[0], back)
            N.edges[back] = self.exits(e.lazy, b, to)
            if e.lazy:
                N.lazy.add(back)
            return b
        raise Broken("element " + k)

    def exits(self, lazy, b, to):
        es = [("eps", b), ("eps", to)]
        return es[::-1] if lazy else es

    def choice(self, lazy, alts, to):
        n = self.net.eps(*([to] + alts if lazy else alts + [to]))
        if lazy:
            self.net.lazy.add(n)
        return n

    def call(self, e, rule, prec, to):
        n = self.net.node()
        self.net.edges[n] = [("rule", rule, prec, to)]
        self.info[n] = (e, self.alt)
        return n

    def pred(self, p, to, alt):
        n = self.net.node()
        self.net.edges[n] = [("pred", p, to)]
        self.info[n] = (None, alt)
        return n

    def rule(self, name):
        r = self.g.rules[name]
        n = len(r.alts)
        if not r.is_left_recursive():
            simple = [a.elem.items[0] for a in r.alts if len(a.elem.items) == 1 and a.elem.items[0].kind == "tok" and not a.elem.items[0].label and not a.label]
            if n > 1 and len(simple) == n:
                self.alt = r.alts[0]
                return self.consume([(self.types[x.name],) * 2 for x in simple], self.stop, None)
            starts = []
            for a in r.alts:
                self.alt = a
                starts.append(self.elem(a.elem, self.stop))
            return self.net.eps(*starts)
        loop = self.net.node()
        first, more = [], []
        for a in r.alts:
            self.alt = a
            prec = n - a.index + 1
            items = a.elem.items
            if r.left_rec(a):
                tail = prec + 1
                items = items[1:]
            else:
                tail = prec
            to = loop
            for i in reversed(range(len(items))):
                last = i == len(items) - 1 and items[i].kind == "ref" and items[i].name == name
                to = self.elem(items[i], to, tail if last else 0)
            if r.left_rec(a):
                binary = tail > prec and a.elem.items[-1].kind == "ref" and a.elem.items[-1].name == name
                more.append((0 if binary else 1, self.pred(prec, to, a)))
            else:
                first.append(to)
        # infix operators come before suffixes
        body = self.net.eps(*[x for _, x in sorted(more, key=lambda x: x[0])])
        self.net.edges[loop] = [("eps", body), ("eps", self.stop)]
        return self.net.eps(*first)

    # ------------------------------------------------------------------------------------------ lexer
    COMMANDS = {"channel(HIDDEN)": (0, 1, 0), "skip": (6, 0, 0), "more": (3, 0, 0)}

    def token(self, name):
        """The network of a lexer rule."""
        to = self.stop
        if name in self.g.commands:
            c = self.g.commands[name]
            if c not in self.COMMANDS:
                raise Broken("lexer command " + c)
            n = self.net.node()
            self.net.edges[n] = [("action", self.COMMANDS[c], to)]
            to = n
        return self.elem(self.g.lex[name], to)

    def chars(self, e):
        k = e.kind
        if k == "any":
            return [(0, MAXCHAR)]
        if k == "not":
            return invert(self.chars(e.items[0]), 0, MAXCHAR)
        if k == "tok":
            s = unescape(e.name[1:-1])
            if len(s) != 1:
                raise Broken("set of " + e.name)
            return [(ord(s), ord(s))]
        if k in ("alt", "seq"):
            return [r for x in e.items for r in self.chars(x)]
        if k == "cset":
            import re
            cs = [unescape(c) for c in re.findall(r"\\.|.", e.name[1:-1], re.S)]
            out, i = [], 0
            while i < len(cs):
                if i + 2 < len(cs) and cs[i + 1] == "-":
                    out.append((ord(cs[i]), ord(cs[i + 2])))
                    i += 3
                else:
                    out.append((ord(cs[i]), ord(cs[i])))
                    i += 1
            return out
        raise Broken("set of " + k)


def unescape(s):
    return s.encode().decode("unicode_escape")


# ---------------------------------------------------------------------------------------------- comparison
def settle(edges, n):
    """Follows edges which decide nothing."""
    seen = set()
    while n not in seen:
        seen.add(n)
        es = edges[n]
        if len(es) == 1 and es[0][0] == "eps":
            n = es[0][1]
        else:
            break
    return n


def flat(edges, stops, n, lazy):
    """The ordered choices of a decision: choices of single items with one target become one item."""
    n = settle(edges, n)
    if n in stops:
        return n, []
    es = edges[n]
    if all(x[0] == "eps" for x in es) and len(es) > 1 and n not in lazy:
        out, sets = [], {}
        for x in es:
            t = settle(edges, x[1])
            te = edges[t]
            if t not in stops and len(te) == 1 and te[0][0] == "set":
                to = settle(edges, te[0][2])
                if to in sets:
                    i = sets[to]
                    out[i] = ("one", merge(out[i][1] + te[0][1]), to, out[i][3] + (t,))
                    continue
                sets[to] = len(out)
                out.append(("one", te[0][1], to, (t,)))
            else:
                out.append(("eps", t))
        if len(out) == 1 and out[0][0] == "one":
            o = out[0]
            return n, [("set", o[1], o[2], o[3])]
        return n, [("eps", o[3][0]) if o[0] == "one" and len(o[3]) == 1 else o for o in out]
    return n, [(x + ((n,),)) if x[0] == "set" else x for x in es]


def compare(A, B, starts, stops, describe):
    """Walks both networks in step from a pair of starts. Returns (pairs of positions, message or None)."""
    pairs, back, todo, found = {}, {}, [starts], {}

    while todo:
        a, b = todo.pop()
        (a, ea), (b, eb) = flat(A.edges, stops[0], a, A.lazy), flat(B.edges, stops[1], b, B.lazy)
        if a in pairs or b in back:
            if pairs.get(a) != b or back.get(b) != a:
                return found, "the paths come together at different places: " + describe(a, b)
            continue
        pairs[a], back[b] = b, a
        if (a in stops[0]) != (b in stops[1]):
            return found, "one ends where the other goes on: " + describe(a, b)
        if a in stops[0]:
            continue
        if len(ea) != len(eb):
            return found, "%d alternatives instead of %d: %s" % (len(ea), len(eb), describe(a, b))
        if (a in A.lazy) != (b in B.lazy):
            return found, "greedy instead of non-greedy or the other way round: " + describe(a, b)
        for x, y in zip(ea, eb):
            if x[0] != y[0]:
                return found, "%s instead of %s: %s" % (x[0], y[0], describe(a, b))
            if x[0] in ("set", "one"):
                if x[1] != y[1]:
                    return found, "other %s: %s" % ("items", describe(a, b))
                for i in x[3]:
                    for j in y[3]:
                        if any(p <= s and r <= q for p, q in A.edges[i][0][1] for r, s in B.edges[j][0][1]):
                            found.setdefault(i, set()).add(j)
                todo.append((x[2], y[2]))
            elif x[0] == "rule":
                if x[1:3] != y[1:3]:
                    return found, "another rule or precedence is called: " + describe(a, b)
                found.setdefault(a, set()).add(b)
                todo.append((x[3], y[3]))
            elif x[0] == "pred":
                if x[1] != y[1]:
                    return found, "precedence %s instead of %s: %s" % (x[1], y[1], describe(a, b))
                found.setdefault(a, set()).add(b)
                todo.append((x[2], y[2]))
            elif x[0] == "action":
                if x[1] != y[1]:
                    return found, "another command: " + describe(a, b)
                todo.append((x[2], y[2]))
            elif x[0] == "eps":
                todo.append((x[1], y[1]))
            else:
                return found, "unexpected edge %s: %s" % (x[0], describe(a, b))
    return found, None
