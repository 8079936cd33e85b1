"""Sentences of the grammar, enumerated alternative by alternative.

Every alternative reachable from the entry rules is instantiated for all combinations of its optional parts,
repetitions and keyword choices (up to two deviations from the minimal form, plus the fullest form); the remaining
positions carry fresh symbolic leaves, so one sentence stands for every text of that shape.  A second layer puts every
alternative into every operand slot of every other, bare and in parentheses.
"""
from .absval import AStr, Part, mk
from .g4 import PNode, TemplateParser, Tok
from .sqltext import tokens_of

ROOTS = ("standaloneExpression", "query", "standaloneType")

# the spelling used for the minimal instance of a rule
PREFER = {
    "primaryExpression": "columnReference",
    "identifier": "unquotedIdentifier",
    "relationPrimary": "tableName",
    "queryPrimary": "queryPrimaryDefault",
    "selectItem": "selectSingle",
    "string": "basicStringLiteral",
    "number": "integerLiteral",
    "type_": "genericType",
    "predicate": "comparison",
    "groupingElement": "singleGroupingSet",
}


MANY = 11  # repetitions in the long list


class Fresh:
    def __init__(self, prefix=""):
        self.n = {}
        self.prefix = prefix

    def __call__(self, kind):
        self.n[kind] = self.n.get(kind, 0) + 1
        return "%s%s%d" % (self.prefix, kind, self.n[kind])


class Sentences:
    def __init__(self, grammar, special=None):
        self.g = grammar
        self.cost = {}
        self.best = {}
        self.special = special or {}
        self._costs()
        self.reach = grammar.reachable(ROOTS)
        self._paths()
        self.fresh = Fresh()
        self.spelling = 0
        self.plain = True  # quoted tokens contain letters only (what quoting does to other characters is C09/C10)

    # ------------------------------------------------------------- minimal derivations
    def _ecost(self, e):
        k = e.kind
        if k == "tok":
            return 0 if e.name == "EOF" else 1
        if k == "ref":
            return self.cost.get(e.name, 10**6) + 0.01
        if k == "seq":
            return sum(self._ecost(x) for x in e.items)
        if k == "alt":
            return min(self._ecost(x) for x in e.items)
        if k in ("opt", "star"):
            return 0
        return self._ecost(e.items[0])

    def _costs(self):
        changed = True
        while changed:
            changed = False
            for r in self.g.rules.values():
                cs = [(self._ecost(a.elem), a.index, a) for a in r.alts if not r.left_rec(a)]
                c, _, a = min(cs, key=lambda x: x[:2])
                if c < self.cost.get(r.name, 10**6):
                    self.cost[r.name] = c
                    self.best[r.name] = a
                    changed = True
        for rn, lab in PREFER.items():
            r = self.g.rules.get(rn)
            for a in r.alts if r else ():
                if a.label == lab and not r.left_rec(a):
                    self.best[rn] = a
                    break

    def min_tree(self, rule):
        f = self.special.get(rule)
        if f is not None:
            t = f(self)
            if t is not None:
                return t
        return self.inst(self.best[rule], Plan())

    # ------------------------------------------------------------- leaves
    def token(self, name):
        f = self.fresh
        if name == "IDENTIFIER":
            return Tok(name, AStr([Part("S", f("id"), cls="ident")]))
        if name == "DIGIT_IDENTIFIER":
            return Tok(name, AStr([Part("S", f("dig"), cls="digitident")]))
        if self.plain and name in ("QUOTED_IDENTIFIER", "BACKQUOTED_IDENTIFIER", "STRING"):
            q = {"Q": '"', "B": "`", "S": "'"}[name[0]]
            return Tok(name, AStr([q, Part("S", f(name[0].lower()), cls="ident"), q]))
        if name == "QUOTED_IDENTIFIER":
            return Tok(name, AStr(['"', Part("S", f("q"), (("replace", '"', '""'),), cls="other"), '"']))
        if name == "BACKQUOTED_IDENTIFIER":
            return Tok(name, AStr(["`", Part("S", f("b"), (("replace", "`", "``"),), cls="other"), "`"]))
        if name == "STRING":
            return Tok(name, AStr(["'", Part("S", f("s"), (("replace", "'", "''"),), cls="string"), "'"]))
        if name == "UNICODE_STRING":
            return Tok(name, "U&'u%s\\0041'" % f("u"))
        if name == "BINARY_LITERAL":
            return Tok(name, "X'AB0%s'" % f("x")[-1])
        if name in ("INTEGER_VALUE", "DECIMAL_VALUE", "DOUBLE_VALUE"):
            return Tok(name, AStr([Part("N", (name, f("n")))]))
        sp = self.g.spellings(name)
        if not sp:
            raise KeyError(name)
        return Tok(name, sp[min(self.spelling, len(sp) - 1)])

    # ------------------------------------------------------------- instances
    def inst(self, alt, plan):
        kids = []
        self._fill(alt.elem, plan, kids, None)
        return PNode(alt.rule, alt, kids)

    def _fill(self, e, plan, kids, lab):
        k = e.kind
        if k == "tok":
            if e.name == "EOF":
                return
            kids.append((lab or e, self.token(e.name)))
        elif k == "ref":
            t = plan.child(e)
            if t is None:
                t = self.min_tree(e.name)
            elif callable(t):
                t = t()
            kids.append((lab or e, t))
        elif k == "seq":
            for x in e.items:
                self._fill(x, plan, kids, None)
        elif k == "alt":
            forced = plan.force_alt(e)
            i = forced if forced is not None else plan.choose(e, len(e.items))
            self._fill(e.items[i], plan, kids, e if e.label else None)
        elif k == "opt":
            f = plan.force_in(e)
            if f or plan.choose(e, 2):
                self._fill(e.items[0], plan, kids, None)
        elif k in ("star", "plus"):
            lo = 0 if k == "star" else 1
            n = lo + plan.choose(e, 3, MANY)
            if plan.force_in(e):
                n = max(n, 1)
            for _ in range(n):
                self._fill(e.items[0], plan, kids, None)

    def vectors(self, alt, deviations=2, cap=400):
        """Plans for the alternative: choices as prefix vectors."""
        out = []
        todo = [()]
        seen = set()
        while todo and len(out) < cap:
            nxt = []
            for pre in todo:
                p = Plan(pre)
                self.inst(alt, p)
                vec = tuple(c for c, _ in p.trace)
                if vec in seen:
                    continue
                seen.add(vec)
                out.append(vec)
                if sum(1 for x in pre if x) < deviations:
                    for i in range(len(pre), len(p.trace)):
                        for v in range(1, p.trace[i][1]):
                            nxt.append(vec[:i] + (v,))
            todo = nxt
        for full in (1, 2):
            p = Plan((), full=full)
            self.inst(alt, p)
            vec = tuple(c for c, _ in p.trace)
            if vec not in seen:
                seen.add(vec)
                out.append(vec)
        # a long list in the place of each list
        for full in (0, 1):
            p = Plan((), full=full)
            self.inst(alt, p)
            vec = tuple(c for c, _ in p.trace)
            for i in p.lists:
                v = vec[:i] + (MANY,) + vec[i + 1 :]
                if not any(o[: i + 1] == v[: i + 1] or o[i : i + 1] == (MANY,) and len(o) == len(v) for o in out):
                    out.append(v)
        return out

    # ------------------------------------------------------------- embedding into an entry rule
    def _paths(self):
        """rule -> (parent alternative, element, entry rule), along a cheapest chain."""
        self.up = {}
        todo = [(0.0, i, r) for i, r in enumerate(ROOTS)]
        for _, _, r in todo:
            self.up[r] = None
        done = {}
        import heapq

        n = len(todo)
        while todo:
            c, _, r = heapq.heappop(todo)
            if r in done:
                continue
            done[r] = c
            rule = self.g.rules[r]
            for a in rule.alts:
                for e in self.g.refs(a.elem):
                    if e.kind == "ref" and e.name not in done:
                        w = c + self._ecost(a.elem) + 0.1
                        cur = self.up.get(e.name)
                        if e.name not in self.up or (cur is not None and w < cur[2]):
                            self.up[e.name] = (a, e, w)
                            n += 1
                            heapq.heappush(todo, (w, n, e.name))

    def embed(self, tree):
        """The entry rule and the whole derivation around `tree`."""
        while True:
            up = self.up.get(tree.rule)
            if up is None:
                return tree.rule, tree
            a, e, _ = up
            tree = self.inst(a, Plan((), child={id(e): tree}, inside=self.inside(a, e)))

    def inside(self, alt, target):
        """The containers that must be taken for `target` to be present."""
        path = set()

        def walk(x):
            if x is target:
                return True
            hit = False
            for y in x.items:
                if walk(y):
                    hit = True
                    break
            if hit:
                path.add(id(x))
            return hit

        walk(alt.elem)
        path.add(id(target))
        return path

    # ------------------------------------------------------------- what can stand in a slot
    def unit(self, alt):
        """The rule an alternative merely forwards to, if it does."""
        items = [e for e in alt.elem.items]
        req = [e for e in items if e.kind not in ("opt", "star")]
        if len(req) == 1 and req[0].kind == "ref" and not self.g.rules[alt.rule].left_rec(alt):
            return req[0].name
        return None

    def descend(self, rule):
        """Every alternative that can be the head of a phrase of the rule."""
        out, todo, seen = [], [rule], set()
        while todo:
            r = todo.pop(0)
            if r in seen:
                continue
            seen.add(r)
            for a in self.g.rules[r].alts[: 1 if r == "nonReserved" else None]:
                u = self.unit(a)
                if u is None or any(e.kind in ("opt", "star") for e in a.elem.items):
                    out.append(a)
                if u is not None:
                    todo.append(u)
        return out

    def wrappers(self, rule):
        """Parenthesised forms a slot accepts: (alternative, element that is inside the parentheses)."""
        out = []
        for a in self.descend(rule):
            items = a.elem.items
            if len(items) == 3 and items[0].name == "'('" and items[2].name == "')'" and items[1].kind == "ref":
                out.append((a, items[1]))
            elif len(items) == 3 and items[1].kind == "ref" and items[0].kind == "tok" and self.token_is(items[0], "(") and self.token_is(items[2], ")"):
                out.append((a, items[1]))
        return out

    def token_is(self, e, text):
        return e.kind == "tok" and text in self.g.spellings(e.name)

    def chain(self, rule, alt):
        """Unit derivation from rule down to alt: list of (alternative, element), or None."""
        todo = [(rule, [])]
        seen = set()
        while todo:
            r, path = todo.pop(0)
            if r in seen:
                continue
            seen.add(r)
            if r == alt.rule:
                return path
            for a in self.g.rules[r].alts:
                u = self.unit(a)
                if u is not None:
                    e = [x for x in a.elem.items if x.kind == "ref"][0]
                    todo.append((u, path + [(a, e)]))
        return None

    def lift(self, rule, tree):
        path = self.chain(rule, tree.alt)
        if path is None:
            return None
        for a, e in reversed(path):
            tree = self.inst(a, Plan((), child={id(e): tree}, inside=self.inside(a, e)))
        return tree

    # ------------------------------------------------------------- the enumeration
    def alternatives(self):
        return [a for r in self.reach for a in self.g.rules[r].alts]

    def level1(self):
        """(key, make) for every vector of every alternative."""
        for a in self.alternatives():
            for v in self.vectors(a):
                yield ("%s:%s" % (name_of(a), "".join(map(str, v)))), a, (lambda a=a, v=v: self.inst(a, Plan(v)))

    def slots(self, alt):
        return [e for e in self.g.refs(alt.elem) if e.kind == "ref"]

    def level2(self, parens=True, skip=frozenset()):
        """(key, alternative, make): every alternative in every slot of every other.
        skip: alternatives that the converter refuses whatever they contain."""
        for a in self.alternatives():
            if self.unit(a) is not None and len(a.elem.items) == 1:
                continue
            if a in skip:
                continue
            for i, e in enumerate(self.slots(a)):
                for b in self.descend(e.name):

                    def make(a=a, e=e, b=b):
                        t = self.lift(e.name, self.inst(b, Plan()))
                        return None if t is None else self.inst(a, Plan((), child={id(e): t}, inside=self.inside(a, e)))

                    yield "%s.%d(%s)" % (name_of(a), i, name_of(b)), a, make
                if not parens:
                    continue
                for w, we in self.wrappers(e.name):
                    for b in self.descend(we.name):
                        if b in skip:
                            continue

                        def make(a=a, e=e, w=w, we=we, b=b):
                            t = self.lift(we.name, self.inst(b, Plan()))
                            if t is None:
                                return None
                            t = self.inst(w, Plan((), child={id(we): t}))
                            t = self.lift(e.name, t)
                            return self.inst(a, Plan((), child={id(e): t}, inside=self.inside(a, e)))

                        yield "%s.%d((%s))" % (name_of(a), i, name_of(b)), a, make

    def sentence(self, make):
        """(entry rule, derivation, tokens) or None when the text does not derive that way."""
        self.fresh = Fresh()
        t = make()
        if t is None:
            return None
        target = t.alt
        root, whole = self.embed(t)
        toks = tokens_of(whole)
        tree = TemplateParser(self.g, toks).parse(root)
        if tree is None:
            return None
        if not has_alt(tree, target):
            return None
        return root, tree, toks


def has_alt(tree, alt):
    if tree.alt is alt:
        return True
    return any(isinstance(c, PNode) and has_alt(c, alt) for _, c in tree.children)


def name_of(a):
    return a.label or (a.rule if len_alts(a) else a.rule)


def len_alts(a):
    return True


class Plan:
    def __init__(self, prefix=(), child=None, inside=(), full=0):
        self.prefix, self.kids, self.inside, self.full = prefix, child or {}, inside, full
        self.trace, self.lists = [], []
        self.used = set()

    def choose(self, e, n, most=0):
        i = len(self.trace)
        v = self.prefix[i] if i < len(self.prefix) else (min(self.full, n - 1) if e.kind != "alt" else 0)
        v = min(v, most or n - 1)
        if most:
            self.lists.append(i)
        self.trace.append((v, n))
        return v

    def child(self, e):
        t = self.kids.get(id(e))
        if t is not None and id(e) not in self.used:
            self.used.add(id(e))
            return t
        return None

    def force_in(self, e):
        return id(e) in self.inside

    def force_alt(self, e):
        if id(e) in self.inside:
            for i, x in enumerate(e.items):
                if id(x) in self.inside:
                    return i
        return None
