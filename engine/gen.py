"""Reads the generated recognizer: its tables, its context classes, and the paths through its rule functions."""
import ast

from engine.atn import ATN, RULE_STOP, Broken, serialized


class Generated:
    """The class of a generated module."""

    def __init__(self, text):
        self.tree = ast.parse(text)
        self.cls = next((c for c in self.tree.body if isinstance(c, ast.ClassDef)), None)
        if self.cls is None:
            raise Broken("no class")
        self.const, self.classes, self.functions = {}, {}, {}
        for s in self.cls.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                try:
                    self.const[s.targets[0].id] = ast.literal_eval(s.value)
                except ValueError:
                    pass
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.FunctionDef):
                self.functions[s.name] = s

    def atn(self):
        return ATN(serialized(self.tree))

    def ints(self):
        return {n: v for n, v in self.const.items() if isinstance(v, int)}


# ---------------------------------------------------------------------------------------------- paths of a network
class Paths:
    """What can be taken next from every place of a network."""

    def __init__(self, A):
        self.A = A
        self.stops = {n for n, t in A.type.items() if t == RULE_STOP}
        self.number = {s: i for i, s in enumerate(A.decisions)}
        self.memo = {}
        n = len(A.start)
        self.nullable, self.first, self.follow = [False] * n, [set() for _ in range(n)], [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for r in range(n):
                f, null = self._first(A.start[r])
                if not f <= self.first[r] or null != self.nullable[r]:
                    self.first[r] |= f
                    self.nullable[r] = self.nullable[r] or null
                    changed = True
        changed = True
        while changed:
            changed = False
            for s, es in A.edges.items():
                for e in es:
                    if e[0] == "rule":
                        f, null = self._first(e[3])
                        f = f | (self.follow[A.rule[s]] if null else set())
                        if not f <= self.follow[e[1]]:
                            self.follow[e[1]] |= f
                            changed = True

    def _first(self, s):
        out, null, seen, todo = set(), False, set(), [s]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s in self.stops:
                null = True
                continue
            for e in self.A.edges[s]:
                if e[0] == "set":
                    for a, b in e[1]:
                        out |= set(range(a, b + 1))
                elif e[0] == "rule":
                    out |= self.first[e[1]]
                    if self.nullable[e[1]]:
                        todo.append(e[3])
                else:
                    todo.append(e[-1])
        return out, null

    def look(self, pos, rule):
        """The tokens which can come at a position; 'END' is the end of the rule."""
        if pos == "END":
            return self.follow[rule]
        f, null = self._first(pos)
        return f | (self.follow[rule] if null else set())

    def next(self, s):
        """[(decisions taken, position)] from a state on; positions are states that consume, call or test."""
        if s in self.memo:
            return self.memo[s]
        out = []

        def go(s, decs, seen):
            if s in self.stops:
                out.append((decs, "END"))
                return
            es = self.A.edges[s]
            if es and es[0][0] != "eps":
                out.append((decs, s))
                return
            if s in seen:
                return
            for i, e in enumerate(es):
                go(e[-1], decs + ((self.number[s], i + 1),) if s in self.number else decs, seen | {s})

        go(s, (), frozenset())
        self.memo[s] = out
        return out


# ---------------------------------------------------------------------------------------------- rule functions
class Unread(Exception):
    """A form of code the reader doesn't know."""


SILENT = {"enterOuterAlt", "triggerExitRuleEvent", "exitRule", "unrollRecursionContexts", "pushNewRecursionContext", "enterRule", "enterRecursionRule"}


class RuleCode:
    """All paths through a rule function: which position follows which, on which tokens and decisions."""

    def __init__(self, gen, fn, rules, atn, tokens):
        self.gen, self.fn, self.rules, self.A, self.tokens = gen, fn, rules, atn, tokens
        self.cls = gen.cls.name
        self.const = gen.ints()
        self.edges = set()  # (previous, decisions, tokens or None, position)
        self.takes = {}  # position -> {what it takes}
        self.labels = {}  # position -> {(names, lists)} over all paths
        self.ctx = {}  # position -> {class of context}
        self.operands = {}  # class of context -> labels of the left operand
        self.entered = []  # arguments of enterRule
        self.folds = {}
        self.blocks = {}
        self.appended = {}
        self.handed = {}  # position -> attributes of the context handed over
        body = fn.body
        params = [a.arg for a in fn.args.args]
        env = {"state": None, "la": None, "dec": (), "ctx": None, "prev": "START", "lab": frozenset(), "vars": (), "last": None}
        self.todo = [((self.frame("seq", body),), self.freeze(env))]
        seen = set()
        while self.todo:
            c = self.todo.pop()
            if c in seen:
                continue
            seen.add(c)
            if len(seen) > 200000:
                raise Unread("too many paths")
            self.step(c)

    # ------------------------------------------------------------------------------------------ machine
    def freeze(self, e):
        return tuple(sorted(e.items(), key=lambda x: x[0]))

    def frame(self, kind, obj, i=0):
        self.blocks[id(obj)] = obj
        return (kind, id(obj), i)

    def go(self, frames, env):
        self.todo.append((frames, self.freeze(env)))

    def step(self, c):
        frames, env = c[0], dict(c[1])
        if not frames:
            self.edge(env, "END")
            return
        kind, oid, i = frames[-1]
        obj = self.blocks[oid]
        if kind == "seq":
            if i == len(obj):
                self.go(frames[:-1], env)
                return
            self.stmt(obj[i], frames[:-1] + ((kind, oid, i + 1),), env)
        else:
            for v, e in self.test(obj.test, env):
                if v:
                    self.go(frames + (self.frame("seq", obj.body),), e)
                else:
                    self.go(frames[:-1], e)

    def stmt(self, s, frames, env):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            self.go(frames, env)
        elif isinstance(s, ast.Try):
            fr = frames
            if s.finalbody:
                fr = fr + (self.frame("seq", s.finalbody),)
            if s.orelse:
                fr = fr + (self.frame("seq", s.orelse),)
            self.go(fr + (self.frame("seq", s.body),), env)
        elif isinstance(s, ast.If):
            for v, e in self.test(s.test, env):
                b = s.body if v else s.orelse
                self.go(frames + (self.frame("seq", b),) if b else frames, e)
        elif isinstance(s, ast.While):
            self.go(frames + (self.frame("while", s),), env)
        elif isinstance(s, (ast.Break, ast.Continue)):
            k = len(frames) - 1
            while k >= 0 and frames[k][0] != "while":
                k -= 1
            if k < 0:
                raise Unread("break outside of a loop")
            self.go(frames[:k] if isinstance(s, ast.Break) else frames[: k + 1], env)
        elif isinstance(s, ast.Raise):
            return
        elif isinstance(s, ast.Return):
            self.edge(env, "END")
        elif isinstance(s, ast.Expr):
            self.expr(s.value, frames, env, None)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if len(targets) != 1:
                raise Unread("assignment to several targets")
            self.assign(targets[0], s.value, frames, env)
        else:
            raise Unread(type(s).__name__)

    def dotted(self, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            return ".".join([e.id] + parts[::-1])
        return None

    def call_name(self, e):
        return self.dotted(e.func) if isinstance(e, ast.Call) else None

    def assign(self, target, value, frames, env):
        name = self.dotted(target)
        if name is None:
            raise Unread("assignment to " + type(target).__name__)
        f = self.call_name(value)
        if name == "self.state":
            if not isinstance(value, ast.Constant):
                raise Unread("state")
            env["state"] = value.value
            self.go(frames, env)
        elif name.startswith("self._ctx"):
            self.go(frames, env)
        elif name == "localctx":
            if not f or not f.endswith("Context"):
                raise Unread("localctx = " + ast.unparse(value)[:40])
            env["ctx"] = f.split(".")[-1]
            self.go(frames, env)
        elif name.startswith("localctx."):
            attr = name[9:]
            if isinstance(value, ast.Name) and value.id == "_prevctx":
                self.operands.setdefault(env["ctx"], set()).add((attr, False))
                self.go(frames, env)
            elif f == "self._input.LT":
                env["lab"] = env["lab"] | {attr}
                self.go(frames, env)
            elif f == "self._errHandler.recoverInline":
                return
            elif f == "self.match" or f and f.startswith("self.") and f[5:] in self.rules:
                self.expr(value, frames, env, attr)
            else:
                raise Unread("%s = %s" % (name, ast.unparse(value)[:40]))
        elif f in ("self._input.LA",):
            self.setvar(env, name, ("la",))
            self.go(frames, env)
        elif f == "self._interp.adaptivePredict":
            a = value.args[1]
            if not isinstance(a, ast.Constant) or not 0 <= a.value < len(self.A.decisions):
                raise Unread("decision")
            if len(env["dec"]) > 12:
                raise Unread("decisions without end")
            for k in range(1, len(self.A.edges[self.A.decisions[a.value]]) + 1):
                e = dict(env)
                e["dec"] = env["dec"] + ((a.value, k),)
                self.setvar(e, name, k)
                self.go(frames, e)
        elif isinstance(value, ast.Constant):
            if "." not in name:
                self.setvar(env, name, value.value)
            self.go(frames, env)
        elif f is None and not any(isinstance(x, ast.Call) for x in ast.walk(value)):
            self.go(frames, env)
        else:
            raise Unread("%s = %s" % (name, ast.unparse(value)[:40]))

    def setvar(self, env, name, v):
        vs = dict(env["vars"])
        vs[name] = v
        env["vars"] = tuple(sorted(vs.items()))

    def expr(self, e, frames, env, label):
        f = self.call_name(e)
        if f is None:
            if any(isinstance(x, ast.Call) for x in ast.walk(e)):
                raise Unread(ast.unparse(e)[:40])
            self.go(frames, env)
            return
        if f.startswith("localctx.") and f.endswith(".append"):
            src = self.dotted(e.args[0])
            if not src or not src.startswith("localctx."):
                raise Unread(ast.unparse(e)[:40])
            self.appended.setdefault(env["last"], set()).add((f[9:-7], src[9:]))
            self.go(frames, env)
            return
        if not f.startswith("self."):
            raise Unread(ast.unparse(e)[:40])
        m = f[5:]
        if m == "match":
            t = self.value(e.args[0], {})
            self.take(("tok", t), label, env)
        elif m == "consume":
            if env["la"] is None:
                raise Unread("consume without a test")
            self.take(("set", env["la"]), label, env)
        elif m in self.rules:
            p = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else 0 if not e.args else None
            d = self.dotted(e.args[0]) if e.args else None
            if d and d.startswith("localctx._"):
                # what another rule gave is handed over
                p = 0
                self.handed.setdefault(env["state"], set()).add(d[9:])
            if p is None:
                raise Unread(ast.unparse(e)[:40])
            self.take(("rule", m, p), label, env)
        elif m in SILENT or m.startswith("_errHandler."):
            if m in ("enterRule", "enterRecursionRule"):
                self.entered.append((self.value(e.args[1], {}), self.value(e.args[2], {})))
            if m == "_errHandler.recoverInline":
                return
        else:
            raise Unread(ast.unparse(e)[:40])
        self.go(frames, env)

    def edge(self, env, pos):
        self.edges.add((env["prev"], env["dec"], env["la"], pos))

    def take(self, what, label, env):
        pos = env["state"]
        if pos is None:
            raise Unread("no state")
        if what[0] == "pred":
            pass
        self.edge(env, pos)
        self.takes.setdefault(pos, set()).add(what if what[0] != "set" else ("set", None))
        if what[0] == "set":
            self.sets.setdefault(pos, set()).update(what[1])
        labs = env["lab"] | ({label} if label else frozenset())
        self.labels.setdefault(pos, set()).add(frozenset(labs))
        self.ctx.setdefault(pos, set()).add(env["ctx"])
        env["prev"] = env["last"] = pos
        env["dec"], env["lab"] = (), frozenset()
        if what[0] != "pred":
            env["la"] = None
            env["vars"] = tuple((n, "stale" if v == ("la",) else v) for n, v in env["vars"])

    @property
    def sets(self):
        if not hasattr(self, "_sets"):
            self._sets = {}
        return self._sets

    # ------------------------------------------------------------------------------------------ tests
    def test(self, t, env):
        """[(truth, environment)]"""
        neg = False
        inner = t
        while isinstance(inner, ast.UnaryOp) and isinstance(inner.op, ast.Not):
            neg, inner = not neg, inner.operand
        if self.call_name(inner) == "self.precpred":
            e = dict(env)
            self.take(("pred", self.value(inner.args[1], {})), None, e)
            return [(not neg, e)]
        if isinstance(t, ast.Constant):
            return [(bool(t.value), env)]
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        vs = dict(env["vars"])
        used = {n: vs[n] for n in names if n in vs}
        if any(v == "stale" for v in used.values()):
            raise Unread("a token that was consumed is tested")
        las = [n for n, v in used.items() if v == ("la",)]
        if not las:
            if not used:
                if isinstance(t, ast.Compare) and self.dotted(t.left) == "self._parseListeners":
                    return [(False, env)]
                raise Unread("test " + ast.unparse(t)[:40])
            return [(bool(self.value(t, used)), env)]
        cand = env["la"] if env["la"] is not None else self.tokens
        yes = frozenset(x for x in cand if self.truth(t, used, las, x))
        no = frozenset(cand) - yes
        out = []
        for v, s in ((True, yes), (False, no)):
            if s:
                e = dict(env)
                e["la"] = s
                out.append((v, e))
        return out

    def truth(self, t, used, las, x):
        key = (id(t), tuple(sorted((n, v) for n, v in used.items() if n not in las)), x)
        if key not in self.folds:
            self.folds[key] = bool(self.value(t, dict(used, **{n: x for n in las})))
        return self.folds[key]

    def value(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            raise Unread("name " + e.id)
        if isinstance(e, ast.Attribute):
            d = self.dotted(e)
            if d in ("ATN.INVALID_ALT_NUMBER",):
                return 0
            if d and d.split(".")[0] in (self.cls, "self") and d.count(".") == 1:
                n = d.split(".")[1]
                if n == "EOF":
                    return -1
                if n in self.const:
                    return self.const[n]
            raise Unread("value " + str(d))
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.value(x, env)
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.value(e.operand, env)
            return {ast.Not: lambda: not v, ast.Invert: lambda: ~v, ast.USub: lambda: -v}[type(e.op)]()
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.BitOr):
                # a sum of many terms nests deeply to the left
                terms = []
                x = e
                while isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    terms.append(x.right)
                    x = x.left
                terms.append(x)
                key = id(e)
                if key not in self.folds:
                    try:
                        self.folds[key] = self._or([self.value(y, {}) for y in terms])
                    except Unread:
                        self.folds[key] = None
                if self.folds[key] is not None:
                    return self.folds[key]
                return self._or([self.value(y, env) for y in terms])
            a, b = self.value(e.left, env), self.value(e.right, env)
            if isinstance(e.op, ast.LShift):
                return a << b if b >= 0 else 0
            f = {ast.BitAnd: lambda: a & b, ast.Sub: lambda: a - b, ast.Add: lambda: a + b, ast.RShift: lambda: a >> b}.get(type(e.op))
            if f is None:
                raise Unread("operator")
            return f()
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            key = ("list", id(e))
            if key not in self.folds:
                self.folds[key] = frozenset(self.value(x, {}) for x in e.elts)
            return self.folds[key]
        if isinstance(e, ast.Compare):
            left = self.value(e.left, env)
            for op, c in zip(e.ops, e.comparators):
                right = self.value(c, env)
                ok = {ast.Eq: lambda: left == right, ast.NotEq: lambda: left != right, ast.In: lambda: left in right, ast.NotIn: lambda: left not in right,
                      ast.Lt: lambda: left < right, ast.Gt: lambda: left > right, ast.LtE: lambda: left <= right, ast.GtE: lambda: left >= right,
                      ast.Is: lambda: left is right, ast.IsNot: lambda: left is not right}[type(op)]()
                if not ok:
                    return False
                left = right
            return True
        raise Unread("expression " + type(e).__name__)

    def _or(self, vs):
        out = 0
        for v in vs:
            out |= v
        return out
