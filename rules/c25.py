"""C25: the generated lexer, parser, contexts and visitor against the grammar file."""
import ast
import os

from engine.atn import Broken, Builder, compare
from engine.g4 import Elem, Grammar
from engine.gen import Generated, Paths, RuleCode, Unread
from engine.world import REPO

HERE = os.path.join(REPO, "treeno", "grammar")


def read(*p):
    with open(os.path.join(HERE, *p), encoding="utf-8") as f:
        return f.read()


def cap(s):
    return s[:1].upper() + s[1:]


def tables(rep, what, gen, names, types, g):
    """The names of the tokens."""
    lits, syms = gen.const.get("literalNames", []), gen.const.get("symbolicNames", [])
    for n, t in types.items():
        rep.count("tokens_" + what)
        lit = None
        if n in g.lex:
            s = g._literal_spellings(g.lex[n])
            if len(s) == 1:
                lit = "'%s'" % s[0]
        elif n in names:
            lit = names[n]
        sym = None if n in names else n
        got_l = lits[t] if t < len(lits) and lits[t] != "<INVALID>" else None
        got_s = syms[t] if t < len(syms) and syms[t] != "<INVALID>" else None
        # the lexer's tables leave out what has no name at all
        if what == "parser":
            if got_l != lit:
                rep.finding("%s: literal name of %s" % (what, n), "the literal name of the token %s is %s, and the grammar says %s" % (n, got_l, lit))
            if got_s != sym:
                rep.finding("%s: symbolic name of %s" % (what, n), "the symbolic name of the token %s is %s, and the grammar says %s" % (n, got_s, sym))
        else:
            for got, want in ((got_l, lit), (got_s, sym)):
                have = lits if want and want[0] == "'" else syms
                if want is not None and want not in have:
                    rep.finding("%s: name of %s" % (what, n), "the name %s of the token %s is missing" % (want, n))


def frequencies(e, loop=1):
    """How often each token and rule occurs in an element, at most 2."""
    if e.kind in ("tok", "ref"):
        return {} if e.name.startswith("'") else {e.name: 1}
    if e.kind == "seq":
        out = {}
        for x in e.items:
            for n, k in frequencies(x).items():
                out[n] = min(2, out.get(n, 0) + k)
        return out
    if e.kind == "alt":
        out = {}
        for x in e.items:
            for n, k in frequencies(x).items():
                out[n] = max(out.get(n, 0), k)
        return out
    out = {}
    for x in e.items:
        for n, k in frequencies(x).items():
            out[n] = 2 if e.kind in ("star", "plus") else k
    return out


def labels(e, out):
    if e.label:
        out[e.label] = out.get(e.label, False) or e.plus
    for x in e.items:
        labels(x, out)
    return out


def returned(fn, env):
    """What a small function returns: the call, as (receiver, method, arguments)."""
    def truth(t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return not truth(t.operand)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = value(t.left), value(t.comparators[0])
            return (a == b) == isinstance(t.ops[0], (ast.Is, ast.Eq))
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "hasattr":
            return (value(t.args[0]), value(t.args[1])) in env.get("has", ())
        raise Unread("test " + ast.unparse(t)[:40])

    def value(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            raise Unread("name " + e.id)
        if isinstance(e, ast.Attribute):
            v = value(e.value)
            if isinstance(v, str):
                return v + "." + e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            return (value(e.func.value), e.func.attr) + tuple(value(a) for a in e.args)
        if isinstance(e, ast.IfExp):
            return value(e.body if truth(e.test) else e.orelse)
        raise Unread(ast.unparse(e)[:40])

    def run(body):
        for s in body:
            if isinstance(s, ast.Return):
                return (value(s.value) if s.value is not None else None,)
            if isinstance(s, ast.If):
                r = run(s.body if truth(s.test) else s.orelse)
                if r is not None:
                    return r
            elif isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                env.setdefault("calls", []).append(value(s.value))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = value(s.value)
            else:
                raise Unread(ast.unparse(s)[:40])
        return None

    r = run(fn.body)
    return r[0] if r else None


def methods(c):
    return {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}


def fields(init):
    """{attribute: whether a list} of those an initializer sets."""
    out = {}
    for s in ast.walk(init):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    v = s.value
                    out[t.attr] = isinstance(v, ast.List) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "list"
    return out


def contexts(rep, gen, visitor, g):
    """The context classes and the visitor's methods."""
    P = gen.cls.name
    visits = methods(visitor.cls)
    for rule in g.order:
        r = g.rules[rule]
        base = cap(rule) + "Context"
        groups = {}
        for a in r.alts:
            groups.setdefault(a.ctx_class, []).append(a)
        labelled = any(a.label for a in r.alts)
        for cls in ([base] if labelled else []) + list(groups):
            c = gen.classes.get(cls)
            if c is None:
                rep.finding("no context %s" % cls, "the parser has no class %s for %s" % (cls, rule))
                continue
            rep.count("contexts")
            ms = methods(c)
            want = base if cls != base else "ParserRuleContext"
            bases = [b.id for b in c.bases if isinstance(b, ast.Name)] + [b.attr for b in c.bases if isinstance(b, ast.Attribute)]
            if bases != [want]:
                rep.finding("%s: base class" % cls, "%s derives from %s and not from %s" % (cls, bases, want))
            if cls == base:
                try:
                    v = returned(ms["getRuleIndex"], {"self": "self", P: P}) if "getRuleIndex" in ms else None
                    rep.count("obligations")
                    if v != "%s.RULE_%s" % (P, rule):
                        rep.finding("%s: rule index" % cls, "%s gives %s as its rule" % (cls, v))
                except Unread as e:
                    rep.undecide("%s.getRuleIndex: %s" % (cls, e))
            if cls == base:
                for n in g.params.get(rule, ()):
                    rep.count("obligations")
                    kept = [f for f in ("__init__",) + (("copyFrom",) if labelled else ()) if n not in (fields(ms[f]) if f in ms else {})]
                    if kept:
                        rep.finding("%s: parameter %s" % (cls, n), "%s of %s does not keep the parameter %s" % (kept[0], cls, n))
                    f = gen.functions.get(rule)
                    made = [c for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == base] if f else []
                    if made and not any(isinstance(a, ast.Name) and a.id == n for c in made for a in list(c.args) + [k.value for k in c.keywords]):
                        rep.finding("%s: parameter %s" % (cls, n), "the function %s does not hand its parameter %s to the context" % (rule, n))
            if cls not in groups:
                continue
            # accessors
            freq, labs = {}, {}
            for a in groups[cls]:
                for n, k in frequencies(a.elem).items():
                    freq[n] = max(freq.get(n, 0), k)
                labels(a.elem, labs)
            for n, k in freq.items():
                rep.count("accessors")
                f = ms.get(n)
                if f is None:
                    rep.finding("%s: no %s()" % (cls, n), "%s, the context of %s, has no accessor %s" % (cls, rule, n))
                    continue
                tok = n not in g.rules
                arg = "%s.%s" % (P, n if tok else cap(n) + "Context")
                one, many = ("getToken", "getTokens") if tok else ("getTypedRuleContext", "getTypedRuleContexts")
                cases = [({}, ("self", one, arg, 0) if k == 1 else ("self", many, arg))]
                params = [a.arg for a in f.args.args][1:]
                if k > 1:
                    cases.append(({params[0] if params else "i": 7}, ("self", one, arg, 7)))
                    if len(params) != 1 or not f.args.defaults:
                        rep.finding("%s: %s() takes no index" % (cls, n), "%s.%s takes no index although %s can occur more than once" % (cls, n, n))
                        continue
                elif len(params) > len(f.args.defaults):
                    rep.finding("%s: %s() takes an index" % (cls, n), "%s.%s cannot be called without an index" % (cls, n))
                    continue
                for env, want in cases:
                    env = dict({p: None for p in params}, self="self", **dict({P: P}, **env))
                    try:
                        v = returned(f, env)
                    except Unread as e:
                        rep.undecide("%s.%s: %s" % (cls, n, e))
                        break
                    if v != want:
                        rep.finding("%s: %s()" % (cls, n), "%s.%s gives %s and not %s" % (cls, n, v, want))
            # labels
            have = fields(ms["__init__"]) if "__init__" in ms else {}
            for n, lst in labs.items():
                rep.count("labels")
                if n not in have:
                    rep.finding("%s: label %s" % (cls, n), "%s has no attribute for the label %s" % (cls, n))
                elif have[n] != lst:
                    rep.finding("%s: label %s" % (cls, n), "the label %s of %s %s a list" % (n, cls, "is not" if lst else "is"))
            # visiting
            vis = "visit" + cls[:-7]
            rep.count("visits")
            f = visits.get(vis)
            if f is None:
                rep.finding("visitor: no %s" % vis, "the visitor has no %s for %s" % (vis, cls))
            else:
                try:
                    p = f.args.args[1].arg
                    v = returned(f, {"self": "self", p: "ctx"})
                    if v != ("self", "visitChildren", "ctx"):
                        rep.finding("visitor: %s" % vis, "%s of the generated visitor does %s and does not visit the children" % (vis, v))
                except (Unread, IndexError) as e:
                    rep.undecide("%s: %s" % (vis, e))
            if "accept" not in ms:
                rep.finding("%s: accept" % cls, "%s does not accept a visitor" % cls)
            else:
                f = ms["accept"]
                try:
                    p = f.args.args[1].arg
                    for has, want in (({("visitor", n) for n in visits} | {("visitor", vis)}, ("visitor", vis, "self")), (set(), ("visitor", "visitChildren", "self"))):
                        v = returned(f, {"self": "self", p: "visitor", "has": has})
                        if v != want:
                            rep.finding("%s: accept" % cls, "%s.accept does %s and not %s" % (cls, v, want))
                            break
                except (Unread, IndexError) as e:
                    rep.undecide("%s.accept: %s" % (cls, e))


def rule_functions(rep, gen, g, A, paths, found, info):
    rules = set(g.order)
    tokens = frozenset([-1] + list(range(1, A.max_type + 1)))
    names = {v: n for n, v in gen.ints().items() if not n.startswith("RULE_")}
    lits = gen.const.get("literalNames", [])

    def tok(t):
        return "the end" if t == -1 else lits[t] if names.get(t, "T__").startswith("T__") and t < len(lits) else names[t]

    def place(rule, pos):
        if pos == "START":
            return "the start of " + rule
        if pos == "END":
            return "the end of " + rule
        e = A.edges[pos][0]
        if e[0] == "set":
            return "/".join(tok(t) for a, b in e[1][:4] for t in range(a, b + 1)[:4])
        if e[0] == "rule":
            return g.order[e[1]]
        return "precedence %s" % (e[1],)

    for no, rule in enumerate(g.order):
        fn = gen.functions.get(rule)
        if fn is None:
            rep.finding("no function %s" % rule, "the parser has no function for the rule %s" % rule)
            continue
        try:
            code = RuleCode(gen, fn, rules, A, tokens)
        except Unread as e:
            rep.undecide("function %s: %s" % (rule, e))
            continue
        rep.count("rule_functions")
        mine = {s for s in A.edges if A.rule[s] == no}
        for s, i in code.entered:
            if i != no or A.start[no] != s:
                rep.finding("%s: enters another rule" % rule, "the function %s enters the rule %s in state %s" % (rule, i, s))
        if not code.entered:
            rep.finding("%s: enters no rule" % rule, "the function %s does not enter its rule" % rule)
        wrong = False
        for pos, takes in code.takes.items():
            rep.count("positions")
            if pos not in mine or not A.edges[pos] or A.edges[pos][0][0] == "eps":
                rep.finding("%s: state of %s" % (rule, sorted(map(str, takes))), "the function %s is in the state %s of another place where it takes %s" % (rule, pos, sorted(map(str, takes))))
                wrong = True
                continue
            e = A.edges[pos][0]
            for t in takes:
                if t[0] == "tok":
                    ok = e[0] == "set" and e[1] == ((t[1], t[1]),)
                elif t[0] == "set":
                    ok = e[0] == "set" and {x for a, b in e[1] for x in range(a, b + 1)} == code.sets[pos]
                elif t[0] == "rule":
                    ok = e[0] == "rule" and g.order[e[1]] == t[1] and e[2] == t[2]
                else:
                    ok = e[0] == "pred" and e[1] == t[1]
                if not ok:
                    what = tok(t[1]) if t[0] == "tok" else "/".join(sorted(map(tok, code.sets[pos]))) if t[0] == "set" else "%s(%s)" % (t[1], t[2]) if t[0] == "rule" else "precedence %s" % t[1]
                    rep.finding("%s: takes %s" % (rule, what), "the function %s takes %s where the grammar has %s" % (rule, what, place(rule, pos)))
            # labels and contexts
            items = [info[n] for n in found.get(pos, ())]
            if not items:
                continue
            rep.count("obligations", 2)
            alts = {a.ctx_class for _, a in items if a is not None}
            if alts and not code.ctx[pos] <= alts:
                rep.finding("%s: context of %s" % (rule, place(rule, pos)), "in %s, %s is taken into %s, and the grammar says %s" % (rule, place(rule, pos), sorted(map(str, code.ctx[pos])), sorted(alts)))
            elems = [x for x, _ in items if x is not None]
            want = {(x.label, x.plus) for x in elems if x.label}
            if e[0] == "pred":
                continue
            got = set()
            app = code.appended.get(pos, set())
            aux = {s for _, s in app}
            for ls in code.labels[pos]:
                got |= {(n, False) for n in ls if n not in aux and n != "_" + (g.order[e[1]] if e[0] == "rule" else tok(e[1][0][0]))}
            got |= {(n, True) for n, _ in app}
            if got != want:
                rep.finding("%s: label of %s" % (rule, place(rule, pos)), "in %s, %s gets the labels %s, and the grammar says %s" % (rule, place(rule, pos), show(got), show(want)))
            # a label is set on every path, or on none
            if want and not any(p for _, p in want) and any(not ls for ls in code.labels[pos]):
                rep.finding("%s: label of %s" % (rule, place(rule, pos)), "in %s, %s gets its label on some paths only" % (rule, place(rule, pos)))
        for pos, attrs in code.handed.items():
            rep.count("obligations")
            text = {"_" + x for x in g.arguments.get((rule, g.order[A.edges[pos][0][1]]), ())} if pos in mine else attrs
            if attrs != text:
                rep.finding("%s: argument of %s" % (rule, place(rule, pos)), "in %s, %s is given %s, and the grammar says %s" % (rule, place(rule, pos), sorted(attrs), sorted(text)))
        r = g.rules[rule]
        for a in r.alts:
            if r.left_rec(a):
                x = a.elem.items[0]
                want = {(x.label, x.plus)} if x.label else set()
                got = code.operands.get(a.ctx_class, set())
                rep.count("obligations")
                if got != want:
                    rep.finding("%s: left operand of %s" % (rule, a.ctx_class), "the left operand of %s gets the labels %s, and the grammar says %s" % (a.ctx_class, show(got), show(want)))
        if wrong:
            continue
        # what follows what
        by = {}
        for p, d, la, pos in code.edges:
            by.setdefault(p, []).append((d, la, pos))
        for p in {"START"} | set(by) | {s for s in mine if A.edges[s] and A.edges[s][0][0] != "eps"}:
            s = A.start[no] if p == "START" else A.edges[p][0][-1]
            if p not in by:
                rep.finding("%s: never reaches %s" % (rule, place(rule, p)), "the function %s never reaches %s" % (rule, place(rule, p)))
                continue
            ways = paths.next(s)
            for d, la, pos in by[p]:
                if not any(q == pos and sub(d, e) for e, q in ways):
                    rep.finding("%s: %s after %s" % (rule, place(rule, pos), place(rule, p)), "the function %s goes from %s to %s%s, which the grammar does not" % (rule, place(rule, p), place(rule, pos), " on the decision %s" % (d,) if d else ""))
            for e, q in ways:
                rep.count("paths")
                ok = set()
                for d, la, pos in by[p]:
                    if pos == q and sub(d, e):
                        ok |= tokens if la is None else la
                miss = paths.look(q, no) - ok
                if miss:
                    rep.finding("%s: no way from %s to %s" % (rule, place(rule, p), place(rule, q)), "the function %s does not go from %s to %s on %s" % (rule, place(rule, p), place(rule, q), ", ".join(sorted(map(tok, miss))[:5])))


def sub(d, e):
    """Whether the decisions d are among e, in order."""
    it = iter(e)
    return all(x in it for x in d)


def show(ls):
    return "{%s}" % ", ".join(sorted(n + ("+=" if p else "=") for n, p in ls))


def run(rep, thorough):
    g = Grammar(read("SqlBase.g4"))
    parser, lexer, visitor = (Generated(read("gen", "SqlBase%s.py" % n)) for n in ("Parser", "Lexer", "Visitor"))
    implicit = list(g.implicit)
    # token types
    want = {}
    names = {}  # implicit token -> literal
    for s in implicit:
        n = "T__%d" % len(want)
        want[n] = len(want) + 1
        names[n] = "'%s'" % s
    for n in g.declared:
        if n not in g.lex:
            want[n] = len(want) + 1
    for n in g.lex:
        if n not in g.fragments:
            want[n] = len(want) + 1
    pi = {n: v for n, v in parser.ints().items() if not n.startswith("RULE_")}
    li = lexer.ints()
    order = sorted(pi, key=pi.get)
    for what, have in (("parser", pi), ("lexer", li)):
        for n in want:
            rep.count("obligations")
            if n not in have and not (what == "lexer" and n in g.declared):
                rep.finding("%s: token %s" % (what, n), "the %s has no token %s" % (what, n))
        for n in have:
            if n not in want:
                rep.finding("%s: token %s" % (what, n), "the %s has a token %s which the grammar does not know" % (what, n))
    for n in pi:
        if n in li and li[n] != pi[n]:
            rep.finding("token %s" % n, "the token %s is number %s in the lexer and %s in the parser" % (n, li[n], pi[n]))
    if len(set(pi.values())) != len(pi):
        rep.finding("parser: tokens of one number", "several tokens have the same number")
    tables(rep, "parser", parser, names, {n: pi[n] for n in want if n in pi}, g)
    tables(rep, "lexer", lexer, names, {n: li[n] for n in want if n in li}, g)
    # rules
    for i, r in enumerate(g.order):
        rep.count("obligations")
        if parser.const.get("RULE_" + r) != i:
            rep.finding("rule number of %s" % r, "the parser numbers the rule %s %s instead of %s" % (r, parser.const.get("RULE_" + r), i))
    if parser.const.get("ruleNames") != g.order:
        rep.finding("rule names", "the parser's list of rule names is not the grammar's")
    lex_rules = ["T__%d" % i for i in range(len(implicit))] + list(g.lex)
    if lexer.const.get("ruleNames") != lex_rules:
        rep.finding("lexer: rule names", "the lexer's list of rule names is not the grammar's")
    contexts(rep, parser, visitor, g)
    # networks
    types = dict(pi)
    for i, s in enumerate(implicit):
        types["'%s'" % s] = pi.get("T__%d" % i)
    A = parser.atn()
    paths = Paths(A)
    B = Builder(g, types)
    stops = paths.stops
    found, broken = {}, 0
    if len(A.start) != len(g.order):
        rep.finding("parser: number of networks", "the parser has networks for %d rules and the grammar has %d" % (len(A.start), len(g.order)))
    for i, r in enumerate(g.order[: len(A.start)]):
        rep.count("networks")
        f, m = compare(A, B.net, (A.start[i], B.rule(r)), (stops, {B.stop}), lambda x, y: describe(B, y))
        for k, v in f.items():
            found.setdefault(k, set()).update(v)
        if m:
            broken += 1
            rep.finding("network of %s" % r, "the parser's network of the rule %s is not the grammar's: %s" % (r, m))
    L = lexer.atn()
    LB = Builder(g, {})
    LB.lexer = True
    LB.ruleno = {n: i for i, n in enumerate(lex_rules)}
    lstops = {n for n, t in L.type.items() if t == 7}
    if len(L.start) != len(lex_rules):
        rep.finding("lexer: number of networks", "the lexer has networks for %d rules and the grammar has %d" % (len(L.start), len(lex_rules)))
    for i, n in enumerate(lex_rules[: len(L.start)]):
        rep.count("lexer_networks")
        s = LB.token(n) if n in g.lex else LB.elem(Elem("tok", names[n]), LB.stop)
        f, m = compare(L, LB.net, (L.start[i], s), (lstops, {LB.stop}), lambda x, y: describe(LB, y))
        if m:
            rep.finding("lexer: network of %s" % n, "the lexer's network of %s is not the grammar's: %s" % (n, m))
        if n not in g.fragments and L.token_type[i] != li.get(n):
            rep.finding("lexer: type of %s" % n, "the lexer gives what %s reads the number %s instead of %s" % (n, L.token_type[i], li.get(n)))
    tops = [L.edges[m] for m in L.modes]
    want_top = [L.start[i] for i, n in enumerate(lex_rules) if n not in g.fragments and i < len(L.start)]
    if len(tops) != 1 or [e[-1] for e in tops[0]] != want_top:
        rep.finding("lexer: order of the rules", "the lexer does not try the grammar's rules in their order")
    try:
        rule_functions(rep, parser, g, A, paths, found, B.info)
    except KeyError as e:
        if not broken:
            raise
    rep.floor("rule_functions", 100)
    rep.floor("contexts", 280)
    rep.floor("networks", 100)
    rep.floor("lexer_networks", 300)
    return ("graph comparison of the recognizers' serialized networks with those the grammar asks for, path analysis of every rule function (what follows what, "
            "on which tokens and decisions, with which labels and contexts), and lint of every context class and visit method")


def describe(B, y):
    e, a = B.info.get(y, (None, None))
    if e is None:
        es = B.net.edges.get(y, [])
        for x in es:
            e, a = B.info.get(x[-1], (None, None)) if x[0] == "eps" else (None, None)
            if e is not None:
                break
    return ("at %s of the alternative %s" % (e, a) if a is not None else "at %s" % e) if e is not None else "at the end of an element"
