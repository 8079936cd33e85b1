"""C21: malformed text is refused, and the whole text is read: the set-up of the generated parser, for every entry."""
from engine.absval import AStr, Part, Unsupported, mk, parts_of
from engine.g4 import TemplateParser
from engine.corpus import template
from engine.harness import brief
from engine.interp import AbsRaise
from engine.world import Broken, ENTRY, World

SENTENCES = {
    "query": ["SELECT {id} FROM {id}", "VALUES {n}", "TABLE {id}", "WITH {id} AS (SELECT {id}) SELECT {id}", "SELECT {id} UNION SELECT {id} ORDER BY {id} LIMIT {n}", "(SELECT {id})", "SELECT 'a;b' FROM {id} -- c;d"],
    "standaloneExpression": ["{id}", "{id} + {n}", "{id} = {s} AND {id}"],
    "standaloneType": ["BIGINT", "ARRAY(BIGINT)", "DECIMAL({n}, {n})"],
}


def ends_with_eof(g, rule):
    """Whether the rule itself takes in the end of the text."""
    def last(e):
        if e.kind == "seq":
            return bool(e.items) and last(e.items[-1])
        return e.kind == "tok" and e.name == "EOF"

    return all(last(a.elem) for a in g.rules[rule].alts)


class Scenario:
    """What the parser meets in the text; called where treeno starts a rule of the generated parser."""

    def __init__(self, kind, rest=()):
        self.kind, self.rest = kind, rest
        self.hits = 0
        self.read = []

    def behind(self):
        return "".join(" " + x for _, x in self.rest)

    def __call__(self, W, parser, rule):
        I = W.I
        self.hits += 1
        stream = parser.attrs.get("_input")
        src = stream.attrs.get("tokenSource") if stream is not None else None
        inp = src.attrs.get("_input") if src is not None else None
        if inp is None:
            raise Unsupported("a parser without token source")
        self.read.append(inp.attrs.get("strdata"))
        if self.kind == "lexer":
            for l in list(src.attrs.get("_listeners")):
                I.invoke(l, "syntaxError", src, None, 1, 0, "token recognition error", None)
            return
        eof = ends_with_eof(W.g, rule)
        if self.kind == "error" or self.kind == "tail" and eof:
            I.invoke(parser, "_verif_error")
            return
        if self.kind == "tail":
            T = W.ctx.cls("Token")
            stream.attrs["_rest"] = [I.call(T, (W.ctx.token_type(n), x)) for n, x in self.rest]


def run(rep, thorough):
    W = World()
    I = W.I
    g = W.g
    catch_all = catches_all(g)
    tokens = []
    for n in sorted(g.lex):
        if n in getattr(g, "fragments", ()) or n in W.lexer.skip:
            continue
        try:
            W.ctx.token_type(n)
        except Exception:
            continue
        if W.ctx.token_type(n) is None or not isinstance(W.ctx.token_type(n), int):
            continue
        sp = g.spellings(n)
        tokens.append((n, sp[0] if sp else "x"))
    for lit, name in sorted(getattr(g, "implicit", {}).items()):
        tokens.append((name, lit))
    reached = 0
    for root, texts in SENTENCES.items():
        for t in texts:
            toks = W.lex(template(t))
            tree = TemplateParser(g, toks).parse(root)
            if tree is None:
                raise Broken("%s is no %s" % (t, root))
            scen = [Scenario("valid"), Scenario("error"), Scenario("error", [("UNRECOGNIZED", ";")]), Scenario("error", [("IDENTIFIER", "x")])]
            scen += [Scenario("tail", [x]) for x in tokens]
            scen += [Scenario("tail", [("UNRECOGNIZED", "?")])] if "UNRECOGNIZED" in g.lex else []
            for first in (("UNRECOGNIZED", ";"),) if "UNRECOGNIZED" in g.lex else ():
                scen += [Scenario("tail", [first, x]) for x in (tokens if thorough else tokens[::9])]
                scen.append(Scenario("tail", [first, first]))
            if not catch_all:
                scen += [Scenario("lexer"), Scenario("lexer", [("UNRECOGNIZED", ";")])]
            for s in scen:
                outs = []
                whole = mk([template(t), s.behind()])
                try:
                    for res, r in W.explore(lambda: W.convert(toks, root, scenario=s, text=whole), limit=2, max_runs=8):
                        if isinstance(res, Unsupported):
                            raise res
                        outs.append(res)
                except Unsupported as e:
                    rep.undecide("undecided: %s" % str(e)[:80])
                    rep.count("undecided")
                    continue
                rep.count("scenarios")
                rep.count("scenarios_" + s.kind)
                if not s.hits:
                    raise Broken("%s starts no rule of the generated parser" % ENTRY[root])
                ok = [x for x in outs if not isinstance(x, AbsRaise)]
                if s.kind == "valid" and ok:
                    reached += 1
                if s.kind == "valid" or ok:
                    for x in s.read:
                        if not same_text(x, whole):
                            rep.finding("%s: text is altered" % ENTRY[root], "%s hands %s to the lexer instead of its text %s" % (ENTRY[root], brief(x), brief(whole)), t)
                if s.kind == "valid":
                    continue
                if ok:
                    what = {"error": "a syntax error is not raised", "lexer": "an error of the lexer is not raised", "tail": "text behind the phrase is ignored"}[s.kind]
                    rep.finding("%s: %s" % (ENTRY[root], what), "%s: %s: with %s it yields a tree of %s" % (ENTRY[root], what, "`%s %s`" % (t, " ".join(x for _, x in s.rest)) if s.rest else "a malformed text", t), t)
                else:
                    rep.count("refused")
                    rep.sample("%s(%s %s): refused by %s" % (ENTRY[root], t, " ".join(x for _, x in s.rest) or "<syntax error>", outs[0].name if outs else "?"))
    rep.count("entries_converting", reached)
    rep.floor("entries_converting", sum(len(v) for v in SENTENCES.values()))
    rep.floor("scenarios_tail", 1000)
    return "typestate of the parser set-up by abstract interpretation of the entry functions: in every state the generated parser can be in after a rule (syntax error reported, any token left behind the phrase) the entry raises, and the lexer is given the whole text"


def catches_all(g):
    """The lexer has a token for any character, so it never fails."""
    return any(n not in getattr(g, "fragments", ()) and e.kind == "any" or getattr(e, "kind", "") == "seq" and len(e.items) == 1 and e.items[0].kind == "any" for n, e in g.lex.items())


def same_text(x, whole):
    """Equal but for white space around the text and semicolons at its end."""
    def ends(v):
        v = list(parts_of(v))
        if v and isinstance(v[0], str):
            v[0] = v[0].lstrip()
        if v and isinstance(v[-1], str):
            v[-1] = v[-1].rstrip("; \n\t")
        return [p for p in v if p != ""]

    return isinstance(x, (str, AStr)) and ends(x) == ends(whole)
