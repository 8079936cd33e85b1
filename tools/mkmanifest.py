"""Writes MANIFEST.json."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TRUST = ("Decides the property for every instance enumerated (names, strings, numbers and nested nodes are symbolic, so each instance stands for all of them). "
         "Trusts the transfer functions of the interpreter in engine/, the grammar file as the definition of the language, and that deeper nestings compose like the enumerated ones.")
CLAIMS = {
 "C01": ("abstract interpretation over grammar derivations", TRUST),
 "C02": ("abstract interpretation over grammar derivations", TRUST),
 "C03": ("abstract interpretation over grammar derivations, string-template domain", TRUST),
 "C04": ("abstract interpretation of constructors and rendering, string-template domain", TRUST),
 "C05": ("abstract interpretation of rendering over operand/child pairs", TRUST),
 "C06": ("abstract interpretation of rendering in both modes", TRUST),
 "C07": ("interprocedural option-flow (effect) analysis by abstract interpretation", TRUST),
 "C08": ("write-effect analysis by abstract interpretation", TRUST),
 "C20": ("abstract interpretation of the converter on respelled derivations", TRUST),
 "C21": ("typestate analysis of the parser set-up by abstract interpretation", "Decides the property for every state the generated parser can be left in (the documented protocol of the ANTLR runtime is trusted), for every token type that can follow."),
 "C12": ("registry lint over every function class and abstract interpretation of the call of every function", TRUST),
 "C13": ("abstract interpretation of type construction, conversion and rendering over every type name and parameter set", TRUST),
 "C14": ("abstract interpretation of the type lattice over representative pairs", "Decides the property for every ordered pair of representative types: one type per order of the parameters that the rules compare (max, min, difference, missing). Trusts that parameters are only combined by such operations and the interpreter's transfer functions."),
 "C22": ("abstract interpretation of the operator methods over every kind of value and pair of operators", TRUST),
 "C24": ("abstract interpretation of rendering over negations of every kind of value, read back with the grammar", TRUST),
 "C11": ("dispatch lint and call-effect analysis of every traversal by abstract interpretation", TRUST),
 "C16": ("abstract interpretation of the comparison over instances and single changes of them", "Decides the property for every class, every attribute, and every one change at a depth of up to four attributes; deeper trees are compared by the same recursion. Scalars are distinguishable tokens: the comparison of scalars is Python's own."),
 "C15": ("type-rule analysis by abstract interpretation of construction over operands of every kind of type", TRUST),
 "C17": ("abstract interpretation of resolution with write-effect comparison", TRUST),
 "C18": ("scope analysis by abstract interpretation of resolution over nested relations with opaque parts", "Decides the property for every nesting of relation kinds to the enumerated depth; the innermost relations are opaque and stand for any relation. Trusts the scoping rules in the check's reference model and the interpreter's transfer functions."),
 "C19": ("write-effect and aliasing analysis by abstract interpretation", TRUST),
 "C23": ("abstract interpretation of the commands on every construct, compared with the converted tree", TRUST + " The drawing of trees by nltk and the argument handling of typer are trusted."),
 "C10": ("value analysis by abstract interpretation of the conversion and rendering of literals and names", TRUST + " Literals are those over an alphabet of critical characters to a length, and any text at all in the symbolic places."),
 "C25": ("graph comparison of the recognizers' networks with the grammar's, path analysis of the rule functions, lint of contexts and visitor", "Decides the property for every rule, alternative, label, accessor and token. The runtime library of ANTLR is trusted."),
 "C29": ("abstract interpretation of the construction of functions, operations and typed literals over the lattice of operand types", "Decides the result types of 209 forms of calls and operations over the documented operand types (2,500 combinations) against a table written from Trino's documentation; where the documentation and the library's conventions differ in a harmless way (REAL for DOUBLE, bounded for unbounded VARCHAR) both are accepted."),
 "C30": ("abstract interpretation of conversion and resolution, compared with a compositional model of what columns a query exports", "Decides exported names and types for 2,000 queries (thorough: 15,600) composed of every kind of relation and select item over columns of 16 types, nested up to three deep. The model of SQL's columns is written in rules/c30.py."),
 "C31": ("abstract interpretation of the constructors of functions and operations over plain values and literals", "Decides that each operand place of each of the 120 classes turns plain values into the literals wrap_literal makes of them."),
 "C09": ("taint analysis over the string-template domain", TRUST),
}
NA = {
 "C26": "meaning to a query engine is not in the source of treeno: no static argument over this repository decides what a Trino server answers",
 "C27": "time and stack bounds quantify over runtime quantities of the ANTLR runtime's adaptive prediction and Python's recursion; no sound static bound is in reach",
 "C28": "the width of a line is the sum of the lengths of runtime texts (names, strings, nested renderings): no static bound on them exists, and whether a single item alone exceeds the limit is itself a runtime quantity",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine rules check.py || true", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they read /repo's current source, interpret it abstractly and never import or run it. known-findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
