"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
CV = "treeno/builder/convert.py"; EX = "treeno/expression.py"; RE = "treeno/relation.py"; G4 = "treeno/grammar/SqlBase.g4"
TY = "treeno/datatypes/types.py"; PR = "treeno/printer.py"; UT = "treeno/util.py"; BA = "treeno/base.py"
FN = ["treeno/functions/" + x + ".py" for x in ("base", "aggregate", "common", "conditional", "datetime", "math", "session", "string")]
NODES = [EX, RE, "treeno/window.py", "treeno/groupby.py", "treeno/orderby.py", TY] + FN

prop("C01", "Every accepted SQL construct is converted or refused, never ignored",
 "For every SQL text the grammar accepts as a query, expression or type, conversion either yields a tree that represents each construct of the text or raises an error. It never silently replaces a construct it does not support by nothing, by one of its own sub-parts, or by a bare string, and it never fails with an accidental attribute or type error.",
 ["inputs"], "every alternative of every grammar rule reachable from the query, expression and type entry points",
 "The tests exercise about a third of the grammar's alternatives; an unsupported one falls through to the parser runtime's default traversal, which no test observes.",
 [CV, G4, "treeno/grammar/gen/SqlBaseVisitor.py"], [("converter methods and the default for contexts without one", CV)], ["query_from_sql", "expression_from_sql", "type_from_sql"])
prop("C02", "Conversion keeps every operand, clause and modifier apart",
 "When conversion succeeds, every operand, optional clause, list element, number and keyword choice of the text is represented in the tree. Two texts of the same construct that differ in one of these give different trees, unless SQL defines them to mean the same (an omitted default such as ASC, ALL or INNER, or a noise word).",
 ["inputs"], "every combination of optional parts, alternatives and list lengths of each handled grammar construct",
 "Optional parts combine freely; the tests use each at most once, so a part dropped only next to another one, or only when its value is zero, is never seen.",
 [CV, G4], [("one converter method per grammar construct", CV)], ["query_from_sql", "expression_from_sql", "type_from_sql"])
prop("C03", "Rendering a converted statement gives the same statement back",
 "For every construct that converts, the SQL rendered from the tree has the same keywords, operands, names, literals and lists in the same places as the input. Only redundant parentheses, keyword case, quoting style, noise words, and spelled-out or omitted SQL defaults may differ.",
 ["inputs"], "every combination of optional parts, alternatives and list lengths of each handled grammar construct",
 "Round-trip tests compare a fixed list of statements; the combinations of clauses are unbounded.",
 [CV, G4] + NODES + [PR], [("converter methods", CV), ("sql() of every node class", "treeno/*.py"), ("statement and list printers", PR)], ["query_from_sql(...).sql", "str(node)"])
prop("C04", "Rendered SQL carries every attribute a node was built with",
 "For every tree built through the public constructors, every attribute that was set appears in the rendered SQL, once and in the place the grammar gives it, including values that Python treats as false such as zero or an empty string value. Rendering an accepted tree never fails, and the text is well-formed SQL for that kind of node, provided the tree stands for a SQL construct at all: names are not empty, lists that SQL requires to have an element have one, nulls are treated only in a windowed call, and an operand of a set operation has no WITH of its own.",
 ["inputs"], "every node class, every combination of set and unset attributes, list lengths and enumerated values",
 "Tests build each node in one or two configurations; attributes interact, and zero or empty values are not among the samples.",
 NODES + [PR, UT], [("sql() / to_string() of every node class", "treeno/*.py"), ("StatementPrinter, JoinPrinter", PR)], ["str(node)", "node.sql(opts)"])
prop("C05", "Rendered operators group exactly as the tree does",
 "For every nesting of operators, predicates, subscripts, dereferences and other operand-taking expressions, the rendered SQL, read with the precedence and associativity of the grammar, has exactly the grouping of the tree. Parentheses appear wherever leaving them out would regroup operands or make the text unreadable.",
 ["inputs"], "every ordered pair (operand position, operand kind) and chains of them",
 "There are thousands of parent/position/child combinations; the tests check a few arithmetic ones.",
 [EX, G4, "treeno/functions/common.py"], [("operator precedence table", EX + ":OPERATOR_PRECEDENCE"), ("parenthesisation decision", EX + ":pemdas_str")], ["str(node)"])
prop("C06", "Pretty and default output are the same SQL",
 "For every tree and every indentation setting, the pretty output and the default output differ only in whitespace between tokens. In particular neither mode adds, removes, reorders or alters a keyword, name, operator, parenthesis or the contents of a quoted token.",
 ["inputs", "configurations"], "every node class and configuration under both print modes",
 "Pretty printing is compared against a fixed set of expected texts; layout decisions depend on lengths and nesting that tests do not reach.",
 NODES + [PR], [("JoinPrinter, StatementPrinter, pad", PR), ("mode tests inside sql()", "treeno/*.py")], ["node.sql(PrintOptions(mode=PRETTY))"])
prop("C07", "Print options reach every nested part of a tree",
 "When a tree is rendered with given print options, every nested node is rendered with those same options. No part falls back to default options or to options of its own.",
 ["inputs", "configurations"], "every path from a rendered node to a nested node, in every configuration",
 "A lost option shows only when the nested part itself renders differently in the two modes, which the samples rarely do.",
 NODES + [PR], [("opts parameter threaded through sql()", "treeno/*.py")], ["node.sql(opts)"])
prop("C08", "Rendering leaves the tree unchanged and is repeatable",
 "Rendering a tree, in any mode, changes no attribute of the tree, of any nested list or mapping, or of the print options, and rendering it again gives the same text. The text does not depend on the iteration order of unordered collections.",
 ["inputs", "histories"], "every node class and configuration, any number of renderings in any order of modes",
 "Tests render a fresh tree once per mode; an in-place change shows only on the second rendering or in a tree that shares a part.",
 NODES + [PR], [("sql() and the printers", "treeno/*.py")], ["node.sql(opts)"])
prop("C09", "Names and string values are rendered as exactly one quoted token",
 "Whatever characters an identifier, alias, column list entry, separator or string value contains (quotes, spaces, upper case, reserved words), it appears in the rendered SQL as one properly quoted and escaped token that denotes exactly that value. No user-supplied name or string reaches the SQL text bare.",
 ["inputs"], "every position of every node class where a caller-supplied string reaches SQL, and every possible string",
 "Tests use plain lower-case words, for which a missing quote or escape is invisible.",
 [UT] + NODES, [("quote_identifier, quote_literal, chain_identifiers", UT)], ["str(node)"])
prop("C10", "Literals and quoted names are decoded to exactly the value they denote",
 "Converting an identifier, string, unicode string, number, boolean or NULL gives the value the SQL text denotes: delimiters are removed once, doubled quotes become one, signs and every digit are kept, and nothing inside the token is altered. Rendering that value again denotes the same value.",
 ["inputs"], "every token text of every literal and identifier token kind",
 "Token texts are unbounded; the tests use a dozen of them and none with embedded quotes or edge characters.",
 [CV, EX, UT, G4], [("identifier and literal converter methods", CV)], ["expression_from_sql(...)", "Literal.value", "Field.name"])
prop("C11", "Visiting a tree reaches every nested node",
 "For every kind of node, the visitor base class offers a hook that dispatch selects for it, and the node's own traversal hands each of its directly nested nodes, data types aside, to the visitor exactly once, whatever optional parts are present. Nothing that is not a node is handed over.",
 ["inputs"], "every concrete node class and every combination of optional children",
 "No test traverses a tree with a visitor.",
 NODES + ["treeno/visitor.py"], [("visit() of every node class", "treeno/*.py"), ("visit_<Class> hooks", "treeno/visitor.py")], ["node.visit(visitor)"])
prop("C12", "Every SQL function is found by its name and keeps name and arguments",
 "Every function the library defines can be called from SQL text by its name in any letter case, and no two functions share a name. The converted call keeps every argument in its position for every argument count the function takes, and is rendered under the same name with the same arguments in the same order.",
 ["inputs"], "every function class and every accepted argument count and option",
 "Tests call a subset of the functions and mostly build them directly, without going through the name lookup.",
 FN + [CV], [("name registry filled at class creation", "treeno/functions/base.py"), ("from_args / to_string", "treeno/functions/*.py")], ["expression_from_sql", "str(node)"],
 [("NAMES_TO_FUNCTIONS", "function name to class", "treeno/functions/base.py")])
prop("C13", "Data types keep their name and every parameter",
 "A data type built by the API or read from SQL is rendered with the same name and all its parameters, in the order SQL defines, including zero and nested types. A type given a parameter it does not have, too many parameters, or lacking a required one is refused instead of being altered.",
 ["inputs"], "every type name and every combination of present, absent, zero and nested parameters",
 "The tests check one or two parameterisations per type.",
 [TY, "treeno/datatypes/builder.py", CV], [("parameter table and validation", TY), ("type converter methods", CV)], ["str(DataType)", "type_from_sql"])
prop("C14", "The common type of two types is order-independent and never narrower",
 "Combining two data types gives the same result whichever comes first, and combining a type with itself gives that type. For types of one family the result can hold every value of both (no length, precision, scale or time zone is lost), and a pair the library has a rule for never fails or loses its result.",
 ["inputs"], "every ordered pair of type names with arbitrary parameters",
 "There are hundreds of pairs with unbounded parameters; tests check a handful in one order.",
 ["treeno/datatypes/conversions.py"], [("common_supertype and per-family rules", "treeno/datatypes/conversions.py")], ["common_supertype", "get_arithmetic_type", "node.data_type"])
prop("C15", "Expressions get the data type their form dictates",
 "Every comparison, predicate and logical connective has type BOOLEAN whatever its operands; aliasing, a sign and a single-column query keep the operand's type; a multi-column query or row constructor is a ROW of its columns' types in order. Building any expression over operands of unknown type succeeds.",
 ["inputs"], "every expression class over operands of every type, known or unknown",
 "Tests look at the types of a few expressions with literal operands.",
 [EX, RE] + FN, [("type computation at construction", "treeno/*.py:__attrs_post_init__")], ["node.data_type"])
prop("C16", "Node equality holds exactly for identical trees",
 "Comparing two trees for equality answers true when they have the same node kinds and attribute values at every level, and false as soon as any node kind, attribute, list length or list order differs anywhere in them. It always answers with a boolean and never depends on the overloaded comparison operators of values.",
 ["inputs"], "every node class, every attribute, any nesting depth",
 "The round-trip tests trust this comparison; no test compares trees that differ only in a nested node kind.",
 [BA, EX], [("Sql.equals", BA)], ["Sql.equals", "Sql.assert_equals"])
prop("C17", "Resolving types changes nothing but types",
 "Resolving the fields of any expression against a schema gives a tree with the same node kinds and attributes, whose SQL is unchanged; only data types may differ. The expression passed in and the caller's schema are left as they were. Resolving a relation likewise changes nothing of its tree and SQL but data types.",
 ["inputs"], "every expression class and configuration, and any schema",
 "Tests resolve a few column references.",
 ["treeno/datatypes/resolve.py", RE, UT], [("resolve_fields", "treeno/datatypes/resolve.py"), ("children", UT)], ["resolve_fields", "Relation.resolve"])
prop("C18", "Column names resolve in the right scope",
 "A parenthesised subquery never sees the columns of relations outside it, while the right side of a join, LATERAL and UNNEST see those of the relations to their left, and a named query sees only the named queries before it. The names a relation exports follow its aliases, and merging schemas keeps the fields and relation names of both and changes neither.",
 ["inputs"], "every nesting of relation kinds",
 "The scoping rules combine over unbounded nesting; tests check a few two-level queries.",
 [RE, "treeno/datatypes/resolve.py"], [("maybe_prune_schema and resolve() of each relation", RE)], ["Relation.resolve"])
prop("C19", "Statements do not influence each other",
 "Converting, building, resolving or rendering one statement has no effect on any other: no default value, registry or module-level table that is shared between trees is modified after import, and two nodes never share a mutable default.",
 ["histories"], "every sequence of conversions, constructions and renderings in one process",
 "Each test looks at one tree; sharing shows only in a later, unrelated tree.",
 [EX, RE, TY, CV, BA] + FN, [("attribute factories instead of shared defaults", "treeno/*.py"), ("module-level tables", TY + ":FIELDS")], ["query_from_sql", "node constructors"])
prop("C20", "Keyword spelling and letter case never matter",
 "Converting a statement gives the same tree whether its keywords are written in upper or in lower case, whatever the letter case of its function names and type names, and whichever of the grammar's alternative spellings of an operator is used.",
 ["inputs"], "every keyword token and operator spelling of every handled construct",
 "The test statements are written in upper case almost throughout.",
 [CV, G4, "treeno/grammar/parse.py"], [("text dispatch in the converter", CV)], ["query_from_sql", "expression_from_sql", "type_from_sql"])
prop("C21", "Malformed SQL is rejected and the whole input is read",
 "Converting a text that is not entirely one statement, expression or type of the grammar (apart from a semicolon that ends a query) raises an error. Nothing after a valid prefix is ignored, and the parser's error recovery never turns a malformed text into a tree.",
 ["inputs", "fault_sequences"], "every text outside the grammar, for each of the three entry points",
 "No test converts malformed text.",
 ["treeno/grammar/parse.py", CV, G4], [("parser set-up and entry rules", "treeno/grammar/parse.py")], ["query_from_sql", "expression_from_sql", "type_from_sql"])
prop("C22", "Python operators on values build the SQL operator they stand for",
 "Each Python operator on a value (arithmetic, comparison, and/or/invert, sign, power) builds the corresponding SQL operator with the operands in the written order, and plain Python values among the operands become literals of the matching type. The operands themselves are not changed.",
 ["inputs"], "every operator and every kind of operand",
 "Tests check some operators with simple operands.",
 [EX, "treeno/functions/math.py", "treeno/datatypes/inference.py"], [("operator methods of Value", EX), ("wrap_literal", EX)], ["value operators", "str(node)"])
prop("C23", "The command line handles each construct kind and shows every node",
 "Each command converts its argument as the kind of construct asked for, the format command prints the pretty SQL of exactly that construct, and the tree command shows every node and every set attribute of the converted tree. No valid construct makes a command fail.",
 ["inputs", "configurations"], "every command, construct kind, and tree shape including mappings and nested lists",
 "The command line has no tests.",
 ["treeno/cli.py"], [("get_sql_object, treeify", "treeno/cli.py")], ["treeno format", "treeno tree", "treeno schema"])
prop("C24", "Negation renders as the negation of the same condition",
 "For every condition, the SQL of its negation reads back as the negation of exactly that condition with the same operands, whether it is written with a leading NOT or as the negated form of the predicate; negating twice denotes the original condition.",
 ["inputs"], "every expression class under one and two negations, in every print mode",
 "Tests negate some predicates with simple operands.",
 [EX], [("Not.sql and to_string(negate=True)", EX)], ["str(~value)"])
prop("C25", "The shipped parser and its tables agree with the grammar file",
 "The generated lexer, parser and visitor that ship with the library provide, for every rule and labelled alternative of the grammar file, the context kind, child accessors, labels and visit method that the grammar defines, and the same tokens, so that what is accepted and how it is presented to the converter is what the grammar documents.",
 ["inputs", "configurations"], "every rule, alternative, label and token of the grammar",
 "Tests touch only the constructs they use; a stale or hand-edited generated file shows only for the construct concerned.",
 [G4, "treeno/grammar/gen/SqlBaseParser.py", "treeno/grammar/gen/SqlBaseLexer.py", "treeno/grammar/gen/SqlBaseVisitor.py"], [("generated parser", "treeno/grammar/gen")], ["query_from_sql"])
prop("C26", "Rendered SQL means the same to a real engine",
 "For every tree, a Trino server accepts the rendered SQL and returns the same rows as for the text the tree was converted from.",
 ["inputs"], "every statement and every database state",
 "Needs a query engine and data; the tests never run SQL.",
 [CV, EX, RE], [("the whole pipeline", CV)], ["query_from_sql(...).sql"])
prop("C27", "Conversion and rendering finish in bounded time and stack",
 "Converting and rendering any statement terminates, within time and recursion depth proportional to its size.",
 ["inputs"], "statements of any size and nesting",
 "Tests use short statements.",
 [CV, EX, RE], [("recursive conversion and rendering", CV)], ["query_from_sql", "node.sql"])
prop("C28", "Pretty output respects the line width",
 "In pretty mode no line is longer than the configured maximum unless a single item alone exceeds it.",
 ["inputs", "configurations"], "every tree, indentation and width",
 "Widths depend on the lengths of rendered text, of which tests sample a few.",
 [PR], [("JoinPrinter.to_string", PR)], ["node.sql(PrintOptions(mode=PRETTY))"])
prop("C29", "Calls and typed operations have the result type SQL documents",
 "The data type of every function call, numeric arithmetic on integers and floating-point numbers, difference of dates and times, sum of intervals, array, conditional expression, cast, and interval or typed literal is the one SQL documents for the types of its operands, including precision, length, time zone and element types; it is unknown only where the operands' types leave it open, and building the expression never fails on operands of a documented type. (Decimal arithmetic is left out: the library uses the wider operand type by design.)",
 ["inputs"], "every function and operation over every combination of operand types",
 "Tests build most functions with one operand type and compare the SQL, seldom the data type.",
 FN + [EX, "treeno/datatypes/inference.py", TY, CV], [("GenericFunction subclasses and their data types", "treeno/functions"), ("infer_type, common_supertype", "treeno/datatypes/inference.py")], ["node.data_type"])
prop("C30", "Queries export their columns with the right names and types",
 "Once a query is resolved, each column it exports has the name and the type of what produces it, through every relation in between: select items and their aliases, stars and aliased stars (which stand for the columns of their relations), named queries and column aliases, VALUES rows, both sides of a set operation (their common type), joins (columns joined with USING or NATURAL occur once), and UNNEST of arrays, rows and maps with its ordinality. The query's own data type is the row of these columns, or the type of its only column. (Names of an enclosing query that only a lateral subquery's own SELECT list uses are left out: their type stays unknown.)",
 ["inputs"], "every nesting of relation kinds over columns of every type",
 "Tests resolve a handful of queries with one or two integer columns.",
 [RE, "treeno/datatypes/resolve.py", "treeno/datatypes/conversions.py"], [("resolve and _compute_data_type of each relation", RE), ("star and field resolution", "treeno/datatypes/resolve.py")], ["Relation.resolve", "Query.data_type", "treeno schema"])
prop("C31", "Functions and operations take plain Python values as operands",
 "Wherever the constructor of a function or an operation (comparison, predicate, arithmetic, array, row, conditional, cast, subscript index) takes an operand, a plain Python value given in its place (number, decimal, string, boolean) becomes the literal of the matching type, so that the tree is the same as the one built with literals; this holds for required and optional operands and for lists of operands. (The body of a lambda, what is subscripted and the condition of a FILTER are expressions already.)",
 ["inputs"], "every operand of every function and expression class, with every kind of plain value",
 "Tests build some functions from plain values, and most from SQL.",
 [EX] + FN, [("wrap_literal, wrap_literal_list as attribute converters", "treeno/*.py")], ["constructors of functions and expressions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
