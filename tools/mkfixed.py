"""Rewrites the fixed: lines of known-findings.txt from the fix commits in /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(HERE, "known-findings.txt")
RULES = [("rows take plain values","C31"), ("maps, rows and the ordinality","C30"), ("common types of their columns","C30"), ("with USING or NATURAL","C30"), ("stars export","C30"), ("of several values are arrays","C29"), ("average of intervals","C29"), ("deviations, variances","C29"), ("have a time zone","C29"), ("literals with a zone","C29"), ("type of FROM_UNIXTIME","C29"), ("without a precision in AT_TIMEZONE","C29"), ("arrays and CASE from all","C29"), ("TIMESTAMP literals","C15"), ("by both its name and its table","C17"), ("fields and stars dereference","C17"), ("unnamed columns of both","C18"), ("named queries before them","C18"), ("scope of the set operation","C18"), ("scope of the query","C18"), ("sampled subqueries","C18"), ("resolve VALUES","C18"), ("data type of TABLE","C15"), ("INTERSECT and EXCEPT","C15"), ("stars of a single column","C15"), ("kinds of nested nodes","C16"), ("visit the","C11"), ("functions of every module","C12"), ("FROM_UNIXTIME","C12"), ("decimals from their digits","C22"), ("refuse grammar constructs", "C01"), ("parenthesized query terms", "C01"), ("lowercase spellings", "C20"), ("!= spelling", "C20"), ("FETCH FIRST", "C01"),
 ("surplus type", "C13"), ("type parameters beyond", "C13"), ("decode", "C10"), ("DOUBLE PRECISION", "C02"), ("set quantifier of function", "C02"), ("LISTAGG's empty", "C02"), ("escape quotes", "C09"),
 ("quote every identifier", "C09"), ("parenthesize queries", "C03"), ("render NORMALIZE", "C12"), ("dereference and subscript", "C05"), ("operator precedence", "C05"),
 ("values of intervals", "C09"), ("lambdas without inputs", "C04"), ("rows of a single", "C04"), ("WITH ORDINALITY", "C04"), ("nested in joins", "C03"), ("OFFSET 0", "C04"),
 ("of set operations", "C04"), ("APPROX_PERCENTILE", "C12"), ("newlines of quoted", "C06"), ("dereferences a star", "C01"), ("subqueries in their body", "C01"),
 ("rows in GROUP BY", "C03"), ("boolean subscripts", "C05"),
 ("malformed SQL", "C21"), ("doubles with an exponent", "C10"), ("lack a join criteria", "C04"), ("nested data types with", "C07"), ("values of unknown type", "C15"), ("common supertype", "C14"),
 ("scope of the set operation", "C18"), ("given by the caller as they were", "C19"), ("table of type parameters", "C19"), ("schema given for a table", "C19"), ("have an empty list of them", "C16"),
 ("nodes of mappings in the tree", "C23"), ("tree command show types", "C23"), ("without a name in the schema command", "C23"), ("in antlr trees", "C23"), ("infinite doubles", "C10"), ("more than 28 digits", "C10"), ("digits of negative decimals", "C10"), ("without their leading zero", "C10")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
old = open(F).read().splitlines() if os.path.exists(F) else []
keep = [l for l in old if not l.startswith("fixed:")]
if not keep:
    keep = ["# known: property=ID key=KEY :: what fails      (recorded, not repaired; printed as KNOWN-FINDING)",
            "# fixed: property=ID COMMIT what failed          (repaired; suppresses nothing)"]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = os.environ.get("FIX_" + h)
    for a, b in RULES:
        if a in s:
            p = b
    for a, b in EXTRA if "EXTRA" in globals() else []:
        if a in s:
            p = b
    if p is None:
        print("no property for", l); p = "C01"
    out.append("fixed: property=%s %s %s" % (p, h, s))
open(F, "w").write("\n".join(keep + out) + "\n")
