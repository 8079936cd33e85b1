From 617283835c5f8b59ff3b1211694c44537b1473e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 01/82] fix: refuse grammar constructs the conversion has no
 visit method for

---
 treeno/builder/convert.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..3b33a62 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -4,6 +4,7 @@ Converts from our grammar into a buildable query tree.
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4.ParserRuleContext import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -164,6 +165,18 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        # Constructs without a visit method of their own can only be passed through if they merely wrap another
+        # construct. Anything else would lose all children but the last.
+        if node.getChildCount() != 1 or not isinstance(
+            node.getChild(0), ParserRuleContext
+        ):
+            raise NotImplementedError(
+                f"Converting {type(node).__name__} is not yet supported"
+            )
+        return self.visit(node.getChild(0))
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
-- 
2.43.0


From 0c57e5055e22ac0b1305417854bcfcccc0a1269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 02/82] fix: convert parenthesized query terms

---
 treeno/builder/convert.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 3b33a62..dc92dea 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -238,6 +238,16 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        if ctx.ORDER() or ctx.OFFSET() or ctx.LIMIT() or ctx.FETCH():
+            # Only a parenthesized query has constraints already, and they must not be overwritten by the outer ones.
+            if (
+                query.orderby
+                or query.offset is not None
+                or query.limit is not None
+            ):
+                raise NotImplementedError(
+                    "Constraining a parenthesized query which has constraints of its own is not yet supported"
+                )
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
@@ -307,6 +317,10 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> SelectQuery:
         return self.visit(ctx.queryPrimary())
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitTable(self, ctx: SqlBaseParser.TableContext) -> TableQuery:
         return TableQuery(
-- 
2.43.0


From d4f99c153262e63ea88ff76fe334dc9126ae7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 03/82] fix: accept lowercase spellings of keywords which are
 looked up by their text

---
 treeno/builder/convert.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index dc92dea..a97cb9b 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -302,14 +302,9 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
-        if count.isnumeric():
-            return int(count)
-        else:
-            assert (
-                count == "ALL"
-            ), "LIMIT quantities can either be numeric or ALL"
+        if ctx.ALL():
             return None
+        return self.visit(ctx.rowCount())
 
     @overrides
     def visitQueryTermDefault(
@@ -350,7 +345,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -569,7 +564,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -584,7 +579,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitNormalForm(
         self, ctx: SqlBaseParser.NormalFormContext
     ) -> NormalForm:
-        return NormalForm[ctx.getText()]
+        return NormalForm[ctx.getText().upper()]
 
     @overrides
     def visitArrayType(self, ctx: SqlBaseParser.ArrayTypeContext) -> DataType:
@@ -1111,7 +1106,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From d6cab67470aec36df4c2de8937cad5f003010b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 04/82] fix: convert the != spelling of <>

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index a97cb9b..96227ae 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -129,7 +129,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
-- 
2.43.0


From 0e730f046b4436e68564adc43d59ca2b1b5dca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 05/82] fix: convert FETCH FIRST instead of dropping it

---
 treeno/builder/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 96227ae..46faa13 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -256,6 +256,10 @@ class ConvertVisitor(SqlBaseVisitor):
         if limit_clause:
             # TODO: Assign this to the query object
             query.limit = self.visit(limit_clause)
+        if ctx.FETCH():
+            if ctx.TIES():
+                raise NotImplementedError("WITH TIES is not yet supported")
+            query.limit = self.visit(ctx.fetchFirst) if ctx.fetchFirst else 1
         return query
 
     @overrides
-- 
2.43.0


From e5ce6856b7d706bd23339e7de989bf02bf8e0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 06/82] fix: refuse type parameters beyond those a type has

---
 treeno/builder/convert.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 46faa13..80d998d 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -522,9 +522,12 @@ class ConvertVisitor(SqlBaseVisitor):
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
         # We assume the parameters will be passed into here.
+        fields = FIELDS.get(type_name, [])
+        assert len(param_values) <= len(
+            fields
+        ), f"Too many parameters for type {type_name}"
         parameters = {
-            param.name: val
-            for val, param in zip(param_values, FIELDS[type_name])
+            param.name: val for val, param in zip(param_values, fields)
         }
         return DataType(type_name, parameters=parameters)
 
-- 
2.43.0


From 5b8b3dd9f1886ebed28f26f5f41d38bbeff58ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 07/82] fix: decode string literals and quoted identifiers by
 their delimiters only

---
 treeno/builder/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 80d998d..030555f 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -761,7 +761,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return ctx.getText()[1:-1].replace("''", "'")
 
     @overrides
     def visitUnicodeStringLiteral(
@@ -985,7 +985,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        return ctx.getText()[1:-1].replace('""', '"')
 
     @overrides
     def visitUnquotedIdentifier(
-- 
2.43.0


From 5f0800c93f6c3a31e617216df0c0c489ffb516aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 08/82] fix: decode unicode string literals the way Trino does

---
 treeno/builder/convert.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 030555f..e461ee9 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1,6 +1,7 @@
 """
 Converts from our grammar into a buildable query tree.
 """
+import re
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -769,19 +770,22 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> str:
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
+            escape_seq = ctx.STRING().getText()[1:-1].replace("''", "'")
+            assert len(escape_seq) == 1, "Escape must be a single character"
         else:
             escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
+        # Strip the leading U&' and the trailing quote
+        s = ctx.UNICODE_STRING().getText()[3:-1].replace("''", "'")
+        escape = re.escape(escape_seq)
+        # Either an escaped escape character, or a code point with 4 or (after a plus sign) 6 hex digits
+        pattern = f"{escape}(?:({escape})|([0-9a-fA-F]{{4}})|\\+([0-9a-fA-F]{{6}}))"
+        return re.sub(
+            pattern,
+            lambda match: escape_seq
+            if match.group(1)
+            else chr(int(match.group(2) or match.group(3), 16)),
+            s,
         )
-        return s
 
     @overrides
     def visitBooleanLiteral(
-- 
2.43.0


From bdc0808c06c76a88e5a92811cc9cfd4237823ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 09/82] fix: name the type of DOUBLE PRECISION constructors

---
 treeno/builder/convert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e461ee9..e7dafa8 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -19,7 +19,13 @@ from treeno.datatypes.builder import (
     varchar,
 )
 from treeno.datatypes.inference import infer_decimal, infer_integral
-from treeno.datatypes.types import FIELDS, TIME, TIMESTAMP, DataType
+from treeno.datatypes.types import (
+    DOUBLE,
+    FIELDS,
+    TIME,
+    TIMESTAMP,
+    DataType,
+)
 from treeno.expression import (
     AliasedStar,
     AliasedValue,
@@ -803,7 +809,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name=DOUBLE)
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
-- 
2.43.0


From f578819c96f94cdcbea6b0bf2f24e8776a8e132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 10/82] fix: keep the set quantifier of function calls

---
 treeno/builder/convert.py     |  8 ++++++++
 treeno/functions/aggregate.py | 23 ++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e7dafa8..daef05e 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -851,6 +851,10 @@ class ConvertVisitor(SqlBaseVisitor):
                 self.visit(sort_item) for sort_item in sort_items
             ]
 
+        quantifier = ctx.setQuantifier()
+        if quantifier:
+            kwargs["set_quantifier"] = self.visit(quantifier)
+
         filter_ = ctx.filter_()
         if filter_:
             kwargs["filter_"] = self.visit(filter_)
@@ -911,6 +915,10 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitListagg(self, ctx: SqlBaseParser.ListaggContext) -> ListAgg:
         kwargs = {}
+        quantifier = ctx.setQuantifier()
+        if quantifier:
+            kwargs["set_quantifier"] = self.visit(quantifier)
+
         separator = ctx.string()
         if separator:
             kwargs["separator"] = self.visit(separator)
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..0c169e7 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -4,7 +4,13 @@ from typing import Any, ClassVar, List, Optional
 
 import attr
 
-from treeno.base import GenericVisitor, PrintMode, PrintOptions, Sql
+from treeno.base import (
+    GenericVisitor,
+    PrintMode,
+    PrintOptions,
+    SetQuantifier,
+    Sql,
+)
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import (
     array,
@@ -41,6 +47,15 @@ class AggregateFunction(Function, ABC):
     null_treatment: NullTreatment = attr.ib(
         factory=NullTreatment.default, kw_only=True
     )
+    set_quantifier: SetQuantifier = attr.ib(
+        factory=SetQuantifier.default, kw_only=True
+    )
+
+    def get_quantifier_string(self) -> str:
+        # All is the default, so we don't need to mention it
+        if self.set_quantifier == SetQuantifier.default():
+            return ""
+        return f"{self.set_quantifier.name} "
 
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
@@ -63,7 +78,9 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = self.get_quantifier_string() + join_stmts(
+            [value.sql(opts) for value in values], opts
+        )
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -244,7 +261,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = self.get_quantifier_string() + self.value.sql(opts)
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
-- 
2.43.0


From 00f291bfe3e44c95e996d5413c871e889976edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 11/82] fix: default to LISTAGG's empty separator

---
 treeno/functions/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 0c169e7..29ab584 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -239,10 +239,10 @@ class OverflowFiller(Sql):
 
 @value_attr
 class ListAgg(AggregateFunction):
-    DEFAULT_SEPARATOR: ClassVar[str] = " "
+    DEFAULT_SEPARATOR: ClassVar[str] = ""
     FN_NAME: ClassVar[str] = "LISTAGG"
     value: Value = attr.ib(converter=wrap_literal)
-    separator: str = attr.ib(default=" ")
+    separator: str = attr.ib(default=DEFAULT_SEPARATOR)
     # If overflow filler is None, then raise an error. Otherwise truncate
     # with the appropriate filler string.
     overflow_filler: Optional[OverflowFiller] = attr.ib(default=None)
-- 
2.43.0


From 1a1b2651b41969404d2df775288df12f46a3feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 12/82] fix: escape quotes inside rendered identifiers and
 string literals

---
 treeno/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..fef026a 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,8 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
@@ -42,7 +43,8 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From 8464a411ba8a867adbda65e953e0bb61b3f6ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 13/82] fix: quote every identifier that is rendered

---
 treeno/expression.py | 13 ++++++++-----
 treeno/relation.py   |  9 +++++----
 treeno/window.py     |  3 ++-
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..013b231 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -285,7 +286,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -312,7 +313,7 @@ class Star(Value):
         star_string = ""
         if self.table:
             if isinstance(self.table, str):
-                table_sql = self.table
+                table_sql = quote_identifier(self.table)
             else:
                 table_sql = self.table.sql(opts)
             star_string = f"{table_sql}."
@@ -335,8 +336,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -353,7 +356,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..6abccbb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -517,7 +517,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -747,13 +747,13 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" ({chain_identifiers(*self.column_aliases, join_string=',')})"
         return alias_str
 
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" ({chain_identifiers(*self.column_aliases, join_string=',')})"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -837,7 +837,8 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        column_names = [quote_identifier(name) for name in self.column_names]
+        return {"USING": parenthesize(join_stmts(column_names, opts))}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..bd14f1a 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From 2625d3a1b5c530933b1f323ce4d49d1b9b9239cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 14/82] fix: parenthesize queries which are rendered as values

---
 treeno/expression.py          | 28 ++++++++++++++++------------
 treeno/functions/aggregate.py |  8 +++++---
 treeno/functions/base.py      |  4 +++-
 treeno/groupby.py             |  8 ++++----
 treeno/orderby.py             |  2 +-
 treeno/relation.py            | 21 ++++++++++++++-------
 treeno/window.py              |  4 ++--
 7 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 013b231..26a37b5 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -151,6 +151,10 @@ class Value(Sql, ABC):
     def __or__(self, other):
         return Or(self, other)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        """Renders the value for use inside of another SQL construct, as opposed to a standalone statement."""
+        return self.sql(opts)
+
     def identifier(self) -> Optional[str]:
         """Identifier for the value.
 
@@ -286,7 +290,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)} {quote_identifier(self.alias)}"
+        return f"{self.value.operand_sql(opts)} {quote_identifier(self.alias)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -406,7 +410,7 @@ class Lambda(Expression):
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
         if len(self.inputs) > 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -453,7 +457,7 @@ def pemdas_str(
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
     ):
-        return val.sql(opts)
+        return val.operand_sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
@@ -770,7 +774,7 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts([val.operand_sql(opts) for val in self.values], opts)
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -810,7 +814,7 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts)
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -899,7 +903,7 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value.operand_sql(opts) for value in self.values], opts
         )
         return f"({values_string})"
 
@@ -944,7 +948,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -960,7 +964,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -972,7 +976,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        return f"{self.value.sql(opts)}[{self.index.operand_sql(opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -989,7 +993,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {self.condition.operand_sql(opts)} THEN {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1004,7 +1008,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1033,7 +1037,7 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = self.value.operand_sql(opts) if self.value is not None else ""
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 29ab584..ba2be4c 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -61,7 +61,7 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {self.filter_.operand_sql(opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
@@ -79,7 +79,7 @@ class AggregateFunction(Function, ABC):
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
         arg_string = self.get_quantifier_string() + join_stmts(
-            [value.sql(opts) for value in values], opts
+            [value.operand_sql(opts) for value in values], opts
         )
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
@@ -261,7 +261,9 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.get_quantifier_string() + self.value.sql(opts)
+        value_string = self.get_quantifier_string() + self.value.operand_sql(
+            opts
+        )
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..d0da7d5 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -56,7 +56,9 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts(
+            [value.operand_sql(opts) for value in values], opts
+        )
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..2f3f2e8 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -44,8 +44,8 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            return self.values[0].operand_sql(opts)
+        return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -90,7 +90,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -113,7 +113,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..b35bd0b 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = self.value.operand_sql(opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index 6abccbb..105f12a 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -194,6 +194,10 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        # A query can only be used as a value if it's in parentheses
+        return parenthesize(self.sql(opts))
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -495,7 +499,9 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts(
+            [val.operand_sql(opts) for val in self.select], opts
+        )
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -509,11 +515,11 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", self.where.operand_sql(opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", self.having.operand_sql(opts))
         if self.window:
             window_string = join_stmts(
                 [
@@ -699,7 +705,8 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES",
+            join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts),
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -869,7 +876,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(self.constraint.operand_sql(opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -992,7 +999,7 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
             str_builder += " WITH ORDINALITY"
@@ -1082,7 +1089,7 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
diff --git a/treeno/window.py b/treeno/window.py
index bd14f1a..8041fd4 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -53,7 +53,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{self.offset.operand_sql(opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -106,7 +106,7 @@ class Window(Sql):
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [partition.operand_sql(opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
-- 
2.43.0


From a58215e7f681eefea4099f20fdd7bb5dc2d54f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 15/82] fix: render NORMALIZE

---
 treeno/functions/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..0af121b 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -268,7 +268,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [self.string.operand_sql(opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From 1c2cad3f582d78dab8ec64f4ee320b79383a8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 16/82] fix: dereference and subscript expressions instead of
 their text as an identifier

---
 treeno/expression.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 26a37b5..4b7ab42 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -258,13 +258,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if isinstance(self.table, Value):
+            return f"{primary_str(self.table, opts)}.{quote_identifier(self.name)}"
+        return chain_identifiers(self.table, self.name)
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -319,7 +315,7 @@ class Star(Value):
             if isinstance(self.table, str):
                 table_sql = quote_identifier(self.table)
             else:
-                table_sql = self.table.sql(opts)
+                table_sql = primary_str(self.table, opts)
             star_string = f"{table_sql}."
         star_string += "*"
         return star_string
@@ -473,6 +469,16 @@ def pemdas_str(
     return val.sql(opts)
 
 
+def primary_str(val: Value, opts: PrintOptions) -> str:
+    """Renders a value which is going to be followed by a dereference or a subscript. Both bind tighter than any operator."""
+    is_number = isinstance(val, Literal) and isinstance(
+        val.value, (int, float, Decimal)
+    )
+    if is_number or isinstance(val, Lambda) or type(val) in OPERATOR_PRECEDENCE:
+        return parenthesize(val.sql(opts))
+    return val.operand_sql(opts)
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -976,7 +982,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.operand_sql(opts)}]"
+        return f"{primary_str(self.value, opts)}[{self.index.operand_sql(opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
-- 
2.43.0


From cdd9080d3635a6ca720c9e62eb6915a162338f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 17/82] fix: parenthesize operands according to the operator
 precedence of the grammar

---
 treeno/expression.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 4b7ab42..09eec81 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -449,6 +449,13 @@ def pemdas_str(
     # If the type is not specified, we assume the syntax is well-formed without any parentheses as it's probably a fn
     # call.
     val_type = type(val)
+    if isinstance(val, Lambda):
+        # The body of a lambda takes in everything up to the end of the expression.
+        return parenthesize(val.sql(opts))
+    if current_type in (Positive, Negative) and isinstance(val, Literal):
+        val_sql = val.sql(opts)
+        # Two consecutive minus signs would start a comment.
+        return parenthesize(val_sql) if val_sql.startswith("-") else val_sql
     if (
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
@@ -458,14 +465,14 @@ def pemdas_str(
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
-        if is_left:
+        if is_left and current_type not in NON_ASSOCIATIVE_OPERATORS:
             return val.sql(opts)
         else:
-            return parenthesize(val)
+            return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val)
+        return parenthesize(val.sql(opts))
     return val.sql(opts)
 
 
@@ -642,7 +649,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return Equal(self.left, self.right).sql(opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -853,8 +860,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts, is_left=False)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1069,12 +1075,14 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Add: 6,
     Minus: 6,
     # TODO: Currently we run into an import loop trying to add Concatenate here, so we add it at the end in functions.common
-    Equal: 4,
-    NotEqual: 4,
-    GreaterThan: 4,
-    GreaterThanOrEqual: 4,
-    LessThan: 4,
-    LessThanOrEqual: 4,
+    # None of the predicates can be an operand of another one without parentheses
+    Equal: 3,
+    NotEqual: 3,
+    GreaterThan: 3,
+    GreaterThanOrEqual: 3,
+    LessThan: 3,
+    LessThanOrEqual: 3,
+    DistinctFrom: 3,
     IsNull: 3,
     Like: 3,
     Between: 3,
@@ -1085,5 +1093,12 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Or: 0,
 }
 
+# Operators which need parentheses around a left operand of the same precedence
+NON_ASSOCIATIVE_OPERATORS = {
+    operator
+    for operator, precedence in OPERATOR_PRECEDENCE.items()
+    if precedence in (3, 8)
+}
+
 # Use this instead of wrap_literal(None), which we explicitly disallow
 NULL = Literal(None, data_type=unknown())
-- 
2.43.0


From 51f8e93e177f8f9ebf45396df56613e7148d5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 18/82] fix: render the values of intervals as string literals

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 09eec81..89dc9f8 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -944,7 +944,7 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return f"INTERVAL {quote_literal(self.value)} {self.from_interval}" + to_interval_str
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
-- 
2.43.0


From 2a90e4eaea517970edd7a7dd30a788b1605b7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 19/82] fix: render lambdas without inputs

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 89dc9f8..438029c 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -404,7 +404,7 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
         return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
-- 
2.43.0


From d872dda7112c55be138137cc47381b38a0b05e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 20/82] fix: render rows of a single value

---
 treeno/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 438029c..f306a83 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -917,7 +917,9 @@ class RowConstructor(Expression):
         values_string = join_stmts(
             [value.operand_sql(opts) for value in self.values], opts
         )
-        return f"({values_string})"
+        # Parentheses around a single value don't make it a row
+        keyword = "ROW" if len(self.values) == 1 else ""
+        return f"{keyword}({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for value in self.values:
-- 
2.43.0


From cf69814179b61078a9bb3f2be0bcb987b74579c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 21/82] fix: render WITH ORDINALITY

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 105f12a..d334f56 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1002,7 +1002,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-- 
2.43.0


From 302eba510805bf7d7892fd0f9dbb527bf1821d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 22/82] fix: parenthesize relations nested in joins, aliases
 and samples

---
 treeno/relation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index d334f56..6b15752 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -752,7 +752,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_str = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[Join, TableSample, AliasedRelation],
+        )
+        alias_str = f"{relation_str} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" ({chain_identifiers(*self.column_aliases, join_string=',')})"
         return alias_str
@@ -938,7 +943,11 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        # Joins are left associative
+        right_string = relation_string(
+            self.right_relation, opts, special_parenthesize_relations=[Join]
+        )
+        builder.add_entry(join_type, right_string)
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1087,7 +1096,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
-- 
2.43.0


From 8c2599a99f6741d1e4b9a140441f7826bbb4a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 23/82] fix: render OFFSET 0 and LIMIT 0

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 6b15752..9b153fd 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -249,9 +249,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
-- 
2.43.0


From a60d2ba7d31ce167094229d453d8549ba475dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 24/82] fix: render WITH, ORDER BY, OFFSET and LIMIT of set
 operations

---
 treeno/relation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9b153fd..0aed289 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -322,7 +322,16 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+        clauses = [
+            f"{keyword} {value}"
+            for keyword, value in self._with_query_string_builder(opts).items()
+        ]
+        clauses.append(query_string)
+        clauses.extend(
+            f"{keyword} {value}"
+            for keyword, value in self._constraint_string_builder(opts).items()
+        )
+        return spacing.join(clauses)
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From 992ce0ce31119231f9acee4217b53a83600d208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 25/82] fix: render the arguments of APPROX_PERCENTILE in order

---
 treeno/functions/aggregate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index ba2be4c..f4af5e8 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -528,7 +528,7 @@ class ApproxPercentile(AggregateFunction):
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.percentage]
         if self.weight:
-            values.append(self.weight)
+            values.insert(1, self.weight)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 75be933e0f7c285118a95c3eb876e37e44aa7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 26/82] fix: keep the newlines of quoted text when pretty
 printing

---
 treeno/printer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..3486fb6 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,6 +4,7 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
@@ -15,9 +16,13 @@ def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
     We don't need opts here because the default mode will always be a single line so we'll never invoke this.
     """
-    lines = input.splitlines()
-    pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    newline = "\n" + " " * spaces
+    # Every other piece is quoted, and the whitespace in it is not ours to change.
+    pieces = re.split(r"""('[^']*'|"[^"]*")""", input)
+    return "".join(
+        piece if idx % 2 else piece.replace("\n", newline)
+        for idx, piece in enumerate(pieces)
+    )
 
 
 def join_stmts(
-- 
2.43.0


From da138490241d17d1cdd7efbac1f5c5b871ca5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 27/82] fix: refuse the dereferences a star has no place for

---
 treeno/builder/convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index daef05e..71e55fc 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1052,7 +1052,14 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
-            table = expr.name if isinstance(expr, Field) else expr
+            if isinstance(expr, Field):
+                if expr.table is not None:
+                    raise NotImplementedError(
+                        "Stars of tables with a qualified name are not yet supported"
+                    )
+                table = expr.name
+            else:
+                table = expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
         # here we just interpret a Field to mean a table reference.
-- 
2.43.0


From efaf4b14ddcc2b86f59f00c9e8e5cc47355b6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 28/82] fix: convert lambdas with subqueries in their body

---
 treeno/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index f306a83..6c77870 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -397,7 +397,8 @@ class Lambda(Expression):
                 return cls.Variable(node.name)
             changes = {}
             for k, v in children(node).items():
-                changes[k] = _from_expr(v)
+                # Private attributes are initialized by their name without underscore
+                changes[k.lstrip("_")] = _from_expr(v)
             return attr.evolve(node, **changes)
 
         return cls(inputs, _from_expr(expr))
-- 
2.43.0


From c61f77ded0a9c2cccd929eb1f35ebdc8e5dfa0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 29/82] fix: keep the parentheses of rows in GROUP BY

---
 treeno/groupby.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/groupby.py b/treeno/groupby.py
index 2f3f2e8..6b73b69 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -43,7 +43,10 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        if len(self.values) == 1:
+        # Parentheses around a lone row would make its columns the grouping set
+        if len(self.values) == 1 and not isinstance(
+            self.values[0], RowConstructor
+        ):
             return self.values[0].operand_sql(opts)
         return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
-- 
2.43.0


From 9767678f4ac1d0bd03ff5a9a75e4224ddaee204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 30/82] fix: parenthesize boolean subscripts and arguments of
 NORMALIZE

---
 treeno/expression.py       | 7 ++++++-
 treeno/functions/string.py | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 6c77870..5695670 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -487,6 +487,11 @@ def primary_str(val: Value, opts: PrintOptions) -> str:
     return val.operand_sql(opts)
 
 
+def arithmetic_str(val: Value, opts: PrintOptions) -> str:
+    """Renders a value in a place where the grammar takes arithmetic but no boolean expressions."""
+    return pemdas_str(Add, val, opts)
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -991,7 +996,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{primary_str(self.value, opts)}[{self.index.operand_sql(opts)}]"
+        return f"{primary_str(self.value, opts)}[{arithmetic_str(self.index, opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index 0af121b..9cbf0d5 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,12 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    Value,
+    arithmetic_str,
+    value_attr,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +273,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.operand_sql(opts)]
+        components = [arithmetic_str(self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From e04f1e86ff01eb9a2b75d2e2964fabdfc6ff6a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 31/82] fix: write doubles with an exponent and decimals
 without one

---
 treeno/expression.py | 12 ++++++++++--
 treeno/relation.py   | 10 ++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 5695670..24027c6 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -218,9 +218,17 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
+        if isinstance(self.value, float):
+            # The exponent is what tells a DOUBLE from a DECIMAL, i.e. 3.14 is DECIMAL(3,2) and 3.14E0 is DOUBLE.
+            s = s.upper()
+            if "E" not in s:
+                s += "E0"
+        if isinstance(self.value, Decimal):
+            # Literal decimals need a decimal point and no exponent to be read back as decimals.
+            s = format(self.value, "f")
+            if "." not in s:
+                s += "."
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
diff --git a/treeno/relation.py b/treeno/relation.py
index 0aed289..b90fcd5 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -59,7 +59,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import Literal, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -1107,7 +1107,13 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join, TableSample],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
+        percentage = self.percentage.operand_sql(opts)
+        if isinstance(self.percentage, Literal) and isinstance(
+            self.percentage.value, float
+        ):
+            # The type of the percentage doesn't matter, so it's written without the exponent of a double
+            percentage = str(self.percentage.value).upper()
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-- 
2.43.0


From 3e83fa4364e46feaa4391f3d485978944fb8f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 32/82] fix: refuse joins which lack a join criteria

---
 treeno/relation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index b90fcd5..8af8b37 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -915,6 +915,11 @@ class JoinConfig(Sql):
     def __attrs_post_init__(self):
         if self.join_type == JoinType.CROSS:
             assert not self.criteria, "Cross joins cannot specify join criteria"
+            assert not self.natural, "Cross joins cannot be natural"
+        else:
+            assert (
+                self.natural or self.criteria
+            ), "Joins other than cross joins and natural joins require join criteria"
 
         if self.criteria:
             assert (
-- 
2.43.0


From d2ea90d631b2807e2ccc4c29f32db2194e48e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 33/82] fix: render nested data types with the given print
 options

---
 treeno/datatypes/types.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..a4b7cf1 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -115,7 +115,7 @@ class DataType(Sql):
         elif self.type_name == INTERVAL:
             return emit_interval(self)
         elif self.type_name == ROW:
-            return emit_row(self)
+            return emit_row(self, opts)
 
         if not self.parameters:
             return self.type_name
@@ -131,7 +131,10 @@ class DataType(Sql):
             assert (
                 param.name in self.parameters
             ), f"Missing parameter {param.name} for type {self.type_name}"
-            values.append(str(self.parameters[param.name]))
+            value = self.parameters[param.name]
+            values.append(
+                value.sql(opts) if isinstance(value, DataType) else str(value)
+            )
 
         param_string = ",".join(values)
         return f"{self.type_name}({param_string})"
@@ -172,9 +175,11 @@ def emit_timelike(timestamp: DataType) -> str:
     return type_string
 
 
-def emit_row(row: DataType) -> str:
+def emit_row(row: DataType, opts: PrintOptions) -> str:
     assert row.type_name == ROW
-    subtype_str = ",".join(str(dtype) for dtype in row.parameters["dtypes"])
+    subtype_str = ",".join(
+        dtype.sql(opts) for dtype in row.parameters["dtypes"]
+    )
     return f"{ROW}({subtype_str})"
 
 
-- 
2.43.0


From 8b0b7d1ab48be3a0673156b6fa2e3edc785e7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 34/82] fix: coerce values of unknown type to the type of the
 others

---
 treeno/datatypes/conversions.py | 6 ++++++
 treeno/functions/conditional.py | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..ff1ff29 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -40,6 +40,7 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
@@ -73,6 +74,11 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
 def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
     """Returns a common supertype for the given dtypes.
     """
+    # NULL can be coerced to any type
+    if dtype1.type_name == UNKNOWN:
+        return dtype2
+    if dtype2.type_name == UNKNOWN:
+        return dtype1
     if dtype1.type_name == dtype2.type_name:
         if dtype1 == dtype2:
             return dtype1
diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..9414235 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -46,11 +46,10 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
         self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
+            lambda t1, t2: common_supertype(t1, t2),
+            [val.data_type for val in self.values],
+            unknown(),
         )
 
     @classmethod
-- 
2.43.0


From e8a9cd4d74000011913d4378937801b19e6d8ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 35/82] fix: find the common supertype of types which differ in
 their parameters only

---
 treeno/datatypes/conversions.py | 40 ++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index ff1ff29..aeea534 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Any, Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -83,15 +85,16 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
         return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
+    type_names = {dtype1.type_name, dtype2.type_name}
+    if type_names.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
-    elif dtype1.type_name in STRING_TYPES:
+    elif type_names.issubset(STRING_TYPES):
         return common_string(dtype1, dtype2)
-    elif dtype1.type_name in HLL_TYPES:
+    elif type_names.issubset(HLL_TYPES):
         return common_hll(dtype1, dtype2)
-    elif dtype1.type_name in DATETIME_TYPES:
+    elif type_names.issubset(DATETIME_TYPES):
         return common_datetime(dtype1, dtype2)
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
@@ -287,26 +290,33 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    parameters: Dict[str, Any] = {
+        "timezone": dtype1.parameters.get("timezone", False)
+        or dtype2.parameters.get("timezone", False)
+    }
+    precision1 = dtype1.parameters.get("precision", None)
+    precision2 = dtype2.parameters.get("precision", None)
+    # Without a precision we don't know which one it'll be, since the default depends on the session
+    if precision1 is not None and precision2 is not None:
+        parameters["precision"] = max(precision1, precision2)
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From a8a41bbaf7a5fc6b8141d7a36de5cff4c421269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 36/82] fix: keep the common supertypes of decimals, varchars
 and rows within bounds

---
 treeno/datatypes/conversions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index aeea534..d72a669 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -57,6 +57,8 @@ STRING_TYPES = {CHAR, VARCHAR}
 # Refer to: https://github.com/trinodb/trino/blob/f382a176760975fec51e89f3dc62060e20420f82/core/trino-spi/src/main/java/io/trino/spi/type/CharType.java#L48
 MAX_CHAR_LENGTH = 65536
 
+MAX_DECIMAL_PRECISION = 38
+
 HLL_TYPES = {HLL, P4HLL}
 
 DATETIME_TYPES = {DATE, TIME, TIMESTAMP}
@@ -192,7 +194,7 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
@@ -232,7 +234,8 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    return decimal(precision=min(precision, MAX_DECIMAL_PRECISION), scale=scale)
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
@@ -265,6 +268,8 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
+    if len(dtype1.parameters["dtypes"]) != len(dtype2.parameters["dtypes"]):
+        raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
     dtypes = []
     for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
         dtypes.append(common_supertype(t1, t2))
-- 
2.43.0


From 5d04bd0fd3440fad88972f31229aec4eb4a0ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 37/82] fix: refuse malformed SQL and text behind a query

---
 treeno/grammar/parse.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..9716f9e 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,8 +2,10 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
+from antlr4.Token import Token
 from antlr4.tree.Trees import Trees
 
 try:
@@ -17,6 +19,15 @@ except ImportError:
     raise
 
 
+class RaisingErrorListener(ErrorListener):
+    """Raises on malformed SQL. By default the parser reports it on the console and goes on with what it understood."""
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise ValueError(
+            f"Malformed SQL at line {line}, column {column}: {msg}"
+        )
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -27,14 +38,25 @@ class AST:
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
         stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(stream)
+        for recognizer in (lexer, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        query = parser.query()
+        # Unlike the standalone rules, the query rule doesn't include the end of the input.
+        if parser.getCurrentToken().text == ";":
+            parser.getTokenStream().consume()
+        if parser.getCurrentToken().type != Token.EOF:
+            parser.notifyErrorListeners("extraneous input after the query")
+        return query
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From 6f0b81aeca2a6a2ebf62d38099a9285aa62aa707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 38/82] fix: register the functions of every module

---
 treeno/functions/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..adeaa1e 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,10 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (  # noqa: F401
+    aggregate,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
-- 
2.43.0


From 224bee1bc2c25be08b2dd93117691dd79910fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 39/82] fix: accept FROM_UNIXTIME without a time zone

---
 treeno/functions/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..32a2657 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
-- 
2.43.0


From 29623e5ae80bba7fc1dcb4ed97ffacb68b7b3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 40/82] fix: infer the type of decimals from their digits only

---
 treeno/datatypes/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..e392cb7 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,7 +51,8 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
+    # Neither the sign nor an exponent is a digit of the number
+    str_val = f"{abs(decimal_value):f}"
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
-- 
2.43.0


From 721b7a87d6e451a41ce01bbdb64e2d4ca62e98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 41/82] fix: visit the ORDER BY, FILTER and OVER parts of
 aggregate functions

---
 treeno/functions/aggregate.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index f4af5e8..b6a9724 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -51,6 +51,15 @@ class AggregateFunction(Function, ABC):
         factory=SetQuantifier.default, kw_only=True
     )
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
     def get_quantifier_string(self) -> str:
         # All is the default, so we don't need to mention it
         if self.set_quantifier == SetQuantifier.default():
@@ -107,6 +116,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -123,6 +133,7 @@ class BinaryStatsFunction(AggregateFunction, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.x)
         visitor.visit(self.y)
+        super().visit(visitor)
 
 
 @value_attr
@@ -284,6 +295,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        super().visit(visitor)
 
 
 @value_attr
@@ -307,6 +319,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -332,6 +345,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -355,6 +369,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -380,6 +395,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        super().visit(visitor)
 
 
 @value_attr
@@ -425,6 +441,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -453,6 +470,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        super().visit(visitor)
 
 
 @value_attr
@@ -476,6 +494,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        super().visit(visitor)
 
 
 @value_attr
@@ -497,6 +516,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        super().visit(visitor)
 
 
 @value_attr(init=False)
@@ -536,6 +556,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -583,6 +604,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
@@ -613,6 +635,7 @@ class QDigestAgg(AggregateFunction):
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        super().visit(visitor)
 
 
 @value_attr
@@ -636,6 +659,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        super().visit(visitor)
 
 
 @value_attr
-- 
2.43.0


From 1c63658750a909c58c79175d10ac989afb5ba029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 42/82] fix: visit the value of QDIGEST_AGG

---
 treeno/functions/aggregate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index b6a9724..dd0409b 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -630,7 +630,7 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
-- 
2.43.0


From 2af2fb5f9a5795ad1e00392eb57d1fec864f43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 43/82] fix: visit the join criteria only where there are any

---
 treeno/relation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 8af8b37..2467070 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -932,7 +932,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
-- 
2.43.0


From 35b9d65472751a7d374e36e729a288116f82e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 44/82] fix: visit the WITH queries, the columns and the ORDER
 BY terms of queries

---
 treeno/relation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 2467070..7eb80fa 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -194,6 +194,13 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def visit(self, visitor: GenericVisitor) -> None:
+        for query in self.with_:
+            visitor.visit(query)
+        if self.orderby:
+            for order_term in self.orderby:
+                visitor.visit(order_term)
+
     def operand_sql(self, opts: PrintOptions) -> str:
         # A query can only be used as a value if it's in parentheses
         return parenthesize(self.sql(opts))
@@ -352,6 +359,7 @@ class SetQuery(Query, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        super().visit(visitor)
 
 
 @value_attr
@@ -542,7 +550,8 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        for value in self.select:
+            visitor.visit(value)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -554,6 +563,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        super().visit(visitor)
 
 
 @attr.s
@@ -662,6 +672,7 @@ class TableQuery(Query):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
+        super().visit(visitor)
 
 
 @value_attr
@@ -729,6 +740,7 @@ class ValuesQuery(Query):
     def visit(self, visitor: GenericVisitor) -> None:
         for expr in self.exprs:
             visitor.visit(expr)
+        super().visit(visitor)
 
 
 @attr.s
-- 
2.43.0


From cac042ce8514bf9ab7a37f411384023e8ac44b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 45/82] fix: compare the kinds of nested nodes in Sql.equals

---
 treeno/base.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..458da03 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -58,6 +58,24 @@ class PrintOptions:
     spaces: int = attr.ib(default=4)
 
 
+def is_identical(left: Any, right: Any) -> bool:
+    """Whether two attribute values have the same nodes and contents at every level. Nodes are compared attribute by
+    attribute, because their ``==`` may be overloaded to create a new node.
+    """
+    if attr.has(type(left)) or attr.has(type(right)):
+        return type(left) is type(right) and all(
+            is_identical(getattr(left, field.name), getattr(right, field.name))
+            for field in attr.fields(type(left))
+        )
+    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
+        return len(left) == len(right) and all(map(is_identical, left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return left.keys() == right.keys() and all(
+            is_identical(value, right[key]) for key, value in left.items()
+        )
+    return left is right or bool(left == right)
+
+
 @attr.s
 class Sql(ABC):
     """A base class for all SQL nodes in Treeno.
@@ -141,9 +159,7 @@ class Sql(ABC):
         """
         if not isinstance(other, Sql) or type(self) is not type(other):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+        return is_identical(self, other)
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
-- 
2.43.0


From 40322164d232a2ce092be3c4dbe08e0e5c942f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 46/82] fix: resolve a column by both its name and its table

---
 treeno/datatypes/resolve.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..934ffc5 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -19,10 +19,8 @@ def _make_field(field: Field, schema: Schema) -> Field:
 
     matching_fields = []
     for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
+        if f.name == field.name and (
+            field.table is None or f.source.identifier() == field.table
         ):
             matching_fields.append(f)
 
@@ -35,16 +33,11 @@ def _make_field(field: Field, schema: Schema) -> Field:
         assert (
             len(matching_fields) == 1
         ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
     else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
-        ]
         assert (
-            len(filtered_fields) == 1
+            len(matching_fields) == 1
         ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
+    dtype = matching_fields[0].data_type
     return Field(name=field.name, table=field.table, data_type=dtype)
 
 
-- 
2.43.0


From 4b841585379157a266370b324a5d163f12028370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 47/82] fix: resolve within the values that fields and stars
 dereference

---
 treeno/datatypes/resolve.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 934ffc5..cfee17b 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -6,16 +6,15 @@ import attr
 from treeno.base import Sql
 from treeno.datatypes.builder import row
 from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
+from treeno.expression import Field, Star, Value
 from treeno.relation import Query, Schema
 from treeno.util import children, is_dictlike, is_listlike
 
 
 def _make_field(field: Field, schema: Schema) -> Field:
-    # If field's table is a whole subquery, it would belong solely
-    # to that subquery and not the relation we're dealing with.
-    if isinstance(field.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+    # The field of a value doesn't belong to the relation we're dealing with, only the fields within that value may.
+    if isinstance(field.table, Value):
+        return attr.evolve(field, table=resolve_fields(field.table, schema))
 
     matching_fields = []
     for f in schema.fields:
@@ -42,8 +41,8 @@ def _make_field(field: Field, schema: Schema) -> Field:
 
 
 def _make_star(star: Star, schema: Schema) -> Star:
-    if isinstance(star.table, Query):
-        raise NotImplementedError("Subqueries are not yet supported")
+    if isinstance(star.table, Value):
+        return attr.evolve(star, table=resolve_fields(star.table, schema))
     matching_fields = schema.fields
     if star.table is not None:
         matching_fields = [
@@ -67,6 +66,9 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     # We don't want to modify data types
     if isinstance(node, DataType):
         return copy.deepcopy(node)
+    # The fields of a subquery belong to its own relations
+    if isinstance(node, Query):
+        return copy.deepcopy(node)
     if isinstance(node, Field):
         return _make_field(node, schema)
     if isinstance(node, Star):
-- 
2.43.0


From e235c7ba45fdda2fac25ceecc4ce3cdd3600fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 48/82] fix: keep the unnamed columns of both schemas when
 merging

---
 treeno/relation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 7eb80fa..5caf13b 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -175,7 +175,8 @@ class Schema:
         relation_ids = copy.copy(self.relation_ids)
         # .. todo:: This is also pretty slow, O(N^2)
         for f in another_schema.fields:
-            if f not in fields:
+            # Fields can't be compared by value, because their sources may be values (see Sql.equals)
+            if not any(f is field for field in fields):
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
         return Schema(fields, relation_ids)
-- 
2.43.0


From 894e11c079e61c7a0a78c447ec8eef8e2613535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 49/82] fix: resolve named queries with the named queries
 before them

---
 treeno/relation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5caf13b..fb7ed57 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -239,7 +239,8 @@ class Query(Relation, Value, ABC):
         """
         merging_schema = Schema.empty_schema()
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
+            # The query is in parentheses, but does see the queries named before it
+            new_schema = w._export(w.relation.resolve(merging_schema))
             merging_schema = merging_schema.merge(new_schema)
         return merging_schema
 
@@ -792,9 +793,14 @@ class AliasedRelation(Relation):
         return alias_str
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
+        return self._export(
+            self.relation.resolve(
+                maybe_prune_schema(self.relation, existing_schema)
+            )
         )
+
+    def _export(self, relation_schema: Schema) -> Schema:
+        """The schema of the underlying relation, by the names of the alias"""
         new_schema_fields = []
         for idx, schema_field in enumerate(relation_schema.fields):
             field_name = (
-- 
2.43.0


From 969893a4841ad7940b3e2289c36b4f5b15380a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 50/82] fix: resolve the operands of set operations in the
 scope of the set operation

---
 treeno/relation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index fb7ed57..bcfa4d3 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -343,12 +343,11 @@ class SetQuery(Query, ABC):
         return spacing.join(clauses)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        # The operands see what the set operation sees, which includes the queries it names
+        existing_schema = existing_schema.merge(self._resolve_with())
+        left_schema = self.left_query.resolve(existing_schema)
+        self.right_query.resolve(existing_schema)
+        self.data_type = self._compute_data_type()
         # The column names and such are always taken from the left schema.
         schema_fields = []
         for schema_field in left_schema.fields:
-- 
2.43.0


From ebc81b75ff6c6ad866ea9e3fbc8406f86d05b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 51/82] fix: resolve the table of a TABLE query in the scope of
 the query

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index bcfa4d3..5827ed1 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -666,8 +666,8 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
-        table_schema = self.table.resolve(with_schema)
+        existing_schema = existing_schema.merge(self._resolve_with())
+        table_schema = self.table.resolve(existing_schema)
         self.data_type = self._compute_data_type()
         return table_schema
 
-- 
2.43.0


From 4355270128b6d7a1cc15f7da08340ba5cd35f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 52/82] fix: hide the outer scope from sampled subqueries

---
 treeno/relation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5827ed1..89434e3 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1140,8 +1140,10 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-        return self.relation.resolve(existing_schema)
+        # Sampling doesn't affect the namespace scope, only a subquery does
+        return self.relation.resolve(
+            maybe_prune_schema(self.relation, existing_schema)
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.relation)
-- 
2.43.0


From 783aad01af862d3f7ff42a3b35e7097df20a0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 53/82] fix: resolve VALUES to one field for each of its
 columns

---
 treeno/relation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 89434e3..9a92916 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -734,8 +734,13 @@ class ValuesQuery(Query):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # ..todo:: Does ValuesQuery dereference anything by itself?
+        if self.data_type.type_name == type_consts.ROW:
+            dtypes = self.data_type.parameters["dtypes"]
+        else:
+            dtypes = [self.data_type]
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 7832d453555332c082f093742e9a192453e9fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 54/82] fix: derive the data type of TABLE queries from the
 columns of their table

---
 treeno/relation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9a92916..4d753af 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -652,9 +652,11 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        dtypes = [f.data_type for f in self.table._column_schema.fields]
+        if not dtypes:
+            return unknown()
+        # Special case: If the table only has one column, it's not a row.
+        return dtypes[0] if len(dtypes) == 1 else row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-- 
2.43.0


From ac14a588c32613dd6b746199981cb511bb474282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 55/82] fix: derive the data type of INTERSECT and EXCEPT
 queries

---
 treeno/relation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index 4d753af..67d7a92 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -384,6 +384,7 @@ class IntersectQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("INTERSECT", opts)
@@ -410,6 +411,7 @@ class ExceptQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("EXCEPT", opts)
-- 
2.43.0


From 856f68c796ee23c650ca1810dab8f909a0e3ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 56/82] fix: combine the stars of a single column in set
 operations

---
 treeno/relation.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 67d7a92..a29cfeb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -303,23 +303,26 @@ class SetQuery(Query, ABC):
         # The subqueries not being row-like is possible for a table/subquery that only has 1 column
         left_row_like = left_type.type_name == type_consts.ROW
         right_row_like = right_type.type_name == type_consts.ROW
-        assert (
-            left_row_like == right_row_like
-        ), f"Either both types are ROWs or neither are. Found {left_type} and {right_type}"
-
-        if not left_row_like:
+        if not left_row_like and not right_row_like:
             return common_supertype(left_type, right_type)
 
-        # .. todo:: Redundant after previous assertion
-        assert (
-            left_row_like and right_row_like
-        ), "Input data types for query set operations must be ROW"
-        dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
-            dtypes.append(common_supertype(t1, t2))
-        return row(dtypes=dtypes)
+        # A star is row-like even if its table only has 1 column
+        left_dtypes, right_dtypes = (
+            dtype.parameters["dtypes"] if row_like else [dtype]
+            for dtype, row_like in (
+                (left_type, left_row_like),
+                (right_type, right_row_like),
+            )
+        )
+        # Stars within a row stand for any number of columns
+        if len(left_dtypes) != len(right_dtypes):
+            return unknown()
+        return row(
+            dtypes=[
+                common_supertype(t1, t2)
+                for t1, t2 in zip(left_dtypes, right_dtypes)
+            ]
+        )
 
     def _to_string(self, set_type: str, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
-- 
2.43.0


From 4531ab566aad610bdcab2f7b8245b12a3c9322d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 57/82] fix: keep the precision of TIMESTAMP literals in their
 type

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 24027c6..d9fb649 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -898,7 +898,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
-- 
2.43.0


From 14fb4a4067ff0207c6d425370524a23317a2ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 58/82] fix: keep the type parameters given by the caller as
 they were

---
 treeno/datatypes/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index a4b7cf1..3e2b2c9 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -77,6 +77,8 @@ class DataType(Sql):
 
     def __attrs_post_init__(self):
         self.type_name = self.type_name.upper()
+        # Missing parameters are filled in below, which must not change the caller's dictionary.
+        self.parameters = dict(self.parameters)
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
-- 
2.43.0


From ad17364e26ddc1b5416b9d658a58d6108f4f0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 59/82] fix: do not add types without parameters to the table
 of type parameters

---
 treeno/datatypes/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index 3e2b2c9..79d9cca 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -82,7 +82,7 @@ class DataType(Sql):
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
-        for field in FIELDS[self.type_name]:
+        for field in FIELDS.get(self.type_name, []):
             if not field.required and field.name not in self.parameters:
                 # Unfortunately, because default values can be overridden on the session level,
                 # we want to be hesitant in imputing missing values with a fixed default value.
@@ -102,7 +102,9 @@ class DataType(Sql):
                 f"Got {type(field_value).__name__} instead with value {field_value})"
             )
 
-        all_parameters = set(param.name for param in FIELDS[self.type_name])
+        all_parameters = set(
+            param.name for param in FIELDS.get(self.type_name, [])
+        )
         current_parameters = set(self.parameters)
         assert current_parameters.issubset(
             all_parameters
-- 
2.43.0


From 4e93af4acda50cc81a7326bbd0cb9b46641ea473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 60/82] fix: keep the schema given for a table as it was

---
 treeno/relation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index a29cfeb..977cd6a 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -610,7 +610,11 @@ class Table(Relation):
                 self.schema
             ), "If a catalog is specified, a schema must be specified as well"
         if self.name not in self._column_schema.relation_ids:
-            self._column_schema.relation_ids.add(self.name)
+            # The schema may be known to the caller and to other tables.
+            self._column_schema = Schema(
+                fields=list(self._column_schema.fields),
+                relation_ids=self._column_schema.relation_ids | {self.name},
+            )
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
-- 
2.43.0


From b8f99a7a2d33da4f0340b6a61589849df744ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 61/82] fix: queries without named queries have an empty list
 of them

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 977cd6a..244a60e 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -193,7 +193,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def visit(self, visitor: GenericVisitor) -> None:
         for query in self.with_:
-- 
2.43.0


From cfb007b1e25adf34dbef4380387d0d6696410b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 62/82] fix: show the nodes of mappings in the tree command

---
 treeno/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..5d03f9d 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -83,7 +83,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
-- 
2.43.0


From e6ab26eeb5a7e4f8c9ad4bf2b1d3b4e95b8c10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 63/82] fix: let the tree command show types

---
 treeno/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/cli.py b/treeno/cli.py
index 5d03f9d..c23fcbf 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -102,6 +102,9 @@ def treeify(node: Any) -> Any:
 def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sql_obj = get_sql_object(construct_type, sql)
     tree = treeify(sql_obj)
+    if not isinstance(tree, Tree):
+        # Data types are terminal, but here there's nothing above them
+        tree = Tree(type(sql_obj).__name__, [tree])
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-- 
2.43.0


From 1d33ba23815ca875a45dc00886bb864144d761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 64/82] fix: mark columns without a name in the schema command

---
 treeno/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index c23fcbf..f576cce 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -126,7 +126,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
-- 
2.43.0


From 58e5397b40c6b8b675eef1701e056be3436b2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 65/82] fix: show parentheses and strings as they are in antlr
 trees

---
 treeno/grammar/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index 9716f9e..334403a 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -66,9 +66,14 @@ class AST:
 
 
 def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
-    )
+    rule_names = ast.parser().ruleNames
+
+    def convert(node):
+        text = Trees.getNodeText(node, rule_names)
+        if not node.getChildCount():
+            return text
+        return nltk.Tree(text, [convert(c) for c in node.getChildren()])
+
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    convert(node).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From 255fa4b097dfe995737a62fdd2d2eef4dd051bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 66/82] fix: render infinite doubles as a literal which denotes
 them

---
 treeno/expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index d9fb649..4cb44b2 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -221,6 +221,9 @@ class Literal(Value):
         s = str(self.value)
         if isinstance(self.value, float):
             # The exponent is what tells a DOUBLE from a DECIMAL, i.e. 3.14 is DECIMAL(3,2) and 3.14E0 is DOUBLE.
+            if s in ("inf", "-inf"):
+                # A literal too large for a DOUBLE denotes infinity, and there is no other literal for it.
+                s = s.replace("inf", "1E999")
             s = s.upper()
             if "E" not in s:
                 s += "E0"
-- 
2.43.0


From 1b5843b1f41d96136d7b9326badc5aacc756004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:16 +0000
Subject: [PATCH 67/82] fix: infer the type of decimals with more than 28
 digits

---
 treeno/datatypes/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index e392cb7..50b06f2 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -52,7 +52,7 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     actual scale is due to floats being imprecise.
     """
     # Neither the sign nor an exponent is a digit of the number
-    str_val = f"{abs(decimal_value):f}"
+    str_val = f"{decimal_value.copy_abs():f}"
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
-- 
2.43.0


From c65ec1f2e8490eb876a6a08a97d4af63ccc7f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 68/82] fix: keep all digits of negative decimals

---
 treeno/builder/convert.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 71e55fc..79ea726 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -737,15 +737,13 @@ class ConvertVisitor(SqlBaseVisitor):
         dtype: DataType
         value: Union[int, Decimal]
         if "." in text:
-            value = Decimal(text)
+            # Negating a Decimal rounds it, so the sign is read along with the digits.
+            value = Decimal(f"-{text}" if negative else text)
             dtype = infer_decimal(value)
         else:
-            value = int(text)
+            value = -int(text) if negative else int(text)
             dtype = integer()
 
-        if negative:
-            value = -value
-
         return Literal(value, data_type=dtype)
 
     @overrides
-- 
2.43.0


From d4d773d0f435f6710877109e21975529cd6ec508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 69/82] fix: infer the precision of decimals without their
 leading zero

---
 treeno/datatypes/inference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 50b06f2..aac9bbf 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,8 +51,8 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    # Neither the sign nor an exponent is a digit of the number
-    str_val = f"{decimal_value.copy_abs():f}"
+    # Neither the sign nor an exponent is a digit of the number, and a leading zero doesn't count
+    str_val = f"{decimal_value.copy_abs():f}".lstrip("0") or "0"
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
-- 
2.43.0


From d8b3654d473bec493aa72fa8637fec2ac9452f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 70/82] fix: MAX, MIN, MAX_BY and MIN_BY of several values are
 arrays

---
 treeno/functions/aggregate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index dd0409b..dc614e2 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -308,6 +308,8 @@ class Max(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -333,6 +335,8 @@ class MaxBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -358,6 +362,8 @@ class Min(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -383,6 +389,8 @@ class MinBy(AggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = self.value.data_type
+        if self.num_values:
+            self.data_type = array(dtype=self.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
-- 
2.43.0


From 2e94e2644566333f70e7e9c26d9f1914362bc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 71/82] fix: the average of intervals is an interval

---
 treeno/functions/aggregate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index dc614e2..c7d5174 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -166,6 +166,8 @@ class Avg(UnaryAggregateFunction):
 
     def __attrs_post_init__(self) -> None:
         self.data_type = double()
+        if self.value.data_type.type_name == type_consts.INTERVAL:
+            self.data_type = self.value.data_type
 
 
 @value_attr
-- 
2.43.0


From e9e09e2ea18676f1089d7a35438f41a8db340ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:41 +0000
Subject: [PATCH 72/82] fix: deviations, variances and the skewness are doubles

---
 treeno/functions/aggregate.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index c7d5174..e91526d 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -119,6 +119,12 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
         super().visit(visitor)
 
 
+@value_attr
+class UnaryStatsFunction(UnaryAggregateFunction, ABC):
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
+
 @value_attr
 class BinaryStatsFunction(AggregateFunction, ABC):
     y: Value = attr.ib(converter=wrap_literal)
@@ -703,37 +709,37 @@ class RegrSlope(BinaryStatsFunction):
 
 
 @value_attr
-class Skewness(UnaryAggregateFunction):
+class Skewness(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
 
 @value_attr
-class StdDev(UnaryAggregateFunction):
+class StdDev(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
 
 @value_attr
-class StdDevPop(UnaryAggregateFunction):
+class StdDevPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
 
 @value_attr
-class StdDevSamp(UnaryAggregateFunction):
+class StdDevSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
 
 @value_attr
-class Variance(UnaryAggregateFunction):
+class Variance(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
 
 @value_attr
-class VarPop(UnaryAggregateFunction):
+class VarPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
 
 @value_attr
-class VarSamp(UnaryAggregateFunction):
+class VarSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
 
-- 
2.43.0


From ebb7b37feb92b79faff71171ff323309fe4cd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 73/82] fix: CURRENT_TIME and CURRENT_TIMESTAMP have a time
 zone

---
 treeno/functions/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 32a2657..fb50799 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -58,7 +58,7 @@ class CurrentTime(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIME"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = time(precision=self.precision)
+        self.data_type = time(precision=self.precision, timezone=True)
 
 
 @value_attr
@@ -66,7 +66,7 @@ class CurrentTimestamp(ParametrizedDateTimeFunction):
     FN_NAME: ClassVar[str] = "CURRENT_TIMESTAMP"
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = timestamp(precision=self.precision)
+        self.data_type = timestamp(precision=self.precision, timezone=True)
 
 
 @value_attr
-- 
2.43.0


From e9f57ec0132dee8bbef8c8b9c6c14d18f2bb1631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 74/82] fix: derive the type of FROM_UNIXTIME from what it
 returns

---
 treeno/functions/datetime.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index fb50799..43a6ba0 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -196,11 +196,7 @@ class FromUnixtime(Function):
         raise ValueError(f"Unrecognized arguments {args} and {kwargs}")
 
     def __attrs_post_init__(self) -> None:
-        dtype = self.value.data_type
-        if dtype.type_name == type_consts.TIMESTAMP:
-            self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
-            )
+        self.data_type = timestamp(precision=3, timezone=True)
 
         if self.zone:
             assert (
-- 
2.43.0


From 13e53470ddcc4fd22cb103601dc29890292bf535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 75/82] fix: accept timestamps without a precision in
 AT_TIMEZONE and WITH_TIMEZONE

---
 treeno/functions/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 43a6ba0..0b75784 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -136,7 +136,7 @@ class AtTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -157,7 +157,7 @@ class WithTimezone(Function):
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 1126d8b6fd1493b874561b211bd649ddddb5e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 76/82] fix: derive the type of arrays and CASE from all of
 their values

---
 treeno/datatypes/conversions.py | 12 +++++++++++-
 treeno/expression.py            | 16 +++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d72a669..15d4234 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,7 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
-from typing import Any, Dict
+import functools
+from typing import Any, Dict, List
 
 from treeno.datatypes.builder import (
     array,
@@ -101,6 +102,15 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
 
+def infer_common_type(dtypes: List[DataType]) -> DataType:
+    """Returns a common supertype for all of the given dtypes, which is unknown if there is none.
+    """
+    try:
+        return functools.reduce(common_supertype, dtypes)
+    except TypeError:
+        return unknown()
+
+
 def common_same_type(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name
diff --git a/treeno/expression.py b/treeno/expression.py
index 4cb44b2..19a0024 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -50,7 +50,10 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import (
+    get_arithmetic_type,
+    infer_common_type,
+)
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -795,9 +798,9 @@ class Array(Expression):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values), "values must be a non-empty list for Array"
-        # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
-        # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(
+            dtype=infer_common_type([val.data_type for val in self.values])
+        )
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -1057,7 +1060,10 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        results = self.branches + ([self.else_] if self.else_ else [])
+        self.data_type = infer_common_type(
+            [result.data_type for result in results]
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
-- 
2.43.0


From ed35f6694258ae091e50beca4a1b290cbabfa8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 77/82] fix: TIME and TIMESTAMP literals with a zone have a
 time zone

The zone was neither part of the type nor told apart from the digits of the
fraction, so that '12:34:56.1+01:00' had a precision of 7.
---
 treeno/datatypes/inference.py | 10 +++++++++-
 treeno/expression.py          |  8 +++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index aac9bbf..51dd27b 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import re
 from decimal import Decimal
 from typing import Any
 
@@ -70,4 +71,11 @@ def infer_timelike_precision(value: str) -> int:
     if "." not in value:
         return 0
     # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    fraction = value.rsplit(".")[-1]
+    return len(fraction) - len(fraction.lstrip("0123456789"))
+
+
+def infer_timelike_timezone(value: str) -> bool:
+    # The zone is either an offset or a name, which follows the time of day
+    time_of_day = re.sub(r"^\s*[+-]?\d+-\d+-\d+", "", value)
+    return time_of_day.strip("0123456789:. ") != ""
diff --git a/treeno/expression.py b/treeno/expression.py
index 19a0024..1f07451 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -58,6 +58,7 @@ from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
     infer_timelike_precision,
+    infer_timelike_timezone,
     infer_type,
 )
 from treeno.datatypes.types import DataType
@@ -899,14 +900,15 @@ class TypeConstructor(Expression):
     type_name: str = attr.ib(converter=str.upper)
 
     def __attrs_post_init__(self) -> None:
-        # This can't be timezoned, so we ignore that
         if self.type_name == type_consts.TIMESTAMP:
             self.data_type = timestamp(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.TIME:
             self.data_type = time(
-                precision=infer_timelike_precision(self.value)
+                precision=infer_timelike_precision(self.value),
+                timezone=infer_timelike_timezone(self.value),
             )
         elif self.type_name == type_consts.DECIMAL:
             self.data_type = infer_decimal(Decimal(self.value))
-- 
2.43.0


From c81f6558f9102a7600db9a48337f543c7936ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 78/82] fix: UNNEST has columns for maps, rows and the
 ordinality

---
 treeno/relation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 244a60e..5f9c7ea 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -56,7 +56,7 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
 from treeno.expression import Literal, Value, value_attr
@@ -1036,7 +1036,8 @@ class Unnest(Relation):
              2
 
     Attributes:
-        arrays: The array(s) to use in an unnest. The i-th array in the list corresponds to the i-th output column.
+        arrays: The array(s) to use in an unnest. Each array corresponds to an output column, unless its elements are
+            rows, which have a column for each of their values. Maps have a column for their keys and one for their values.
         with_ordinality: Whether there should be an ordinality column appended at the end of the UNNEST.
     """
 
@@ -1049,10 +1050,17 @@ class Unnest(Relation):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
+            parameters = val.data_type.parameters
+            if val.data_type.type_name == type_consts.MAP:
+                dtypes += [parameters["from_dtype"], parameters["to_dtype"]]
+            elif val.data_type.type_name != type_consts.ARRAY:
                 dtypes.append(unknown())
+            elif parameters["dtype"].type_name == type_consts.ROW:
+                dtypes += parameters["dtype"].parameters["dtypes"]
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
+                dtypes.append(parameters["dtype"])
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 0d44a4ea8c129cc58067442896557166607c399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 79/82] fix: set operations export the common types of their
 columns

---
 treeno/relation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5f9c7ea..ddbd1fa 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -57,7 +57,7 @@ from treeno.base import (
 )
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import bigint, row, unknown
-from treeno.datatypes.conversions import common_supertype
+from treeno.datatypes.conversions import common_supertype, infer_common_type
 from treeno.datatypes.types import DataType
 from treeno.expression import Literal, Value, value_attr
 from treeno.groupby import GroupBy
@@ -349,15 +349,19 @@ class SetQuery(Query, ABC):
         # The operands see what the set operation sees, which includes the queries it names
         existing_schema = existing_schema.merge(self._resolve_with())
         left_schema = self.left_query.resolve(existing_schema)
-        self.right_query.resolve(existing_schema)
+        right_schema = self.right_query.resolve(existing_schema)
         self.data_type = self._compute_data_type()
+        dtypes = [field.data_type for field in left_schema.fields]
+        if len(left_schema.fields) == len(right_schema.fields):
+            dtypes = [
+                infer_common_type([dtype, field.data_type])
+                for dtype, field in zip(dtypes, right_schema.fields)
+            ]
         # The column names and such are always taken from the left schema.
         schema_fields = []
-        for schema_field in left_schema.fields:
+        for schema_field, dtype in zip(left_schema.fields, dtypes):
             # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
+            schema_fields.append(SchemaField(schema_field.name, self, dtype))
         return Schema(schema_fields, relation_ids=left_schema.relation_ids)
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From de7d6aa170dc5d5b656541612d97bcf539003eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 80/82] fix: columns joined with USING or NATURAL are not
 ambiguous

---
 treeno/relation.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index ddbd1fa..cbf8339 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1017,7 +1017,26 @@ class Join(Relation):
             self.right_relation, existing_schema
         )
         right_schema = self.right_relation.resolve(pruned_right_arg)
-        return left_schema.merge(right_schema)
+        return left_schema.merge(
+            self._without_shared_columns(left_schema, right_schema)
+        )
+
+    def _without_shared_columns(self, left: Schema, right: Schema) -> Schema:
+        # The columns joined by name are only in the output once
+        shared: Set[Optional[str]] = set()
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            shared = set(self.config.criteria.column_names)
+        elif self.config.natural:
+            shared = {field.name for field in right.fields} - {None}
+        shared &= {field.name for field in left.fields}
+        fields = [field for field in right.fields if field.name not in shared]
+        # A relation without fields is one whose schema isn't known, which isn't the case here
+        known_relations = {f.source.identifier() for f in right.fields}
+        relations = {f.source.identifier() for f in fields}
+        return Schema(
+            fields,
+            relation_ids=right.relation_ids - (known_relations - relations),
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
-- 
2.43.0


From f6bbc3d257a79791ed56999e9e0d9436cf816259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 81/82] fix: stars export the columns they stand for

---
 treeno/datatypes/resolve.py | 24 ++++++++++++++++--------
 treeno/relation.py          | 29 ++++++++++++++++++++++++++---
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index cfee17b..b085b3c 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,13 +1,13 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List
 
 import attr
 
 from treeno.base import Sql
-from treeno.datatypes.builder import row
+from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.types import DataType
 from treeno.expression import Field, Star, Value
-from treeno.relation import Query, Schema
+from treeno.relation import Query, Schema, SchemaField
 from treeno.util import children, is_dictlike, is_listlike
 
 
@@ -40,14 +40,22 @@ def _make_field(field: Field, schema: Schema) -> Field:
     return Field(name=field.name, table=field.table, data_type=dtype)
 
 
+def star_fields(star: Star, schema: Schema) -> List[SchemaField]:
+    """Returns the fields of the schema which the star stands for, and none if it includes relations without a schema
+    """
+    if star.table is None:
+        known_relations = {f.source.identifier() for f in schema.fields}
+        return schema.fields if schema.relation_ids <= known_relations else []
+    return [f for f in schema.fields if f.source.identifier() == star.table]
+
+
 def _make_star(star: Star, schema: Schema) -> Star:
     if isinstance(star.table, Value):
         return attr.evolve(star, table=resolve_fields(star.table, schema))
-    matching_fields = schema.fields
-    if star.table is not None:
-        matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
-        ]
+    matching_fields = star_fields(star, schema)
+    # The columns of a relation whose schema we don't know can't be told
+    if not len(matching_fields):
+        return attr.evolve(star, data_type=unknown())
     dtype = row(dtypes=[f.data_type for f in matching_fields])
     return Star(table=star.table, data_type=dtype)
 
diff --git a/treeno/relation.py b/treeno/relation.py
index cbf8339..bc0c168 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -59,7 +59,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype, infer_common_type
 from treeno.datatypes.types import DataType
-from treeno.expression import Literal, Value, value_attr
+from treeno.expression import AliasedStar, Literal, Star, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -497,11 +497,19 @@ class SelectQuery(Query):
         # Special case: If the select clause only has one output element, it's not a row.
         if len(self.select) == 1:
             return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        dtypes = []
+        for val in self.select:
+            is_star = isinstance(val, (Star, AliasedStar))
+            if is_star and val.data_type.type_name == type_consts.ROW:
+                dtypes += val.data_type.parameters["dtypes"]
+            else:
+                dtypes.append(val.data_type)
+        return row(dtypes=dtypes)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        from treeno.datatypes.resolve import resolve_fields
+        from treeno.datatypes.resolve import resolve_fields, star_fields
 
+        schema = Schema.empty_schema()
         # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
         if self.from_ is not None:
             existing_schema = existing_schema.merge(self._resolve_with())
@@ -513,6 +521,21 @@ class SelectQuery(Query):
 
         schema_fields = []
         for value in self.select:
+            # A star stands for any number of fields, of which only the aliases may differ
+            star = value.star if isinstance(value, AliasedStar) else value
+            if isinstance(star, Star) and not isinstance(star.table, Value):
+                fields = star_fields(star, schema)
+                names = [field.name for field in fields] or [None]
+                if isinstance(value, AliasedStar):
+                    names = value.aliases
+                dtypes = [field.data_type for field in fields]
+                schema_fields += [
+                    SchemaField(name, self, dtype)
+                    for name, dtype in zip(
+                        names, dtypes or [unknown()] * len(names)
+                    )
+                ]
+                continue
             # All schema fields have the source to the current object
             schema_fields.append(
                 SchemaField(
-- 
2.43.0


From 2cb51f01199ea4f8b2c9865e4be4ef7170205daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 82/82] fix: rows take plain values as arrays do

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 1f07451..470b507 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -930,7 +930,7 @@ class TypeConstructor(Expression):
 
 @value_attr
 class RowConstructor(Expression):
-    values: List[Value] = attr.ib()
+    values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
         self.data_type = row(dtypes=[value.data_type for value in self.values])
-- 
2.43.0

