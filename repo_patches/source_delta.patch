From 117f662561a4aa95580e3f22050342ad66d0f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 01/67] fix: make - and / chains in expressions associate to
 the left

---
 src/spl/parser.rs | 56 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..352146f 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -983,39 +983,63 @@ pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
     alt((expr_base,))(input)
 }
 
+/// Combines a chain of same-precedence operations so that it means `((a op b) op c) ...`.
+/// Nesting to the right is only equivalent after an associative operator (`+`, `*`),
+/// so `a - b - c` has to become `(a - b) - c`.
+fn combine_operator_chain(
+    (first, rest): (ast::Expr, Vec<(impl ToString, ast::Expr)>),
+) -> ast::Expr {
+    let mut operands = vec![first];
+    let mut symbols: Vec<String> = vec![];
+    for (op, right) in rest {
+        let symbol = op.to_string();
+        match symbols.last() {
+            // The preceding operator isn't associative, so it applies to its own operands first
+            Some(last) if !matches!(last.as_str(), "+" | "*") => {
+                let last = symbols.pop().unwrap();
+                let middle = operands.pop().unwrap();
+                let left = operands.pop().unwrap();
+                operands.push(ast::Binary::new(left, last, middle).into());
+            }
+            _ => {}
+        }
+        symbols.push(symbol);
+        operands.push(right);
+    }
+    let mut result = operands.pop().unwrap();
+    while let (Some(left), Some(op)) = (operands.pop(), symbols.pop()) {
+        result = ast::Binary::new(left, op, result).into();
+    }
+    result
+}
+
 pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr2,
-            opt(pair(
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr2,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        combine_operator_chain,
+    )(input)
 }
 
 pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
+    map(
         pair(
             expr3,
-            opt(pair(
+            many0(pair(
                 ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
+                expr3,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
-    ),))(input)
+        combine_operator_chain,
+    )(input)
 }
 
 pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From 5b9d24bf8eab04649ed8f7a0520d3df0bfb5d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 02/67] fix: render SPL string concatenation as F.concat

---
 src/pyspark/transpiler/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..cce3c53 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -57,6 +57,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left], [right])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
-- 
2.43.0


From d468e377ea80362eee25a48da8c426c87a55d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/67] fix: escape quotes and line breaks in generated Python
 string literals

---
 src/commands/cmd_make_results/pyspark.rs |  4 +-
 src/pyspark/ast.rs                       | 62 ++++++++++++++++++------
 src/pyspark/transpiler/expr.rs           |  2 +-
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..2c4751b 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(PyLiteral::from(self.server.clone()).0)),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(PyLiteral::from(group).0)),
                         None => column_like!(lit(None)),
                     },
                 );
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..c0be353 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -9,6 +9,30 @@ use std::sync::atomic::{AtomicUsize, Ordering};
 // #[pyclass(frozen,eq,hash)]
 pub struct Base();
 
+/// Renders text as the contents of a Python string literal delimited by `quote`, so that neither
+/// the delimiter nor a line break in the text can end the literal.
+/// Backslash sequences are kept the way they were written.
+pub fn escape_py_str(value: impl AsRef<str>, quote: char) -> String {
+    let mut escaped = String::new();
+    let mut chars = value.as_ref().chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                escaped.push('\\');
+                escaped.push(chars.next().unwrap_or('\\'));
+            }
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            c if c == quote => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 // #[pyclass(frozen,eq,hash)]
 pub struct PyLiteral(pub String);
@@ -24,12 +48,12 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(format!("\"{}\"", escape_py_str(value, '"')))
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(format!("\"{}\"", escape_py_str(value, '"')))
     }
 }
 
@@ -219,7 +243,7 @@ pub(crate) use column_like;
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col('{}')", escape_py_str(name, '\''))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -245,9 +269,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias('{}')",
+                col.to_spark_query(ctx)?,
+                escape_py_str(name, '\'')
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +347,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(format!("\"{}\"", escape_py_str(name, '"')).into()),
         }
     }
 }
@@ -355,7 +381,8 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals
+                .push(format!("\"{}\": {}", escape_py_str(key, '"'), primary_df_code).to_string());
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -772,7 +799,9 @@ impl Default for DataFrame {
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
+            DataFrame::Source { name } => {
+                Ok(format!("spark.table('{}')", escape_py_str(name, '\'')).into())
+            }
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
                 name,
@@ -872,7 +901,7 @@ impl ToSparkQuery for DataFrame {
             } => Ok(format!(
                 "{}.withColumn('{}', {},)",
                 source.to_spark_query(ctx)?,
-                name,
+                escape_py_str(name, '\''),
                 column.to_spark_query(ctx)?,
             )
             .into()),
@@ -883,8 +912,8 @@ impl ToSparkQuery for DataFrame {
             } => Ok(format!(
                 "{}.withColumnRenamed('{}', '{}',)",
                 source.to_spark_query(ctx)?,
-                old_name,
-                new_name,
+                escape_py_str(old_name, '\''),
+                escape_py_str(new_name, '\''),
             )
             .into()),
             DataFrame::OrderBy { source, columns } => {
@@ -924,9 +953,12 @@ impl ToSparkQuery for DataFrame {
                 join_type
             )
             .into()),
-            DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
-            }
+            DataFrame::Alias { source, name } => Ok(format!(
+                "{}.alias('{}',)",
+                source.to_spark_query(ctx)?,
+                escape_py_str(name, '\''),
+            )
+            .into()),
             DataFrame::ArbitraryMethod {
                 source,
                 method,
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index cce3c53..e58f8a7 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -95,7 +95,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: format!("'{}'", escape_py_str(val, '\'')),
                 }
                 .into())
             }
-- 
2.43.0


From e951c916e33c2c3f49b67e062ff708471a559e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 04/67] fix: keep backslashes that only Python would treat as
 escape sequences

---
 src/pyspark/ast.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index c0be353..248a233 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -11,22 +11,22 @@ pub struct Base();
 
 /// Renders text as the contents of a Python string literal delimited by `quote`, so that neither
 /// the delimiter nor a line break in the text can end the literal.
-/// Backslash sequences are kept the way they were written.
+/// Only `\"` and `\\` are escape sequences in SPL, so a backslash that Python would take for the
+/// start of one of its other escape sequences (e.g. `\b` in a regular expression) is doubled.
 pub fn escape_py_str(value: impl AsRef<str>, quote: char) -> String {
+    const PYTHON_ESCAPES: &str = "abfnrtvxuUN01234567\n\r";
+
     let mut escaped = String::new();
-    let mut chars = value.as_ref().chars();
+    let mut chars = value.as_ref().chars().peekable();
     while let Some(c) = chars.next() {
         match c {
-            '\\' => {
-                escaped.push('\\');
-                escaped.push(chars.next().unwrap_or('\\'));
-            }
+            '\\' => match chars.next_if(|next| !PYTHON_ESCAPES.contains(*next)) {
+                Some(next) => escaped.extend(['\\', next]),
+                None => escaped.push_str("\\\\"),
+            },
             '\n' => escaped.push_str("\\n"),
             '\r' => escaped.push_str("\\r"),
-            c if c == quote => {
-                escaped.push('\\');
-                escaped.push(c);
-            }
+            c if c == quote => escaped.extend(['\\', c]),
             c => escaped.push(c),
         }
     }
-- 
2.43.0


From bc511b857e272809500b57f4ad77efa3fdaa75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 05/67] fix: keep leading whitespace of quoted strings

---
 src/spl/parser.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 352146f..8878e0f 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,11 +447,10 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
-    .parse(input)
+    ))))(input)
 }
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
@@ -468,10 +467,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
@@ -492,11 +491,11 @@ pub fn wildcard(input: &str) -> IResult<&str, ast::Wildcard> {
 pub fn double_quoted_alt(input: &str) -> IResult<&str, &str> {
     delimited(
         tag(r#"""#),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             tag(r#"\""#),
             tag(r#"\\"#),
             recognize(none_of(r#""\"#)),
-        ))))),
+        )))),
         tag(r#"""#),
     )(input)
 }
-- 
2.43.0


From e7cc0a2f96080128ea87d44f4be5b3c25ebadac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 06/67] fix: read the indexes of a search in a deterministic
 order

---
 src/commands/cmd_search/pyspark.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..f5bec58 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -4,6 +4,7 @@ use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
+#[cfg(test)]
 use std::collections::HashSet;
 
 fn _is_index(expr: &ast::Expr) -> bool {
@@ -16,7 +17,7 @@ fn _is_index(expr: &ast::Expr) -> bool {
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
-    indices: &mut HashSet<String>,
+    indices: &mut impl Extend<String>,
     ctx: &PysparkTranspileContext,
 ) -> Result<Option<ast::Expr>> {
     match expr.clone() {
@@ -32,7 +33,8 @@ fn split_conditions(
                 (true, "=", false) | (false, "=", true) => {
                     ensure!(all_ands, "Cannot specify an index under an OR branch");
                     let compare_value = if left_is_index { *right } else { *left };
-                    indices.insert(compare_value.with_context(ctx).try_into()?);
+                    let index: String = compare_value.with_context(ctx).try_into()?;
+                    indices.extend([index]);
                     Ok(None)
                 }
                 (true, _, true) | (true, _, _) | (_, _, true) => {
@@ -175,8 +177,15 @@ impl PipelineTransformer for SearchCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
-        let mut indices = HashSet::new();
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        let mut all_indices = vec![];
+        let condition_expr = split_conditions(&self.expr, true, &mut all_indices, &state.ctx)?;
+        // Each index is read once, in the order in which the query mentions them
+        let mut indices: Vec<String> = vec![];
+        for index in all_indices {
+            if !indices.contains(&index) {
+                indices.push(index);
+            }
+        }
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
             for new_index in indices.into_iter() {
-- 
2.43.0


From 760554d84d905f00e0823035c4534e45376372c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 07/67] fix: fields - removes the listed fields

---
 src/commands/cmd_fields/pyspark.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..7201f66 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,18 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| column_like!(py_lit(name.clone())).into())
+                .collect();
+
+            df = df.arbitrary_method("drop", names);
+
+            return Ok(state.with_df(df));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
-- 
2.43.0


From 3b95b9b1a9659033ed838eed8d03ae909ce7fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 08/67] fix: lookup returns the joined rows

---
 src/commands/cmd_lookup/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
-- 
2.43.0


From 4ee087d96d651ea7f6b04a4e7f601fab7d65377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 09/67] fix: reject a negative head limit and do not overflow
 it

---
 src/commands/cmd_head/pyspark.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_head/pyspark.rs b/src/commands/cmd_head/pyspark.rs
index b27bf3d..3f09069 100644
--- a/src/commands/cmd_head/pyspark.rs
+++ b/src/commands/cmd_head/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_head::spl::HeadCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for HeadCommand {
     fn transform_standalone(
@@ -32,22 +32,27 @@ impl PipelineTransformer for HeadCommand {
                 };
                 let limit = match (was_left, symbol.as_str()) {
                     (true, "<") => limit_value,
-                    (true, "<=") => limit_value + 1,
+                    (true, "<=") => limit_value.saturating_add(1),
                     (false, ">") => limit_value,
-                    (false, ">=") => limit_value + 1,
+                    (false, ">=") => limit_value.saturating_add(1),
                     _ => bail!(
                         "Unsupported `count` comparison ({}, {}) for head command",
                         was_left,
                         symbol
                     ),
-                } + if self.keep_last.0 { 1 } else { 0 };
-                limit
+                };
+                limit.saturating_add(if self.keep_last.0 { 1 } else { 0 })
             }
             _ => bail!(
                 "Limit for head command must be an integer (or equivalent `count<N` expression)"
             ),
         };
 
+        ensure!(
+            limit >= 0,
+            "Limit for head command cannot be negative: {}",
+            limit
+        );
         df = df.limit(limit as u64);
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 76829de31ef677a5149ffb102fadd8d741c84e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 10/67] fix: reject unknown or malformed commands after a pipe
 instead of searching for their text

---
 src/spl/parser.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 8878e0f..4e4d5d0 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1228,6 +1228,13 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | _map
 //     | impliedSearch)
 pub fn command(input: &str) -> IResult<&str, ast::Command> {
+    alt((named_command, into(SearchParser::parse)))(input)
+}
+
+/// A command introduced by its name.
+/// Only the first command of a pipeline may leave out the name `search`; anywhere else that would
+/// turn commands we don't know (or can't parse) into searches for the words they are written with.
+fn named_command(input: &str) -> IResult<&str, ast::Command> {
     alt((
         // `alt` has a hard count limit, so we just break it up into sub-alts
         alt((
@@ -1268,16 +1275,29 @@ pub fn command(input: &str) -> IResult<&str, ast::Command> {
             into(TStatsParser::parse),
             into(WhereParser::parse),
         )),
-        into(SearchParser::parse),
+        preceded(
+            peek(pair(tag_no_case("search"), multispace1)),
+            into(SearchParser::parse),
+        ),
     ))(input)
 }
+
+fn commands(input: &str) -> IResult<&str, Vec<ast::Command>> {
+    map(
+        opt(pair(command, many0(preceded(ws(tag("|")), named_command)))),
+        |commands| match commands {
+            Some((first, rest)) => std::iter::once(first).chain(rest).collect(),
+            None => vec![],
+        },
+    )(input)
+}
 //
 //   def subSearch[_: P]: P[Pipeline] = "[" ~ (command rep(sep = "|")) ~ "]" map Pipeline
 pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
         delimited(
             ws(tag("[")),
-            preceded(opt(ws(tag("|"))), separated_list0(ws(tag("|")), command)),
+            preceded(opt(ws(tag("|"))), commands),
             ws(tag("]")),
         ),
         |commands| ast::Pipeline { commands },
@@ -1287,10 +1307,7 @@ pub fn sub_search(input: &str) -> IResult<&str, ast::Pipeline> {
 //   def pipeline[_: P]: P[Pipeline] = (command rep(sep = "|")) ~ End map Pipeline
 pub fn pipeline(input: &str) -> IResult<&str, ast::Pipeline> {
     map(
-        preceded(
-            opt(ws(tag("|"))),
-            all_consuming(ws(separated_list0(ws(tag("|")), command))),
-        ),
+        preceded(opt(ws(tag("|"))), all_consuming(ws(commands))),
         |commands| ast::Pipeline { commands },
     )(input)
 }
-- 
2.43.0


From b47c289bf2b08ee6be05f4b1d73ab95e9214f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 11/67] fix: keep the statements a data frame depends on in
 front of the expression that uses it

---
 src/pyspark/ast.rs  | 151 ++++++++++++++++++++++----------------------
 src/pyspark/base.rs |  20 ++++++
 2 files changed, 95 insertions(+), 76 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 248a233..cb3f89e 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -856,109 +856,111 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.select({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.select({},)", source, columns)))
+            }
+            DataFrame::Where { source, condition } => {
+                let condition = condition.to_spark_query(ctx)?;
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.where({},)", source, condition)))
             }
-            DataFrame::Where { source, condition } => Ok(format!(
-                "{}.where({},)",
-                source.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-            )
-            .into()),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
-                    "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
-                    columns?.join("")
-                )
-                .into())
+                let columns = columns?.join("");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.groupBy([{}])", source, columns)))
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.agg({},)", source, columns)))
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
-                "{}.withColumn('{}', {},)",
-                source.to_spark_query(ctx)?,
-                escape_py_str(name, '\''),
-                column.to_spark_query(ctx)?,
-            )
-            .into()),
+            } => {
+                let column = column.to_spark_query(ctx)?;
+                let name = escape_py_str(name, '\'');
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.withColumn('{}', {},)", source, name, column)))
+            }
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
-                "{}.withColumnRenamed('{}', '{}',)",
-                source.to_spark_query(ctx)?,
-                escape_py_str(old_name, '\''),
-                escape_py_str(new_name, '\''),
-            )
-            .into()),
+            } => {
+                let old_name = escape_py_str(old_name, '\'');
+                let new_name = escape_py_str(new_name, '\'');
+                Ok(source.to_spark_query(ctx)?.map_code(|source| {
+                    format!(
+                        "{}.withColumnRenamed('{}', '{}',)",
+                        source, old_name, new_name
+                    )
+                }))
+            }
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                let columns = columns?.join(", ");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.orderBy({},)", source, columns)))
             }
-            DataFrame::UnionByName { source, other } => Ok(format!(
-                "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
+            DataFrame::UnionByName { source, other } => Ok(source.to_spark_query(ctx)?.combine(
                 other.to_spark_query(ctx)?,
-            )
-            .into()),
-            DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
-            }
-            DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
-            }
+                |source, other| {
+                    format!(
+                        "{}.unionByName({}, allowMissingColumns=True,)",
+                        source, other
+                    )
+                },
+            )),
+            DataFrame::Limit { source, limit } => Ok(source
+                .to_spark_query(ctx)?
+                .map_code(|source| format!("{}.limit({},)", source, limit))),
+            DataFrame::Tail { source, limit } => Ok(source
+                .to_spark_query(ctx)?
+                .map_code(|source| format!("{}.tail({})", source, limit))),
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
-                "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-                join_type
-            )
-            .into()),
-            DataFrame::Alias { source, name } => Ok(format!(
-                "{}.alias('{}',)",
-                source.to_spark_query(ctx)?,
-                escape_py_str(name, '\''),
-            )
-            .into()),
+            } => {
+                let condition = condition.to_spark_query(ctx)?;
+                Ok(source.to_spark_query(ctx)?.combine(
+                    other.to_spark_query(ctx)?,
+                    |source, other| {
+                        format!(
+                            "{}.join({}, {}, '{}',)",
+                            source, other, condition, join_type
+                        )
+                    },
+                ))
+            }
+            DataFrame::Alias { source, name } => {
+                let name = escape_py_str(name, '\'');
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.alias('{}',)", source, name)))
+            }
             DataFrame::ArbitraryMethod {
                 source,
                 method,
@@ -968,13 +970,10 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
-                    method,
-                    params?.join(",")
-                )
-                .into())
+                let params = params?.join(",");
+                Ok(source
+                    .to_spark_query(ctx)?
+                    .map_code(|source| format!("{}.{}({},)", source, method, params)))
             }
         }
     }
diff --git a/src/pyspark/base.rs b/src/pyspark/base.rs
index b64b78b..ca0610a 100644
--- a/src/pyspark/base.rs
+++ b/src/pyspark/base.rs
@@ -57,6 +57,26 @@ impl PythonCode {
     }
 }
 
+impl PythonCode {
+    /// Builds a larger expression out of the primary code, keeping the lines it depends on
+    pub fn map_code(self, f: impl FnOnce(String) -> String) -> Self {
+        Self {
+            primary_df_code: f(self.primary_df_code),
+            preface: self.preface,
+        }
+    }
+
+    /// Like `map_code`, for an expression that is built out of two data frames
+    pub fn combine(self, other: Self, f: impl FnOnce(String, String) -> String) -> Self {
+        let mut preface = self.preface;
+        preface.extend(other.preface);
+        Self {
+            primary_df_code: f(self.primary_df_code, other.primary_df_code),
+            preface,
+        }
+    }
+}
+
 impl From<String> for PythonCode {
     fn from(primary_df_code: String) -> Self {
         Self {
-- 
2.43.0


From daf3cc1ec36b3050ab860aead750660d963cec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 12/67] fix: match AND, OR and NOT as whole words in any case

---
 src/spl/operators.rs | 28 +++++++++++++++++++++++++---
 src/spl/parser.rs    |  6 +++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/spl/operators.rs b/src/spl/operators.rs
index 69eb131..bb5071e 100644
--- a/src/spl/operators.rs
+++ b/src/spl/operators.rs
@@ -1,7 +1,8 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::character::complete::{multispace0, multispace1};
-use nom::sequence::delimited;
+use nom::character::complete::{alphanumeric1, multispace0, multispace1, one_of};
+use nom::combinator::{not, recognize, value};
+use nom::sequence::{delimited, terminated};
 use nom::IResult;
 
 pub trait OperatorSymbolTrait {
@@ -11,17 +12,38 @@ pub trait OperatorSymbolTrait {
         tag_no_case(Self::SYMBOL)(input)
     }
 }
+
+/// Matches an operator that is spelled as a word: in any case, but only as a whole word
+/// (`order=2` doesn't start with an `OR`). Results in the canonical spelling of the operator.
+fn word_operator<'a>(symbol: &'static str, input: &'a str) -> IResult<&'a str, &'a str> {
+    value(
+        symbol,
+        terminated(
+            tag_no_case(symbol),
+            not(alt((alphanumeric1, recognize(one_of("_*:/-%{}@\\$."))))),
+        ),
+    )(input)
+}
+
 #[derive(Debug, PartialEq, Clone)]
 pub struct UnaryNot;
 impl OperatorSymbolTrait for UnaryNot {
     const SYMBOL: &'static str = "NOT";
     const PRECEDENCE: i32 = 2;
+
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        word_operator(Self::SYMBOL, input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct Or;
 impl OperatorSymbolTrait for Or {
     const SYMBOL: &'static str = "OR";
     const PRECEDENCE: i32 = 9;
+
+    fn pattern(input: &str) -> IResult<&str, &str> {
+        word_operator(Self::SYMBOL, input)
+    }
 }
 #[derive(Debug, PartialEq, Clone)]
 pub struct And;
@@ -29,7 +51,7 @@ impl OperatorSymbolTrait for And {
     const SYMBOL: &'static str = "AND";
     const PRECEDENCE: i32 = 8;
     fn pattern(input: &str) -> IResult<&str, &str> {
-        alt((tag_no_case("AND"), tag(" ")))(input)
+        alt((|i| word_operator(Self::SYMBOL, i), tag(" ")))(input)
     }
 }
 #[derive(Debug, PartialEq, Clone)]
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 4e4d5d0..779ebab 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1338,7 +1338,7 @@ pub fn combine_all_expressions(exprs: Vec<ast::Expr>, symbol: impl ToString) ->
 // <logical-expression> | <time-opts> | <search-modifier> | NOT <logical-expression> | <index-expression> | <comparison-expression> | <logical-expression> [OR] <logical-expression>
 pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
     map(
-        separated_list1(ws(tag_no_case("OR")), logical_expression_group),
+        separated_list1(ws(operators::Or::pattern), logical_expression_group),
         |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
     )(input)
 }
@@ -1346,7 +1346,7 @@ pub fn logical_expression(input: &str) -> IResult<&str, ast::Expr> {
 pub fn logical_expression_group(input: &str) -> IResult<&str, ast::Expr> {
     map(
         separated_list1(
-            alt((ws(tag_no_case("AND")), multispace1)),
+            alt((ws(operators::And::pattern), multispace1)),
             logical_expression_term,
         ),
         |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
@@ -1357,7 +1357,7 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         parenthesized(logical_expression),
         map(
-            preceded(ws(tag_no_case("NOT")), logical_expression_term),
+            preceded(ws(operators::UnaryNot::pattern), logical_expression_term),
             |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
         ),
         map(time_opts, |opts| {
-- 
2.43.0


From 37a51b94fbe7356b30097e6b3f1469e9cec4b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 13/67] fix: where compares arbitrary expressions, including
 two fields

---
 src/commands/cmd_where/spl.rs |  4 ++--
 src/spl/parser.rs             | 39 ++++++++++++++++++++++++++++++++++-
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_where/spl.rs b/src/commands/cmd_where/spl.rs
index edad280..ded234c 100644
--- a/src/commands/cmd_where/spl.rs
+++ b/src/commands/cmd_where/spl.rs
@@ -1,6 +1,6 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::{Expr, ParsedCommandOptions};
-use crate::spl::parser::logical_expression;
+use crate::spl::parser::where_expression;
 use crate::spl::python::*;
 use nom::combinator::map;
 use nom::IResult;
@@ -35,7 +35,7 @@ impl SplCommand<WhereCommand> for WhereParser {
     type Options = WhereCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, WhereCommand> {
-        map(logical_expression, |v| WhereCommand { expr: v })(input)
+        map(where_expression, |v| WhereCommand { expr: v })(input)
     }
 }
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 779ebab..efd00f4 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -1370,6 +1370,43 @@ pub fn logical_expression_term(input: &str) -> IResult<&str, ast::Expr> {
     ))(input)
 }
 
+/// The condition of a `where` command: comparisons of arbitrary expressions,
+/// combined by NOT, AND and OR (from tightest to loosest).
+pub fn where_expression(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        separated_list1(ws(operators::Or::pattern), where_expression_group),
+        |exprs| combine_all_expressions(exprs, operators::Or::SYMBOL).unwrap(),
+    )(input)
+}
+
+fn where_expression_group(input: &str) -> IResult<&str, ast::Expr> {
+    map(
+        separated_list1(
+            alt((ws(operators::And::pattern), multispace1)),
+            where_expression_term,
+        ),
+        |exprs| combine_all_expressions(exprs, operators::And::SYMBOL).unwrap(),
+    )(input)
+}
+
+fn where_expression_term(input: &str) -> IResult<&str, ast::Expr> {
+    alt((
+        // A condition in parentheses, as opposed to an operand like in `(a + b) > c`
+        terminated(
+            parenthesized(where_expression),
+            not(ws(alt((
+                recognize(one_of("+-*/.<>=")),
+                recognize(tag("!=")),
+            )))),
+        ),
+        map(
+            preceded(ws(operators::UnaryNot::pattern), where_expression_term),
+            |expr| ast::Unary::new(operators::UnaryNot::SYMBOL, expr).into(),
+        ),
+        expr6,
+    ))(input)
+}
+
 // <comparison-expression>
 // Syntax: <field><comparison-operator><value> | <field> IN (<value-list>)
 pub fn comparison_expression(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From 5f249aef58b7cb14d4409469ea856fe6953a3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 14/67] fix: unquoted values in a search are text, not field
 names

---
 src/commands/cmd_search/pyspark.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index f5bec58..b2ba623 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -78,6 +78,31 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
+/// In a search, the right-hand side of a comparison is a value, even if it isn't quoted:
+/// `user=bob` looks for the text "bob", not for rows in which `user` and `bob` are the same.
+fn compare_to_values(expr: &ast::Expr) -> ast::Expr {
+    match expr.clone() {
+        ast::Expr::Unary(ast::Unary { symbol, right }) => {
+            ast::Unary::new(symbol, compare_to_values(&right)).into()
+        }
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => match (symbol.as_str(), *right) {
+            ("AND" | "OR", right) => {
+                ast::Binary::new(compare_to_values(&left), symbol, compare_to_values(&right)).into()
+            }
+            (
+                "=" | "==" | "!=" | "<" | "<=" | ">" | ">=",
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(name)))),
+            ) => ast::Binary::new(*left, symbol, ast::StrValue::from(name)).into(),
+            (_, right) => ast::Binary::new(*left, symbol, right).into(),
+        },
+        expr => expr,
+    }
+}
+
 const INDEX: &str = "index";
 const SOURCE: &str = "source";
 const SOURCE_TYPE: &str = "sourcetype";
@@ -94,7 +119,7 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut exprs = vec![];
-        break_down_ands(&self.expr, &mut exprs);
+        break_down_ands(&compare_to_values(&self.expr), &mut exprs);
 
         let df = state.df.clone();
 
@@ -203,6 +228,7 @@ impl PipelineTransformer for SearchCommand {
         df = match condition_expr {
             None => df,
             Some(condition) => {
+                let condition = compare_to_values(&condition);
                 let condition: Expr = condition.with_context(&state.ctx).try_into()?;
                 df.where_(condition.into_search_expr())
             }
-- 
2.43.0


From cc258bb4ecbb391c7eafb7a7142985ba351c4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 15/67] fix: pass every field to the runtime as a valid Python
 argument, in conditions if need be

---
 src/commands/cmd_eval/pyspark.rs    | 32 ++++++++++---------
 src/commands/cmd_search/pyspark.rs  | 48 +++++++++++++++++++++++++----
 src/commands/cmd_stats/pyspark.rs   |  7 ++++-
 src/commands/cmd_t_stats/pyspark.rs |  9 ++++++
 src/pyspark/ast.rs                  | 28 ++++++++++++++++-
 5 files changed, 101 insertions(+), 23 deletions(-)

diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..b1e5353 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -4,7 +4,7 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
 
 impl EvalCommand {
     fn _eval_expr(&self, expr: impl TryInto<Expr, Error = anyhow::Error>) -> Result<ColumnLike> {
@@ -21,21 +21,23 @@ impl PipelineTransformer for EvalCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
-        let kwargs: Result<Vec<(String, RuntimeExpr)>> = self
-            .fields
-            .iter()
-            .map(|(field, expr)| {
-                Ok((
-                    field.0.to_string(),
-                    RuntimeExpr::from(
-                        self._eval_expr(expr.clone().with_context(&state.ctx))?
-                            .unaliased(),
-                    ),
-                ))
-            })
-            .collect();
+        let mut df = state.df.clone();
+        let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
 
-        let df = DataFrame::runtime(state.df.clone(), "eval", vec![], kwargs?, &state.ctx);
+        for (ast::Field(name), expr) in self.fields.iter() {
+            ensure!(name != "df", "Cannot pass `df` to the runtime `eval`");
+            if !DataFrame::is_free_runtime_kwarg(name, &kwargs, &[]) {
+                // A call can't assign the same field twice, so the rest is up to another call
+                let args = std::mem::take(&mut kwargs);
+                df = Some(DataFrame::runtime(df, "eval", vec![], args, &state.ctx));
+            }
+            let value = self
+                ._eval_expr(expr.clone().with_context(&state.ctx))?
+                .unaliased();
+            kwargs.push((name.to_string(), RuntimeExpr::from(value)));
+        }
+
+        let df = DataFrame::runtime(df, "eval", vec![], kwargs, &state.ctx);
 
         Ok(state.with_df(df))
     }
diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index b2ba623..ca44504 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -113,6 +113,25 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+/// The parameters of the runtime's `search` that aren't fields
+const SEARCH_PARAMETERS: [&str; 10] = [
+    "df",
+    INDEX,
+    SOURCE,
+    "source_type",
+    HOST,
+    "host_tag",
+    "event_type",
+    "event_type_tag",
+    "saved_splunk",
+    SPLUNK_SERVER,
+];
+
+fn search_condition(expr: ast::Expr, ctx: &PysparkTranspileContext) -> Result<RuntimeExpr> {
+    let condition: Expr = expr.with_context(ctx).try_into()?;
+    Ok(condition.into_search_expr().into())
+}
+
 impl PipelineTransformer for SearchCommand {
     fn transform_for_runtime(
         &self,
@@ -175,6 +194,11 @@ impl PipelineTransformer for SearchCommand {
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
                             _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
                         };
+                            ensure!(
+                                DataFrame::is_free_runtime_kwarg(name, &kwargs, &[]),
+                                "`{}` can only be specified once",
+                                name
+                            );
                             kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
                         }
                         (
@@ -182,14 +206,26 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) => kwargs.push((
-                            name.to_string(),
-                            (*right).with_context(&state.ctx).try_into()?,
-                        )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                        ) if DataFrame::is_free_runtime_kwarg(
+                            &name,
+                            &kwargs,
+                            &SEARCH_PARAMETERS,
+                        ) && !matches!(
+                            *right,
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(
+                                ast::Constant::Wildcard(_) | ast::Constant::IPv4CIDR(_)
+                            ))
+                        ) =>
+                        {
+                            kwargs.push((
+                                name.to_string(),
+                                (*right).with_context(&state.ctx).try_into()?,
+                            ))
+                        }
+                        _ => args.push(search_condition(expr, &state.ctx)?),
                     }
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                _ => args.push(search_condition(expr, &state.ctx)?),
             }
         }
 
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..a3a5a67 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -6,8 +6,8 @@ use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
 use anyhow::Result;
+use anyhow::{bail, ensure};
 use log::warn;
 
 fn transform_stats_runtime_expr(
@@ -68,6 +68,11 @@ impl PipelineTransformer for StatsCommand {
 
         for e in self.funcs.iter() {
             let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+            ensure!(
+                DataFrame::is_free_runtime_kwarg(&name, &all_kwargs.0, &["df", "by"]),
+                "Cannot name a runtime `stats` aggregation `{}`",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..d53b3fb 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -77,6 +77,15 @@ impl PipelineTransformer for TStatsCommand {
 
         for e in self.exprs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+            ensure!(
+                DataFrame::is_free_runtime_kwarg(
+                    &name,
+                    &all_kwargs.0,
+                    &["df", "fill_null_value", "from_", "where", "by"]
+                ),
+                "Cannot name a runtime `tstats` aggregation `{}`",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index cb3f89e..8af1190 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -33,6 +33,24 @@ pub fn escape_py_str(value: impl AsRef<str>, quote: char) -> String {
     escaped
 }
 
+/// Passes `code` as a keyword argument, whether or not its name can be written as a Python name.
+fn py_keyword_argument(name: &str, code: String) -> String {
+    const PYTHON_KEYWORDS: [&str; 35] = [
+        "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class",
+        "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global",
+        "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return",
+        "try", "while", "with", "yield",
+    ];
+
+    let is_identifier = name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    if is_identifier && !PYTHON_KEYWORDS.contains(&name) {
+        format!("{name}={code}")
+    } else {
+        format!("**{{'{}': {code}}}", escape_py_str(name, '\''))
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Hash)]
 // #[pyclass(frozen,eq,hash)]
 pub struct PyLiteral(pub String);
@@ -685,6 +703,14 @@ impl DataFrame {
             kwargs,
         }
     }
+    /// Can a column of this name be passed to a runtime function as one more keyword argument?
+    pub fn is_free_runtime_kwarg<T>(
+        name: &str,
+        kwargs: &[(String, T)],
+        parameters: &[&str],
+    ) -> bool {
+        !parameters.contains(&name) && kwargs.iter().all(|(other, _)| other != name)
+    }
     pub fn raw_source(code: impl ToString) -> DataFrame {
         DataFrame::RawSource {
             code: code.to_string(),
@@ -830,7 +856,7 @@ impl ToSparkQuery for DataFrame {
                         primary_df_code,
                     } = kwarg.to_spark_query(ctx)?;
                     all_preface.extend(preface);
-                    all_args.push(format!("{name}={primary_df_code}"));
+                    all_args.push(py_keyword_argument(name, primary_df_code));
                 }
                 let all_args_str = all_args.join(", ");
                 let full_command =
-- 
2.43.0


From c4db120e13f3b713963f982de5280b86024681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 16/67] fix: bin groups the field it is given

---
 src/commands/cmd_bin/pyspark.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..2bbc8ca 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -1,8 +1,10 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
+use anyhow::bail;
 
 impl PipelineTransformer for BinCommand {
     fn transform_standalone(
@@ -10,17 +12,22 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (col, col_name) = match self.field.clone() {
+            FieldOrAlias::Field(ast::Field(name)) => (column_like!(col(name.clone())).into(), name),
+            FieldOrAlias::Alias(ast::Alias { expr, name }) => {
+                let col: Expr = (*expr).with_context(&state.ctx).try_into()?;
+                (col, name)
+            }
         };
-        if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
-            let span = format!("{} {}", value, scale);
-            df = df.with_column(
-                col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
-            );
-        }
+        // Without a span we can't tell which bins the values belong to
+        let Some(ast::TimeSpan { value, scale }) = self.span.clone() else {
+            bail!("UNIMPLEMENTED: No implementation yet for `bin` without `span`")
+        };
+        let span = format!("{} {}", value, scale);
+        df = df.with_column(
+            col_name.clone(),
+            column_like!(window([col], [py_lit(span)])),
+        );
         let subfield = "start";
         df = df.with_column(
             col_name.clone(),
-- 
2.43.0


From 39dd589c415a213821be82bdb393d583e22a18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 17/67] fix: reject negative limits of sort, tail, top and rare

---
 src/commands/cmd_rare/spl.rs     | 6 +++---
 src/commands/cmd_sort/pyspark.rs | 3 ++-
 src/commands/cmd_tail/spl.rs     | 4 ++--
 src/commands/cmd_top/spl.rs      | 6 +++---
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/commands/cmd_rare/spl.rs b/src/commands/cmd_rare/spl.rs
index f6441b6..f033d58 100644
--- a/src/commands/cmd_rare/spl.rs
+++ b/src/commands/cmd_rare/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list0, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for RareCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,7 +112,7 @@ impl SplCommand<RareCommand> for RareParser {
     fn parse_body(input: &str) -> IResult<&str, RareCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(verify(opt(int), |n| !matches!(n, Some(n) if n.0 < 0))),
                 ws(Self::Options::match_options),
                 ws(field_list0),
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list0))),
diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index c5ee775..66d13e1 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -2,7 +2,7 @@ use crate::commands::cmd_sort::spl::SortCommand;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
 
 /// Converts a generic column-like expression into an explicitly ascending or descending ordering
 fn _ascending_or_descending(
@@ -61,6 +61,7 @@ impl PipelineTransformer for SortCommand {
 
         df = df.order_by(sort_fields?);
 
+        ensure!(self.count >= 0, "Invalid `sort` limit: {}", self.count);
         if self.count != 0 {
             df = df.limit(self.count as u64);
         }
diff --git a/src/commands/cmd_tail/spl.rs b/src/commands/cmd_tail/spl.rs
index f0187e9..ba08b83 100644
--- a/src/commands/cmd_tail/spl.rs
+++ b/src/commands/cmd_tail/spl.rs
@@ -2,7 +2,7 @@ use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::int;
 use crate::spl::python::*;
-use nom::combinator::map;
+use nom::combinator::{map, verify};
 use nom::IResult;
 use pyo3::prelude::*;
 
@@ -35,6 +35,6 @@ impl SplCommand<TailCommand> for TailParser {
     type Options = TailCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, TailCommand> {
-        map(int, |n| TailCommand { n: n.0 as u64 })(input)
+        map(verify(int, |n| n.0 >= 0), |n| TailCommand { n: n.0 as u64 })(input)
     }
 }
diff --git a/src/commands/cmd_top/spl.rs b/src/commands/cmd_top/spl.rs
index 09bd0ee..c631587 100644
--- a/src/commands/cmd_top/spl.rs
+++ b/src/commands/cmd_top/spl.rs
@@ -3,7 +3,7 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field_list1, int, ws};
 use crate::spl::python::*;
 use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
+use nom::combinator::{map, opt, verify};
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
@@ -95,7 +95,7 @@ impl TryFrom<ParsedCommandOptions> for TopCommandOptions {
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
             count_field: value.get_string("countfield", "count")?,
-            limit: value.get_int("limit", 10)? as u64,
+            limit: value.get_int("limit", 10)?.try_into()?,
             other_str: value.get_string("otherstr", "OTHER")?,
             percent_field: value.get_string("percentfield", "percent")?,
             show_count: value.get_boolean("showcount", true)?,
@@ -112,7 +112,7 @@ impl SplCommand<TopCommand> for TopParser {
     fn parse_body(input: &str) -> IResult<&str, TopCommand> {
         map(
             tuple((
-                ws(opt(int)),
+                ws(verify(opt(int), |n| !matches!(n, Some(n) if n.0 < 0))),
                 ws(Self::Options::match_options),
                 field_list1,
                 ws(opt(preceded(ws(tag_no_case("BY")), field_list1))),
-- 
2.43.0


From 14720642893c9df71bda88401d02c6a37111275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 18/67] fix: use Spark's own aggregations in standalone
 commands, and names the runtime knows in its own

---
 src/commands/cmd_stats/pyspark.rs |  5 +++++
 src/commands/stats_utils.rs       |  5 +++++
 src/functions/stat_fns.rs         | 28 +++-------------------------
 3 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index a3a5a67..1b1dfbb 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -27,6 +27,11 @@ fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
+    // Some names would shadow Python's own in the runtime
+    let name = match name.as_str() {
+        "sum" | "list" => format!("{}_", name),
+        _ => name,
+    };
     let expr: Expr = FunctionCall {
         func: format!("functions.stats.{}", name).to_string(),
         args: args?,
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..c954d4a 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -63,6 +63,11 @@ pub fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
+    // Some names would shadow Python's own in the runtime
+    let name = match name.as_str() {
+        "sum" | "list" => format!("{}_", name),
+        _ => name,
+    };
     let expr: Expr = FunctionCall {
         func: format!("functions.stats.{}", name).to_string(),
         args: args?,
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..4f961dd 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{ContextualizedExpr, PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -76,34 +76,12 @@ pub fn stats_fn(
     };
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    // The runtime's statistics can only be evaluated by the runtime's own commands
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
-    args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
-    let func = format!("functions.stats.{}", name);
-    let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
-    // }
-    // }
-}
-
 fn stats_fn_bare(
     name: String,
     args: Vec<ContextualizedExpr<ast::Expr>>,
-- 
2.43.0


From e77f9bc4eb0ec57f3c035fada5f0a978928c48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 19/67] fix: runtime eval functions return what they compute

---
 .../spl_transpiler/runtime/functions/eval.py   | 18 +++++++++---------
 .../spl_transpiler/runtime/functions/utils.py  |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..1cd84ff 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -17,7 +17,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +102,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
@@ -114,8 +114,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
@@ -249,7 +249,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -763,7 +763,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return sum(n.to_pyspark_expr() for n in nums)
 
 
 #
@@ -966,7 +966,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return sum(a.to_pyspark_expr() for a in args) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -987,7 +987,7 @@ def avg(*args: Expr) -> Expr:
 @enforce_types
 def max_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.greatest(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
@@ -1011,7 +1011,7 @@ def max_(*args: Expr) -> Expr:
 @enforce_types
 def min_(*args: Expr) -> Expr:
     return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
+        lambda a, b: F.least(a, b.to_pyspark_expr()),
         args[1:],
         args[0].to_pyspark_expr(),
     )
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..7559225 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -10,7 +10,7 @@ from pyspark.sql import functions as F
 @enforce_types
 def offset_time(time_col, offset: TimeSpan):
     return time_col + F.expr(
-        f"INTERVAL {offset.value} {offset.scale.to_ascii_uppercase()}"
+        f"INTERVAL {offset.value} {offset.scale.value.upper()}"
     )
 
 
-- 
2.43.0


From e62ba3d0d186c0a826a1f1ab9df8dc1a2543565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 20/67] fix: a runtime search of a data frame keeps its
 conditions on source, host and the like

---
 .../spl_transpiler/runtime/commands/search.py | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/commands/search.py b/python/spl_transpiler/runtime/commands/search.py
index a309437..ce48594 100644
--- a/python/spl_transpiler/runtime/commands/search.py
+++ b/python/spl_transpiler/runtime/commands/search.py
@@ -34,7 +34,26 @@ def search(
             splunk_server=splunk_server,
         )
 
-    conditions = []
+        conditions = []
+    else:
+        # There's no table left to choose, so these are fields of the rows like any other
+        named_fields = dict(
+            index=index,
+            source=source,
+            sourcetype=source_type,
+            host=host,
+            hosttag=host_tag,
+            eventtype=event_type,
+            eventtypetag=event_type_tag,
+            savedsplunk=saved_splunk,
+            splunk_server=splunk_server,
+        )
+        conditions = [
+            F.col(field) == value
+            for field, value in named_fields.items()
+            if value is not None
+        ]
+
     for expr in exprs:
         conditions.append(expr.to_pyspark_expr())
     for field, expr in field_exprs.items():
-- 
2.43.0


From e896a921f75f96241b995e16623e15d4b997552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 21/67] fix: searching a data frame for an index doesn't
 replace it by that index

---
 src/commands/cmd_search/pyspark.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index ca44504..027e4e5 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -239,7 +239,11 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut all_indices = vec![];
-        let condition_expr = split_conditions(&self.expr, true, &mut all_indices, &state.ctx)?;
+        let condition_expr = match state.df {
+            None => split_conditions(&self.expr, true, &mut all_indices, &state.ctx)?,
+            // There's no source left to choose, so `index` is a field of the rows like any other
+            Some(_) => Some(self.expr.clone()),
+        };
         // Each index is read once, in the order in which the query mentions them
         let mut indices: Vec<String> = vec![];
         for index in all_indices {
-- 
2.43.0


From 72ef1e85873ae7c52544028671baa797cc740e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 22/67] fix: an option's true or false may be followed directly
 by | or ]

---
 src/spl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index efd00f4..2477a84 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -439,7 +439,7 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
                 map(tag_no_case("false"), |_| false),
                 map(tag_no_case("f"), |_| false),
             )),
-            peek(alt((eof, multispace1, recognize(one_of("().:"))))),
+            peek(alt((eof, multispace1, recognize(one_of("().:|]"))))),
         ),
         ast::BoolValue::from,
     )(input)
-- 
2.43.0


From 177eebdda8789880ede49c47a0bfefd02aed68c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 23/67] fix: boolean literals are rendered as Python's True and
 False

---
 src/pyspark/transpiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index e58f8a7..1aefa10 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -102,7 +102,7 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(ColumnLike::literal(if val { "True" } else { "False" }).into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From 9944791ca24c672040cf17b7ee3fb23d41fb59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 24/67] fix: a command name may be followed directly by | or ]

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..b16b9f7 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -3,8 +3,8 @@ use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
-use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::character::complete::{multispace1, one_of};
+use nom::combinator::{eof, map, peek, recognize};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(recognize(one_of("|]"))))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From a29b24b7ca531d93db9d30b5bb1e476a30a1a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 25/67] fix: commands without a runtime version don't call the
 runtime's functions

---
 src/pyspark/transpiler/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pyspark/transpiler/mod.rs b/src/pyspark/transpiler/mod.rs
index 870473a..20d4e7e 100644
--- a/src/pyspark/transpiler/mod.rs
+++ b/src/pyspark/transpiler/mod.rs
@@ -30,9 +30,21 @@ pub trait PipelineTransformer: Debug {
     fn transform(&self, state: PipelineTransformState) -> Result<PipelineTransformState> {
         match state.ctx.runtime {
             RuntimeSelection::Disallow => self.transform_standalone(state),
-            RuntimeSelection::Allow => self
-                .transform_for_runtime(state.clone())
-                .or_else(|_| self.transform_standalone(state)),
+            RuntimeSelection::Allow => {
+                self.transform_for_runtime(state.clone()).or_else(|_| {
+                    // The runtime's functions can only be evaluated by the runtime's own commands
+                    let ctx = state.ctx.clone();
+                    let standalone_ctx = PysparkTranspileContext {
+                        runtime: RuntimeSelection::Disallow,
+                        ..ctx.clone()
+                    };
+                    let state = self.transform_standalone(PipelineTransformState {
+                        ctx: standalone_ctx,
+                        ..state
+                    })?;
+                    Ok(PipelineTransformState { ctx, ..state })
+                })
+            }
             RuntimeSelection::Require => self.transform_for_runtime(state.clone()),
         }
     }
-- 
2.43.0


From 5d382146bbf3533586685e73d1647080585182e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 26/67] fix: name a percentile without alias after the function
 as it is written

---
 src/functions/stat_fns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 4f961dd..e841a1c 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -77,9 +77,9 @@ pub fn stats_fn(
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
     // The runtime's statistics can only be evaluated by the runtime's own commands
-    let (df, expr) = stats_fn_bare(name, args, df)?;
+    let (df, expr) = stats_fn_bare(name.clone(), args, df)?;
 
-    Ok((df, expr.maybe_with_alias(maybe_alias)))
+    Ok((df, expr.unaliased().with_alias(maybe_alias.unwrap_or(name))))
 }
 
 fn stats_fn_bare(
-- 
2.43.0


From 08042a4c6a9ce1e4c537a4e27a4d6092019d8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 27/67] fix: the runtime's stats functions agree with those of
 standalone stats

---
 .../spl_transpiler/runtime/functions/stats.py | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..34a6af9 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -1,3 +1,5 @@
+import re
+from functools import partial
 from typing import Any, Literal
 
 from pydantic import BaseModel
@@ -41,14 +43,19 @@ def avg(value: Expr) -> AvgStatsFn:
 #         }),
 class CountStatsFn(StatsFunction):
     name: Literal["count"] = "count"
+    value: Expr | None = None
 
     def to_pyspark_expr_simple(self):
-        return F.count(F.lit(1))
+        if self.value is None:
+            return F.count(F.lit(1))
+        return F.count(self.value.to_pyspark_expr())
 
 
 @enforce_types
-def count() -> CountStatsFn:
-    return CountStatsFn()
+def count(*args: Expr) -> CountStatsFn:
+    if len(args) > 1:
+        raise ValueError("`count` takes at most one value")
+    return CountStatsFn(value=args[0]) if args else CountStatsFn()
 
 
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
@@ -63,7 +70,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
@@ -298,6 +305,19 @@ def stddev(value: Expr) -> StddevStatsFn:
     return StddevStatsFn(value=value)
 
 
+class StdevpStatsFn(StatsFunction):
+    name: Literal["stdevp"] = "stdevp"
+    value: Expr
+
+    def to_pyspark_expr_simple(self):
+        return F.stddev_pop(self.value.to_pyspark_expr())
+
+
+@enforce_types
+def stdevp(value: Expr) -> StdevpStatsFn:
+    return StdevpStatsFn(value=value)
+
+
 #         // sum(<value>)                         	 Returns the sum of the values in the field specified.
 #         "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
 
@@ -501,7 +521,7 @@ class EarliestTimeStatsFn(StatsFunction):
 
 
 @enforce_types
-def earliest_time() -> EarliestTimeStatsFn:
+def earliest_time(_value: Expr | None = None) -> EarliestTimeStatsFn:
     return EarliestTimeStatsFn()
 
 
@@ -540,7 +560,7 @@ class LatestTimeStatsFn(StatsFunction):
 
 
 @enforce_types
-def latest_time() -> LatestTimeStatsFn:
+def latest_time(_value: Expr | None = None) -> LatestTimeStatsFn:
     return LatestTimeStatsFn()
 
 
@@ -766,3 +786,18 @@ class RateSumStatsFn(StatsFunction):
 @enforce_types
 def rate_sum(value: Expr) -> RateSumStatsFn:
     return RateSumStatsFn(value=value)
+
+
+# The percentile functions have the percentile in their name, e.g. `exactperc95(<value>)`
+_PERCENTILE_FNS = {
+    "exactperc": exactperc,
+    "percentile": percentile,
+    "upperperc": upperperc,
+}
+
+
+def __getattr__(name: str):
+    match = re.fullmatch(r"([a-z]+)([0-9]+)", name)
+    if match is None or match[1] not in _PERCENTILE_FNS:
+        raise AttributeError(f"module {__name__!r} has no attribute {name!r}")
+    return partial(_PERCENTILE_FNS[match[1]], percentile=int(match[2]))
-- 
2.43.0


From 9ab66af3e18e5401f6397a254f9a5103a30fdad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 28/67] fix: the quotes of a quoted field name aren't part of
 the name

---
 src/spl/parser.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 2477a84..634a0ed 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -511,13 +511,19 @@ pub fn _token_not_t_f(input: &str) -> IResult<&str, &str> {
 
 //   def field[_: P]: P[Field] = token.filter(!Seq("t", "f").contains(_)) map Field
 fn _field_fmt(input: &str) -> IResult<&str, ast::Field> {
-    map(
-        recognize(separated_list1(
-            tag("."),
-            alt((_token_not_t_f, double_quoted)),
-        )),
-        |v: &str| ast::Field(v.into()),
-    )(input)
+    alt((
+        // A name as a whole may be quoted, and doesn't include the quotes then
+        map(terminated(double_quoted, not(tag("."))), |v: &str| {
+            ast::Field(v.into())
+        }),
+        map(
+            recognize(separated_list1(
+                tag("."),
+                alt((_token_not_t_f, double_quoted)),
+            )),
+            |v: &str| ast::Field(v.into()),
+        ),
+    ))(input)
 }
 
 pub fn field(input: &str) -> IResult<&str, ast::Field> {
-- 
2.43.0


From b6e5cd929a5b832f1d3e058110b687a2ec0cbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:51 +0000
Subject: [PATCH 29/67] fix: the alias of an aggregation may be quoted

---
 src/spl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 634a0ed..c0519a7 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1163,7 +1163,7 @@ pub fn aliased_field(input: &str) -> IResult<&str, ast::AliasedField> {
 //   def aliasedCall[_: P]: P[Alias] = call ~ W("as") ~ token map Alias.tupled
 pub fn aliased_call(input: &str) -> IResult<&str, ast::Alias> {
     map(
-        separated_pair(call, ws(tag_no_case("as")), token),
+        separated_pair(call, ws(tag_no_case("as")), alt((token, double_quoted))),
         |(expr, name)| ast::Alias {
             expr: Box::new(expr.into()),
             name: name.into(),
-- 
2.43.0


From 854b4f1c9c2911f6a5e36fb2b8f88805d9681ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 30/67] fix: the field of a search comparison may be quoted

---
 src/commands/cmd_search/pyspark.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 027e4e5..21f36b6 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -27,7 +27,13 @@ fn split_conditions(
             symbol,
             right,
         }) => {
-            let left_is_index = _is_index(left.as_ref());
+            let left_is_index = match left.as_ref() {
+                // The field of a comparison may be quoted
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(
+                    name,
+                )))) => name == "index" && !matches!(symbol.as_str(), "AND" | "OR"),
+                left => _is_index(left),
+            };
             let right_is_index = _is_index(right.as_ref());
             match (left_is_index, symbol.as_str(), right_is_index) {
                 (true, "=", false) | (false, "=", true) => {
@@ -78,7 +84,7 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
-/// In a search, the right-hand side of a comparison is a value, even if it isn't quoted:
+/// In a search, a comparison is between a field and a value, whether or not they are quoted:
 /// `user=bob` looks for the text "bob", not for rows in which `user` and `bob` are the same.
 fn compare_to_values(expr: &ast::Expr) -> ast::Expr {
     match expr.clone() {
@@ -93,10 +99,21 @@ fn compare_to_values(expr: &ast::Expr) -> ast::Expr {
             ("AND" | "OR", right) => {
                 ast::Binary::new(compare_to_values(&left), symbol, compare_to_values(&right)).into()
             }
-            (
-                "=" | "==" | "!=" | "<" | "<=" | ">" | ">=",
-                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(name)))),
-            ) => ast::Binary::new(*left, symbol, ast::StrValue::from(name)).into(),
+            ("=" | "==" | "!=" | "<" | "<=" | ">" | ">=", right) => {
+                let left: ast::Expr = match *left {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(
+                        ast::StrValue(name),
+                    ))) => ast::Field::from(name).into(),
+                    left => left,
+                };
+                let right: ast::Expr = match right {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                        name,
+                    )))) => ast::StrValue::from(name).into(),
+                    right => right,
+                };
+                ast::Binary::new(left, symbol, right).into()
+            }
             (_, right) => ast::Binary::new(*left, symbol, right).into(),
         },
         expr => expr,
-- 
2.43.0


From 5282786f3b7d45ae56174ada306fdda47624249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 31/67] fix: a line break in a search term stays a line break

---
 src/pyspark/transpiler/expr.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 1aefa10..0841c39 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -6,7 +6,6 @@ use crate::pyspark::transpiler::utils::join_as_binaries;
 use crate::spl::ast;
 use anyhow::{anyhow, bail};
 use phf::phf_map;
-use regex::Regex;
 
 static SIMPLE_OP_MAP: phf::Map<&'static str, &'static str> = phf_map! {
     "=" => "==",
@@ -211,8 +210,15 @@ impl ColumnLike {
                 column_like!([col("_raw")].ilike([py_lit(format!("%{}%", name))]))
             }
             ColumnLike::Literal { code } => {
-                column_like!([col("_raw")]
-                    .ilike([py_lit(format!("%{}%", Self::_strip_quotes(code.as_str())))]))
+                let pattern = match Self::_strip_quotes(code.as_str()) {
+                    // The code of a string is escaped already
+                    Some((_, text)) if !text.contains('"') => {
+                        PyLiteral(format!("\"%{}%\"", text))
+                    }
+                    Some((quote, text)) => PyLiteral(format!("{quote}%{text}%{quote}")),
+                    None => format!("%{}%", code).into(),
+                };
+                column_like!([col("_raw")].ilike([pattern]))
             }
 
             ColumnLike::UnaryNot { right } => ColumnLike::UnaryNot {
@@ -225,14 +231,10 @@ impl ColumnLike {
         }
     }
 
-    fn _strip_quotes(code: &str) -> &str {
-        let re_double: Regex = Regex::new(r#"^".+"$"#).unwrap();
-        let re_single: Regex = Regex::new(r#"^'.+'$"#).unwrap();
-        if re_double.is_match(code) | re_single.is_match(code) {
-            &code[1..code.len() - 1]
-        } else {
-            code
-        }
+    fn _strip_quotes(code: &str) -> Option<(char, &str)> {
+        ['\'', '"']
+            .into_iter()
+            .find_map(|q| Some((q, code.strip_prefix(q)?.strip_suffix(q)?)))
     }
 
     pub fn into_search_expr(self) -> Self {
-- 
2.43.0


From 2fb068420712f6e8ca7eabf4b3f203e57ba9d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 32/67] fix: expand macros once each, with arguments checked
 and inserted literally, and report recursion

---
 python/spl_transpiler/macros.py | 85 ++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 33 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..bb23436 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -81,41 +81,59 @@ class CombinedMacroLoader(MacroLoader):
         raise KeyError(f"No macro found for `{item}`")
 
 
-def substitute_macros(code, macros: MacroLoader):
+def _substitute_arguments(
+    macro_name: str, macro_spec: MacroDefinition, args: list[tuple[str | None, str]]
+) -> str:
+    if len(macro_spec.arguments) != len(args):
+        raise ValueError(
+            f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+        )
+    if all(name is None for name, _ in args):
+        values = dict(zip(macro_spec.arguments, [value for _, value in args]))
+    elif all(name is not None for name, _ in args):
+        values = dict(args)
+        if values.keys() != set(macro_spec.arguments):
+            raise ValueError(
+                f"Mismatched arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {args}"
+            )
+    else:
+        raise ValueError(
+            f"Mixture of named and positional arguments in macro call {macro_name}"
+        )
+
+    if not values:
+        return macro_spec.definition
+    # All at once, so that nothing in the value of an argument is taken for another one
+    return re.sub(
+        r"\$(" + "|".join(re.escape(name) for name in values) + r")\$",
+        lambda match: values[match.group(1)],
+        macro_spec.definition,
+    )
+
+
+def _expand_macros(code: str, macros: MacroLoader, active: tuple[str, ...]) -> str:
     (chunks, suffix) = detect_macros(code)
     query_parts = []
     for prefix, macro_call in chunks:
         query_parts.append(prefix)
 
         macro_name = macro_call.macro_name
-        args = macro_call.args
+        if macro_name in active:
+            raise ValueError(
+                f"Recursive macro definition: {' -> '.join((*active, macro_name))}"
+            )
 
+        # The arguments belong to the code around the call
+        args = [
+            (name, _expand_macros(value, macros, active))
+            for name, value in macro_call.args
+        ]
         macro_spec = MacroDefinition.model_validate(macros[macro_name])
-
-        macro_final_value = macro_spec.definition
-
-        if args:
-            if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(zip(macro_spec.arguments, [value for _, value in args]))
-            elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
-                args = dict(args)
-            else:
-                raise ValueError(
-                    f"Mixture of named and positional arguments in macro call {macro_name}"
-                )
-
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
-                )
+        macro_final_value = _expand_macros(
+            _substitute_arguments(macro_name, macro_spec, args),
+            macros,
+            (*active, macro_name),
+        )
 
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
@@ -128,14 +146,15 @@ def substitute_macros(code, macros: MacroLoader):
         query_parts.append(macro_final_value)
 
     query_parts.append(suffix)
-    final_query = "".join(query_parts)
-    final_query = final_query.rstrip().rstrip("|").strip()
+    return "".join(query_parts)
+
 
-    # Avoid infinite recursion
-    if final_query == code:
-        return final_query
+def substitute_macros(code, macros: MacroLoader):
+    final_query = _expand_macros(code, macros, ())
 
-    final_query = substitute_macros(final_query, macros)
+    # Nothing follows the last pipes
+    while (stripped_query := final_query.rstrip().rstrip("|").strip()) != final_query:
+        final_query = stripped_query
 
     log.debug(f"Resolved query '''{code}''' to '''{final_query}")
 
-- 
2.43.0


From 826b4bd0e3a663e4552e750f25b19bcb8fbe1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:40 +0000
Subject: [PATCH 33/67] fix: a macro may be named like a reserved word

---
 src/spl/macros.rs |  6 +++---
 src/spl/parser.rs | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/spl/macros.rs b/src/spl/macros.rs
index 8d63c46..2a5ccde 100644
--- a/src/spl/macros.rs
+++ b/src/spl/macros.rs
@@ -1,5 +1,5 @@
 // use crate::spl::ast;
-use crate::spl::parser::{expr, token, ws};
+use crate::spl::parser::{any_token, expr, ws};
 use nom::bytes::complete::{tag, take_until};
 use nom::character::complete::none_of;
 use nom::combinator::{all_consuming, into, map, opt, recognize};
@@ -27,13 +27,13 @@ pub fn spl_macros(input: &str) -> IResult<&str, ChunkedQuery> {
                 tag("`"),
                 ws(map(
                     pair(
-                        ws(token),
+                        ws(any_token),
                         opt(delimited(
                             ws(tag("(")),
                             separated_list0(
                                 ws(tag(",")),
                                 pair(
-                                    opt(into(terminated(token, tag("=")))),
+                                    opt(into(terminated(any_token, tag("=")))),
                                     into(recognize(expr)),
                                 ),
                             ),
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index c0519a7..c7bd7f1 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -407,15 +407,17 @@ fn _is_not_reserved_word(input: &str) -> bool {
     )
 }
 
+/// A token that may also be a reserved word
+pub fn any_token(input: &str) -> IResult<&str, &str> {
+    recognize(many1(alt((
+        recognize(one_of("_*:/-%{}@")),
+        alphanumeric1,
+        recognize(pair(tag("\\"), take(1usize))),
+    ))))(input)
+}
+
 pub fn token(input: &str) -> IResult<&str, &str> {
-    verify(
-        recognize(many1(alt((
-            recognize(one_of("_*:/-%{}@")),
-            alphanumeric1,
-            recognize(pair(tag("\\"), take(1usize))),
-        )))),
-        _is_not_reserved_word,
-    )(input)
+    verify(any_token, _is_not_reserved_word)(input)
 }
 
 pub fn token_with_extras(input: &str) -> IResult<&str, &str> {
-- 
2.43.0


From c296f2855256e7fdc4d49e8a6c9cd38a2f3e3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 34/67] fix: a macro name is not a file name pattern

---
 python/spl_transpiler/macros.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index bb23436..7ffc4a2 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -1,3 +1,4 @@
+import glob
 import json
 import logging
 import re
@@ -43,7 +44,10 @@ class FolderMacroLoader(MacroLoader):
 
     @cache
     def __getitem__(self, item):
-        macro_files = list(islice(self.root_dir.rglob(f"{item}{self.suffix}"), 2))
+        # The name is not a pattern
+        file_name = f"{item}{self.suffix}"
+        found_files = self.root_dir.rglob(f"*{glob.escape(self.suffix)}")
+        macro_files = list(islice((f for f in found_files if f.name == file_name), 2))
         if len(macro_files) > 1:
             raise ValueError(
                 f"Multiple macro files found for `{item}`: {list(macro_files)}"
-- 
2.43.0


From ca156bbc9aa50b7d7155629c06ff92ca91fe9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 35/67] fix: convert time formats directive by directive,
 quoting the text between them

---
 src/pyspark/transpiler/utils.rs | 67 +++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..6696d19 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -112,18 +112,21 @@ Z      	 zone-offset                  	 offset-Z     	 +0000; -0800; -08:00;
 ]      	 optional section end
  */
 
-const CONVERSIONS: [(&str, Option<&str>); 37] = [
+const CONVERSIONS: [(&str, Option<&str>); 42] = [
     // Date and time variables
     ("%c", None), // No direct equivalent
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),     // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
     ("%M", Some("mm")),         // Minute
-    ("%N", Some("SSS")),        // Subsecond digits (default to milliseconds)
+    ("%N", Some("SSSSSSSSS")),  // Subsecond digits (default to nanoseconds)
+    ("%3N", Some("SSS")),       // Subsecond digits (milliseconds)
+    ("%6N", Some("SSSSSS")),    // Subsecond digits (microseconds)
+    ("%9N", Some("SSSSSSSSS")), // Subsecond digits (nanoseconds)
     ("%p", Some("a")),          // AM or PM
     ("%Q", Some("SSS")),        // Subsecond component of a UTC timestamp (default to milliseconds)
     ("%3Q", Some("SSS")),       // Subsecond component of a UTC timestamp (milliseconds)
@@ -138,10 +141,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),      // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,10 +153,11 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
-    // ("%V", Some("w")), // Week of the year (ISO)
-    // ("%U", Some("w")), // Week of the year (starting with 0)
-    ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
+    ("%j", Some("DDD")),  // Day of year
+    // Week-based fields aren't supported since Spark 3.0
+    ("%V", None), // Week of the year (ISO)
+    ("%U", None), // Week of the year (starting with 0)
+    ("%w", None), // Weekday as a decimal number (0 = Sunday, ..., 6 = Saturday)
     // Specifying months
     ("%b", Some("MMM")),  // Abbreviated month name
     ("%B", Some("MMMM")), // Full month name
@@ -165,17 +169,48 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%%", Some("%")), // A literal "%" character
 ];
 
+/// Converts an SPL time format to a Spark one, directive by directive from left to right
 pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+    let spl_time_format = spl_time_format.to_string();
+    if !spl_time_format.contains('%') {
+        return Ok(spl_time_format);
+    }
+    let mut rest = spl_time_format.as_str();
+    let mut converted = String::new();
+    let mut literal = String::new();
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
+    while let Some(c) = rest.chars().next() {
+        if c != '%' {
+            literal.push(c);
+            rest = &rest[c.len_utf8()..];
             continue;
         }
+        let Some((original, replacement)) = CONVERSIONS
+            .iter()
+            .filter(|(original, _)| rest.starts_with(original))
+            .max_by_key(|(original, _)| original.len())
+        else {
+            bail!("Unknown directive in time format `{}`", spl_time_format)
+        };
+        rest = &rest[original.len()..];
         match replacement {
             None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+            Some("%") => literal.push('%'),
+            Some(replacement) => {
+                converted.push_str(&quote_time_format_literal(&literal));
+                literal.clear();
+                converted.push_str(replacement)
+            }
         }
     }
-    Ok(fmt_string)
+    converted.push_str(&quote_time_format_literal(&literal));
+    Ok(converted)
+}
+
+/// Letters and some punctuation have a meaning in Spark's formats unless they are quoted
+fn quote_time_format_literal(text: &str) -> String {
+    if !text.contains(|c: char| c.is_ascii_alphabetic() || "'[]{}#".contains(c)) {
+        return text.to_string();
+    }
+    format!("'{}'", text.replace('\'', "''"))
 }
-- 
2.43.0


From fb2ea205f2e9d9b6bc9ad6b6714d69758d2861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 36/67] fix: snap to the week that begins on Sunday

---
 python/spl_transpiler/runtime/functions/utils.py |  5 ++++-
 src/functions/eval_fns.rs                        | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 7559225..fc1e4dc 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -34,10 +34,13 @@ def offset_time(time_col, offset: TimeSpan):
 
 @enforce_types
 def round_time(time_col, scale: TimeScale) -> Expr:
+    if scale == TimeScale.WEEKS:
+        # SPL's weeks begin on Sunday, Spark's on Monday
+        monday = F.date_trunc("week", time_col + F.expr("INTERVAL 1 DAYS"))
+        return monday + F.expr("INTERVAL -1 DAYS")
     try:
         round_to = {
             scale.MONTHS: "month",
-            scale.WEEKS: "week",
             scale.DAYS: "day",
             scale.HOURS: "hour",
             scale.MINUTES: "minute",
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..9937e8a 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -156,10 +156,19 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
 }
 
 fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
+    if scale == "weeks" {
+        // SPL's weeks begin on Sunday, Spark's on Monday
+        let days = |value| TimeSpan {
+            value,
+            scale: "days".to_string(),
+        };
+        let next_day = offset_time(time_col, days(1));
+        let monday = column_like!(date_trunc([py_lit("week")], [next_day]));
+        return Ok(offset_time(monday, days(-1)));
+    }
     let round_to = match scale.as_str() {
         "years" => "year",
         "months" => "month",
-        "weeks" => "week",
         "days" => "day",
         "hours" => "hour",
         "minutes" => "minute",
-- 
2.43.0


From 3a6bd1a27ba9fb555685632d2e9536d51a531697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:31 +0000
Subject: [PATCH 37/67] fix: convert time formats in the runtime the way the
 transpiler does; strptime takes an expression

---
 .../spl_transpiler/runtime/functions/eval.py  |  4 +-
 .../spl_transpiler/runtime/functions/utils.py | 53 ++++++++++++++-----
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 1cd84ff..b4d5779 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -427,10 +427,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index fc1e4dc..9f562fc 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -3,6 +3,8 @@
 #     let time_col: Expr = time_col.into();
 #     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 # }
+import re
+
 from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale, Expr
 from pyspark.sql import functions as F
 
@@ -108,12 +110,15 @@ CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
     "%M": "mm",
-    "%N": "SSS",
+    "%N": "SSSSSSSSS",
+    "%3N": "SSS",
+    "%6N": "SSSSSS",
+    "%9N": "SSSSSSSSS",
     "%p": "a",
     "%Q": "SSS",
     "%3Q": "SSS",
@@ -124,20 +129,20 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
-    # "%V": "w",
-    # "%U": "w",
-    "%w": "e",
+    "%j": "DDD",
+    "%V": None,
+    "%U": None,
+    "%w": None,
     "%b": "MMM",
     "%B": "MMMM",
     "%m": "MM",
@@ -163,11 +168,31 @@ CONVERSIONS = {
 # }
 
 
+def _quote_time_format_literal(text: str) -> str:
+    if not re.search(r"[a-zA-Z'\[\]{}#]", text):
+        return text
+    return "'" + text.replace("'", "''") + "'"
+
+
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
+    """Convert an SPL time format to a Spark one, directive by directive from left to right"""
+    if "%" not in fmt_string:
+        return fmt_string
+    converted, literal, rest = "", "", fmt_string
+    while rest:
+        if rest[0] != "%":
+            literal, rest = literal + rest[0], rest[1:]
             continue
+        original = max(filter(rest.startswith, CONVERSIONS), key=len, default=None)
+        if original is None:
+            raise ValueError(f"Unknown directive in time format `{fmt_string}`")
+        replacement = CONVERSIONS[original]
         if replacement is None:
             raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+        rest = rest[len(original) :]
+        if replacement == "%":
+            literal += "%"
+            continue
+        converted += _quote_time_format_literal(literal) + replacement
+        literal = ""
+    return converted + _quote_time_format_literal(literal)
-- 
2.43.0


From 8633fe7fa27e65ab40d2fb906ea9a4b1672bb1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 38/67] fix: an offset after the snap of the runtime's
 relative_time

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index b4d5779..796dd94 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -399,7 +399,7 @@ def relative_time(
     if span is not None:
         time = utils.offset_time(time, span)
     if snap is not None:
-        time = utils.round_time(time, snap)
+        time = utils.round_time(time, snap).to_pyspark_expr()
     if snap_offset is not None:
         time = utils.offset_time(time, snap_offset)
     return time
-- 
2.43.0


From a162318c1de12f1ab51d95a07ee8a5a41535f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:57 +0000
Subject: [PATCH 39/67] fix: option names and values may be reserved words

---
 src/spl/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index c7bd7f1..6b206f7 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -676,12 +676,20 @@ pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
 
 //   def fieldAndConstant[_: P]: P[FC] = (token ~ "=" ~ constant) map { case (k, v) => FC(k, v) }
 pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
-    map(separated_pair(token, ws(tag("=")), constant), |(k, v)| {
-        ast::FC {
+    map(
+        separated_pair(
+            any_token,
+            ws(tag("=")),
+            alt((
+                constant,
+                map(any_token, |word| ast::Field::from(word).into()),
+            )),
+        ),
+        |(k, v)| ast::FC {
             field: k.into(),
             value: v,
-        }
-    })(input)
+        },
+    )(input)
 }
 
 //   def quotedSearch[_: P]: P[Pipeline] = ("search" ~ "=" ~ doubleQuotedAlt) map { subSearch => {
-- 
2.43.0


From a4112486701e4e0bf4adbe2c0de81827db92c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:24 +0000
Subject: [PATCH 40/67] fix: search for a lone pattern in the text of the event

---
 src/commands/cmd_search/pyspark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 21f36b6..d7addef 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -116,6 +116,10 @@ fn compare_to_values(expr: &ast::Expr) -> ast::Expr {
             }
             (_, right) => ast::Binary::new(*left, symbol, right).into(),
         },
+        // A lone pattern is looked for in the text of the event
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Wildcard(ast::Wildcard(
+            pattern,
+        )))) => ast::StrValue::from(pattern.replace('*', "%")).into(),
         expr => expr,
     }
 }
-- 
2.43.0


From 40c6ba1a8b3fdc6e4877aab6cd5a8e6d4e274cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 41/67] fix: refuse wildcard renames and generating commands
 after others; range of a stats group

---
 src/commands/cmd_make_results/pyspark.rs | 6 +++++-
 src/commands/cmd_multi_search/pyspark.rs | 6 +++++-
 src/commands/cmd_rename/pyspark.rs       | 6 +++++-
 src/functions/stat_fns.rs                | 2 +-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index 2c4751b..e41b360 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -1,5 +1,6 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
+use anyhow::ensure;
 
 impl PipelineTransformer for super::spl::MakeResultsCommand {
     #[allow(unused_variables, unreachable_code)]
@@ -7,7 +8,10 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
-        // let df = state.df.clone().unwrap_or_default();
+        ensure!(
+            state.df.is_none(),
+            "`makeresults` must be the first command of a search"
+        );
 
         /*
             spark.range(0, 10, 1)
diff --git a/src/commands/cmd_multi_search/pyspark.rs b/src/commands/cmd_multi_search/pyspark.rs
index 9cad709..2dcf4b5 100644
--- a/src/commands/cmd_multi_search/pyspark.rs
+++ b/src/commands/cmd_multi_search/pyspark.rs
@@ -1,12 +1,16 @@
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
-use anyhow::anyhow;
+use anyhow::{anyhow, ensure};
 
 impl PipelineTransformer for super::spl::MultiSearchCommand {
     fn transform_standalone(
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            state.df.is_none(),
+            "`multisearch` must be the first command of a search"
+        );
         if self.pipelines.is_empty() {
             return Ok(state);
         }
diff --git a/src/commands/cmd_rename/pyspark.rs b/src/commands/cmd_rename/pyspark.rs
index add8f82..613f496 100644
--- a/src/commands/cmd_rename/pyspark.rs
+++ b/src/commands/cmd_rename/pyspark.rs
@@ -1,7 +1,7 @@
 use crate::commands::cmd_rename::spl::RenameCommand;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 
 impl PipelineTransformer for RenameCommand {
     fn transform_standalone(
@@ -20,6 +20,10 @@ impl PipelineTransformer for RenameCommand {
                 ))) => bail!("UNIMPLEMENTED: Wildcard renaming is not supported yet"),
                 _ => bail!("Unsupported rename source: {:?}", alias),
             };
+            ensure!(
+                !old_name.contains('*') && !alias.name.contains('*'),
+                "UNIMPLEMENTED: Wildcard renaming is not supported yet"
+            );
             df = df.with_column_renamed(old_name, alias.name.clone());
         }
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index e841a1c..9ae923f 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -140,7 +140,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 6d45037c1e33567dd8289cb47c571a172843a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 42/67] fix: fillnull fills the fields it names, text and
 numbers alike

---
 src/commands/cmd_fill_null/pyspark.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..7928fba 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,25 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        let subset: Option<Expr> = self.fields.clone().map(|fields| {
+            let names: Vec<_> = fields.into_iter().map(|f| PyLiteral::from(f.0).0).collect();
+            column_like!(py_lit(PyLiteral(format!("[{}]", names.join(", "))))).into()
+        });
+
+        // `fillna` fills the columns of the type of its value only
+        let mut values: Vec<Expr> = vec![column_like!(py_lit(self.value.clone())).into()];
+        if let Ok(number) = self.value.parse::<i64>() {
+            values.push(column_like!(py_lit(number)).into());
+        }
+        let df = values.into_iter().fold(df, |df, value| {
+            df.arbitrary_method(
+                "fillna",
+                [Some(value), subset.clone()]
+                    .into_iter()
+                    .flatten()
+                    .collect(),
+            )
+        });
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 200ec89c9df750afac698c1111275c0e22064664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 43/67] fix: refuse wildcards in the fields to remove

---
 src/commands/cmd_fields/pyspark.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index 7201f66..0f61f63 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -2,6 +2,7 @@ use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
+use anyhow::ensure;
 
 impl PipelineTransformer for FieldsCommand {
     fn transform_standalone(
@@ -11,6 +12,11 @@ impl PipelineTransformer for FieldsCommand {
         let mut df = state.df.clone().unwrap_or_default();
 
         if self.remove_fields {
+            // Spark doesn't drop, and doesn't miss, columns that it doesn't know by that name
+            ensure!(
+                !self.fields.iter().any(|ast::Field(name)| name.contains('*')),
+                "UNIMPLEMENTED: Wildcards in `fields -` are not supported yet"
+            );
             let names = self
                 .fields
                 .iter()
-- 
2.43.0


From bad79437e66fcb767b2989537ee9cb23f77839f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 44/67] fix: import black in one thread before the others use
 it

---
 src/format_python.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/format_python.rs b/src/format_python.rs
index 243b06b..c701326 100644
--- a/src/format_python.rs
+++ b/src/format_python.rs
@@ -4,6 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::IntoPyDict;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
+use std::sync::Once;
 
 #[derive(Debug, Clone)]
 struct BlackNotInstalled();
@@ -19,11 +20,20 @@ impl Display for BlackNotInstalled {
 
 impl Error for BlackNotInstalled {}
 
+static IMPORT_BLACK: Once = Once::new();
+
 pub fn format_python_code(code: impl ToString) -> Result<String> {
     // TODO: When ruff format is available on cargo, use that instead of an embedded Python interpeter
     // from black import format_str, FileMode
     // res = format_str("some python code", mode=FileMode())
     let result: Result<String> = Python::with_gil(|py| {
+        // Only one thread may be the first to import black: the others would be given a module that is still
+        // being initialized. They wait without the GIL, which the import needs.
+        py.allow_threads(|| {
+            IMPORT_BLACK.call_once(|| {
+                let _ = Python::with_gil(|py| PyModule::import_bound(py, "black").map(|_| ()));
+            })
+        });
         let black = PyModule::import_bound(py, "black").map_err(|_| BlackNotInstalled())?;
         let mode = black.getattr("FileMode")?.call0()?;
         let args = (code.to_string(),);
-- 
2.43.0


From 52795bad81e94cb0999bfb42f1253c8ad405cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:45 +0000
Subject: [PATCH 45/67] fix: refuse data models after other commands for the
 runtime, too

---
 src/commands/cmd_data_model/pyspark.rs | 4 ++++
 src/commands/cmd_t_stats/pyspark.rs    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..64e3555 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -10,6 +10,10 @@ impl PipelineTransformer for DataModelCommand {
         &self,
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
+        ensure!(
+            state.df.is_none(),
+            "UNIMPLEMENTED: `datamodel` command cannot follow other commands"
+        );
         let df = state.df.clone();
         let mut kwargs = py_dict! {};
 
diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index d53b3fb..88f66cb 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -37,6 +37,11 @@ impl PipelineTransformer for TStatsCommand {
             "`tstats` only supports `include_reduced_buckets`=false"
         );
 
+        ensure!(
+            state.df.is_none() || (self.datamodel.is_none() && self.nodename.is_none()),
+            "UNIMPLEMENTED: `tstats` command cannot read a data model after other commands"
+        );
+
         let mut all_kwargs = py_dict! {};
 
         // Options
-- 
2.43.0


From 7e7dbe5e7320f07ca88d4ca3d8b869f13689c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:28 +0000
Subject: [PATCH 46/67] fix: tstats without a data model names none to the
 runtime

---
 src/commands/cmd_t_stats/pyspark.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 88f66cb..bfde785 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -45,13 +45,15 @@ impl PipelineTransformer for TStatsCommand {
         let mut all_kwargs = py_dict! {};
 
         // Options
-        all_kwargs.push(
-            "from_",
-            py_dict! {
-                datamodel=self.datamodel.clone().map(PyLiteral::from),
-                nodename=self.nodename.clone().map(PyLiteral::from),
-            },
-        );
+        if self.datamodel.is_some() || self.nodename.is_some() {
+            all_kwargs.push(
+                "from_",
+                py_dict! {
+                    datamodel=self.datamodel.clone().map(PyLiteral::from),
+                    nodename=self.nodename.clone().map(PyLiteral::from),
+                },
+            );
+        }
 
         if let Some(fill_null_value) = &self.fillnull_value {
             all_kwargs.push("fill_null_value", PyLiteral::from(fill_null_value.clone()));
-- 
2.43.0


From ddc55fde3f90a19b3d165f0ff5b8124106c5434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 47/67] fix: names of functions in any case, quoted fields of
 statistics, options after the fields of stats

---
 src/commands/cmd_stats/pyspark.rs |  5 +++--
 src/commands/stats_utils.rs       | 19 +++++++++++--------
 src/functions/convert_fns.rs      | 10 +++++-----
 src/functions/eval_fns.rs         |  8 ++++----
 src/functions/stat_fns.rs         | 29 ++++++++++++++++++++++++-----
 5 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 1b1dfbb..075b17a 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,5 +1,6 @@
 use super::spl::*;
 use crate::commands::stats_utils;
+use crate::functions::stat_fns::stats_arg;
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
@@ -16,7 +17,7 @@ fn transform_stats_runtime_expr(
 ) -> Result<(String, RuntimeExpr)> {
     let (e, maybe_name) = expr.clone().unaliased_with_name();
     let (name, args) = match e {
-        ast::Expr::Call(ast::Call { name, args }) => (name.to_string(), args),
+        ast::Expr::Call(ast::Call { name, args }) => (name.to_ascii_lowercase(), args),
         _ => bail!(
             "All `stats` aggregations must be function calls, got {:?}",
             expr
@@ -25,7 +26,7 @@ fn transform_stats_runtime_expr(
     let alias = maybe_name.unwrap_or(name.clone());
     let args: Result<Vec<Expr>> = args
         .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
+        .map(|e| stats_arg(e).with_context(ctx).try_into())
         .collect();
     // Some names would shadow Python's own in the runtime
     let name = match name.as_str() {
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index c954d4a..2377be3 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,4 +1,4 @@
-use crate::functions::stat_fns::stats_fn;
+use crate::functions::stat_fns::{stats_arg, stats_fn};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
@@ -8,10 +8,10 @@ use crate::spl::ast::{Field, TimeSpan};
 use crate::spl::parser::{comma_or_space_separated_list1, field, time_span, ws};
 use anyhow::{bail, ensure};
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
-use nom::combinator::map;
-use nom::sequence::{preceded, separated_pair};
+use nom::combinator::{map, not};
+use nom::sequence::{pair, preceded, separated_pair, terminated};
 use nom::IResult;
 use nom::Parser;
 use pyo3::pyclass;
@@ -52,7 +52,7 @@ pub fn transform_stats_runtime_expr(
 ) -> anyhow::Result<(String, RuntimeExpr)> {
     let (e, maybe_name) = expr.clone().unaliased_with_name();
     let (name, args) = match e {
-        ast::Expr::Call(ast::Call { name, args }) => (name.to_string(), args),
+        ast::Expr::Call(ast::Call { name, args }) => (name.to_ascii_lowercase(), args),
         _ => bail!(
             "All `stats` aggregations must be function calls, got {:?}",
             expr
@@ -61,7 +61,7 @@ pub fn transform_stats_runtime_expr(
     let alias = maybe_name.unwrap_or(name.clone());
     let args: anyhow::Result<Vec<Expr>> = args
         .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
+        .map(|e| stats_arg(e).with_context(ctx).try_into())
         .collect();
     // Some names would shadow Python's own in the runtime
     let name = match name.as_str() {
@@ -95,14 +95,17 @@ pub fn maybe_spanned_field(input: &str) -> IResult<&str, MaybeSpannedField> {
             separated_pair(
                 field,
                 multispace1,
-                preceded(ws(tag_no_case("span=")), time_span),
+                preceded(pair(ws(tag_no_case("span")), ws(tag("="))), time_span),
             ),
             |(field, span)| MaybeSpannedField {
                 field,
                 span: Some(span),
             },
         ),
-        map(field, |field| MaybeSpannedField { field, span: None }),
+        // A name before `=` is that of an option after the fields
+        map(terminated(field, not(ws(tag("=")))), |field| {
+            MaybeSpannedField { field, span: None }
+        }),
     ))(input)
 }
 
diff --git a/src/functions/convert_fns.rs b/src/functions/convert_fns.rs
index fbdda4c..fe1bbf6 100644
--- a/src/functions/convert_fns.rs
+++ b/src/functions/convert_fns.rs
@@ -49,22 +49,22 @@ pub fn convert_fn(
         ..
     } = conversion;
 
-    match func.as_str() {
+    match func.to_ascii_lowercase().as_str() {
         "ctime" => ctime(column_like!(col(field_name)), timeformat.clone()),
         "memk" => Ok(memk(column_like!(col(field_name)))),
         "rmunit" => Ok(rmunit(column_like!(col(field_name)))),
         "rmcomma" => Ok(rmcomma(column_like!(col(field_name)))),
 
-        name => {
+        _ => {
             warn!(
                 "Unknown convert function encountered, returning as is: {}",
-                name
+                func
             );
             Ok(ColumnLike::Aliased {
-                name: name.into(),
+                name: func.clone().into(),
                 col: Box::new(
                     ColumnLike::FunctionCall {
-                        func: name.to_string(),
+                        func: func.clone(),
                         args: vec![column_like!(col(field_name)).into()],
                     }
                     .into(),
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 9937e8a..ce37650 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -194,7 +194,7 @@ pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnL
 }
 
 fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
-    match name.as_str() {
+    match name.to_ascii_lowercase().as_str() {
         "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col) {
             ColumnLike::FunctionCall {
                 func: "functions.eval.cidrmatch".into(),
@@ -223,7 +223,7 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
 }
 
 fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
-    match name.as_str() {
+    match name.to_ascii_lowercase().as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
         "memk" => function_transform!(memk [args] (c) { memk(c) }),
         "rmunit" => function_transform!(memk [args] (c) { rmunit(c) }),
@@ -681,14 +681,14 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "tanh" => function_transform!(tanh [args] (x) { column_like!(tanh([x])) }),
 
         // Fallback
-        name => {
+        _ => {
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
             );
             let args: Vec<Expr> = map_args(args)?;
             Ok(ColumnLike::Aliased {
-                name: name.into(),
+                name: name.clone().into(),
                 col: Box::new(
                     ColumnLike::FunctionCall {
                         func: name.to_string(),
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 9ae923f..3d4be9e 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -74,12 +74,31 @@ pub fn stats_fn(
         ast::Expr::Call(ast::Call { name, args }) => (name, args),
         _ => bail!("Expected a stats function call, got {:?}", expr),
     };
-    let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
+    let args: Vec<_> = args
+        .into_iter()
+        .map(|arg| stats_arg(arg).with_context(ctx))
+        .collect();
 
     // The runtime's statistics can only be evaluated by the runtime's own commands
     let (df, expr) = stats_fn_bare(name.clone(), args, df)?;
 
-    Ok((df, expr.unaliased().with_alias(maybe_alias.unwrap_or(name))))
+    let label = match (maybe_alias, &expr) {
+        (Some(alias), _) => alias,
+        // Not one of ours, which are known in any case
+        (None, ColumnLike::Aliased { name: label, .. }) if *label == name => name,
+        (None, _) => name.to_ascii_lowercase(),
+    };
+    Ok((df, expr.unaliased().with_alias(label)))
+}
+
+/// What a statistic is computed of is a field, quoted or not
+pub fn stats_arg(arg: ast::Expr) -> ast::Expr {
+    match arg {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(name)))) => {
+            ast::Field(name).into()
+        }
+        arg => arg,
+    }
 }
 
 fn stats_fn_bare(
@@ -87,7 +106,7 @@ fn stats_fn_bare(
     args: Vec<ContextualizedExpr<ast::Expr>>,
     mut df: DataFrame,
 ) -> Result<(DataFrame, ColumnLike)> {
-    let expr: ColumnLike = match name.as_str() {
+    let expr: ColumnLike = match name.to_ascii_lowercase().as_str() {
         // avg(<value>)                         	 Returns the average of the values in the field specified.
         "avg" => function_transform!(avg [args] (x) { column_like!(avg([x])) }),
         // count(<value>)                       	 Returns the number of occurrences where the field that you specify contains any value (is not empty). You can also count the occurrences of a specific value in the field by using the eval command with the count function. For example: count( eval(field_name="value")).
@@ -235,14 +254,14 @@ fn stats_fn_bare(
         ),
 
         // Fallback
-        name => {
+        _ => {
             warn!(
                 "Unknown eval function encountered, returning as is: {}",
                 name
             );
             let args: Vec<Expr> = map_args(args)?;
             anyhow::Ok(ColumnLike::Aliased {
-                name: name.into(),
+                name: name.clone().into(),
                 col: Box::new(
                     ColumnLike::FunctionCall {
                         func: name.to_string(),
-- 
2.43.0


From e3109a32d990bb597ca708073904656a763e0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 48/67] fix: the functions like and in have the names of
 operators

---
 src/spl/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 6b206f7..1f171bc 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -910,7 +910,11 @@ pub fn field_in(input: &str) -> IResult<&str, ast::FieldIn> {
 //   def call[_: P]: P[Call] = (token ~~ "(" ~~ expr.rep(sep = ",") ~~ ")").map(Call.tupled)
 pub fn call(input: &str) -> IResult<&str, ast::Call> {
     map(
-        pair(token, parenthesized(comma_separated_list0(expr))),
+        pair(
+            // Some functions have the names of operators
+            alt((token, tag_no_case("like"), tag_no_case("in"))),
+            parenthesized(comma_separated_list0(expr)),
+        ),
         |(token, exprs)| ast::Call {
             name: token.into(),
             args: exprs,
-- 
2.43.0


From cca7e346deafe90d6021febb084b5fb72ba05116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 49/67] fix: fields to sort by may be quoted

---
 src/commands/cmd_sort/pyspark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/cmd_sort/pyspark.rs b/src/commands/cmd_sort/pyspark.rs
index 66d13e1..46b90c0 100644
--- a/src/commands/cmd_sort/pyspark.rs
+++ b/src/commands/cmd_sort/pyspark.rs
@@ -31,6 +31,9 @@ fn _resolve_expr(e: ast::Expr) -> Result<ColumnLike> {
         ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(name)))) => {
             Ok(column_like!(col(name)))
         }
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(name)))) => {
+            Ok(column_like!(col(name)))
+        }
         ast::Expr::Call(ast::Call { name, .. }) => match name.as_str() {
             "auto" => bail!("UNIMPLEMENTED"),
             "ip" => bail!("UNIMPLEMENTED"),
-- 
2.43.0


From 71e266f0a113983b1de9de8cff53eb44da609883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:49 +0000
Subject: [PATCH 50/67] fix: blanks around the = of an option, options of spath
 in any order

---
 src/commands/cmd_fill_null/spl.rs |  9 +++--
 src/commands/cmd_head/spl.rs      | 14 +++++---
 src/commands/cmd_s_path/spl.rs    | 57 ++++++++++++++++++++++---------
 src/commands/cmd_sort/spl.rs      |  5 ++-
 src/commands/cmd_t_stats/spl.rs   |  8 ++---
 5 files changed, 64 insertions(+), 29 deletions(-)

diff --git a/src/commands/cmd_fill_null/spl.rs b/src/commands/cmd_fill_null/spl.rs
index 1fca975..d9489eb 100644
--- a/src/commands/cmd_fill_null/spl.rs
+++ b/src/commands/cmd_fill_null/spl.rs
@@ -3,10 +3,10 @@ use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{double_quoted, field, token, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{into, map, opt};
 use nom::multi::many1;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{pair, preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -49,7 +49,10 @@ impl SplCommand<FillNullCommand> for FillNullParser {
     fn parse_body(input: &str) -> IResult<&str, FillNullCommand> {
         map(
             tuple((
-                opt(preceded(tag("value="), alt((double_quoted, token)))),
+                opt(preceded(
+                    pair(ws(tag_no_case("value")), ws(tag("="))),
+                    alt((double_quoted, token)),
+                )),
                 opt(many1(into(ws(field)))),
             )),
             |(maybe_value, fields)| FillNullCommand {
diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index b30ef6c..7c2999c 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -3,9 +3,9 @@ use crate::spl::ast::{BoolValue, Expr, ParsedCommandOptions};
 use crate::spl::parser::{bool_, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
+use nom::bytes::complete::{tag, tag_no_case};
 use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{pair, preceded, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -57,9 +57,13 @@ impl SplCommand<HeadCommand> for HeadParser {
         map(
             tuple((
                 ws(alt((
-                    map(alt((int, preceded(ws(tag_no_case("limit=")), int))), |v| {
-                        v.into()
-                    }),
+                    map(
+                        alt((
+                            int,
+                            preceded(pair(ws(tag_no_case("limit")), ws(tag("="))), int),
+                        )),
+                        |v| v.into(),
+                    ),
                     expr,
                 ))),
                 ws(opt(preceded(ws(tag_no_case("keeplast=")), bool_))),
diff --git a/src/commands/cmd_s_path/spl.rs b/src/commands/cmd_s_path/spl.rs
index c208294..e8cb2c9 100644
--- a/src/commands/cmd_s_path/spl.rs
+++ b/src/commands/cmd_s_path/spl.rs
@@ -1,10 +1,11 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
-use crate::spl::ast::ParsedCommandOptions;
+use crate::spl::ast::{Field, ParsedCommandOptions};
 use crate::spl::parser::{field, string, ws};
 use crate::spl::python::*;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
+use nom::branch::alt;
+use nom::bytes::complete::{tag, tag_no_case};
+use nom::combinator::map;
+use nom::sequence::{pair, terminated};
 use nom::IResult;
 use pyo3::prelude::*;
 
@@ -58,24 +59,48 @@ impl TryFrom<ParsedCommandOptions> for SPathCommandOptions {
     }
 }
 
+fn _spath_option(input: &str) -> IResult<&str, (&str, String)> {
+    alt((
+        pair(
+            ws(terminated(
+                alt((tag_no_case("input"), tag_no_case("output"))),
+                ws(tag("=")),
+            )),
+            map(ws(field), |Field(name)| name),
+        ),
+        pair(
+            ws(terminated(tag_no_case("path"), ws(tag("=")))),
+            map(ws(string), String::from),
+        ),
+    ))(input)
+}
+
 impl SplCommand<SPathCommand> for SPathParser {
     type RootCommand = crate::commands::SPathCommandRoot;
     type Options = SPathCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, SPathCommand> {
-        map(
-            tuple((
-                // Self::Options::match_options,
-                opt(ws(preceded(tag_no_case("input="), field))),
-                opt(ws(preceded(tag_no_case("output="), field))),
-                ws(preceded(opt(tag_no_case("path=")), string)),
-            )),
-            |(input, output, path)| SPathCommand {
-                path: path.into(),
-                input: input.map_or("_raw".to_string(), |f| f.0),
-                output: output.map(|f| f.0),
+        let (mut rest, mut input, mut output, mut path) = (input, None, None, None);
+        while let Ok((after, (name, value))) = _spath_option(rest) {
+            match name.to_ascii_lowercase().as_str() {
+                "input" => input = Some(value),
+                "output" => output = Some(value),
+                _ => path = Some(value),
+            }
+            rest = after;
+        }
+        let (rest, path) = match path {
+            Some(path) => (rest, path),
+            None => map(ws(string), String::from)(rest)?,
+        };
+        Ok((
+            rest,
+            SPathCommand {
+                path,
+                input: input.unwrap_or("_raw".to_string()),
+                output,
             },
-        )(input)
+        ))
     }
 }
 
diff --git a/src/commands/cmd_sort/spl.rs b/src/commands/cmd_sort/spl.rs
index 9bf8d85..a5a9034 100644
--- a/src/commands/cmd_sort/spl.rs
+++ b/src/commands/cmd_sort/spl.rs
@@ -64,7 +64,10 @@ impl SplCommand<SortCommand> for SortParser {
     fn parse_body(input: &str) -> IResult<&str, SortCommand> {
         map(
             tuple((
-                opt(preceded(opt(ws(tag_no_case("limit="))), ws(int))),
+                opt(preceded(
+                    opt(pair(ws(tag_no_case("limit")), ws(tag("=")))),
+                    ws(int),
+                )),
                 comma_separated_list1(pair(
                     opt(map(alt((tag("+"), tag("-"))), String::from)),
                     expr,
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 722bf4c..51e06c7 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -132,13 +132,13 @@ fn _parse_from_datamodel(input: &str) -> IResult<&str, (String, Option<String>)>
         ws(tag_no_case("from")),
         tuple((
             ws(preceded(
-                ws(tag_no_case("datamodel=")),
+                pair(ws(tag_no_case("datamodel")), ws(tag("="))),
                 into(recognize(separated_list1(tag("."), token))),
             )),
             opt(ws(preceded(
                 ws(tag_no_case("where")),
                 ws(preceded(
-                    tag_no_case("nodename="),
+                    pair(tag_no_case("nodename"), ws(tag("="))),
                     into(recognize(separated_list1(tag("."), token))),
                 )),
             ))),
@@ -170,7 +170,7 @@ fn _parse_by(input: &str) -> IResult<&str, ByClause> {
                 map(
                     ws(preceded(
                         tag_no_case("PREFIX"),
-                        delimited(tag("("), field, tag(")")),
+                        delimited(tag("("), ws(field), tag(")")),
                     )),
                     |Field(prefix_field)| (None, Some(prefix_field)),
                 ),
@@ -204,7 +204,7 @@ fn _stats_function_call(input: &str) -> IResult<&str, Call> {
         pair(
             token,
             // TODO: Support PREFIX(field)
-            delimited(tag("("), field, tag(")")),
+            delimited(tag("("), ws(field), tag(")")),
         ),
         |(func, field)| Call {
             name: func.into(),
-- 
2.43.0


From 2f07956b61f2a80ffc4c4b8cb45c284e6d38d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 51/67] fix: options of head in any order

---
 src/commands/cmd_head/spl.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/commands/cmd_head/spl.rs b/src/commands/cmd_head/spl.rs
index 7c2999c..165ffa1 100644
--- a/src/commands/cmd_head/spl.rs
+++ b/src/commands/cmd_head/spl.rs
@@ -4,8 +4,9 @@ use crate::spl::parser::{bool_, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::combinator::{map, opt};
-use nom::sequence::{pair, preceded, tuple};
+use nom::combinator::map;
+use nom::multi::many0;
+use nom::sequence::{pair, preceded, terminated, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -66,13 +67,24 @@ impl SplCommand<HeadCommand> for HeadParser {
                     ),
                     expr,
                 ))),
-                ws(opt(preceded(ws(tag_no_case("keeplast=")), bool_))),
-                ws(opt(preceded(ws(tag_no_case("null=")), bool_))),
+                many0(ws(pair(
+                    terminated(
+                        alt((tag_no_case("keeplast"), tag_no_case("null"))),
+                        ws(tag("=")),
+                    ),
+                    bool_,
+                ))),
             )),
-            |(limit_or_expr, keep_last_opt, null_opt)| HeadCommand {
-                eval_expr: limit_or_expr,
-                keep_last: keep_last_opt.unwrap_or(false.into()),
-                null_option: null_opt.unwrap_or(false.into()),
+            |(limit_or_expr, options)| {
+                let option = |name: &str| {
+                    let given = options.iter().rev().find(|o| o.0.eq_ignore_ascii_case(name));
+                    given.map_or(false.into(), |o| o.1.clone())
+                };
+                HeadCommand {
+                    eval_expr: limit_or_expr,
+                    keep_last: option("keeplast"),
+                    null_option: option("null"),
+                }
             },
         )(input)
     }
-- 
2.43.0


From 24b1c87287fba1dad5d1ba0accf8089ea9ffa33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 52/67] fix: refuse negative counts of stats partitions and
 tstats chunks

---
 src/commands/cmd_stats/spl.rs   | 2 +-
 src/commands/cmd_t_stats/spl.rs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_stats/spl.rs b/src/commands/cmd_stats/spl.rs
index 0348624..81144c2 100644
--- a/src/commands/cmd_stats/spl.rs
+++ b/src/commands/cmd_stats/spl.rs
@@ -58,7 +58,7 @@ impl TryFrom<ParsedCommandOptions> for StatsCommandOptions {
 
     fn try_from(value: ParsedCommandOptions) -> Result<Self, Self::Error> {
         Ok(Self {
-            partitions: value.get_int("partitions", 1)? as usize,
+            partitions: value.get_int("partitions", 1)?.try_into()?,
             all_num: value.get_boolean("allnum", false)?,
             delim: value.get_string("delim", " ")?,
         })
diff --git a/src/commands/cmd_t_stats/spl.rs b/src/commands/cmd_t_stats/spl.rs
index 51e06c7..f3e1413 100644
--- a/src/commands/cmd_t_stats/spl.rs
+++ b/src/commands/cmd_t_stats/spl.rs
@@ -4,6 +4,7 @@ use crate::commands::stats_utils::maybe_spanned_field_list1;
 use crate::spl::ast::{Call, Expr, Field, ParsedCommandOptions};
 use crate::spl::parser::{field, field_in, logical_expression, space_separated_list1, token, ws};
 use crate::spl::python::*;
+use anyhow::bail;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
 use nom::character::complete::multispace1;
@@ -121,7 +122,10 @@ impl TryFrom<ParsedCommandOptions> for TStatsCommandOptions {
             summaries_only: value.get_boolean("summariesonly", false)?,
             include_reduced_buckets: value.get_boolean("include_reduced_buckets", false)?,
             allow_old_summaries: value.get_boolean("allow_old_summaries", false)?,
-            chunk_size: value.get_int("chunk_size", 10000000)?,
+            chunk_size: match value.get_int("chunk_size", 10000000)? {
+                size if size < 0 => bail!("`chunk_size` cannot be negative: {}", size),
+                size => size,
+            },
             fillnull_value: value.get_string_option("fillnull_value")?,
         })
     }
-- 
2.43.0


From 25cae6f528704e8cf6e28f3135338ac19020e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 53/67] fix: boolean options in any case

---
 src/spl/ast.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spl/ast.rs b/src/spl/ast.rs
index fe5ee92..422ce65 100644
--- a/src/spl/ast.rs
+++ b/src/spl/ast.rs
@@ -427,10 +427,11 @@ impl ParsedCommandOptions {
     pub fn get_boolean(&self, key: &str, default: bool) -> Result<bool, anyhow::Error> {
         match self.inner.get(key) {
             Some(Constant::Bool(BoolValue(value))) => Ok(*value),
-            Some(Constant::Field(Field(v))) if v == "true" => Ok(true),
-            Some(Constant::Field(Field(v))) if v == "t" => Ok(true),
-            Some(Constant::Field(Field(v))) if v == "false" => Ok(false),
-            Some(Constant::Field(Field(v))) if v == "f" => Ok(false),
+            Some(Constant::Field(Field(v))) => match v.to_ascii_lowercase().as_str() {
+                "true" | "t" => Ok(true),
+                "false" | "f" => Ok(false),
+                _ => Err(anyhow!("not a bool")),
+            },
             Some(_) => Err(anyhow!("not a bool")),
             None => Ok(default),
         }
-- 
2.43.0


From f48d4b72fa789b5aa773315c450fc801198f7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 54/67] fix: options of datamodel after its arguments

---
 src/commands/cmd_data_model/spl.rs | 43 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/commands/cmd_data_model/spl.rs b/src/commands/cmd_data_model/spl.rs
index 19449f7..5039e57 100644
--- a/src/commands/cmd_data_model/spl.rs
+++ b/src/commands/cmd_data_model/spl.rs
@@ -2,13 +2,13 @@
 use crate::commands::spl::{SplCommand, SplCommandOptions};
 use crate::spl::ast;
 use crate::spl::ast::ParsedCommandOptions;
-use crate::spl::parser::{field, ws};
+use crate::spl::parser::{command_options, field, unwrapped, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::{map, opt, verify};
-use nom::sequence::tuple;
-use nom::IResult;
+use nom::bytes::complete::{tag, tag_no_case};
+use nom::combinator::{map, not, opt, verify};
+use nom::sequence::{terminated, tuple};
+use nom::{IResult, Parser};
 use pyo3::prelude::*;
 /*
 | datamodel [<data model name>] [<dataset name>] [<data model search mode>] [strict_fields=<bool>] [allow_old_summaries=<bool>] [summariesonly=<bool>]
@@ -62,7 +62,7 @@ impl TryFrom<ParsedCommandOptions> for DataModelCommandOptions {
 }
 
 fn field_not_keyword(input: &str) -> IResult<&str, ast::Field> {
-    verify(field, |v| {
+    verify(terminated(field, not(ws(tag("=")))), |v| {
         !matches!(v.0.as_str(), "search" | "flat" | "acceleration_search")
     })(input)
 }
@@ -72,26 +72,33 @@ impl SplCommand<DataModelCommand> for DataModelParser {
     type Options = DataModelCommandOptions;
 
     fn parse_body(input: &str) -> IResult<&str, DataModelCommand> {
-        map(
+        unwrapped(map(
             tuple((
-                Self::Options::match_options,
+                command_options,
                 opt(ws(field_not_keyword)),
                 opt(ws(field_not_keyword)),
-                opt(alt((
+                opt(ws(alt((
                     tag_no_case("search"),
                     tag_no_case("flat"),
                     tag_no_case("acceleration_search"),
-                ))),
+                )))),
+                command_options,
             )),
-            |(options, data_model_name, dataset_name, search_mode)| DataModelCommand {
-                data_model_name: data_model_name.map(|s| s.0),
-                dataset_name: dataset_name.map(|s| s.0),
-                search_mode: search_mode.map(|s| s.to_string()),
-                strict_fields: options.strict_fields,
-                allow_old_summaries: options.allow_old_summaries,
-                summaries_only: options.summaries_only,
+            |(mut options, data_model_name, dataset_name, search_mode, more_options)| {
+                options.options.extend(more_options.options);
+                let options: ParsedCommandOptions = options.into();
+                let options = Self::Options::try_from(options)?;
+                Ok::<_, anyhow::Error>(DataModelCommand {
+                    data_model_name: data_model_name.map(|s| s.0),
+                    dataset_name: dataset_name.map(|s| s.0),
+                    search_mode: search_mode.map(|s| s.to_string()),
+                    strict_fields: options.strict_fields,
+                    allow_old_summaries: options.allow_old_summaries,
+                    summaries_only: options.summaries_only,
+                })
             },
-        )(input)
+        ))
+        .parse(input)
     }
 }
 
-- 
2.43.0


From 9749668aa20ea72b45667b9e53d74158a99735ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:42 +0000
Subject: [PATCH 55/67] fix: refuse a sort limit that runs into a name

---
 src/commands/cmd_sort/spl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_sort/spl.rs b/src/commands/cmd_sort/spl.rs
index a5a9034..e151f22 100644
--- a/src/commands/cmd_sort/spl.rs
+++ b/src/commands/cmd_sort/spl.rs
@@ -4,8 +4,9 @@ use crate::spl::parser::{comma_separated_list1, expr, int, ws};
 use crate::spl::python::*;
 use nom::branch::alt;
 use nom::bytes::complete::{tag, tag_no_case};
-use nom::combinator::{map, opt};
-use nom::sequence::{pair, preceded, tuple};
+use nom::character::complete::satisfy;
+use nom::combinator::{map, not, opt};
+use nom::sequence::{pair, preceded, terminated, tuple};
 use nom::IResult;
 use pyo3::prelude::*;
 //
@@ -66,7 +67,7 @@ impl SplCommand<SortCommand> for SortParser {
             tuple((
                 opt(preceded(
                     opt(pair(ws(tag_no_case("limit")), ws(tag("=")))),
-                    ws(int),
+                    ws(terminated(int, not(satisfy(|c| c.is_alphanumeric() || c == '_')))),
                 )),
                 comma_separated_list1(pair(
                     opt(map(alt((tag("+"), tag("-"))), String::from)),
-- 
2.43.0


From 3e849b3a4fc84cc999b68d7dee1e1bd5a49c692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:48 +0000
Subject: [PATCH 56/67] fix: log takes its base first in Spark; optional
 arguments of log, round, substr and trim

---
 src/functions/eval_fns.rs | 49 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index ce37650..699d180 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -477,13 +477,26 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args -> mapped_args] (x) {
+            ensure!(mapped_args.len() <= 1, "`log` takes a number and a base, but received {} arguments", mapped_args.len() + 1);
+            // Spark takes the base first
+            let base: Expr = match (args.get(1), mapped_args.first()) {
+                (Some(arg), Some(base)) => match map_arg::<_, i64>(arg) {
+                    Ok(number) => column_like!(py_lit(number)).into(),
+                    Err(_) => base.clone(),
+                },
+                _ => column_like!(py_lit(10)).into(),
+            };
+            column_like!(log([base], [x]))
+        }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
         "pow" => function_transform!(pow [args] (x, exp) { column_like!(pow([x], [exp])) }),
         // round(<num>,<precision>)                            	 Returns <num> rounded to the amount of decimal places specified by <precision>. The default is to round to an integer.
-        "round" => function_transform!(round [args] (x, precision: i64) {
+        "round" => function_transform!(round [args ...] (x) {
+            ensure!(args.len() <= 2, "`round` takes a number and a precision, but received {} arguments", args.len());
+            let precision: i64 = args.get(1).map_or(Ok(0), map_arg)?;
             column_like!(round([x], [py_lit(precision)]))
         }),
         // sigfig(<num>)                                       	 Rounds <num> to the appropriate number of significant figures.
@@ -623,7 +636,14 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "lower" => function_transform!(lower [args] (x) { column_like!(lower([x])) }),
         // ltrim(<str>,<trim_chars>)                           	 Removes characters from the left side of a string.
         "ltrim" => {
-            function_transform!(ltrim [args] (x, chars) { column_like!(ltrim([x], [chars])) })
+            function_transform!(ltrim [args -> mapped_args] (x) {
+                ensure!(mapped_args.len() <= 1, "`ltrim` takes a text and the characters to remove, but received {} arguments", mapped_args.len() + 1);
+                match mapped_args.first() {
+                    Some(chars) => column_like!(ltrim([x], [chars.clone()])),
+                    // Spaces and tabs by default
+                    None => column_like!(ltrim([x], [ColumnLike::literal(r"' \t'")])),
+                }
+            })
         }
         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
         "replace" => {
@@ -633,18 +653,35 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // rtrim(<str>,<trim_chars>)                           	 Removes the trim characters from the right side of the string.
         "rtrim" => {
-            function_transform!(rtrim [args] (x, chars) { column_like!(rtrim([x], [chars])) })
+            function_transform!(rtrim [args -> mapped_args] (x) {
+                ensure!(mapped_args.len() <= 1, "`rtrim` takes a text and the characters to remove, but received {} arguments", mapped_args.len() + 1);
+                match mapped_args.first() {
+                    Some(chars) => column_like!(rtrim([x], [chars.clone()])),
+                    // Spaces and tabs by default
+                    None => column_like!(rtrim([x], [ColumnLike::literal(r"' \t'")])),
+                }
+            })
         }
         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
         "spath" => {
             bail!("UNIMPLEMENTED: Unsupported function: {}", name)
         }
         // substr(<str>,<start>,<length>)                      	 Returns a substring of a string, beginning at the start index. The length of the substring specifies the number of character to return.
-        "substr" => function_transform!(substr [args] (column, start: i64, length: i64) {
+        "substr" => function_transform!(substr [args ...] (column, start: i64) {
+            ensure!(args.len() <= 3, "`substr` takes a text, a start and a length, but received {} arguments", args.len());
+            // All of the rest by default
+            let length: i64 = args.get(2).map_or(Ok(i32::MAX as i64), map_arg)?;
             column_like!(substring([column], [py_lit(start)], [py_lit(length)]))
         }),
         // trim(<str>,<trim_chars>)                            	 Trim characters from both sides of a string.
-        "trim" => function_transform!(trim [args] (x, chars) { column_like!(trim([x], [chars])) }),
+        "trim" => function_transform!(trim [args -> mapped_args] (x) {
+            ensure!(mapped_args.len() <= 1, "`trim` takes a text and the characters to remove, but received {} arguments", mapped_args.len() + 1);
+            match mapped_args.first() {
+                Some(chars) => column_like!(trim([x], [chars.clone()])),
+                // Spaces and tabs by default
+                None => column_like!(trim([x], [ColumnLike::literal(r"' \t'")])),
+            }
+        }),
         // upper(<str>)                                        	 Returns the string in uppercase.
         "upper" => function_transform!(upper [args] (x) { column_like!(upper([x])) }),
         // urldecode(<url>)                                    	 Replaces URL escaped characters with the original characters.
-- 
2.43.0


From ee1ff076d7b8a8d5f8272059e119ae5772f3e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 57/67] fix: split at the delimiter's text; sum of a row; in,
 bit_and, bit_or and bit_xor of several values

---
 src/functions/eval_fns.rs | 48 +++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 699d180..3a0f591 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -231,17 +231,31 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
 
         // Bitwise functions
         // bit_and(<values>)                                   	 Bitwise AND function that takes two or more non-negative integers as arguments and sequentially performs logical bitwise AND on them.
-        "bit_and" => {
-            function_transform!(bit_and [args] (a, b) { column_like!([a].bitwiseAND([b])) })
-        }
+        "bit_and" => function_transform!(bit_and [args -> mapped_args] (a, b) {
+            let mut out = column_like!([a].bitwiseAND([b]));
+            for c in mapped_args {
+                out = column_like!([out].bitwiseAND([c]));
+            }
+            out
+        }),
         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
-        "bit_or" => function_transform!(bit_or [args] (a, b) { column_like!([a].bitwiseOR([b])) }),
+        "bit_or" => function_transform!(bit_or [args -> mapped_args] (a, b) {
+            let mut out = column_like!([a].bitwiseOR([b]));
+            for c in mapped_args {
+                out = column_like!([out].bitwiseOR([c]));
+            }
+            out
+        }),
         // bit_not(<value>, <bitmask>)                         	 Bitwise NOT function that takes a non-negative as an argument and inverts every bit in the binary representation of that number. It also takes an optional second argument that acts as a bitmask.
         "bit_not" => function_transform!(bit_not [args] (x) { column_like!(bitwise_not([x])) }),
         // bit_xor(<values>)                                   	 Bitwise XOR function that takes two or more non-negative integers as arguments and sequentially performs bitwise XOR of each of the given arguments.
-        "bit_xor" => {
-            function_transform!(bit_or [args] (a, b) { column_like!([a].bitwiseXOR([b])) })
-        }
+        "bit_xor" => function_transform!(bit_xor [args -> mapped_args] (a, b) {
+            let mut out = column_like!([a].bitwiseXOR([b]));
+            for c in mapped_args {
+                out = column_like!([out].bitwiseXOR([c]));
+            }
+            out
+        }),
         // bit_shift_left(<value>, <shift_offset>)             	 Logical left shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the left by the specified shift amount.
         "bit_shift_left" => {
             function_transform!(bit_not [args] (x, offset: i64) { column_like!(shiftleft([x], [py_lit(offset)])) })
@@ -282,7 +296,10 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             column_like!([when([condition], [then_expr])].otherwise([else_expr]))
         }),
         // in(<field>,<list>)                                  	 Returns TRUE if one of the values in the list matches a value that you specify.
-        "in" => function_transform!(in [args] (x, vals) { column_like!([x].isin([vals])) }),
+        "in" => function_transform!(in [args -> mapped_args] (x) {
+            ensure!(!mapped_args.is_empty(), "`in` requires at least one value to compare with");
+            ColumnLike::method_call(x, "isin", mapped_args)
+        }),
         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
         "like" => {
             function_transform!(like [args] (x, pattern) { column_like!(like([x], [pattern])) })
@@ -506,7 +523,17 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // sqrt(<num>)                                         	 Returns the square root of the value.
         "sqrt" => function_transform!(sqrt [args] (x) { column_like!(sqrt([x])) }),
         // sum(<num>,...)                                      	 Returns the sum of numerical values as an integer.
-        "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
+        "sum" => function_transform!(sum [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "Must provide at least one column to sum together");
+            let mut out: Option<Expr> = None;
+            for c in mapped_args {
+                out = match out {
+                    Some(v) => Some(column_like!([v] + [c]).into()),
+                    None => Some(c),
+                }
+            };
+            out.unwrap()
+        }),
 
         // Multivalue eval functions
         // commands(<value>)                                   	 Returns a multivalued field that contains a list of the commands used in <value>.
@@ -582,7 +609,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
-            column_like!(split([x], [py_lit(delim)]))
+            // Spark splits at a regular expression
+            column_like!(split([x], [py_lit(regex::escape(&delim))]))
         }),
 
         // Statistical eval functions
-- 
2.43.0


From aac71a0aea92949780aa36a0fd25e3df735f985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 58/67] fix: ranges of mvindex from the end; refuse surplus
 arguments and missing values; delimiters of mvzip

---
 src/functions/eval_fns.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 3a0f591..f54c4de 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -287,6 +287,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }),
         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
         "coalesce" => function_transform!(coalesce [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "`coalesce` requires at least one value");
             column_like!(coalesce(mapped_args))
         }),
         // false()                                             	 Returns FALSE.
@@ -375,6 +376,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
         // relative_time(<time>,<specifier>)                   	 Adjusts the time by a relative time specifier.
         "relative_time" => function_transform!(now [args ...] (time) {
+            ensure!(args.len() <= 2, "`relative_time` takes a time and a specifier, but received {} arguments", args.len());
             let relative_time_spec = match args.get(1).map(Deref::deref) {
                 Some(ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::SnapTime(snap_time)))) => snap_time,
                 Some(v) => bail!("`relative_time` function requires a second argument of type SnapTime, got {:?}", v),
@@ -542,6 +544,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvappend(<values>)                                  	 Returns a multivalue result based on all of values specified.
         "mvappend" => function_transform!(mvappend [args -> mapped_args] () {
+            ensure!(!mapped_args.is_empty(), "`mvappend` requires at least one value");
             column_like!(concat(mapped_args))
         }),
         // mvcount(<mv>)                                       	 Returns the count of the number of values in the specified field.
@@ -562,11 +565,26 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvindex(<mv>,<start>,<end>)                         	 Returns a subset of the multivalue field using the start and end index values.
         "mvindex" => function_transform!(mvindex [args ...] (x, start: i64) {
+            ensure!(args.len() <= 3, "`mvindex` takes a field, a start and an end, but received {} arguments", args.len());
             match args.get(2) {
                 None => column_like!(get([x], [py_lit(start)])),
                 Some(end) => {
                     let end: i64 = map_arg(end) ?;
-                    column_like!(slice([x], [py_lit(start + 1)], [py_lit(end - start + 1)]))
+                    let supported = i32::MIN as i64..i32::MAX as i64;
+                    ensure!(
+                        (start >= 0 || end < 0) && supported.contains(&start) && supported.contains(&end),
+                        "UNIMPLEMENTED: Unsupported range of `mvindex`: {} to {}", start, end
+                    );
+                    let length = end - start + 1;
+                    if start < 0 {
+                        // Indices from the end begin at -1 in Spark, too
+                        column_like!(slice([x], [py_lit(start)], [py_lit(length.max(0))]))
+                    } else if end >= 0 {
+                        column_like!(slice([x], [py_lit(start + 1)], [py_lit(length.max(0))]))
+                    } else {
+                        let length = column_like!([size([x.clone()])] + [lit(length)]);
+                        column_like!(slice([x], [py_lit(start + 1)], [greatest([length], [lit(0)])]))
+                    }
                 },
             }
         }),
@@ -588,12 +606,17 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // mvzip(<mv_left>,<mv_right>,<delim>)                 	 Combines the values in two multivalue fields. The delimiter is used to specify a delimiting character to join the two values.
         "mvzip" => function_transform!(mvzip [args -> _mapped_args] (left, right) {
+            ensure!(args.len() <= 3, "`mvzip` takes two fields and a delimiter, but received {} arguments", args.len());
             let delim: String = match args.get(2) {
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
             };
             let zip_function: Expr = PyLiteral(
-                format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                if delim.contains(['"', '\\', '\n', '\r']) {
+                    format !("lambda left_, right_: F.concat_ws({}, left_, right_)", PyLiteral::from(delim).0)
+                } else {
+                    format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                }
             ).into();
             column_like!(
                 zip_with(
-- 
2.43.0


From ade74016ad582c08f365be6d57f4b4428f88581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:44 +0000
Subject: [PATCH 59/67] fix: the negation of a condition as the argument of a
 function that Spark has as a method; refuse wrong numbers of arguments of
 earliest_time and latest_time

---
 src/functions/stat_fns.rs |  4 ++--
 src/pyspark/ast.rs        | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3d4be9e..d6964b2 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -202,7 +202,7 @@ fn stats_fn_bare(
         }),
         // earliest_time(<value>)               	 Returns the UNIX time of the earliest (oldest) occurrence of a value of the field. Used in conjunction with the earliest, latest, and latest_time functions to calculate the rate of increase for an accumulating counter.
         "earliest_time" => {
-            function_transform!(earliest_time [args -> _mapped_args] () { column_like!(min([col("_time")])) })
+            function_transform!(earliest_time [args] (_x) { column_like!(min([col("_time")])) })
         }
         // latest(<value>)                      	 Returns the chronologically latest (most recent) seen occurrence of a value in a field.
         "latest" => function_transform!(latest [args] (x) {
@@ -211,7 +211,7 @@ fn stats_fn_bare(
         }),
         // latest_time(<value>)                 	 Returns the UNIX time of the latest (most recent) occurrence of a value of the field. Used in conjunction with the earliest, earliest_time, and latest functions to calculate the rate of increase for an accumulating counter.
         "latest_time" => {
-            function_transform!(latest_time [args -> _mapped_args] () { column_like!(max([col("_time")])) })
+            function_transform!(latest_time [args] (_x) { column_like!(max([col("_time")])) })
         }
         // per_day(<value>)                     	 Returns the values in a field or eval expression for each day.
         "per_day" => bail!(
diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 8af1190..5bc32ee 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -270,7 +270,7 @@ impl ToSparkQuery for ColumnLike {
                     .collect();
                 Ok(format!(
                     "{}.{}({})",
-                    col.to_spark_query(ctx)?,
+                    col.to_receiver_query(ctx)?,
                     func,
                     args?.join(", ")
                 ))
@@ -289,7 +289,7 @@ impl ToSparkQuery for ColumnLike {
             }
             ColumnLike::Aliased { col, name } => Ok(format!(
                 "{}.alias('{}')",
-                col.to_spark_query(ctx)?,
+                col.to_receiver_query(ctx)?,
                 escape_py_str(name, '\'')
             )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
@@ -323,6 +323,18 @@ impl ToSparkQuery for Expr {
     }
 }
 
+impl Expr {
+    /// Code of the expression as the receiver of a method call, which binds tighter than `~`
+    fn to_receiver_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
+        match self {
+            Expr::Column(col @ ColumnLike::UnaryNot { .. }) => {
+                Ok(format!("({})", col.to_spark_query(ctx)?).into())
+            }
+            expr => expr.to_spark_query(ctx),
+        }
+    }
+}
+
 impl From<ColumnLike> for Expr {
     fn from(val: ColumnLike) -> Self {
         Expr::Column(val)
-- 
2.43.0


From d932cb78421a23773447de58fb22d8221fa73252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:00 +0000
Subject: [PATCH 60/67] fix: an empty string before a separator or an operator
 is not the first quote of a text in two quotes

---
 src/spl/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 1f171bc..99ce59c 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -459,7 +459,14 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("\""),
-            recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
+            recognize(tuple((
+                tag("\""),
+                // An operator or a separator after two quotes follows an empty string
+                verify(_double_quoted_content, |v: &str| {
+                    !v.starts_with(|c: char| c.is_whitespace() || ",.)]|+-/=<>!".contains(c))
+                }),
+                tag("\""),
+            ))),
             tag("\""),
         ),
         delimited(tag("\""), _double_quoted_content, tag("\"")),
-- 
2.43.0


From a64d634f6cb13ed80f7c7faa25e57eb1e2d81992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 61/67] fix: datamodel in the runtime has no data frame before
 it; the dataset of a data model alone isn't a trailing dot; tstats of neither
 source

---
 python/spl_transpiler/runtime/commands/data_model.py | 9 ++++++++-
 python/spl_transpiler/runtime/commands/tstats.py     | 6 +++---
 src/commands/cmd_data_model/pyspark.rs               | 6 ++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..f712401 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -7,8 +7,15 @@ from spl_transpiler.runtime.base import enforce_types
 from spl_transpiler.runtime.config import settings
 
 
+def data_model(*args, **kwargs) -> DataFrame:
+    if args and args[0] is None:
+        # There is no data frame before this command
+        args = args[1:]
+    return _data_model(*args, **kwargs)
+
+
 @enforce_types
-def data_model(
+def _data_model(
     # df: DataFrame | None,
     data_model_name: str,
     dataset_name: str | None = None,
diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..bf417f8 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -15,7 +15,7 @@ class DataModelSpecifier(BaseModel):
     def __str__(self) -> str:
         return ".".join(
             s
-            for name in [self.datamodel.split("."), self.nodename or ""]
+            for name in [self.datamodel, self.nodename or ""]
             for s in name.split(".")
             if s
         )
@@ -32,6 +32,8 @@ def tstats(
     **stat_exprs: StatsFunction,
 ) -> DataFrame:
     match (df, from_):
+        case (None, None):
+            raise ValueError("Either `df` or `from_` must be provided")
         case (None, from_):
             df = data_model(
                 data_model_name=from_.datamodel,
@@ -40,8 +42,6 @@ def tstats(
             )
         case (df, None):
             pass
-        case (None, None):
-            raise ValueError("Either `df` or `from_` must be provided")
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index 64e3555..f623499 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -61,8 +61,10 @@ impl PipelineTransformer for DataModelCommand {
                     // data_model = <data_model_name>.<root_dataset_name>
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
-                    let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    std::iter::once(data_model.as_str())
+                        .chain(node_name.split(".").skip(1))
+                        .collect::<Vec<_>>()
+                        .join(".")
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
-- 
2.43.0


From 076589d09bfb93bd4500d28eaf1f5076a03a64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 62/67] fix: backslashes and quotes in the delimiter of split

---
 src/functions/eval_fns.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index f54c4de..bd24580 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -633,7 +633,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
             // Spark splits at a regular expression
-            column_like!(split([x], [py_lit(regex::escape(&delim))]))
+            let delim = delim.replace(r#"\""#, "\"").replace(r"\\", r"\");
+            column_like!(split([x], [py_lit(regex::escape(&delim).replace('\\', r"\\"))]))
         }),
 
         // Statistical eval functions
-- 
2.43.0


From 859aaf9ce7f0bc22fb77e371492c7ab1bd585222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 63/67] fix: the runtime's eval functions compute what their
 SPL names mean, and return columns that can be operands

---
 python/spl_transpiler/runtime/base.py         |  12 +
 .../spl_transpiler/runtime/functions/eval.py  | 320 ++++++++++--------
 .../spl_transpiler/runtime/udfs/__init__.py   |  40 +--
 3 files changed, 205 insertions(+), 167 deletions(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..6f8e8e7 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -1,4 +1,5 @@
 import enum
+from functools import wraps
 from typing import Any
 
 from pydantic import validate_call, ConfigDict, BaseModel, model_validator
@@ -50,6 +51,17 @@ class Expr(BaseModel):
                 raise ValueError(f"Unsupported expression kind: {self.kind}")
 
 
+def column_function(func):
+    """Checks the types of a function of expressions; what it returns is a column, an operand like any other."""
+    checked = enforce_types(func)
+
+    @wraps(func)
+    def call(*args, **kwargs):
+        return checked(*args, **kwargs).to_pyspark_expr()
+
+    return call
+
+
 class TimeScale(str, enum.Enum):
     MONTHS = "months"
     WEEKS = "weeks"
diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 796dd94..1e0183c 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,10 +1,11 @@
+import re
 import warnings
 from functools import reduce
 
 from pyspark.sql import functions as F
 
 from spl_transpiler.runtime import udfs
-from spl_transpiler.runtime.base import enforce_types, Expr, TimeSpan, TimeScale
+from spl_transpiler.runtime.base import column_function, Expr, TimeSpan, TimeScale
 from spl_transpiler.runtime.functions import utils
 
 
@@ -15,25 +16,33 @@ from spl_transpiler.runtime.functions import utils
 #         }
 
 
-@enforce_types
-def bit_and(a: Expr, b: Expr) -> Expr:
-    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+@column_function
+def bit_and(a: Expr, b: Expr, *others: Expr) -> Expr:
+    return reduce(
+        lambda out, c: out.bitwiseAND(c.to_pyspark_expr()),
+        [b, *others],
+        a.to_pyspark_expr(),
+    )
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
 #         "bit_or" => function_transform!(bit_or [args] (a, b) { column_like!([a].bitwiseOR([b])) }),
 
 
-@enforce_types
-def bit_or(a: Expr, b: Expr) -> Expr:
-    return a.to_pyspark_expr().bitwiseOR(b.to_pyspark_expr())
+@column_function
+def bit_or(a: Expr, b: Expr, *others: Expr) -> Expr:
+    return reduce(
+        lambda out, c: out.bitwiseOR(c.to_pyspark_expr()),
+        [b, *others],
+        a.to_pyspark_expr(),
+    )
 
 
 #         // bit_not(<value>, <bitmask>)                         	 Bitwise NOT function that takes a non-negative as an argument and inverts every bit in the binary representation of that number. It also takes an optional second argument that acts as a bitmask.
 #         "bit_not" => function_transform!(bit_not [args] (x) { column_like!(bitwise_not([x])) }),
 
 
-@enforce_types
+@column_function
 def bit_not(x: Expr) -> Expr:
     return F.bitwise_not(x.to_pyspark_expr())
 
@@ -44,9 +53,13 @@ def bit_not(x: Expr) -> Expr:
 #         }
 
 
-@enforce_types
-def bit_xor(a: Expr, b: Expr) -> Expr:
-    return a.to_pyspark_expr().bitwiseXOR(b.to_pyspark_expr())
+@column_function
+def bit_xor(a: Expr, b: Expr, *others: Expr) -> Expr:
+    return reduce(
+        lambda out, c: out.bitwiseXOR(c.to_pyspark_expr()),
+        [b, *others],
+        a.to_pyspark_expr(),
+    )
 
 
 #         // bit_shift_left(<value>, <shift_offset>)             	 Logical left shift function that takes two non-negative integers as arguments and shifts the binary representation of the first integer over to the left by the specified shift amount.
@@ -55,7 +68,7 @@ def bit_xor(a: Expr, b: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def bit_shift_left(x: Expr, offset: int) -> Expr:
     return F.shiftleft(x.to_pyspark_expr(), offset)
 
@@ -66,7 +79,7 @@ def bit_shift_left(x: Expr, offset: int) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def bit_shift_right(x: Expr, offset: int) -> Expr:
     return F.shiftright(x.to_pyspark_expr(), offset)
 
@@ -90,7 +103,7 @@ def bit_shift_right(x: Expr, offset: int) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def case(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
@@ -113,7 +126,7 @@ def case(*args: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def cidrmatch(cidr: str, ip: Expr) -> Expr:
     return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
@@ -124,7 +137,7 @@ def cidrmatch(cidr: str, ip: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def coalesce(*args: Expr) -> Expr:
     return F.coalesce(*(arg.to_pyspark_expr() for arg in args))
 
@@ -133,7 +146,7 @@ def coalesce(*args: Expr) -> Expr:
 #         "false" => function_transform!(false [args] () { column_like!(lit(false)) }),
 
 
-@enforce_types
+@column_function
 def false() -> Expr:
     return F.lit(False)
 
@@ -144,7 +157,7 @@ def false() -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def if_(condition: Expr, true_value: Expr, false_value: Expr) -> Expr:
     return F.when(condition.to_pyspark_expr(), true_value.to_pyspark_expr()).otherwise(
         false_value.to_pyspark_expr()
@@ -155,9 +168,9 @@ def if_(condition: Expr, true_value: Expr, false_value: Expr) -> Expr:
 #         "in" => function_transform!(in [args] (x, vals) { column_like!([x].isin([vals])) }),
 
 
-@enforce_types
-def in_(field: Expr, values: list) -> Expr:
-    return field.to_pyspark_expr().isin(values)
+@column_function
+def in_(field: Expr, *values) -> Expr:
+    return field.to_pyspark_expr().isin(*values)
 
 
 #         // like(<str>,<pattern>)                               	 Returns TRUE only if <str> matches <pattern>.
@@ -166,7 +179,7 @@ def in_(field: Expr, values: list) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def like(string: Expr, pattern: Expr) -> Expr:
     return F.like(string.to_pyspark_expr(), pattern.to_pyspark_expr())
 
@@ -177,7 +190,7 @@ def like(string: Expr, pattern: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def lookup(lookup_table: Expr, json_object: Expr, json_array: Expr) -> Expr:
     raise NotImplementedError("lookup() function is not implemented.")
 
@@ -188,7 +201,7 @@ def lookup(lookup_table: Expr, json_object: Expr, json_array: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def match(string: Expr, regex: Expr) -> Expr:
     return F.regexp_like(string.to_pyspark_expr(), regex.to_pyspark_expr())
 
@@ -197,7 +210,7 @@ def match(string: Expr, regex: Expr) -> Expr:
 #         "null" => function_transform!(null [args] () { column_like!(lit(None)) }),
 
 
-@enforce_types
+@column_function
 def null() -> Expr:
     return F.lit(None)
 
@@ -206,7 +219,7 @@ def null() -> Expr:
 #         "nullif" => function_transform!(nullif [args] (x, y) { column_like!(nullif([x], [y])) }),
 
 
-@enforce_types
+@column_function
 def nullif(field1: Expr, field2: Expr) -> Expr:
     return F.nullif(field1.to_pyspark_expr(), field2.to_pyspark_expr())
 
@@ -217,7 +230,7 @@ def nullif(field1: Expr, field2: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def searchmatch(search_str: Expr) -> Expr:
     raise NotImplementedError("searchmatch() function is not implemented in PySpark.")
 
@@ -226,7 +239,7 @@ def searchmatch(search_str: Expr) -> Expr:
 #         "true" => function_transform!(true [args] () { column_like!(lit(true)) }),
 
 
-@enforce_types
+@column_function
 def true() -> Expr:
     return F.lit(True)
 
@@ -248,7 +261,7 @@ def true() -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
@@ -274,7 +287,7 @@ def validate(*args: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def ipmask(mask: Expr, ip: Expr) -> Expr:
     return udfs.ipmask(mask.to_pyspark_expr(), ip.to_pyspark_expr())
 
@@ -283,10 +296,10 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 #         "printf" => bail!("UNIMPLEMENTED: Unsupported function: {}", name),
 
 
-@enforce_types
+@column_function
 def printf(format_str: Expr, *args: Expr) -> Expr:
-    return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+    return F.printf(
+        format_str.to_pyspark_expr(), *(arg.to_pyspark_expr() for arg in args)
     )
 
 
@@ -297,9 +310,11 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr(), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -309,9 +324,11 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 #         }),
 
 
-@enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+@column_function
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    if format is None:
+        return value.to_pyspark_expr().cast("string")
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
@@ -320,7 +337,7 @@ def tostring(value, format=None):
 #         "md5" => function_transform!(md5 [args] (x) { column_like!(md5([x])) }),
 
 
-@enforce_types
+@column_function
 def md5(value: Expr) -> Expr:
     return F.md5(value.to_pyspark_expr())
 
@@ -329,7 +346,7 @@ def md5(value: Expr) -> Expr:
 #         "sha1" => function_transform!(sha1 [args] (x) { column_like!(sha1([x])) }),
 
 
-@enforce_types
+@column_function
 def sha1(value: Expr) -> Expr:
     return F.sha1(value.to_pyspark_expr())
 
@@ -340,7 +357,7 @@ def sha1(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def sha256(value: Expr) -> Expr:
     return F.sha2(value.to_pyspark_expr(), 256)
 
@@ -351,7 +368,7 @@ def sha256(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def sha512(value: Expr) -> Expr:
     return F.sha2(value.to_pyspark_expr(), 512)
 
@@ -362,7 +379,7 @@ def sha512(value: Expr) -> Expr:
 #         "now" => function_transform!(now [args] () { column_like!(current_timestamp()) }),
 
 
-@enforce_types
+@column_function
 def now() -> Expr:
     return F.current_timestamp()
 
@@ -388,7 +405,7 @@ def now() -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def relative_time(
     time: Expr,
     span: TimeSpan | None = None,
@@ -412,7 +429,7 @@ def relative_time(
 #         }),
 
 
-@enforce_types
+@column_function
 def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
@@ -426,7 +443,7 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
@@ -437,7 +454,7 @@ def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
 #         "time" => function_transform!(time [args] () { column_like!(current_timestamp()) }),
 
 
-@enforce_types
+@column_function
 def time() -> Expr:
     return F.current_timestamp()
 
@@ -450,7 +467,7 @@ def time() -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def isbool(value: Expr) -> Expr:
     raise NotImplementedError("`isbool` function is not implemented")
 
@@ -461,7 +478,7 @@ def isbool(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def isint(value: Expr) -> Expr:
     raise NotImplementedError("`isint` function is not implemented")
 
@@ -470,7 +487,7 @@ def isint(value: Expr) -> Expr:
 #         "isnotnull" => function_transform!(isnotnull [args] (x) { column_like!(isnotnull([x])) }),
 
 
-@enforce_types
+@column_function
 def isnotnull(value: Expr) -> Expr:
     return F.isnotnull(value.to_pyspark_expr())
 
@@ -479,7 +496,7 @@ def isnotnull(value: Expr) -> Expr:
 #         "isnull" => function_transform!(isnull [args] (x) { column_like!(isnull([x])) }),
 
 
-@enforce_types
+@column_function
 def isnull(value: Expr) -> Expr:
     return F.isnull(value.to_pyspark_expr())
 
@@ -490,7 +507,7 @@ def isnull(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def isnum(value: Expr) -> Expr:
     raise NotImplementedError("`isnum` function is not implemented")
 
@@ -501,7 +518,7 @@ def isnum(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def isstr(value: Expr) -> Expr:
     raise NotImplementedError("`isstr` function is not implemented")
 
@@ -512,7 +529,7 @@ def isstr(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def typeof(value: Expr) -> Expr:
     raise NotImplementedError("`typeof` function is not implemented")
 
@@ -525,7 +542,7 @@ def typeof(value: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_object(*members) -> Expr:
     raise NotImplementedError("`json_object` function is not implemented")
 
@@ -536,7 +553,7 @@ def json_object(*members) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_append(json: Expr, **values: Expr) -> Expr:
     raise NotImplementedError("`json_append` function is not implemented")
 
@@ -547,7 +564,7 @@ def json_append(json: Expr, **values: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_array(*values: Expr) -> Expr:
     raise NotImplementedError("`json_array` function is not implemented")
 
@@ -558,7 +575,7 @@ def json_array(*values: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_array_to_mv(json_array: Expr, boolean: bool) -> Expr:
     raise NotImplementedError("`json_array_to_mv` function is not implemented")
 
@@ -569,7 +586,7 @@ def json_array_to_mv(json_array: Expr, boolean: bool) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_extend(json: Expr, **values: Expr) -> Expr:
     raise NotImplementedError("`json_extend` function is not implemented")
 
@@ -580,7 +597,7 @@ def json_extend(json: Expr, **values: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_extract(json: Expr, *paths: str) -> Expr:
     raise NotImplementedError("`json_extract` function is not implemented")
 
@@ -591,7 +608,7 @@ def json_extract(json: Expr, *paths: str) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_extract_exact(json: Expr, *keys: str) -> Expr:
     raise NotImplementedError("`json_extract_exact` function is not implemented")
 
@@ -602,7 +619,7 @@ def json_extract_exact(json: Expr, *keys: str) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def json_keys(json: Expr) -> Expr:
     return F.json_object_keys(json.to_pyspark_expr())
 
@@ -613,7 +630,7 @@ def json_keys(json: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_set(json: Expr, **values: Expr) -> Expr:
     raise NotImplementedError("`json_set` function is not implemented")
 
@@ -624,7 +641,7 @@ def json_set(json: Expr, **values: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def json_set_exact(json: Expr, **values: Expr) -> Expr:
     raise NotImplementedError("`json_set_exact` function is not implemented")
 
@@ -635,7 +652,7 @@ def json_set_exact(json: Expr, **values: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def json_valid(json: Expr) -> Expr:
     return F.get_json_object(json.to_pyspark_expr(), "$").isNotNull()
 
@@ -646,7 +663,7 @@ def json_valid(json: Expr) -> Expr:
 #         "abs" => function_transform!(abs [args] (x) { column_like!(abs([x])) }),
 
 
-@enforce_types
+@column_function
 def abs(num: Expr) -> Expr:
     return F.abs(num.to_pyspark_expr())
 
@@ -655,7 +672,7 @@ def abs(num: Expr) -> Expr:
 #         "ceiling" => function_transform!(ceiling [args] (x) { column_like!(ceil([x])) }),
 
 
-@enforce_types
+@column_function
 def ceiling(num: Expr) -> Expr:
     return F.ceil(num.to_pyspark_expr())
 
@@ -667,7 +684,7 @@ def ceiling(num: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def exact(expression: Expr) -> Expr:
     warnings.warn(
         "`exact()` is meaningless in Spark since significant figures are not tracked, use proper precision for your expression inputs instead"
@@ -679,7 +696,7 @@ def exact(expression: Expr) -> Expr:
 #         "exp" => function_transform!(exp [args] (x) { column_like!(exp([x])) }),
 
 
-@enforce_types
+@column_function
 def exp(num: Expr) -> Expr:
     return F.exp(num.to_pyspark_expr())
 
@@ -688,7 +705,7 @@ def exp(num: Expr) -> Expr:
 #         "floor" => function_transform!(floor [args] (x) { column_like!(floor([x])) }),
 
 
-@enforce_types
+@column_function
 def floor(num: Expr) -> Expr:
     return F.floor(num.to_pyspark_expr())
 
@@ -697,7 +714,7 @@ def floor(num: Expr) -> Expr:
 #         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
 
 
-@enforce_types
+@column_function
 def ln(num: Expr) -> Expr:
     return F.log(num.to_pyspark_expr())
 
@@ -706,16 +723,17 @@ def ln(num: Expr) -> Expr:
 #         "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
 
 
-@enforce_types
-def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+@column_function
+def log(num: Expr, base: int | float = 10) -> Expr:
+    # Spark takes the base first
+    return F.log(base, num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
 #         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
 
 
-@enforce_types
+@column_function
 def pi() -> Expr:
     import math
 
@@ -726,7 +744,7 @@ def pi() -> Expr:
 #         "pow" => function_transform!(pow [args] (x, exp) { column_like!(pow([x], [exp])) }),
 
 
-@enforce_types
+@column_function
 def pow(num: Expr, exp: Expr) -> Expr:
     return F.pow(num.to_pyspark_expr(), exp.to_pyspark_expr())
 
@@ -737,7 +755,7 @@ def pow(num: Expr, exp: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def round(num: Expr, precision: int = 0) -> Expr:
     return F.round(num.to_pyspark_expr(), precision)
 
@@ -751,7 +769,7 @@ def round(num: Expr, precision: int = 0) -> Expr:
 #         "sqrt" => function_transform!(sqrt [args] (x) { column_like!(sqrt([x])) }),
 
 
-@enforce_types
+@column_function
 def sqrt(num: Expr) -> Expr:
     return F.sqrt(num.to_pyspark_expr())
 
@@ -760,10 +778,10 @@ def sqrt(num: Expr) -> Expr:
 #         "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
 
 
-@enforce_types
+@column_function
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(n.to_pyspark_expr() for n in nums)
+    return reduce(lambda a, b: a + b, (n.to_pyspark_expr() for n in nums))
 
 
 #
@@ -774,7 +792,7 @@ def sum_(*nums: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def commands(value: Expr) -> Expr:
     raise NotImplementedError("commands() function is not implemented.")
 
@@ -785,8 +803,8 @@ def commands(value: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
-def mvappend(values: Expr) -> Expr:
+@column_function
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
@@ -796,7 +814,7 @@ def mvappend(values: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def mvcount(column: Expr) -> Expr:
     return F.size(column.to_pyspark_expr())
 
@@ -807,7 +825,7 @@ def mvcount(column: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvdedup(column: Expr) -> Expr:
     raise NotImplementedError("mvdedup() function is not implemented.")
 
@@ -818,7 +836,7 @@ def mvdedup(column: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvfilter(predicate: Expr) -> Expr:
     raise NotImplementedError("mvfilter() function is not implemented.")
 
@@ -829,7 +847,7 @@ def mvfilter(predicate: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvfind(column: Expr, regex: Expr) -> Expr:
     raise NotImplementedError("mvfind() function is not implemented.")
 
@@ -846,12 +864,24 @@ def mvfind(column: Expr, regex: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
+    column = column.to_pyspark_expr()
     if end is None:
-        return F.get(column.to_pyspark_expr(), start)
-    else:
-        return F.slice(column.to_pyspark_expr(), start + 1, end - start + 1)
+        return F.get(column, start)
+    if start < 0 <= end:
+        raise NotImplementedError(
+            f"mvindex() from {start} to {end} is not implemented."
+        )
+    length = end - start + 1
+    if start < 0:
+        # Indices from the end begin at -1 in Spark, too
+        return F.slice(column, start, max(length, 0))
+    if end >= 0:
+        return F.slice(column, start + 1, max(length, 0))
+    return F.slice(
+        column, start + 1, F.greatest(F.size(column) + F.lit(length), F.lit(0))
+    )
 
 
 #         // mvjoin(<mv>,<delim>)                                	 Takes all of the values in a multivalue field and appends the values together using a delimiter.
@@ -860,7 +890,7 @@ def mvindex(column: Expr, start: int, end: int | None = None) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvjoin(column: Expr, delimiter: str) -> Expr:
     raise NotImplementedError("mvjoin() function is not implemented.")
 
@@ -871,7 +901,7 @@ def mvjoin(column: Expr, delimiter: str) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvmap(column: Expr, expression: Expr) -> Expr:
     raise NotImplementedError("mvmap() function is not implemented.")
 
@@ -882,7 +912,7 @@ def mvmap(column: Expr, expression: Expr) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvrange(start: int, end: int, step: int) -> Expr:
     raise NotImplementedError("mvrange() function is not implemented.")
 
@@ -893,7 +923,7 @@ def mvrange(start: int, end: int, step: int) -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mvsort(column: Expr) -> Expr:
     raise NotImplementedError("mvsort() function is not implemented.")
 
@@ -917,10 +947,12 @@ def mvsort(column: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
@@ -930,7 +962,7 @@ def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
 #         }
 
 
-@enforce_types
+@column_function
 def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
     raise NotImplementedError("mv_to_json_array() function is not implemented.")
 
@@ -941,9 +973,12 @@ def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def split(column: Expr, delimiter: str) -> Expr:
-    return F.split(column.to_pyspark_expr(), delimiter)
+    # Spark splits at a regular expression
+    return F.split(
+        column.to_pyspark_expr(), re.sub(r"([^\w\s])", r"\\\1", delimiter)
+    )
 
 
 #
@@ -964,9 +999,9 @@ def split(column: Expr, delimiter: str) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def avg(*args: Expr) -> Expr:
-    return sum(a.to_pyspark_expr() for a in args) / len(args)
+    return sum_(*args) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -984,7 +1019,7 @@ def avg(*args: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def max_(*args: Expr) -> Expr:
     return reduce(
         lambda a, b: F.greatest(a, b.to_pyspark_expr()),
@@ -1008,7 +1043,7 @@ def max_(*args: Expr) -> Expr:
 #         }),
 
 
-@enforce_types
+@column_function
 def min_(*args: Expr) -> Expr:
     return reduce(
         lambda a, b: F.least(a, b.to_pyspark_expr()),
@@ -1021,7 +1056,7 @@ def min_(*args: Expr) -> Expr:
 #         "random" => function_transform!(random [args] () { column_like!(rand()) }),
 
 
-@enforce_types
+@column_function
 def random() -> Expr:
     return F.rand()
 
@@ -1032,8 +1067,8 @@ def random() -> Expr:
 #         "len" => function_transform!(len [args] (x) { column_like!(length([x])) }),
 
 
-@enforce_types
-def len_(x: Expr):
+@column_function
+def len_(x: Expr) -> Expr:
     return F.length(x.to_pyspark_expr())
 
 
@@ -1041,8 +1076,8 @@ def len_(x: Expr):
 #         "lower" => function_transform!(lower [args] (x) { column_like!(lower([x])) }),
 
 
-@enforce_types
-def lower(x: Expr):
+@column_function
+def lower(x: Expr) -> Expr:
     return F.lower(x.to_pyspark_expr())
 
 
@@ -1052,9 +1087,9 @@ def lower(x: Expr):
 #         }
 
 
-@enforce_types
-def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+@column_function
+def ltrim(x: Expr, chars: str = " \t") -> Expr:
+    return F.ltrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1065,8 +1100,8 @@ def ltrim(x: Expr, chars: str):
 #         }
 
 
-@enforce_types
-def replace(input: Expr, regex: str, replacement: str):
+@column_function
+def replace(input: Expr, regex: str, replacement: str) -> Expr:
     return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)
 
 
@@ -1076,9 +1111,9 @@ def replace(input: Expr, regex: str, replacement: str):
 #         }
 
 
-@enforce_types
-def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+@column_function
+def rtrim(x: Expr, chars: str = " \t") -> Expr:
+    return F.rtrim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1087,8 +1122,8 @@ def rtrim(x: Expr, chars: str):
 #         }
 
 
-@enforce_types
-def spath(value: Expr, path: str):
+@column_function
+def spath(value: Expr, path: str) -> Expr:
     raise NotImplementedError("Unsupported function: spath")
 
 
@@ -1098,8 +1133,9 @@ def spath(value: Expr, path: str):
 #         }),
 
 
-@enforce_types
-def substr(column: Expr, start: int, length: int):
+@column_function
+def substr(column: Expr, start: int, length: int = 2**31 - 1) -> Expr:
+    # All of the rest by default
     return F.substring(column.to_pyspark_expr(), start, length)
 
 
@@ -1107,17 +1143,17 @@ def substr(column: Expr, start: int, length: int):
 #         "trim" => function_transform!(trim [args] (x, chars) { column_like!(trim([x], [chars])) }),
 
 
-@enforce_types
-def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+@column_function
+def trim(x: Expr, chars: str = " \t") -> Expr:
+    return F.trim(x.to_pyspark_expr(), F.lit(chars))
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
 #         "upper" => function_transform!(upper [args] (x) { column_like!(upper([x])) }),
 
 
-@enforce_types
-def upper(x: Expr):
+@column_function
+def upper(x: Expr) -> Expr:
     return F.upper(x.to_pyspark_expr())
 
 
@@ -1125,8 +1161,8 @@ def upper(x: Expr):
 #         "urldecode" => function_transform!(urldecode [args] (x) { column_like!(url_decode([x])) }),
 
 
-@enforce_types
-def urldecode(x: Expr):
+@column_function
+def urldecode(x: Expr) -> Expr:
     return F.url_decode(x.to_pyspark_expr())
 
 
@@ -1136,7 +1172,7 @@ def urldecode(x: Expr):
 #         "acos" => function_transform!(acos [args] (x) { column_like!(acos([x])) }),
 
 
-@enforce_types
+@column_function
 def acos(x: Expr) -> Expr:
     return F.acos(x.to_pyspark_expr())
 
@@ -1145,7 +1181,7 @@ def acos(x: Expr) -> Expr:
 #         "acosh" => function_transform!(acosh [args] (x) { column_like!(acosh([x])) }),
 
 
-@enforce_types
+@column_function
 def acosh(x: Expr) -> Expr:
     return F.acosh(x.to_pyspark_expr())
 
@@ -1154,7 +1190,7 @@ def acosh(x: Expr) -> Expr:
 #         "asin" => function_transform!(asin [args] (x) { column_like!(asin([x])) }),
 
 
-@enforce_types
+@column_function
 def asin(x: Expr) -> Expr:
     return F.asin(x.to_pyspark_expr())
 
@@ -1163,7 +1199,7 @@ def asin(x: Expr) -> Expr:
 #         "asinh" => function_transform!(asinh [args] (x) { column_like!(asinh([x])) }),
 
 
-@enforce_types
+@column_function
 def asinh(x: Expr) -> Expr:
     return F.asinh(x.to_pyspark_expr())
 
@@ -1172,7 +1208,7 @@ def asinh(x: Expr) -> Expr:
 #         "atan" => function_transform!(atan [args] (x) { column_like!(atan([x])) }),
 
 
-@enforce_types
+@column_function
 def atan(x: Expr) -> Expr:
     return F.atan(x.to_pyspark_expr())
 
@@ -1181,7 +1217,7 @@ def atan(x: Expr) -> Expr:
 #         "atan2" => function_transform!(atan2 [args] (x, y) { column_like!(atan2([x], [y])) }),
 
 
-@enforce_types
+@column_function
 def atan2(x: Expr, y: Expr) -> Expr:
     return F.atan2(x.to_pyspark_expr(), y.to_pyspark_expr())
 
@@ -1190,7 +1226,7 @@ def atan2(x: Expr, y: Expr) -> Expr:
 #         "atanh" => function_transform!(atanh [args] (x) { column_like!(atanh([x])) }),
 
 
-@enforce_types
+@column_function
 def atanh(x: Expr) -> Expr:
     return F.atanh(x.to_pyspark_expr())
 
@@ -1199,7 +1235,7 @@ def atanh(x: Expr) -> Expr:
 #         "cos" => function_transform!(cos [args] (x) { column_like!(cos([x])) }),
 
 
-@enforce_types
+@column_function
 def cos(x: Expr) -> Expr:
     return F.cos(x.to_pyspark_expr())
 
@@ -1208,7 +1244,7 @@ def cos(x: Expr) -> Expr:
 #         "cosh" => function_transform!(cosh [args] (x) { column_like!(cosh([x])) }),
 
 
-@enforce_types
+@column_function
 def cosh(x: Expr) -> Expr:
     return F.cosh(x.to_pyspark_expr())
 
@@ -1217,7 +1253,7 @@ def cosh(x: Expr) -> Expr:
 #         "hypot" => function_transform!(hypot [args] (x, y) { column_like!(hypot([x], [y])) }),
 
 
-@enforce_types
+@column_function
 def hypot(x: Expr, y: Expr) -> Expr:
     return F.hypot(x.to_pyspark_expr(), y.to_pyspark_expr())
 
@@ -1226,7 +1262,7 @@ def hypot(x: Expr, y: Expr) -> Expr:
 #         "sin" => function_transform!(sin [args] (x) { column_like!(sin([x])) }),
 
 
-@enforce_types
+@column_function
 def sin(x: Expr) -> Expr:
     return F.sin(x.to_pyspark_expr())
 
@@ -1235,7 +1271,7 @@ def sin(x: Expr) -> Expr:
 #         "sinh" => function_transform!(sinh [args] (x) { column_like!(sinh([x])) }),
 
 
-@enforce_types
+@column_function
 def sinh(x: Expr) -> Expr:
     return F.sinh(x.to_pyspark_expr())
 
@@ -1244,7 +1280,7 @@ def sinh(x: Expr) -> Expr:
 #         "tan" => function_transform!(tan [args] (x) { column_like!(tan([x])) }),
 
 
-@enforce_types
+@column_function
 def tan(x: Expr) -> Expr:
     return F.tan(x.to_pyspark_expr())
 
@@ -1253,6 +1289,6 @@ def tan(x: Expr) -> Expr:
 #         "tanh" => function_transform!(tanh [args] (x) { column_like!(tanh([x])) }),
 
 
-@enforce_types
+@column_function
 def tanh(x: Expr) -> Expr:
     return F.tanh(x.to_pyspark_expr())
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..1cf5ffc 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, StringType, IntegerType
+from pyspark.sql.types import BooleanType, DoubleType, StringType
 import ipaddress
 
 
@@ -22,46 +22,36 @@ def cidr_match(ip_address, cidr_range):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
-
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        # Bitwise AND of the address and the mask
+        masked = int(ipaddress.IPv4Address(ip)) & int(ipaddress.IPv4Address(mask))
+        return str(ipaddress.IPv4Address(masked))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
 
 
-@udf(returnType=StringType())
-def printf(format_str, args):
-    return format_str % args
-
-
-@udf(returnType=IntegerType())
-def tonumber(value, base=10):
+@udf(returnType=DoubleType())
+def tonumber(value, base):
     try:
-        return int(value, base)
+        return float(int(str(value), base))
     except (ValueError, TypeError):
         return None
 
 
 @udf(returnType=StringType())
-def tostring(value, format: str | None = None):
+def tostring(value, format):
     # "binary", "hex", "commas", "duration"
     match (value, format):
-        case (bool(), None):
-            return "True" if value else "False"
-        case (int() | float(), None):
-            return str(value)
+        case (None, _):
+            return None
         case (int(), "binary"):
             return bin(value)[2:]
         case (int(), "hex"):
-            return hex(value)[2:]
-        case (int() | float(), "commas"):
-            return "{:,}".format(value)
+            return f"0x{value:X}"
+        case (int(), "commas"):
+            return f"{value:,}"
+        case (float(), "commas"):
+            return f"{value:,.2f}"
         case (int(), "duration"):
             hours, remainder = divmod(value, 3600)
             minutes, seconds = divmod(remainder, 60)
-- 
2.43.0


From 5d01427b3018646580d556d1cf075b2859e249bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:11 +0000
Subject: [PATCH 64/67] fix: pass the runtime's functions their plain
 arguments, and leave to Spark those it doesn't have

---
 src/commands/cmd_stats/pyspark.rs |  14 +---
 src/commands/stats_utils.rs       |  14 +---
 src/functions/eval_fns.rs         | 104 ++++++++++++++++++++++--------
 src/functions/stat_fns.rs         |  25 +++++++
 4 files changed, 108 insertions(+), 49 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 075b17a..9a94a8b 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,6 +1,6 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::functions::stat_fns::stats_arg;
+use crate::functions::stat_fns::{runtime_stats_fn, stats_arg};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
@@ -24,20 +24,12 @@ fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
+    let func = runtime_stats_fn(&name, args.len())?;
     let args: Result<Vec<Expr>> = args
         .into_iter()
         .map(|e| stats_arg(e).with_context(ctx).try_into())
         .collect();
-    // Some names would shadow Python's own in the runtime
-    let name = match name.as_str() {
-        "sum" | "list" => format!("{}_", name),
-        _ => name,
-    };
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = FunctionCall { func, args: args? }.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 2377be3..ba36daf 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,4 +1,4 @@
-use crate::functions::stat_fns::{stats_arg, stats_fn};
+use crate::functions::stat_fns::{runtime_stats_fn, stats_arg, stats_fn};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
@@ -59,20 +59,12 @@ pub fn transform_stats_runtime_expr(
         ),
     };
     let alias = maybe_name.unwrap_or(name.clone());
+    let func = runtime_stats_fn(&name, args.len())?;
     let args: anyhow::Result<Vec<Expr>> = args
         .into_iter()
         .map(|e| stats_arg(e).with_context(ctx).try_into())
         .collect();
-    // Some names would shadow Python's own in the runtime
-    let name = match name.as_str() {
-        "sum" | "list" => format!("{}_", name),
-        _ => name,
-    };
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = FunctionCall { func, args: args? }.into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index bd24580..0793db5 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -188,40 +188,90 @@ pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnL
         RuntimeSelection::Disallow => eval_fn_bare(name, args),
         RuntimeSelection::Require => eval_fn_runtime(name, args),
         RuntimeSelection::Allow => {
-            eval_fn_runtime(name.clone(), args.clone()).or_else(|_| eval_fn_bare(name, args))
+            if runtime_plain_args(&name, &args).is_some() {
+                eval_fn_runtime(name, args)
+            } else {
+                eval_fn_bare(name, args)
+            }
         }
     }
 }
 
-fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
-    match name.to_ascii_lowercase().as_str() {
-        "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col) {
-            ColumnLike::FunctionCall {
-                func: "functions.eval.cidrmatch".into(),
-                args: vec![PyLiteral::from(cidr).into(), col]
-            }
-        }),
-        name => {
-            // warn!(
-            //     "Unknown eval function encountered, returning as is: {}",
-            //     name
-            // );
-            let name = match name {
-                "if" => "if_",
-                "in" => "in_",
-                "len" => "len_",
-                "sum" => "sum_",
-                "max" => "max_",
-                "min" => "min_",
-                name => name,
-            };
-            let func = format!("functions.eval.{}", name);
-            let args: Result<Vec<Expr>> = map_args(args);
-            Ok(ColumnLike::FunctionCall { func, args: args? })
-        }
+/// The positions of the arguments that the runtime's function takes as plain Python values, or `None` if
+/// the runtime doesn't have a function of that name that takes those arguments.
+fn runtime_plain_args(
+    name: &str,
+    args: &[ContextualizedExpr<ast::Expr>],
+) -> Option<&'static [usize]> {
+    let plain_args: &[usize] = match (name.to_ascii_lowercase().as_str(), args.len()) {
+        ("null" | "true" | "false" | "now" | "time" | "pi" | "random", 0) => &[],
+        (
+            "bit_not" | "isnull" | "isnotnull" | "md5" | "sha1" | "sha256" | "sha512" | "json_keys"
+            | "json_valid" | "abs" | "ceiling" | "exact" | "exp" | "floor" | "ln" | "sqrt"
+            | "mvcount" | "len" | "lower" | "upper" | "urldecode" | "acos" | "acosh" | "asin"
+            | "asinh" | "atan" | "atanh" | "cos" | "cosh" | "sin" | "sinh" | "tan" | "tanh",
+            1,
+        ) => &[],
+        ("like" | "match" | "nullif" | "pow" | "atan2" | "hypot" | "ipmask", 2) => &[],
+        ("if", 3) => &[],
+        ("bit_and" | "bit_or" | "bit_xor" | "in", 2..) => &[],
+        ("coalesce" | "mvappend" | "sum" | "avg" | "max" | "min" | "printf", 1..) => &[],
+        ("case" | "validate", n @ 2..) if n % 2 == 0 => &[],
+        ("cidrmatch", 2) => &[0],
+        ("bit_shift_left" | "bit_shift_right" | "split" | "strftime" | "strptime", 2) => &[1],
+        ("log" | "round" | "ltrim" | "rtrim" | "trim" | "tonumber" | "tostring", 1..=2) => &[1],
+        ("mvindex" | "substr", 2..=3) => &[1, 2],
+        ("replace", 3) => &[1, 2],
+        ("mvzip", 2..=3) => &[2],
+        _ => return None,
+    };
+    args.iter()
+        .enumerate()
+        .all(|(i, arg)| !plain_args.contains(&i) || runtime_plain_arg(arg).is_some())
+        .then_some(plain_args)
+}
+
+fn runtime_plain_arg(arg: &ContextualizedExpr<ast::Expr>) -> Option<Expr> {
+    let ast::Expr::Leaf(ast::LeafExpr::Constant(constant)) = &**arg else {
+        return None;
+    };
+    match constant {
+        ast::Constant::Int(ast::IntValue(value)) => Some(PyLiteral::from(*value).into()),
+        ast::Constant::Str(ast::StrValue(value))
+        | ast::Constant::Wildcard(ast::Wildcard(value))
+        | ast::Constant::IPv4CIDR(ast::IPv4CIDR(value)) => {
+            Some(PyLiteral::from(value.clone()).into())
+        }
+        _ => None,
     }
 }
 
+fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
+    let Some(plain_args) = runtime_plain_args(&name, &args) else {
+        bail!("The runtime has no function `{}` of these arguments", name)
+    };
+    let name = name.to_ascii_lowercase();
+    let name = match name.as_str() {
+        "if" => "if_",
+        "in" => "in_",
+        "len" => "len_",
+        "sum" => "sum_",
+        "max" => "max_",
+        "min" => "min_",
+        name => name,
+    };
+    let func = format!("functions.eval.{}", name);
+    let args: Result<Vec<Expr>> = args
+        .iter()
+        .enumerate()
+        .map(|(i, arg)| match runtime_plain_arg(arg) {
+            Some(plain) if plain_args.contains(&i) => Ok(plain),
+            _ => map_arg(arg),
+        })
+        .collect();
+    Ok(ColumnLike::FunctionCall { func, args: args? })
+}
+
 fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.to_ascii_lowercase().as_str() {
         // Convert functions (not sure this is actually valid, but it's in the original transpiler...)
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index d6964b2..a4dd320 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -101,6 +101,31 @@ pub fn stats_arg(arg: ast::Expr) -> ast::Expr {
     }
 }
 
+/// The runtime's function for a statistic of that many values, if it has one
+pub fn runtime_stats_fn(name: &str, args: usize) -> Result<String> {
+    let is_percentile = ["exactperc", "percentile", "upperperc"]
+        .iter()
+        .filter_map(|prefix| name.strip_prefix(prefix))
+        .any(|percentile| percentile.parse::<u32>().is_ok());
+    match (name, args) {
+        ("count", 0..=1) => {}
+        (
+            "avg" | "distinct_count" | "dc" | "estdc" | "max" | "mean" | "median" | "min" | "mode"
+            | "range" | "stdev" | "stdevp" | "sum" | "sumsq" | "var" | "varp" | "first" | "last"
+            | "list" | "values" | "earliest" | "earliest_time" | "latest" | "latest_time" | "rate"
+            | "rate_avg" | "rate_sum",
+            1,
+        ) => {}
+        (_, 1) if is_percentile => {}
+        _ => bail!("The runtime has no statistic `{}` of {} values", name, args),
+    }
+    // Some names would shadow Python's own in the runtime
+    Ok(match name {
+        "sum" | "list" => format!("functions.stats.{}_", name),
+        _ => format!("functions.stats.{}", name),
+    })
+}
+
 fn stats_fn_bare(
     name: String,
     args: Vec<ContextualizedExpr<ast::Expr>>,
-- 
2.43.0


From 1675c8dc30749e45b6b7a0aa2d2f95905bee0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:17 +0000
Subject: [PATCH 65/67] fix: the number of a missing value in another base is
 missing, too

The runtime's tonumber read the text "None" of a null value as a number where
the base has those digits.
---
 python/spl_transpiler/runtime/udfs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 1cf5ffc..a3a4d1d 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -32,6 +32,8 @@ def ipmask(mask, ip):
 
 @udf(returnType=DoubleType())
 def tonumber(value, base):
+    if value is None:
+        return None
     try:
         return float(int(str(value), base))
     except (ValueError, TypeError):
-- 
2.43.0


From d99034e036824c31a9b58576c9afed0237b0047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:58 +0000
Subject: [PATCH 66/67] fix: a number too large for a double is no name in the
 program

---
 src/pyspark/ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 5bc32ee..d769d16 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -82,7 +82,11 @@ impl From<i64> for PyLiteral {
 }
 impl From<f64> for PyLiteral {
     fn from(value: f64) -> PyLiteral {
-        PyLiteral(value.to_string())
+        if value.is_finite() {
+            PyLiteral(value.to_string())
+        } else {
+            PyLiteral(format!("float(\"{}\")", value))
+        }
     }
 }
 impl From<bool> for PyLiteral {
-- 
2.43.0


From 94bfa05adf3ffc6a1a5a88a15675c2735e3d3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 67/67] fix: nested negations and subsearches are not parsed
 again and again

---
 src/spl/parser.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 99ce59c..36dd35b 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -1112,9 +1112,15 @@ pub fn expr7(input: &str) -> IResult<&str, ast::Expr> {
     alt((
         map(
             alt((
-                separated_pair(operators::UnaryNot::pattern, multispace1, expr7),
+                separated_pair(
+                    preceded(multispace0, operators::UnaryNot::pattern),
+                    multispace1,
+                    expr7,
+                ),
+                // Only without blanks: trying what is in the parentheses twice takes exponential time
+                // if there are more of them in it
                 pair(
-                    ws(operators::UnaryNot::pattern),
+                    preceded(multispace0, operators::UnaryNot::pattern),
                     parenthesized(expr9_with_whitespace),
                 ),
             )),
@@ -1255,7 +1261,22 @@ pub fn stats_call(input: &str) -> IResult<&str, Vec<ast::Expr>> {
 //     | _map
 //     | impliedSearch)
 pub fn command(input: &str) -> IResult<&str, ast::Command> {
-    alt((named_command, into(SearchParser::parse)))(input)
+    alt((
+        named_command,
+        // `named_command` has already tried a search that begins with its name and the subsearches of a multisearch.
+        // Trying them twice takes exponential time if there are more of them in it.
+        preceded(
+            not(alt((
+                recognize(pair(tag_no_case("search"), multispace1)),
+                recognize(tuple((
+                    tag_no_case("multisearch"),
+                    multispace1,
+                    tag("["),
+                ))),
+            ))),
+            into(SearchParser::parse),
+        ),
+    ))(input)
 }
 
 /// A command introduced by its name.
-- 
2.43.0

