From c3f08f23415cfa20d7e43321a4d8dfe30d13cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 01/17] fix: do not use a streaming parser in string literals

A query ending inside a \u escape made JsonPath::parse panic, since the
streaming one_of reports Incomplete, which parse declares unreachable.
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From d33d3b16df0998780655c728465319abc638c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 02/17] fix: accept lower-case hexadecimal digits in high
 surrogates

RFC 9535 hexadecimal digits are case-insensitive, but '\ud83d\ude00' was
rejected.
---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From 0676b10ec481ec9c81000b4565301433e3010d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 03/17] fix: allow blank space before a descendant segment

RFC 9535 allows S before every segment; it was only skipped before child
segments, so '$ ..a' was rejected.
---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From a23d85a68b252b217c6d655ffab41c8fd3f5e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 04/17] fix: accept function names of a single character

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From eff5b2390728aac95400712e650665b9e33b1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 05/17] fix: do not take the start of a function name for a
 literal

The names of functions like 'nullable' begin with a literal keyword, which
made calls to them unparseable as comparables and as arguments.
---
 serde_json_path/src/parser/primitive/mod.rs | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/mod.rs b/serde_json_path/src/parser/primitive/mod.rs
index 01a0c90..321dac4 100644
--- a/serde_json_path/src/parser/primitive/mod.rs
+++ b/serde_json_path/src/parser/primitive/mod.rs
@@ -1,4 +1,10 @@
-use nom::{branch::alt, bytes::complete::tag, combinator::value};
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::satisfy,
+    combinator::{not, value},
+    sequence::terminated,
+};
 
 use super::PResult;
 
@@ -6,14 +12,24 @@ pub(crate) mod int;
 pub(crate) mod number;
 pub(crate) mod string;
 
+/// Parse a keyword that is not merely the prefix of a function name, e.g., `null` in `nullable(@)`
+fn parse_keyword<'a>(keyword: &'static str) -> impl FnMut(&'a str) -> PResult<'a, &'a str> {
+    terminated(
+        tag(keyword),
+        not(satisfy(|c| {
+            c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_' || c == '('
+        })),
+    )
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_null(input: &str) -> PResult<()> {
-    value((), tag("null"))(input)
+    value((), parse_keyword("null"))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_bool(input: &str) -> PResult<bool> {
-    let parse_true = value(true, tag("true"));
-    let parse_false = value(false, tag("false"));
+    let parse_true = value(true, parse_keyword("true"));
+    let parse_false = value(false, parse_keyword("false"));
     alt((parse_true, parse_false))(input)
 }
-- 
2.43.0


From 2e9f707b4e1c2567205185ad7fc6e94865d3629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 06/17] fix: escape member names in the text of normalized
 paths

The display of NormalizedPath wrote names verbatim, so a name with a quote,
backslash or control character gave a text that is no normalized path, and
different nodes could print alike.
---
 serde_json_path_core/src/path.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..29d39af 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,7 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => write!(f, "['{name}']", name = Escaped(name))?,
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -209,6 +209,31 @@ impl Serialize for NormalizedPath<'_> {
     }
 }
 
+/// Displays a string as the contents of a single-quoted string literal, with the escapes of
+/// [normalized paths][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
+pub(crate) struct Escaped<'a>(pub(crate) &'a str);
+
+impl Display for Escaped<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        for c in self.0.chars() {
+            match c {
+                '\u{0008}' => f.write_str(r"\b")?,
+                '\u{000C}' => f.write_str(r"\f")?,
+                '\n' => f.write_str(r"\n")?,
+                '\r' => f.write_str(r"\r")?,
+                '\t' => f.write_str(r"\t")?,
+                '\'' => f.write_str(r"\'")?,
+                '\\' => f.write_str(r"\\")?,
+                '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", u32::from(c))?,
+                _ => write!(f, "{c}")?,
+            }
+        }
+        Ok(())
+    }
+}
+
 /// An element within a [`NormalizedPath`]
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum PathElement<'a> {
-- 
2.43.0


From bb4925b800473054e16cadb11d15b310d1f16659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 07/17] fix: report expected and received argument counts the
 right way round

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From 5ee188667a48dc8019d9ab8bd33debad2f4f170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/17] fix: reject patterns that are only valid inside the
 enclosing group

match and search wrap the pattern in a group, so an invalid pattern like
'a)|(b' became a valid one and escaped the anchors. An invalid pattern does
not match anything.
---
 .../src/parser/selector/function/registry.rs  | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..101ecfa 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -56,12 +56,11 @@ fn count(nodes: NodesType) -> ValueType {
 #[serde_json_path_macros::register(name = "match", target = MATCH_FUNC)]
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
-        (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
-                .map(|r| r.is_match(s))
-                .map(Into::into)
-                .unwrap_or_default()
-        }
+        (Some(Value::String(s)), Some(Value::String(r))) => regex::Regex::new(r)
+            .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
+            .map(|r| r.is_match(s))
+            .map(Into::into)
+            .unwrap_or_default(),
         _ => LogicalType::False,
     }
 }
@@ -70,12 +69,11 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 #[serde_json_path_macros::register(target = SEARCH_FUNC)]
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
-        (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
-                .map(|r| r.is_match(s))
-                .map(Into::into)
-                .unwrap_or_default()
-        }
+        (Some(Value::String(s)), Some(Value::String(r))) => regex::Regex::new(r)
+            .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
+            .map(|r| r.is_match(s))
+            .map(Into::into)
+            .unwrap_or_default(),
         _ => LogicalType::False,
     }
 }
-- 
2.43.0


From 8d9e3ac2f2c483db3dd152b1f1ab1197ff6f5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 09/17] fix: parse the operands of filter expressions only once

A query or function in a filter was parsed anew for each kind of expression
it could begin, so that parsing took time exponential in the depth of nested
filters: $[?@[?@[?...]]] with twenty levels took seconds.
---
 serde_json_path/src/parser/selector/filter.rs | 101 ++++++++++++++----
 .../src/parser/selector/function/mod.rs       |  22 +++-
 2 files changed, 96 insertions(+), 27 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..8551faa 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,14 +1,15 @@
 use nom::character::complete::{char, multispace0};
-use nom::combinator::{cut, map, map_res};
+use nom::combinator::{cut, map, map_res, opt, peek};
 use nom::multi::separated_list1;
-use nom::sequence::{delimited, pair, preceded, separated_pair, tuple};
+use nom::sequence::{delimited, pair, preceded, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
     FunctionArgType, FunctionExpr, FunctionValidationError, Validated,
 };
+use serde_json_path_core::spec::query::Query;
 use serde_json_path_core::spec::selector::filter::{
     BasicExpr, Comparable, ComparisonExpr, ComparisonOperator, ExistExpr, Filter, Literal,
-    LogicalAndExpr, LogicalOrExpr, SingularQuery,
+    LogicalAndExpr, LogicalOrExpr, NonSingularQueryError, SingularQuery,
 };
 
 use super::function::parse_function_expr;
@@ -53,11 +54,6 @@ fn parse_exist_expr_inner(input: &str) -> PResult<ExistExpr> {
     map(parse_query, ExistExpr)(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_exist_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_exist_expr_inner, BasicExpr::Exist)(input)
-}
-
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_not_exist_expr(input: &str) -> PResult<BasicExpr> {
     map(
@@ -74,11 +70,6 @@ fn parse_func_expr_inner(input: &str) -> PResult<FunctionExpr<Validated>> {
     }))(input)
 }
 
-#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-fn parse_func_expr(input: &str) -> PResult<BasicExpr> {
-    map(parse_func_expr_inner, BasicExpr::FuncExpr)(input)
-}
-
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_not_func_expr(input: &str) -> PResult<BasicExpr> {
     map(
@@ -114,22 +105,88 @@ fn parse_basic_expr(input: &str) -> PResult<BasicExpr> {
     alt((
         parse_not_parent_expr,
         parse_paren_expr,
-        map(parse_comp_expr, BasicExpr::Relation),
+        map(
+            preceded(peek(parse_literal), parse_comp_expr),
+            BasicExpr::Relation,
+        ),
         parse_not_exist_expr,
-        parse_exist_expr,
         parse_not_func_expr,
-        parse_func_expr,
+        parse_operand_expr,
+    ))(input)
+}
+
+/// A query or function, which can be a test on its own, or the left side of a comparison
+///
+/// Operands may contain filters, so they are parsed once, before it is known what they are used
+/// for; parsing them anew for each of their uses takes time exponential in the nesting depth.
+#[derive(Debug)]
+pub(crate) enum Operand {
+    Query(Query),
+    Function(FunctionExpr<Validated>),
+}
+
+impl Operand {
+    /// Produce the expression that compares `self` as given, or tests it if there is no comparison
+    fn into_expr(
+        self,
+        comparison: Option<(ComparisonOperator, Comparable)>,
+    ) -> Result<BasicExpr, OperandError> {
+        match (self, comparison) {
+            (Operand::Query(query), Some((op, right))) => {
+                let left = Comparable::SingularQuery(query.try_into()?);
+                Ok(BasicExpr::Relation(ComparisonExpr { left, op, right }))
+            }
+            (Operand::Query(query), None) => Ok(BasicExpr::Exist(ExistExpr(query))),
+            (Operand::Function(fe), comparison) => match (fe.return_type, comparison) {
+                (FunctionArgType::Value, Some((op, right))) => {
+                    let left = Comparable::FunctionExpr(fe);
+                    Ok(BasicExpr::Relation(ComparisonExpr { left, op, right }))
+                }
+                (FunctionArgType::Logical | FunctionArgType::Nodelist, None) => {
+                    Ok(BasicExpr::FuncExpr(fe))
+                }
+                _ => Err(FunctionValidationError::IncorrectFunctionReturnType.into()),
+            },
+        }
+    }
+}
+
+#[derive(Debug, thiserror::Error)]
+pub(crate) enum OperandError {
+    #[error(transparent)]
+    Query(#[from] NonSingularQueryError),
+    #[error(transparent)]
+    Function(#[from] FunctionValidationError),
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+pub(crate) fn parse_operand(input: &str) -> PResult<Operand> {
+    alt((
+        map(parse_query, Operand::Query),
+        map(parse_function_expr, Operand::Function),
+    ))(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_comparison(input: &str) -> PResult<(ComparisonOperator, Comparable)> {
+    pair(
+        delimited(multispace0, parse_comparison_operator, multispace0),
+        parse_comparable,
+    )(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_operand_expr(input: &str) -> PResult<BasicExpr> {
+    cut(map_res(
+        pair(parse_operand, opt(parse_comparison)),
+        |(operand, comparison)| operand.into_expr(comparison),
     ))(input)
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
-        separated_pair(
-            parse_comparable,
-            multispace0,
-            separated_pair(parse_comparison_operator, multispace0, parse_comparable),
-        ),
+        pair(parse_comparable, parse_comparison),
         |(left, (op, right))| ComparisonExpr { left, op, right },
     )(input)
 }
@@ -162,7 +219,7 @@ fn parse_literal_comparable(input: &str) -> PResult<Comparable> {
 }
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
-pub(crate) fn parse_singular_path(input: &str) -> PResult<SingularQuery> {
+fn parse_singular_path(input: &str) -> PResult<SingularQuery> {
     map_res(parse_query, |q| q.try_into())(input)
 }
 
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..040792d 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -12,14 +12,15 @@ use nom::{
 use serde_json_path_core::spec::functions::{
     Function, FunctionExpr, FunctionExprArg, FunctionValidationError, Validated,
 };
+use serde_json_path_core::spec::query::Query;
 
 pub(crate) mod registry;
 
-use crate::parser::{parse_query, PResult};
+use crate::parser::PResult;
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_singular_path};
+use super::filter::{parse_literal, parse_logical_or_expr, parse_operand, Operand};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -53,13 +54,24 @@ fn parse_function_name(input: &str) -> PResult<String> {
     )(input)
 }
 
+fn is_singular(query: &Query) -> bool {
+    query
+        .segments
+        .iter()
+        .all(|s| s.is_child() && s.segment.is_singular())
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
         map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
+        map_res(parse_operand, |operand| match operand {
+            Operand::Query(query) if is_singular(&query) => {
+                query.try_into().map(FunctionExprArg::SingularQuery)
+            }
+            Operand::Query(query) => Ok(FunctionExprArg::FilterQuery(query)),
+            Operand::Function(fe) => Ok(FunctionExprArg::FunctionExpr(fe)),
+        }),
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
 }
-- 
2.43.0


From 5e977716473a0873430ba322e1a8ce1a62418173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 10/17] fix: accept logical expressions as function arguments

The alternative for logical expressions was never reached, since queries and
function expressions were committed to by their first character: neither
'f(@.a == 1)' nor 'f(!@.a)' could be parsed.
---
 serde_json_path/src/parser/selector/filter.rs | 49 ++++++++++---
 .../src/parser/selector/function/mod.rs       | 68 +++++++++++++++----
 2 files changed, 96 insertions(+), 21 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 8551faa..1b6f5f4 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -1,6 +1,6 @@
 use nom::character::complete::{char, multispace0};
 use nom::combinator::{cut, map, map_res, opt, peek};
-use nom::multi::separated_list1;
+use nom::multi::{many0, separated_list1};
 use nom::sequence::{delimited, pair, preceded, tuple};
 use nom::{branch::alt, bytes::complete::tag, combinator::value};
 use serde_json_path_core::spec::functions::{
@@ -27,13 +27,20 @@ pub(crate) fn parse_filter(input: &str) -> PResult<Filter> {
     )(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_and_operator(input: &str) -> PResult<&str> {
+    delimited(multispace0, tag("&&"), multispace0)(input)
+}
+
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_or_operator(input: &str) -> PResult<&str> {
+    delimited(multispace0, tag("||"), multispace0)(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_logical_and(input: &str) -> PResult<LogicalAndExpr> {
     map(
-        separated_list1(
-            tuple((multispace0, tag("&&"), multispace0)),
-            parse_basic_expr,
-        ),
+        separated_list1(parse_and_operator, parse_basic_expr),
         LogicalAndExpr,
     )(input)
 }
@@ -41,10 +48,7 @@ fn parse_logical_and(input: &str) -> PResult<LogicalAndExpr> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_logical_or_expr(input: &str) -> PResult<LogicalOrExpr> {
     map(
-        separated_list1(
-            tuple((multispace0, tag("||"), multispace0)),
-            parse_logical_and,
-        ),
+        separated_list1(parse_or_operator, parse_logical_and),
         LogicalOrExpr,
     )(input)
 }
@@ -149,8 +153,26 @@ impl Operand {
             },
         }
     }
+
+    /// Produce the logical expression that begins with `self`
+    pub(crate) fn into_logical_expr(
+        self,
+        (comparison, and, mut or): LogicalRest,
+    ) -> Result<LogicalOrExpr, OperandError> {
+        let mut first = vec![self.into_expr(comparison)?];
+        first.extend(and);
+        or.insert(0, LogicalAndExpr(first));
+        Ok(LogicalOrExpr(or))
+    }
 }
 
+/// What follows the first [`Operand`] of a logical expression
+pub(crate) type LogicalRest = (
+    Option<(ComparisonOperator, Comparable)>,
+    Vec<BasicExpr>,
+    Vec<LogicalAndExpr>,
+);
+
 #[derive(Debug, thiserror::Error)]
 pub(crate) enum OperandError {
     #[error(transparent)]
@@ -183,6 +205,15 @@ fn parse_operand_expr(input: &str) -> PResult<BasicExpr> {
     ))(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+pub(crate) fn parse_logical_rest(input: &str) -> PResult<LogicalRest> {
+    tuple((
+        opt(parse_comparison),
+        many0(preceded(parse_and_operator, parse_basic_expr)),
+        many0(preceded(parse_or_operator, parse_logical_and)),
+    ))(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_comp_expr(input: &str) -> PResult<ComparisonExpr> {
     map(
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index 040792d..7481f2e 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
-use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
+use nom::character::complete::{char, one_of};
+use nom::combinator::{cut, map_res, peek, value};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -20,7 +20,9 @@ use crate::parser::PResult;
 
 use self::registry::REGISTRY;
 
-use super::filter::{parse_literal, parse_logical_or_expr, parse_operand, Operand};
+use super::filter::{
+    parse_literal, parse_logical_or_expr, parse_logical_rest, parse_operand, Operand,
+};
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_name_first(input: &str) -> PResult<char> {
@@ -61,18 +63,60 @@ fn is_singular(query: &Query) -> bool {
         .all(|s| s.is_child() && s.segment.is_singular())
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_argument_end(input: &str) -> PResult<char> {
+    preceded(multispace0, one_of(",)"))(input)
+}
+
+/// Parse an argument that is a literal, rather than a comparison that begins with one
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_literal_argument(input: &str) -> PResult<FunctionExprArg> {
+    map(
+        terminated(parse_literal, peek(parse_argument_end)),
+        FunctionExprArg::Literal,
+    )(input)
+}
+
+/// Parse a logical expression that does not begin with a query or function
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_logical_argument(input: &str) -> PResult<FunctionExprArg> {
+    let parse_start = alt((value((), one_of("!(")), value((), parse_literal)));
+    map(
+        preceded(peek(parse_start), parse_logical_or_expr),
+        FunctionExprArg::LogicalExpr,
+    )(input)
+}
+
+/// Parse a query or function, or a logical expression that begins with one
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_operand_argument(input: &str) -> PResult<FunctionExprArg> {
+    map_res(
+        pair(
+            parse_operand,
+            alt((
+                value(None, peek(parse_argument_end)),
+                map(parse_logical_rest, Some),
+            )),
+        ),
+        |(operand, rest)| match (operand, rest) {
+            (operand, Some(rest)) => operand
+                .into_logical_expr(rest)
+                .map(FunctionExprArg::LogicalExpr),
+            (Operand::Query(query), None) if is_singular(&query) => {
+                Ok(FunctionExprArg::SingularQuery(query.try_into()?))
+            }
+            (Operand::Query(query), None) => Ok(FunctionExprArg::FilterQuery(query)),
+            (Operand::Function(fe), None) => Ok(FunctionExprArg::FunctionExpr(fe)),
+        },
+    )(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map_res(parse_operand, |operand| match operand {
-            Operand::Query(query) if is_singular(&query) => {
-                query.try_into().map(FunctionExprArg::SingularQuery)
-            }
-            Operand::Query(query) => Ok(FunctionExprArg::FilterQuery(query)),
-            Operand::Function(fe) => Ok(FunctionExprArg::FunctionExpr(fe)),
-        }),
-        map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
+        parse_literal_argument,
+        parse_logical_argument,
+        parse_operand_argument,
     ))(input)
 }
 
-- 
2.43.0


From 75cadb9ce29dfd11f339a682da778596430ffd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 11/17] fix: accept function calls without arguments

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index 7481f2e..02a78f5 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,5 +1,5 @@
 use nom::character::complete::{char, one_of};
-use nom::combinator::{cut, map_res, peek, value};
+use nom::combinator::{cut, map_res, not, peek, value};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, terminated};
 use nom::{
@@ -129,7 +129,7 @@ pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated
                 terminated(char('('), multispace0),
                 separated_list0(
                     delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
+                    preceded(not(char(')')), parse_function_argument),
                 ),
                 preceded(multispace0, char(')')),
             ),
-- 
2.43.0


From 2114fde1f33cdf2d279ef8065e6d1d463d0f661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 12/17] fix: give the iterators over locations and nodes their
 exact size hint

Both implement ExactSizeIterator, which requires size_hint to return the
exact number of remaining elements.
---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From 2b7043c716b84589c34eefde0dc9d494f588ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 13/17] fix: let parameters of functions have any name

A parameter named `v`, or named like the function itself, was shadowed by,
or shadowed, the identifiers that the #[function] macro generates, so that
the expanded code did not compile.
---
 .../src/internal/common/define.rs             | 25 ++++++++++---------
 .../src/internal/common/extract.rs            | 17 +++----------
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 8dd5f06..4b2a778 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,5 +1,5 @@
-use proc_macro2::{Ident, TokenStream};
-use quote::quote;
+use proc_macro2::{Ident, Span, TokenStream};
+use quote::{format_ident, quote};
 use syn::{ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
@@ -55,7 +55,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
     };
     // Generate code for checking each individual argument in a query at parse time:
     let arg_checks = args.iter().enumerate().map(|(idx, arg)| {
-        let FnArgument { ident: _, ty } = arg;
+        let FnArgument { ty } = arg;
         quote! {
             match a[#idx].as_type_kind() {
                 #res::Ok(tk) => {
@@ -87,24 +87,25 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             })
         });
     };
+    // Identifiers used by the evaluator, which must not shadow the function that it calls, or each
+    // other, whatever the names of the function and its arguments are:
+    let values = Ident::new("values", Span::mixed_site());
+    let arg_names: Vec<Ident> = (0..args_len)
+        .map(|idx| format_ident!("arg{idx}", span = Span::mixed_site()))
+        .collect();
     // Generate the code to declare each individual argument for evaluation, at query time:
-    let arg_declarations = args.iter().map(|arg| {
-        let FnArgument { ident, ty } = arg;
+    let arg_declarations = args.iter().zip(&arg_names).map(|(arg, arg_name)| {
+        let FnArgument { ty } = arg;
         // validation should ensure unwrap is okay here:
         quote! {
-            let #ident = #ty::try_from(v.pop_front().unwrap()).unwrap();
+            let #arg_name = #ty::try_from(#values.pop_front().unwrap()).unwrap();
         }
     });
-    // Produce the argument name identifiers:
-    let arg_names = args.iter().map(|arg| {
-        let FnArgument { ident, ty: _ } = arg;
-        ident
-    });
     // Generate the evaluator function used to evaluate a function at query time:
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
-            std::boxed::Box::new(|mut v: std::collections::VecDeque<#core::JsonPathValue>| {
+            std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
                 return #name(#(#arg_names,)*).into()
             })
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 1e6344f..b889032 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -19,18 +19,9 @@ pub struct Components {
 }
 
 pub struct FnArgument {
-    pub ident: Ident,
     pub ty: TokenStream,
 }
 
-fn extract_pat_ident(pat: &Pat) -> Option<Ident> {
-    if let Pat::Ident(ref pat_ident) = pat {
-        Some(pat_ident.ident.to_owned())
-    } else {
-        None
-    }
-}
-
 fn extract_type_path(ty: &Type) -> Option<&Path> {
     match ty {
         Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
@@ -109,14 +100,12 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                 colon_token: _,
                 ty,
             }) => {
-                let ident = if let Some(id) = extract_pat_ident(pat) {
-                    id
-                } else {
+                if !matches!(**pat, Pat::Ident(_)) {
                     return Err(Error::new(
                         pat.span(),
                         "expected identifier in function argument",
                     ));
-                };
+                }
                 let ty = if let Some(path) = extract_type_path(ty) {
                     extract_json_path_type(path)?
                 } else {
@@ -126,7 +115,7 @@ pub fn extract_components(input: Signature) -> Result<Components> {
                                 ValueType, or LogicalType",
                     ));
                 };
-                Ok(FnArgument { ident, ty })
+                Ok(FnArgument { ty })
             }
         })
         .collect();
-- 
2.43.0


From 098da4e58d0648cd7c3363fa90df3f21d71ca705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 14/17] fix: accept functions whose names are raw identifiers

The #[function] macro panicked on them, and took the `r#` for a part of the
name in queries.
---
 serde_json_path_macros/src/internal/common/define.rs  | 5 +++--
 serde_json_path_macros/src/internal/common/extract.rs | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 4b2a778..e4609ca 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Ident, Span, TokenStream};
 use quote::{format_ident, quote};
-use syn::{ItemFn, LitStr};
+use syn::{ext::IdentExt, ItemFn, LitStr};
 
 use crate::common::extract::FnArgument;
 
@@ -40,7 +40,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         Err(e) => return Err(e.into_compile_error()),
     };
     // Stringified name of the function:
-    let name_str = name_str.unwrap_or_else(|| LitStr::new(name.to_string().as_str(), name.span()));
+    let name_str =
+        name_str.unwrap_or_else(|| LitStr::new(name.unraw().to_string().as_str(), name.span()));
     // The number of arguments the function accepts:
     let args_len = args.len();
     // Generate token streams for some needed types:
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index b889032..038dc5f 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -3,8 +3,8 @@ use std::collections::VecDeque;
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 use syn::{
-    punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics, Pat, PatType,
-    Path, Result, ReturnType, Signature, Type,
+    ext::IdentExt, punctuated::Punctuated, spanned::Spanned, token::Comma, Error, FnArg, Generics,
+    Pat, PatType, Path, Result, ReturnType, Signature, Type,
 };
 
 pub struct Components {
@@ -121,12 +121,13 @@ pub fn extract_components(input: Signature) -> Result<Components> {
         .collect();
 
     let args = args?;
+    let bare_name = name.unraw();
     let validator_name = Ident::new(
-        format!("{name}_validator").to_uppercase().as_str(),
+        format!("{bare_name}_validator").to_uppercase().as_str(),
         name.span(),
     );
     let evaluator_name = Ident::new(
-        format!("{name}_evaluator").to_uppercase().as_str(),
+        format!("{bare_name}_evaluator").to_uppercase().as_str(),
         name.span(),
     );
 
-- 
2.43.0


From e26566f9c46764dbfa22efc31805dd4b00ebb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 15/17] fix: keep the where clause of functions

The #[function] macro dropped it, so that a function relying on a bound of
its lifetimes did not compile.
---
 serde_json_path_macros/src/internal/common/define.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index e4609ca..f6efa9a 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -103,8 +103,9 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
         }
     });
     // Generate the evaluator function used to evaluate a function at query time:
+    let where_clause = &generics.where_clause;
     let evaluator = quote! {
-        fn #name #generics (#inputs) #ret #block
+        fn #name #generics (#inputs) #ret #where_clause #block
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
             std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
-- 
2.43.0


From a23512944498f431e7a4ccc04783c24573afe14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 16/17] fix: escape all control characters when displaying path
 elements

Those from U+0010 to U+001F were written as they are, unlike the others and
unlike in normalized paths.
---
 serde_json_path_core/src/path.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index 29d39af..b1a16fc 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -333,6 +333,10 @@ impl Display for PathElement<'_> {
                             // "00"-"07", "0b", "0e"-"0f"
                             write!(f, "\\u000{:x}", c as i32)?
                         }
+                        '\x10'..='\x1f' => {
+                            // "10"-"1f"
+                            write!(f, "\\u00{:x}", c as i32)?
+                        }
                         _ => write!(f, "{c}")?,
                     }
                 }
-- 
2.43.0


From 267c67847897f6cf0ce6978bc8a5e4dfa382f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 17/17] fix: accept functions whose names differ only in case
 in one module

---
 serde_json_path_macros/src/internal/common/define.rs  |  2 ++
 serde_json_path_macros/src/internal/common/extract.rs | 11 +++--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index f6efa9a..3646ac5 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -75,6 +75,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
     });
     // Generate the validator function used at parse time to validate a function declaration:
     let validator = quote! {
+        #[allow(non_upper_case_globals)]
         static #validator_name: #core::Validator = #lazy::new(|| {
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
@@ -106,6 +107,7 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
     let where_clause = &generics.where_clause;
     let evaluator = quote! {
         fn #name #generics (#inputs) #ret #where_clause #block
+        #[allow(non_upper_case_globals)]
         static #evaluator_name: #core::Evaluator = #lazy::new(|| {
             std::boxed::Box::new(|mut #values: std::collections::VecDeque<#core::JsonPathValue>| {
                 #(#arg_declarations)*
diff --git a/serde_json_path_macros/src/internal/common/extract.rs b/serde_json_path_macros/src/internal/common/extract.rs
index 038dc5f..03b297e 100644
--- a/serde_json_path_macros/src/internal/common/extract.rs
+++ b/serde_json_path_macros/src/internal/common/extract.rs
@@ -122,14 +122,9 @@ pub fn extract_components(input: Signature) -> Result<Components> {
 
     let args = args?;
     let bare_name = name.unraw();
-    let validator_name = Ident::new(
-        format!("{bare_name}_validator").to_uppercase().as_str(),
-        name.span(),
-    );
-    let evaluator_name = Ident::new(
-        format!("{bare_name}_evaluator").to_uppercase().as_str(),
-        name.span(),
-    );
+    // the case of the name is kept, as there may be functions whose names differ only in that:
+    let validator_name = Ident::new(format!("{bare_name}_VALIDATOR").as_str(), name.span());
+    let evaluator_name = Ident::new(format!("{bare_name}_EVALUATOR").as_str(), name.span());
 
     Ok(Components {
         name,
-- 
2.43.0

