From 81282a908bd42b0b5f3568d85eae6e12512321ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 01/28] fix: match keywords as whole ASCII words

nom's tag_no_case folds non ASCII characters: a query in which the Kelvin
sign or a dotted capital I stands in for a keyword letter was accepted or
split inside a character, which panics. It also matched keywords as
prefixes of longer words, and the expression grammar used the streaming
variant, which answers Incomplete at the end of the input.
---
 src/aggregate.rs       |  263 +++++-----
 src/arithmetic.rs      |  399 ++++++++-------
 src/call.rs            |  627 ++++++++++++-----------
 src/clauses.rs         |  430 ++++++++--------
 src/data.rs            |  516 +++++++++----------
 src/expression/iri.rs  |   61 ++-
 src/expression/mod.rs  |  480 +++++++++---------
 src/graph.rs           |  694 ++++++++++++-------------
 src/group.rs           |  100 ++--
 src/literal.rs         |  492 +++++++++---------
 src/operations.rs      |  546 ++++++++++----------
 src/order.rs           |  109 ++--
 src/path.rs            |  604 +++++++++++-----------
 src/quads.rs           |  404 +++++++--------
 src/query/ask.rs       |   63 ++-
 src/query/construct.rs |  195 ++++---
 src/query/describe.rs  |   79 ++-
 src/query/select.rs    |  226 ++++-----
 src/terminals.rs       | 1096 ++++++++++++++++++++--------------------
 src/triple.rs          |  532 +++++++++----------
 src/var.rs             |  304 +++++------
 21 files changed, 4116 insertions(+), 4104 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index 840ebd4..bad7692 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,132 +1,131 @@
-use crate::{
-    expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
-    literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal},
-};
-use nom::{
-    branch::alt,
-    bytes::complete::tag_no_case,
-    character::complete::char,
-    combinator::{map, opt},
-    sequence::{pair, preceded, terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Aggregate {
-    Count(Count),
-    Sum(DistinctExpression),
-    Min(DistinctExpression),
-    Max(DistinctExpression),
-    Avg(DistinctExpression),
-    Sample(DistinctExpression),
-    GroupConcat(GroupConcat),
-}
-
-impl Aggregate {
-    pub fn is_distinct(&self) -> bool {
-        match self {
-            Aggregate::Sum(a)
-            | Aggregate::Min(a)
-            | Aggregate::Max(a)
-            | Aggregate::Avg(a)
-            | Aggregate::Sample(a) => a.distinct,
-            Aggregate::Count(c) => c.distinct,
-            Aggregate::GroupConcat(c) => c.expression.distinct,
-        }
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Count {
-    pub distinct: bool,
-    pub target: CountTarget,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum CountTarget {
-    All,
-    Expr(Box<Expression>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupConcat {
-    pub expression: DistinctExpression,
-    pub separator: Option<String>,
-}
-
-pub(crate) fn aggregate(i: &str) -> IResult<&str, Aggregate> {
-    alt((
-        map(count, Aggregate::Count),
-        map(
-            preceded_bracketted("sum", distinct_expression),
-            Aggregate::Sum,
-        ),
-        map(
-            preceded_bracketted("min", distinct_expression),
-            Aggregate::Min,
-        ),
-        map(
-            preceded_bracketted("max", distinct_expression),
-            Aggregate::Max,
-        ),
-        map(
-            preceded_bracketted("avg", distinct_expression),
-            Aggregate::Avg,
-        ),
-        map(
-            preceded_bracketted("sample", distinct_expression),
-            Aggregate::Sample,
-        ),
-        map(group_concat, Aggregate::GroupConcat),
-    ))(i)
-}
-
-pub(crate) fn count_target(i: &str) -> IResult<&str, CountTarget> {
-    alt((
-        map(char('*'), |_| CountTarget::All),
-        map(expression, |expr| CountTarget::Expr(Box::new(expr))),
-    ))(i)
-}
-
-pub(crate) fn count(i: &str) -> IResult<&str, Count> {
-    map(
-        preceded_tag(
-            "count",
-            bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
-                count_target,
-            )),
-        ),
-        |(distinct, target)| Count { distinct, target },
-    )(i)
-}
-
-pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
-    map(
-        preceded_tag(
-            "group_concat",
-            bracketted(pair(
-                distinct_expression,
-                opt(preceded(
-                    sp,
-                    preceded(
-                        tuple((
-                            char(';'),
-                            sp_enc(tag_no_case("separator")),
-                            terminated(char('='), sp),
-                        )),
-                        map(string_literal, String::from),
-                    ),
-                )),
-            )),
-        ),
-        |(expression, separator)| GroupConcat {
-            expression,
-            separator,
-        },
-    )(i)
-}
-
-#[cfg(test)]
-mod tests {}
+use crate::{
+    expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
+    literal::distinct,
+    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case},
+};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    sequence::{pair, preceded, terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Aggregate {
+    Count(Count),
+    Sum(DistinctExpression),
+    Min(DistinctExpression),
+    Max(DistinctExpression),
+    Avg(DistinctExpression),
+    Sample(DistinctExpression),
+    GroupConcat(GroupConcat),
+}
+
+impl Aggregate {
+    pub fn is_distinct(&self) -> bool {
+        match self {
+            Aggregate::Sum(a)
+            | Aggregate::Min(a)
+            | Aggregate::Max(a)
+            | Aggregate::Avg(a)
+            | Aggregate::Sample(a) => a.distinct,
+            Aggregate::Count(c) => c.distinct,
+            Aggregate::GroupConcat(c) => c.expression.distinct,
+        }
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Count {
+    pub distinct: bool,
+    pub target: CountTarget,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum CountTarget {
+    All,
+    Expr(Box<Expression>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupConcat {
+    pub expression: DistinctExpression,
+    pub separator: Option<String>,
+}
+
+pub(crate) fn aggregate(i: &str) -> IResult<&str, Aggregate> {
+    alt((
+        map(count, Aggregate::Count),
+        map(
+            preceded_bracketted("sum", distinct_expression),
+            Aggregate::Sum,
+        ),
+        map(
+            preceded_bracketted("min", distinct_expression),
+            Aggregate::Min,
+        ),
+        map(
+            preceded_bracketted("max", distinct_expression),
+            Aggregate::Max,
+        ),
+        map(
+            preceded_bracketted("avg", distinct_expression),
+            Aggregate::Avg,
+        ),
+        map(
+            preceded_bracketted("sample", distinct_expression),
+            Aggregate::Sample,
+        ),
+        map(group_concat, Aggregate::GroupConcat),
+    ))(i)
+}
+
+pub(crate) fn count_target(i: &str) -> IResult<&str, CountTarget> {
+    alt((
+        map(char('*'), |_| CountTarget::All),
+        map(expression, |expr| CountTarget::Expr(Box::new(expr))),
+    ))(i)
+}
+
+pub(crate) fn count(i: &str) -> IResult<&str, Count> {
+    map(
+        preceded_tag(
+            "count",
+            bracketted(pair(
+                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                count_target,
+            )),
+        ),
+        |(distinct, target)| Count { distinct, target },
+    )(i)
+}
+
+pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
+    map(
+        preceded_tag(
+            "group_concat",
+            bracketted(pair(
+                distinct_expression,
+                opt(preceded(
+                    sp,
+                    preceded(
+                        tuple((
+                            char(';'),
+                            sp_enc(tag_no_case("separator")),
+                            terminated(char('='), sp),
+                        )),
+                        map(string_literal, String::from),
+                    ),
+                )),
+            )),
+        ),
+        |(expression, separator)| GroupConcat {
+            expression,
+            separator,
+        },
+    )(i)
+}
+
+#[cfg(test)]
+mod tests {}
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index e3d4afc..a1f738b 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,200 +1,199 @@
-use std::{fmt, str::FromStr};
-
-use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1};
-use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::bytes::streaming::tag_no_case;
-use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
-use nom::sequence::{pair, preceded, terminated};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct RelationalExpression {
-    pub lhs: AdditiveExpression,
-    pub rhs: Option<OpExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConditionalAndExpression(pub Vec<RelationalExpression>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum OpExpression {
-    EQ(AdditiveExpression),
-    NE(AdditiveExpression),
-    LT(AdditiveExpression),
-    GT(AdditiveExpression),
-    LE(AdditiveExpression),
-    GE(AdditiveExpression),
-    IN(ExpressionList),
-    NIN(ExpressionList),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AdditiveExpression {
-    pub lhs: MultiplicativeExpression,
-    pub rhs: Vec<AddExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum AddExpression {
-    Add(MultiplicativeExpression),
-    Sub(MultiplicativeExpression),
-    Numeric {
-        numeric: NumericLiteral,
-        expressions: Vec<MultExpression>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct MultiplicativeExpression {
-    pub lhs: UnaryExpression,
-    pub rhs: Vec<MultExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum MultExpression {
-    Mult(UnaryExpression),
-    Div(UnaryExpression),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum UnaryExpression {
-    Not(PrimaryExpression),
-    Add(PrimaryExpression),
-    Sub(PrimaryExpression),
-    Default(PrimaryExpression),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, Copy)]
-pub enum Sign {
-    POS,
-    NEG,
-}
-
-impl Default for Sign {
-    fn default() -> Self {
-        Sign::POS
-    }
-}
-
-impl AsRef<str> for Sign {
-    fn as_ref(&self) -> &str {
-        match self {
-            Sign::POS => "+",
-            Sign::NEG => "-",
-        }
-    }
-}
-
-impl FromStr for Sign {
-    type Err = ();
-
-    fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s {
-            "+" | "" => Ok(Sign::POS),
-            "-" => Ok(Sign::NEG),
-            _ => Err(()),
-        }
-    }
-}
-
-impl fmt::Display for Sign {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        f.write_str(self.as_ref())
-    }
-}
-
-pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
-    alt((
-        map(preceded_tag("!", primary_expression), UnaryExpression::Not),
-        map(preceded_tag("+", primary_expression), UnaryExpression::Add),
-        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
-        map(primary_expression, UnaryExpression::Default),
-    ))(i)
-}
-
-pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression> {
-    map(
-        pair(
-            multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
-        ),
-        |(lhs, rhs)| AdditiveExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
-    alt((
-        map(
-            preceded_tag("+", multiplicative_expression),
-            AddExpression::Add,
-        ),
-        map(
-            preceded_tag("-", multiplicative_expression),
-            AddExpression::Sub,
-        ),
-        map(
-            pair(
-                numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
-            ),
-            |(numeric, expressions)| AddExpression::Numeric {
-                numeric,
-                expressions,
-            },
-        ),
-    ))(i)
-}
-
-pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
-    map(
-        pair(
-            unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
-        ),
-        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn mult_expression(i: &str) -> IResult<&str, MultExpression> {
-    alt((
-        map(preceded_tag("*", unary_expression), MultExpression::Mult),
-        map(preceded_tag("/", unary_expression), MultExpression::Div),
-    ))(i)
-}
-
-pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
-    alt((
-        map(preceded_tag("=", additive_expression), OpExpression::EQ),
-        map(preceded_tag("!=", additive_expression), OpExpression::NE),
-        map(preceded_tag("<", additive_expression), OpExpression::LT),
-        map(preceded_tag(">", additive_expression), OpExpression::GT),
-        map(preceded_tag("<=", additive_expression), OpExpression::LE),
-        map(preceded_tag(">=", additive_expression), OpExpression::GE),
-        map(preceded_tag("in", expression_list), OpExpression::IN),
-        map(
-            preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
-                expression_list,
-            ),
-            OpExpression::NIN,
-        ),
-    ))(i)
-}
-
-pub(crate) fn relational_expression(i: &str) -> IResult<&str, RelationalExpression> {
-    map(
-        pair(additive_expression, opt(preceded(sp, op_expression))),
-        |(lhs, rhs)| RelationalExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn conditional_and_expression(i: &str) -> IResult<&str, ConditionalAndExpression> {
-    map(
-        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
-        ConditionalAndExpression,
-    )(i)
-}
+use std::{fmt, str::FromStr};
+
+use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
+use crate::literal::{numeric_literal, NumericLiteral};
+use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
+use nom::branch::alt;
+use nom::bytes::complete::tag;
+use nom::combinator::{map, opt};
+use nom::multi::{separated_list, separated_nonempty_list};
+use nom::sequence::{pair, preceded, terminated};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct RelationalExpression {
+    pub lhs: AdditiveExpression,
+    pub rhs: Option<OpExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConditionalAndExpression(pub Vec<RelationalExpression>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum OpExpression {
+    EQ(AdditiveExpression),
+    NE(AdditiveExpression),
+    LT(AdditiveExpression),
+    GT(AdditiveExpression),
+    LE(AdditiveExpression),
+    GE(AdditiveExpression),
+    IN(ExpressionList),
+    NIN(ExpressionList),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AdditiveExpression {
+    pub lhs: MultiplicativeExpression,
+    pub rhs: Vec<AddExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum AddExpression {
+    Add(MultiplicativeExpression),
+    Sub(MultiplicativeExpression),
+    Numeric {
+        numeric: NumericLiteral,
+        expressions: Vec<MultExpression>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct MultiplicativeExpression {
+    pub lhs: UnaryExpression,
+    pub rhs: Vec<MultExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum MultExpression {
+    Mult(UnaryExpression),
+    Div(UnaryExpression),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum UnaryExpression {
+    Not(PrimaryExpression),
+    Add(PrimaryExpression),
+    Sub(PrimaryExpression),
+    Default(PrimaryExpression),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, Copy)]
+pub enum Sign {
+    POS,
+    NEG,
+}
+
+impl Default for Sign {
+    fn default() -> Self {
+        Sign::POS
+    }
+}
+
+impl AsRef<str> for Sign {
+    fn as_ref(&self) -> &str {
+        match self {
+            Sign::POS => "+",
+            Sign::NEG => "-",
+        }
+    }
+}
+
+impl FromStr for Sign {
+    type Err = ();
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "+" | "" => Ok(Sign::POS),
+            "-" => Ok(Sign::NEG),
+            _ => Err(()),
+        }
+    }
+}
+
+impl fmt::Display for Sign {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str(self.as_ref())
+    }
+}
+
+pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
+    alt((
+        map(preceded_tag("!", primary_expression), UnaryExpression::Not),
+        map(preceded_tag("+", primary_expression), UnaryExpression::Add),
+        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
+        map(primary_expression, UnaryExpression::Default),
+    ))(i)
+}
+
+pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression> {
+    map(
+        pair(
+            multiplicative_expression,
+            preceded(sp, separated_list(sp, add_expression)),
+        ),
+        |(lhs, rhs)| AdditiveExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
+    alt((
+        map(
+            preceded_tag("+", multiplicative_expression),
+            AddExpression::Add,
+        ),
+        map(
+            preceded_tag("-", multiplicative_expression),
+            AddExpression::Sub,
+        ),
+        map(
+            pair(
+                numeric_literal,
+                preceded(sp, separated_list(sp, mult_expression)),
+            ),
+            |(numeric, expressions)| AddExpression::Numeric {
+                numeric,
+                expressions,
+            },
+        ),
+    ))(i)
+}
+
+pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
+    map(
+        pair(
+            unary_expression,
+            preceded(sp, separated_list(sp, mult_expression)),
+        ),
+        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn mult_expression(i: &str) -> IResult<&str, MultExpression> {
+    alt((
+        map(preceded_tag("*", unary_expression), MultExpression::Mult),
+        map(preceded_tag("/", unary_expression), MultExpression::Div),
+    ))(i)
+}
+
+pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
+    alt((
+        map(preceded_tag("=", additive_expression), OpExpression::EQ),
+        map(preceded_tag("!=", additive_expression), OpExpression::NE),
+        map(preceded_tag("<", additive_expression), OpExpression::LT),
+        map(preceded_tag(">", additive_expression), OpExpression::GT),
+        map(preceded_tag("<=", additive_expression), OpExpression::LE),
+        map(preceded_tag(">=", additive_expression), OpExpression::GE),
+        map(preceded_tag("in", expression_list), OpExpression::IN),
+        map(
+            preceded(
+                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                expression_list,
+            ),
+            OpExpression::NIN,
+        ),
+    ))(i)
+}
+
+pub(crate) fn relational_expression(i: &str) -> IResult<&str, RelationalExpression> {
+    map(
+        pair(additive_expression, opt(preceded(sp, op_expression))),
+        |(lhs, rhs)| RelationalExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn conditional_and_expression(i: &str) -> IResult<&str, ConditionalAndExpression> {
+    map(
+        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
+        ConditionalAndExpression,
+    )(i)
+}
diff --git a/src/call.rs b/src/call.rs
index c9e0c5f..4f65161 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,314 +1,313 @@
-use nom::{
-    branch::alt,
-    bytes::complete::tag_no_case,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, preceded, separated_pair, terminated, tuple},
-    IResult,
-};
-
-use crate::expression::functions::{
-    regex_expression, str_replace_expression, substring_expression, RegexExpression,
-    StrReplaceExpression, SubstringExpression,
-};
-use crate::{
-    aggregate::{aggregate, Aggregate},
-    expression::{
-        bracketted_expression, expression, expression_list, ArgList, Expression, ExpressionList,
-        Iri,
-    },
-    graph::{group_graph_pattern, GroupGraphPattern},
-    literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
-    var::{var, Var},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct FunctionCall {
-    pub iri: Iri,
-    pub args: ArgList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum BuiltInCall {
-    Aggregate(Aggregate),
-    Str(Expression),
-    Lang(Expression),
-    LangMatches((Expression, Expression)),
-    Datatype(Expression),
-    Bound(Var),
-    Iri(Expression),
-    Uri(Expression),
-    Bnode(Option<Expression>),
-    Rand,
-    Abs(Expression),
-    Ceil(Expression),
-    Floor(Expression),
-    Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
-    UCase(Expression),
-    LCase(Expression),
-    EncodeForUri(Expression),
-    Contains((Expression, Expression)),
-    StrStarts((Expression, Expression)),
-    StrEnds((Expression, Expression)),
-    StrBefore((Expression, Expression)),
-    StrAfter((Expression, Expression)),
-    Year(Expression),
-    Month(Expression),
-    Day(Expression),
-    Hours(Expression),
-    Minutes(Expression),
-    Seconds(Expression),
-    Timezone(Expression),
-    Tz(Expression),
-    Now,
-    UUID,
-    StrUUID,
-    MD5(Expression),
-    SHA1(Expression),
-    SHA256(Expression),
-    SHA384(Expression),
-    SHA512(Expression),
-    Coalesce(ExpressionList),
-    If((Expression, Expression, Expression)),
-    StrLang((Expression, Expression)),
-    StrDt((Expression, Expression)),
-    SameTerm((Expression, Expression)),
-    IsIri(Expression),
-    IsUri(Expression),
-    IsBlank(Expression),
-    IsLiteral(Expression),
-    IsNumeric(Expression),
-    Regex(RegexExpression),
-    ExistsFunc(GroupGraphPattern),
-    NotExistsFunc(GroupGraphPattern),
-}
-
-pub(crate) fn function_call(i: &str) -> IResult<&str, FunctionCall> {
-    map(separated_pair(iri, sp, arg_list), |(iri, args)| {
-        FunctionCall { iri, args }
-    })(i)
-}
-
-fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        map(aggregate, BuiltInCall::Aggregate),
-        map(preceded_bracketted("str", expression), BuiltInCall::Str),
-        map(preceded_bracketted("lang", expression), BuiltInCall::Lang),
-        map(
-            preceded_bracketted(
-                "langmatches",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::LangMatches,
-        ),
-        map(
-            preceded_bracketted("datatype", expression),
-            BuiltInCall::Datatype,
-        ),
-        map(preceded_bracketted("bound", var), BuiltInCall::Bound),
-        map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
-        map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
-        map(
-            preceded_bracketted(
-                "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
-            ),
-            BuiltInCall::Bnode,
-        ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
-        map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
-            BuiltInCall::Concat,
-        ),
-        map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
-            BuiltInCall::StrLen,
-        ),
-        map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
-        map(preceded_bracketted("lcase", expression), BuiltInCall::LCase),
-        map(
-            preceded_bracketted("encode_for_uri", expression),
-            BuiltInCall::EncodeForUri,
-        ),
-        map(
-            preceded_bracketted(
-                "strlen",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::Contains,
-        ),
-        map(
-            preceded_bracketted(
-                "strstarts",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrStarts,
-        ),
-    ))(i)
-}
-
-fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        map(
-            preceded_bracketted(
-                "strends",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrEnds,
-        ),
-        map(
-            preceded_bracketted(
-                "strbefore",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrBefore,
-        ),
-        map(
-            preceded_bracketted(
-                "strafter",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrAfter,
-        ),
-        map(preceded_bracketted("year", expression), BuiltInCall::Year),
-        map(preceded_bracketted("month", expression), BuiltInCall::Month),
-        map(preceded_bracketted("day", expression), BuiltInCall::Day),
-        map(preceded_bracketted("hours", expression), BuiltInCall::Hours),
-        map(
-            preceded_bracketted("minutes", expression),
-            BuiltInCall::Minutes,
-        ),
-        map(
-            preceded_bracketted("seconds", expression),
-            BuiltInCall::Seconds,
-        ),
-        map(
-            preceded_bracketted("timezone", expression),
-            BuiltInCall::Timezone,
-        ),
-        map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
-    ))(i)
-}
-
-pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        built_in_call_1,
-        built_in_call_2,
-        map(preceded_bracketted("md5", expression), BuiltInCall::MD5),
-        map(preceded_bracketted("sha1", expression), BuiltInCall::SHA1),
-        map(
-            preceded_bracketted("sha256", expression),
-            BuiltInCall::SHA256,
-        ),
-        map(
-            preceded_bracketted("sha384", expression),
-            BuiltInCall::SHA384,
-        ),
-        map(
-            preceded_bracketted("sha512", expression),
-            BuiltInCall::SHA512,
-        ),
-        map(
-            preceded_tag1("coalesce", expression_list),
-            BuiltInCall::Coalesce,
-        ),
-        map(
-            preceded_bracketted(
-                "if",
-                tuple((
-                    expression,
-                    preceded(sp_enc(char(',')), expression),
-                    preceded(sp_enc(char(',')), expression),
-                )),
-            ),
-            BuiltInCall::If,
-        ),
-        map(
-            preceded_bracketted(
-                "strlang",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrLang,
-        ),
-        map(
-            preceded_bracketted(
-                "strdt",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrDt,
-        ),
-        map(
-            preceded_bracketted(
-                "sameterm",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::SameTerm,
-        ),
-        map(preceded_bracketted("isiri", expression), BuiltInCall::IsIri),
-        map(preceded_bracketted("isuri", expression), BuiltInCall::IsUri),
-        map(
-            preceded_bracketted("isblank", expression),
-            BuiltInCall::IsBlank,
-        ),
-        map(
-            preceded_bracketted("isliteral", expression),
-            BuiltInCall::IsLiteral,
-        ),
-        map(
-            preceded_bracketted("isnumeric", expression),
-            BuiltInCall::IsNumeric,
-        ),
-        map(regex_expression, BuiltInCall::Regex),
-        map(
-            preceded_tag1("exists", group_graph_pattern),
-            BuiltInCall::ExistsFunc,
-        ),
-        map(
-            tuple((
-                tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
-                group_graph_pattern,
-            )),
-            |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
-        ),
-    ))(i)
-}
-
-pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
-    alt((
-        map(nil, |_| ArgList::Nil),
-        map(
-            delimited(
-                terminated(char('('), sp),
-                tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
-                    separated_nonempty_list(sp_enc(char(',')), expression),
-                )),
-                char(')'),
-            ),
-            |(distinct, expressions)| ArgList::Expression {
-                distinct,
-                expressions,
-            },
-        ),
-    ))(i)
-}
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, preceded, separated_pair, terminated, tuple},
+    IResult,
+};
+
+use crate::expression::functions::{
+    regex_expression, str_replace_expression, substring_expression, RegexExpression,
+    StrReplaceExpression, SubstringExpression,
+};
+use crate::{
+    aggregate::{aggregate, Aggregate},
+    expression::{
+        bracketted_expression, expression, expression_list, ArgList, Expression, ExpressionList,
+        Iri,
+    },
+    graph::{group_graph_pattern, GroupGraphPattern},
+    literal::distinct,
+    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    var::{var, Var},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct FunctionCall {
+    pub iri: Iri,
+    pub args: ArgList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum BuiltInCall {
+    Aggregate(Aggregate),
+    Str(Expression),
+    Lang(Expression),
+    LangMatches((Expression, Expression)),
+    Datatype(Expression),
+    Bound(Var),
+    Iri(Expression),
+    Uri(Expression),
+    Bnode(Option<Expression>),
+    Rand,
+    Abs(Expression),
+    Ceil(Expression),
+    Floor(Expression),
+    Round(Expression),
+    Concat((ExpressionList, SubstringExpression)),
+    StrLen((Expression, StrReplaceExpression)),
+    UCase(Expression),
+    LCase(Expression),
+    EncodeForUri(Expression),
+    Contains((Expression, Expression)),
+    StrStarts((Expression, Expression)),
+    StrEnds((Expression, Expression)),
+    StrBefore((Expression, Expression)),
+    StrAfter((Expression, Expression)),
+    Year(Expression),
+    Month(Expression),
+    Day(Expression),
+    Hours(Expression),
+    Minutes(Expression),
+    Seconds(Expression),
+    Timezone(Expression),
+    Tz(Expression),
+    Now,
+    UUID,
+    StrUUID,
+    MD5(Expression),
+    SHA1(Expression),
+    SHA256(Expression),
+    SHA384(Expression),
+    SHA512(Expression),
+    Coalesce(ExpressionList),
+    If((Expression, Expression, Expression)),
+    StrLang((Expression, Expression)),
+    StrDt((Expression, Expression)),
+    SameTerm((Expression, Expression)),
+    IsIri(Expression),
+    IsUri(Expression),
+    IsBlank(Expression),
+    IsLiteral(Expression),
+    IsNumeric(Expression),
+    Regex(RegexExpression),
+    ExistsFunc(GroupGraphPattern),
+    NotExistsFunc(GroupGraphPattern),
+}
+
+pub(crate) fn function_call(i: &str) -> IResult<&str, FunctionCall> {
+    map(separated_pair(iri, sp, arg_list), |(iri, args)| {
+        FunctionCall { iri, args }
+    })(i)
+}
+
+fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        map(aggregate, BuiltInCall::Aggregate),
+        map(preceded_bracketted("str", expression), BuiltInCall::Str),
+        map(preceded_bracketted("lang", expression), BuiltInCall::Lang),
+        map(
+            preceded_bracketted(
+                "langmatches",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::LangMatches,
+        ),
+        map(
+            preceded_bracketted("datatype", expression),
+            BuiltInCall::Datatype,
+        ),
+        map(preceded_bracketted("bound", var), BuiltInCall::Bound),
+        map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
+        map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
+        map(
+            preceded_bracketted(
+                "bnode",
+                alt((map(expression, Option::Some), map(nil, |_| None))),
+            ),
+            BuiltInCall::Bnode,
+        ),
+        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(
+            preceded_tag1(
+                "concat",
+                separated_pair(expression_list, sp, substring_expression),
+            ),
+            BuiltInCall::Concat,
+        ),
+        map(
+            preceded_tag1(
+                "strlen",
+                separated_pair(bracketted_expression, sp, str_replace_expression),
+            ),
+            BuiltInCall::StrLen,
+        ),
+        map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
+        map(preceded_bracketted("lcase", expression), BuiltInCall::LCase),
+        map(
+            preceded_bracketted("encode_for_uri", expression),
+            BuiltInCall::EncodeForUri,
+        ),
+        map(
+            preceded_bracketted(
+                "strlen",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::Contains,
+        ),
+        map(
+            preceded_bracketted(
+                "strstarts",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrStarts,
+        ),
+    ))(i)
+}
+
+fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        map(
+            preceded_bracketted(
+                "strends",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrEnds,
+        ),
+        map(
+            preceded_bracketted(
+                "strbefore",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrBefore,
+        ),
+        map(
+            preceded_bracketted(
+                "strafter",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrAfter,
+        ),
+        map(preceded_bracketted("year", expression), BuiltInCall::Year),
+        map(preceded_bracketted("month", expression), BuiltInCall::Month),
+        map(preceded_bracketted("day", expression), BuiltInCall::Day),
+        map(preceded_bracketted("hours", expression), BuiltInCall::Hours),
+        map(
+            preceded_bracketted("minutes", expression),
+            BuiltInCall::Minutes,
+        ),
+        map(
+            preceded_bracketted("seconds", expression),
+            BuiltInCall::Seconds,
+        ),
+        map(
+            preceded_bracketted("timezone", expression),
+            BuiltInCall::Timezone,
+        ),
+        map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
+        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
+        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_bracketted("struuid", nil), |_| {
+            BuiltInCall::StrUUID
+        }),
+    ))(i)
+}
+
+pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        built_in_call_1,
+        built_in_call_2,
+        map(preceded_bracketted("md5", expression), BuiltInCall::MD5),
+        map(preceded_bracketted("sha1", expression), BuiltInCall::SHA1),
+        map(
+            preceded_bracketted("sha256", expression),
+            BuiltInCall::SHA256,
+        ),
+        map(
+            preceded_bracketted("sha384", expression),
+            BuiltInCall::SHA384,
+        ),
+        map(
+            preceded_bracketted("sha512", expression),
+            BuiltInCall::SHA512,
+        ),
+        map(
+            preceded_tag1("coalesce", expression_list),
+            BuiltInCall::Coalesce,
+        ),
+        map(
+            preceded_bracketted(
+                "if",
+                tuple((
+                    expression,
+                    preceded(sp_enc(char(',')), expression),
+                    preceded(sp_enc(char(',')), expression),
+                )),
+            ),
+            BuiltInCall::If,
+        ),
+        map(
+            preceded_bracketted(
+                "strlang",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrLang,
+        ),
+        map(
+            preceded_bracketted(
+                "strdt",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrDt,
+        ),
+        map(
+            preceded_bracketted(
+                "sameterm",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::SameTerm,
+        ),
+        map(preceded_bracketted("isiri", expression), BuiltInCall::IsIri),
+        map(preceded_bracketted("isuri", expression), BuiltInCall::IsUri),
+        map(
+            preceded_bracketted("isblank", expression),
+            BuiltInCall::IsBlank,
+        ),
+        map(
+            preceded_bracketted("isliteral", expression),
+            BuiltInCall::IsLiteral,
+        ),
+        map(
+            preceded_bracketted("isnumeric", expression),
+            BuiltInCall::IsNumeric,
+        ),
+        map(regex_expression, BuiltInCall::Regex),
+        map(
+            preceded_tag1("exists", group_graph_pattern),
+            BuiltInCall::ExistsFunc,
+        ),
+        map(
+            tuple((
+                tag_no_case("not"),
+                sp_enc1(tag_no_case("exists")),
+                group_graph_pattern,
+            )),
+            |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
+        ),
+    ))(i)
+}
+
+pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
+    alt((
+        map(nil, |_| ArgList::Nil),
+        map(
+            delimited(
+                terminated(char('('), sp),
+                tuple((
+                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    separated_nonempty_list(sp_enc(char(',')), expression),
+                )),
+                char(')'),
+            ),
+            |(distinct, expressions)| ArgList::Expression {
+                distinct,
+                expressions,
+            },
+        ),
+    ))(i)
+}
diff --git a/src/clauses.rs b/src/clauses.rs
index b33faad..dd30d38 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,215 +1,215 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, separated_pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::expression::functions::{constraint, Constraint};
-use crate::{
-    data::{datablock, DataBlock},
-    expression::DefaultOrNamedIri,
-    graph::group_graph_pattern,
-    graph::GroupGraphPattern,
-    group::{group_clause, GroupClause},
-    order::{order_condition, OrderCondition},
-    quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SolutionModifier {
-    pub order_by: Option<OrderClause>,
-    pub group_by: Option<GroupClause>,
-    pub having: Option<HavingClause>,
-    pub limit_offset: Option<LimitOffsetClause>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct HavingClause(pub Vec<Constraint>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct OrderClause(pub Vec<OrderCondition>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum LimitOffsetClause {
-    LimitOffset { limit: u64, offset: Option<u64> },
-    OffsetLimit { offset: u64, limit: Option<u64> },
-}
-
-impl LimitOffsetClause {
-    pub fn limit_offset(limit: u64, offset: Option<u64>) -> Self {
-        LimitOffsetClause::LimitOffset { limit, offset }
-    }
-    pub fn offset_limit(offset: u64, limit: Option<u64>) -> Self {
-        LimitOffsetClause::OffsetLimit { offset, limit }
-    }
-}
-
-pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
-    map(
-        tuple((
-            opt(group_clause),
-            opt(preceded(sp, having_clause)),
-            opt(preceded(sp, order_clause)),
-            opt(preceded(sp, limit_offset_clause)),
-        )),
-        |(group_by, having, order_by, limit_offset)| SolutionModifier {
-            group_by,
-            having,
-            order_by,
-            limit_offset,
-        },
-    )(i)
-}
-
-pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
-    map(
-        preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
-        ),
-        OrderClause,
-    )(i)
-}
-
-pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
-    map(
-        preceded(
-            terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
-        ),
-        HavingClause,
-    )(i)
-}
-
-pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
-        group_graph_pattern,
-    )(i)
-}
-
-pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
-    opt(preceded_tag1("values", datablock))(i)
-}
-
-#[inline]
-pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", quads_pattern)(i)
-}
-
-#[inline]
-pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
-}
-
-#[inline]
-pub(crate) fn using_clause(i: &str) -> IResult<&str, DefaultOrNamedIri> {
-    preceded_tag1("using", default_or_named_iri)(i)
-}
-
-#[inline]
-pub(crate) fn int_clause<'a, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, u64>
-where
-    F: Fn(&'a str) -> IResult<&'a str, &'a str>,
-{
-    map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
-        |s| s.parse::<u64>(),
-    )
-}
-
-#[inline]
-pub(crate) fn limit_clause(i: &str) -> IResult<&str, u64> {
-    int_clause(tag_no_case("limit"))(i)
-}
-
-#[inline]
-pub(crate) fn offset_clause(i: &str) -> IResult<&str, u64> {
-    int_clause(tag_no_case("offset"))(i)
-}
-
-pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
-    alt((
-        map(
-            separated_pair(limit_clause, sp, opt(offset_clause)),
-            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
-        ),
-        map(
-            separated_pair(offset_clause, sp, opt(limit_clause)),
-            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },
-        ),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::{Iri, PrefixedName};
-
-    #[test]
-    fn is_limit_clause() {
-        assert_eq!(limit_clause("limit 5"), Ok(("", 5)));
-    }
-
-    #[test]
-    fn is_offset_clause() {
-        assert_eq!(offset_clause("offset 5"), Ok(("", 5)));
-        assert_eq!(offset_clause("offset      100"), Ok(("", 100)));
-    }
-
-    #[test]
-    fn is_limit_offset_clause() {
-        assert_eq!(
-            limit_offset_clause("limit 5     offset 10"),
-            Ok(("", LimitOffsetClause::limit_offset(5, Some(10))))
-        );
-    }
-
-    #[test]
-    fn is_offset_limit_clause() {
-        assert_eq!(
-            limit_offset_clause("offset 5 limit 10"),
-            Ok(("", LimitOffsetClause::offset_limit(5, Some(10))))
-        );
-    }
-    #[test]
-    fn is_using_clause() {
-        assert_eq!(
-            using_clause("using named <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            using_clause("using named :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-
-        assert_eq!(
-            using_clause("using :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Default(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, separated_pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::expression::functions::{constraint, Constraint};
+use crate::{
+    data::{datablock, DataBlock},
+    expression::DefaultOrNamedIri,
+    graph::group_graph_pattern,
+    graph::GroupGraphPattern,
+    group::{group_clause, GroupClause},
+    order::{order_condition, OrderCondition},
+    quads::{quads_pattern, Quads},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SolutionModifier {
+    pub order_by: Option<OrderClause>,
+    pub group_by: Option<GroupClause>,
+    pub having: Option<HavingClause>,
+    pub limit_offset: Option<LimitOffsetClause>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct HavingClause(pub Vec<Constraint>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct OrderClause(pub Vec<OrderCondition>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum LimitOffsetClause {
+    LimitOffset { limit: u64, offset: Option<u64> },
+    OffsetLimit { offset: u64, limit: Option<u64> },
+}
+
+impl LimitOffsetClause {
+    pub fn limit_offset(limit: u64, offset: Option<u64>) -> Self {
+        LimitOffsetClause::LimitOffset { limit, offset }
+    }
+    pub fn offset_limit(offset: u64, limit: Option<u64>) -> Self {
+        LimitOffsetClause::OffsetLimit { offset, limit }
+    }
+}
+
+pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
+    map(
+        tuple((
+            opt(group_clause),
+            opt(preceded(sp, having_clause)),
+            opt(preceded(sp, order_clause)),
+            opt(preceded(sp, limit_offset_clause)),
+        )),
+        |(group_by, having, order_by, limit_offset)| SolutionModifier {
+            group_by,
+            having,
+            order_by,
+            limit_offset,
+        },
+    )(i)
+}
+
+pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
+    map(
+        preceded(
+            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
+            separated_nonempty_list(sp, order_condition),
+        ),
+        OrderClause,
+    )(i)
+}
+
+pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
+    map(
+        preceded(
+            terminated(tag_no_case("having"), sp1),
+            separated_nonempty_list(sp, constraint),
+        ),
+        HavingClause,
+    )(i)
+}
+
+pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded(
+        opt(terminated(tag_no_case("where"), sp1)),
+        group_graph_pattern,
+    )(i)
+}
+
+pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
+    opt(preceded_tag1("values", datablock))(i)
+}
+
+#[inline]
+pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("insert", quads_pattern)(i)
+}
+
+#[inline]
+pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("offset", quads_pattern)(i)
+}
+
+#[inline]
+pub(crate) fn using_clause(i: &str) -> IResult<&str, DefaultOrNamedIri> {
+    preceded_tag1("using", default_or_named_iri)(i)
+}
+
+#[inline]
+pub(crate) fn int_clause<'a, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, u64>
+where
+    F: Fn(&'a str) -> IResult<&'a str, &'a str>,
+{
+    map_res(
+        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        |s| s.parse::<u64>(),
+    )
+}
+
+#[inline]
+pub(crate) fn limit_clause(i: &str) -> IResult<&str, u64> {
+    int_clause(tag_no_case("limit"))(i)
+}
+
+#[inline]
+pub(crate) fn offset_clause(i: &str) -> IResult<&str, u64> {
+    int_clause(tag_no_case("offset"))(i)
+}
+
+pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
+    alt((
+        map(
+            separated_pair(limit_clause, sp, opt(offset_clause)),
+            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
+        ),
+        map(
+            separated_pair(offset_clause, sp, opt(limit_clause)),
+            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },
+        ),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::{Iri, PrefixedName};
+
+    #[test]
+    fn is_limit_clause() {
+        assert_eq!(limit_clause("limit 5"), Ok(("", 5)));
+    }
+
+    #[test]
+    fn is_offset_clause() {
+        assert_eq!(offset_clause("offset 5"), Ok(("", 5)));
+        assert_eq!(offset_clause("offset      100"), Ok(("", 100)));
+    }
+
+    #[test]
+    fn is_limit_offset_clause() {
+        assert_eq!(
+            limit_offset_clause("limit 5     offset 10"),
+            Ok(("", LimitOffsetClause::limit_offset(5, Some(10))))
+        );
+    }
+
+    #[test]
+    fn is_offset_limit_clause() {
+        assert_eq!(
+            limit_offset_clause("offset 5 limit 10"),
+            Ok(("", LimitOffsetClause::offset_limit(5, Some(10))))
+        );
+    }
+    #[test]
+    fn is_using_clause() {
+        assert_eq!(
+            using_clause("using named <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            using_clause("using named :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+
+        assert_eq!(
+            using_clause("using :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Default(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+    }
+
+}
diff --git a/src/data.rs b/src/data.rs
index 24fc86f..3af127d 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,258 +1,258 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{tag, tag_no_case},
-    character::complete::char,
-    combinator::map,
-    multi::{many0, many1, separated_list, separated_nonempty_list},
-    sequence::{delimited, pair, preceded, tuple},
-    IResult,
-};
-
-use crate::{
-    expression::{DefaultOrNamedIri, Iri},
-    literal::{boolean, numeric_literal, NumericLiteral},
-    node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc},
-    var::{var, Var},
-};
-
-/// NAMED GraphClause = NAMED Iri
-pub type DataSetClause = DefaultOrNamedIri;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DataBlock {
-    InlineDataOneVar(InlineDataOneVar),
-    InlineDataFull(InlineDataFull),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct InlineDataOneVar {
-    pub var: Var,
-    pub values: Vec<DataBlockValue>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct InlineDataFull {
-    pub vars: Vec<Var>,
-    pub data_block_values: Vec<Vec<DataBlockValue>>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DataBlockValue {
-    Iri(Iri),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    /// If a variable has no value for a particular solution in the VALUES clause,
-    /// the keyword UNDEF is used instead of an RDF term.
-    UnDef,
-}
-
-pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
-    preceded_tag1("from", default_or_named_iri)(i)
-}
-
-pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
-    alt((
-        map(inline_data_one_var, DataBlock::InlineDataOneVar),
-        map(inline_data_full, DataBlock::InlineDataFull),
-    ))(i)
-}
-
-pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {
-    preceded_tag1("values", datablock)(i)
-}
-
-//delimited(tag("("), map(var,|x|vec![x]), tag(")")),
-pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
-    map(
-        tuple((
-            bracketted(preceded(sp, many0(sp_enc(var)))),
-            delimited(
-                sp_enc(char('{')),
-                many0(sp_enc(bracketted(preceded(
-                    sp,
-                    many0(sp_enc(datablock_value)),
-                )))),
-                preceded(sp, char('}')),
-            ),
-        )),
-        |(vars, data_block_values)| InlineDataFull {
-            vars,
-            data_block_values,
-        },
-    )(i)
-}
-
-pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
-    map(
-        pair(
-            var,
-            delimited(
-                sp_enc(char('{')),
-                many0(sp_enc(datablock_value)),
-                preceded(sp, char('}')),
-            ),
-        ),
-        |(var, values)| InlineDataOneVar { var, values },
-    )(i)
-}
-
-pub(crate) fn datablock_value(i: &str) -> IResult<&str, DataBlockValue> {
-    alt((
-        map(iri, DataBlockValue::Iri),
-        map(rdf_literal, DataBlockValue::RdfLiteral),
-        map(numeric_literal, DataBlockValue::NumericLiteral),
-        map(boolean, DataBlockValue::BooleanLiteral),
-        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::clauses::values_clause;
-    use crate::expression::PrefixedName;
-    use crate::node::{RdfLiteral, RdfLiteralDescriptor};
-
-    #[test]
-    fn is_datablock_value() {
-        assert_eq!(
-            datablock_value("true"),
-            Ok(("", DataBlockValue::BooleanLiteral(true)))
-        );
-
-        assert_eq!(
-            datablock_value("'chat'@fr"),
-            Ok((
-                "",
-                DataBlockValue::RdfLiteral(RdfLiteral::new(
-                    "chat",
-                    RdfLiteralDescriptor::LangTag("fr".to_string())
-                ))
-            ))
-        );
-
-        assert_eq!(
-            datablock_value(r#""abc""#),
-            Ok(("", DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))))
-        );
-    }
-
-    #[test]
-    fn is_inline_data_one_var() {
-        assert_eq!(
-            inline_data_one_var(r#"?name { "abc" "def" }"#),
-            Ok((
-                "",
-                InlineDataOneVar::new(
-                    Var::QMark("name".to_string()),
-                    vec![
-                        DataBlockValue::RdfLiteral(RdfLiteral::literal("abc")),
-                        DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))
-                    ]
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_inline_data_full() {
-        assert_eq!(
-            inline_data_full(r#"() { }"#),
-            Ok(("", InlineDataFull::new(vec![], vec![])))
-        );
-
-        assert_eq!(
-            inline_data_full("( ?name ?z) { }"),
-            Ok((
-                "",
-                InlineDataFull::new(
-                    vec![Var::QMark("name".to_string()), Var::QMark("z".to_string())],
-                    vec![]
-                )
-            ))
-        );
-
-        assert_eq!(
-            inline_data_full(r#"(?name) {  ("abc")  ("def")}"#),
-            Ok((
-                "",
-                InlineDataFull::new(
-                    vec![Var::QMark("name".to_string())],
-                    vec![
-                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))],
-                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))]
-                    ]
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_values_clause() {
-        assert_eq!(
-            values_clause(
-                r#"values (?x ?y) {
-  (:uri1 1)
-  (:uri2 UNDEF)
-}"#
-            ),
-            Ok((
-                "",
-                Some(DataBlock::InlineDataFull(InlineDataFull::new(
-                    vec![Var::QMark("x".to_string()), Var::QMark("y".to_string())],
-                    vec![
-                        vec![
-                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
-                                pn_prefix: None,
-                                pn_local: "uri1".to_string(),
-                            },)),
-                            DataBlockValue::NumericLiteral(NumericLiteral::Int(1))
-                        ],
-                        vec![
-                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
-                                pn_prefix: None,
-                                pn_local: "uri2".to_string(),
-                            },)),
-                            DataBlockValue::UnDef
-                        ]
-                    ]
-                )))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_data_set_clause() {
-        assert_eq!(
-            data_set_clause("FROM    <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Default(Iri::Iri(
-                    "http://example.org/foaf/aliceFoaf".to_string()
-                ))
-            ))
-        );
-
-        assert_eq!(
-            data_set_clause("FROM NAMED <http://example.org/bob>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/bob".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            data_set_clause("FROM NAMED :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::char,
+    combinator::map,
+    multi::{many0, many1, separated_list, separated_nonempty_list},
+    sequence::{delimited, pair, preceded, tuple},
+    IResult,
+};
+
+use crate::{
+    expression::{DefaultOrNamedIri, Iri},
+    literal::{boolean, numeric_literal, NumericLiteral},
+    node::RdfLiteral,
+    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
+    var::{var, Var},
+};
+
+/// NAMED GraphClause = NAMED Iri
+pub type DataSetClause = DefaultOrNamedIri;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DataBlock {
+    InlineDataOneVar(InlineDataOneVar),
+    InlineDataFull(InlineDataFull),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct InlineDataOneVar {
+    pub var: Var,
+    pub values: Vec<DataBlockValue>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct InlineDataFull {
+    pub vars: Vec<Var>,
+    pub data_block_values: Vec<Vec<DataBlockValue>>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DataBlockValue {
+    Iri(Iri),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    /// If a variable has no value for a particular solution in the VALUES clause,
+    /// the keyword UNDEF is used instead of an RDF term.
+    UnDef,
+}
+
+pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
+    preceded_tag1("from", default_or_named_iri)(i)
+}
+
+pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
+    alt((
+        map(inline_data_one_var, DataBlock::InlineDataOneVar),
+        map(inline_data_full, DataBlock::InlineDataFull),
+    ))(i)
+}
+
+pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {
+    preceded_tag1("values", datablock)(i)
+}
+
+//delimited(tag("("), map(var,|x|vec![x]), tag(")")),
+pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
+    map(
+        tuple((
+            bracketted(preceded(sp, many0(sp_enc(var)))),
+            delimited(
+                sp_enc(char('{')),
+                many0(sp_enc(bracketted(preceded(
+                    sp,
+                    many0(sp_enc(datablock_value)),
+                )))),
+                preceded(sp, char('}')),
+            ),
+        )),
+        |(vars, data_block_values)| InlineDataFull {
+            vars,
+            data_block_values,
+        },
+    )(i)
+}
+
+pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
+    map(
+        pair(
+            var,
+            delimited(
+                sp_enc(char('{')),
+                many0(sp_enc(datablock_value)),
+                preceded(sp, char('}')),
+            ),
+        ),
+        |(var, values)| InlineDataOneVar { var, values },
+    )(i)
+}
+
+pub(crate) fn datablock_value(i: &str) -> IResult<&str, DataBlockValue> {
+    alt((
+        map(iri, DataBlockValue::Iri),
+        map(rdf_literal, DataBlockValue::RdfLiteral),
+        map(numeric_literal, DataBlockValue::NumericLiteral),
+        map(boolean, DataBlockValue::BooleanLiteral),
+        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::clauses::values_clause;
+    use crate::expression::PrefixedName;
+    use crate::node::{RdfLiteral, RdfLiteralDescriptor};
+
+    #[test]
+    fn is_datablock_value() {
+        assert_eq!(
+            datablock_value("true"),
+            Ok(("", DataBlockValue::BooleanLiteral(true)))
+        );
+
+        assert_eq!(
+            datablock_value("'chat'@fr"),
+            Ok((
+                "",
+                DataBlockValue::RdfLiteral(RdfLiteral::new(
+                    "chat",
+                    RdfLiteralDescriptor::LangTag("fr".to_string())
+                ))
+            ))
+        );
+
+        assert_eq!(
+            datablock_value(r#""abc""#),
+            Ok(("", DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))))
+        );
+    }
+
+    #[test]
+    fn is_inline_data_one_var() {
+        assert_eq!(
+            inline_data_one_var(r#"?name { "abc" "def" }"#),
+            Ok((
+                "",
+                InlineDataOneVar::new(
+                    Var::QMark("name".to_string()),
+                    vec![
+                        DataBlockValue::RdfLiteral(RdfLiteral::literal("abc")),
+                        DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))
+                    ]
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_inline_data_full() {
+        assert_eq!(
+            inline_data_full(r#"() { }"#),
+            Ok(("", InlineDataFull::new(vec![], vec![])))
+        );
+
+        assert_eq!(
+            inline_data_full("( ?name ?z) { }"),
+            Ok((
+                "",
+                InlineDataFull::new(
+                    vec![Var::QMark("name".to_string()), Var::QMark("z".to_string())],
+                    vec![]
+                )
+            ))
+        );
+
+        assert_eq!(
+            inline_data_full(r#"(?name) {  ("abc")  ("def")}"#),
+            Ok((
+                "",
+                InlineDataFull::new(
+                    vec![Var::QMark("name".to_string())],
+                    vec![
+                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))],
+                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))]
+                    ]
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_values_clause() {
+        assert_eq!(
+            values_clause(
+                r#"values (?x ?y) {
+  (:uri1 1)
+  (:uri2 UNDEF)
+}"#
+            ),
+            Ok((
+                "",
+                Some(DataBlock::InlineDataFull(InlineDataFull::new(
+                    vec![Var::QMark("x".to_string()), Var::QMark("y".to_string())],
+                    vec![
+                        vec![
+                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
+                                pn_prefix: None,
+                                pn_local: "uri1".to_string(),
+                            },)),
+                            DataBlockValue::NumericLiteral(NumericLiteral::Int(1))
+                        ],
+                        vec![
+                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
+                                pn_prefix: None,
+                                pn_local: "uri2".to_string(),
+                            },)),
+                            DataBlockValue::UnDef
+                        ]
+                    ]
+                )))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_data_set_clause() {
+        assert_eq!(
+            data_set_clause("FROM    <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Default(Iri::Iri(
+                    "http://example.org/foaf/aliceFoaf".to_string()
+                ))
+            ))
+        );
+
+        assert_eq!(
+            data_set_clause("FROM NAMED <http://example.org/bob>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/bob".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            data_set_clause("FROM NAMED :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+    }
+
+}
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 62c949e..d4b8b0e 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,31 +1,30 @@
-use crate::expression::Iri;
-use crate::terminals::iri;
-use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
-use nom::character::complete::char;
-use nom::combinator::map;
-use nom::sequence::preceded;
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum IriOrAOrCaret {
-    IriOrA(IriOrA),
-    /// [`IriOrA`] prefixed with a `^`
-    Caret(IriOrA),
-}
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum IriOrA {
-    Iri(Iri),
-    A,
-}
-
-pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
-}
-
-pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
-    alt((
-        map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
-    ))(i)
-}
+use crate::expression::Iri;
+use crate::terminals::{iri, tag_no_case};
+use nom::branch::alt;
+use nom::character::complete::char;
+use nom::combinator::map;
+use nom::sequence::preceded;
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum IriOrAOrCaret {
+    IriOrA(IriOrA),
+    /// [`IriOrA`] prefixed with a `^`
+    Caret(IriOrA),
+}
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum IriOrA {
+    Iri(Iri),
+    A,
+}
+
+pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
+    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+}
+
+pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
+    alt((
+        map(iri_or_a, IriOrAOrCaret::IriOrA),
+        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+    ))(i)
+}
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 867e59d..4f94c36 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,240 +1,240 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{tag, tag_no_case},
-    character::complete::char,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
-    IResult,
-};
-
-use crate::{
-    arithmetic::{conditional_and_expression, ConditionalAndExpression},
-    call::{built_in_call, function_call, BuiltInCall, FunctionCall},
-    literal::{boolean, distinct, numeric_literal, NumericLiteral},
-    node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1},
-};
-
-use crate::var::{var, Var};
-
-pub mod functions;
-pub mod iri;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Expression(pub Vec<ConditionalAndExpression>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ExpressionList {
-    Nil,
-    List(Vec<Expression>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PrimaryExpression {
-    BrackettedExpression(Box<Expression>),
-    BuiltInCall(BuiltInCall),
-    IriOrFunction(IriOrFunction),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    Var(Var),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Iri {
-    Iri(String),
-    PrefixedName(PrefixedName),
-}
-
-impl Iri {
-    pub fn iri_ref<T: ToString>(iri_ref: T) -> Self {
-        Iri::Iri(iri_ref.to_string())
-    }
-
-    pub fn prefixed_name<T: Into<PrefixedName>>(prefixed_name: T) -> Self {
-        Iri::PrefixedName(prefixed_name.into())
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PrefixedName {
-    PnameLN {
-        pn_prefix: Option<String>,
-        pn_local: String,
-    },
-    PnameNS(Option<String>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DefaultOrNamedIri {
-    Default(Iri),
-    Named(Iri),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct IriOrFunction {
-    pub iri: Iri,
-    pub arg_list: Option<ArgList>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ArgList {
-    Nil,
-    Expression {
-        distinct: bool,
-        expressions: Vec<Expression>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct DistinctExpression {
-    pub distinct: bool,
-    pub expression: Expression,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ExpressionAsVar {
-    pub expression: Box<Expression>,
-    pub var: Var,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ExpressionAsVarOpt {
-    pub expression: Box<Expression>,
-    pub var: Option<Var>,
-}
-
-pub(crate) fn bracketted3<'a, O1, F>(i: &'a str, pat: F) -> IResult<&str, (O1, O1, Option<O1>)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    bracketted(tuple((
-        &pat,
-        preceded(sp_enc(char(',')), &pat),
-        opt(preceded(sp_enc(char(',')), &pat)),
-    )))(i)
-}
-
-pub(crate) fn bracketted_expr3(
-    i: &str,
-) -> IResult<&str, (Expression, Expression, Option<Expression>)> {
-    bracketted3(i, expression)
-}
-
-pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt> {
-    delimited(
-        char('('),
-        sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
-            |(expression, var)| ExpressionAsVarOpt {
-                expression: Box::new(expression),
-                var,
-            },
-        )),
-        char(')'),
-    )(i)
-}
-
-pub(crate) fn expression_as_var(i: &str) -> IResult<&str, ExpressionAsVar> {
-    delimited(
-        char('('),
-        sp_enc(map(
-            separated_pair(expression, sp_enc(tag_no_case("as")), var),
-            |(expression, var)| ExpressionAsVar {
-                expression: Box::new(expression),
-                var,
-            },
-        )),
-        char(')'),
-    )(i)
-}
-
-pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
-    alt((
-        map(bracketted_expression, |expr| {
-            PrimaryExpression::BrackettedExpression(Box::new(expr))
-        }),
-        map(built_in_call, PrimaryExpression::BuiltInCall),
-        map(iri_or_fun, PrimaryExpression::IriOrFunction),
-        map(rdf_literal, PrimaryExpression::RdfLiteral),
-        map(numeric_literal, PrimaryExpression::NumericLiteral),
-        map(boolean, PrimaryExpression::BooleanLiteral),
-        map(var, PrimaryExpression::Var),
-    ))(i)
-}
-
-pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
-    alt((
-        map(nil, |_| ExpressionList::Nil),
-        map(
-            delimited(
-                char('('),
-                separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
-            ),
-            ExpressionList::List,
-        ),
-    ))(i)
-}
-
-pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
-    map(
-        pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
-            expression,
-        ),
-        |(distinct, expression)| DistinctExpression {
-            distinct,
-            expression,
-        },
-    )(i)
-}
-
-pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
-    bracketted(sp_enc(expression))(i)
-}
-
-pub(crate) fn bind(i: &str) -> IResult<&str, ExpressionAsVar> {
-    preceded_tag1("bind", expression_as_var)(i)
-}
-
-pub(crate) fn expression(i: &str) -> IResult<&str, Expression> {
-    map(
-        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
-        Expression,
-    )(i)
-}
-
-#[cfg(test)]
-mod test {
-    use super::*;
-    use crate::terminals::iri;
-
-    #[test]
-    fn is_iri() {
-        assert_eq!(
-            iri("<http://example.org/book/book1>"),
-            Ok(("", Iri::Iri("http://example.org/book/book1".to_string())))
-        );
-
-        assert_eq!(
-            iri(":book1"),
-            Ok((
-                "",
-                Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "book1".to_string()
-                })
-            ))
-        );
-
-        assert_eq!(
-            iri(":"),
-            Ok(("", Iri::PrefixedName(PrefixedName::PnameNS(None))))
-        );
-    }
-
-    #[test]
-    fn is_expression_as_var() {}
-}
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
+    IResult,
+};
+
+use crate::{
+    arithmetic::{conditional_and_expression, ConditionalAndExpression},
+    call::{built_in_call, function_call, BuiltInCall, FunctionCall},
+    literal::{boolean, distinct, numeric_literal, NumericLiteral},
+    node::RdfLiteral,
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case},
+};
+
+use crate::var::{var, Var};
+
+pub mod functions;
+pub mod iri;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Expression(pub Vec<ConditionalAndExpression>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ExpressionList {
+    Nil,
+    List(Vec<Expression>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PrimaryExpression {
+    BrackettedExpression(Box<Expression>),
+    BuiltInCall(BuiltInCall),
+    IriOrFunction(IriOrFunction),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    Var(Var),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Iri {
+    Iri(String),
+    PrefixedName(PrefixedName),
+}
+
+impl Iri {
+    pub fn iri_ref<T: ToString>(iri_ref: T) -> Self {
+        Iri::Iri(iri_ref.to_string())
+    }
+
+    pub fn prefixed_name<T: Into<PrefixedName>>(prefixed_name: T) -> Self {
+        Iri::PrefixedName(prefixed_name.into())
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PrefixedName {
+    PnameLN {
+        pn_prefix: Option<String>,
+        pn_local: String,
+    },
+    PnameNS(Option<String>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DefaultOrNamedIri {
+    Default(Iri),
+    Named(Iri),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct IriOrFunction {
+    pub iri: Iri,
+    pub arg_list: Option<ArgList>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ArgList {
+    Nil,
+    Expression {
+        distinct: bool,
+        expressions: Vec<Expression>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct DistinctExpression {
+    pub distinct: bool,
+    pub expression: Expression,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ExpressionAsVar {
+    pub expression: Box<Expression>,
+    pub var: Var,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ExpressionAsVarOpt {
+    pub expression: Box<Expression>,
+    pub var: Option<Var>,
+}
+
+pub(crate) fn bracketted3<'a, O1, F>(i: &'a str, pat: F) -> IResult<&str, (O1, O1, Option<O1>)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    bracketted(tuple((
+        &pat,
+        preceded(sp_enc(char(',')), &pat),
+        opt(preceded(sp_enc(char(',')), &pat)),
+    )))(i)
+}
+
+pub(crate) fn bracketted_expr3(
+    i: &str,
+) -> IResult<&str, (Expression, Expression, Option<Expression>)> {
+    bracketted3(i, expression)
+}
+
+pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt> {
+    delimited(
+        char('('),
+        sp_enc(map(
+            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            |(expression, var)| ExpressionAsVarOpt {
+                expression: Box::new(expression),
+                var,
+            },
+        )),
+        char(')'),
+    )(i)
+}
+
+pub(crate) fn expression_as_var(i: &str) -> IResult<&str, ExpressionAsVar> {
+    delimited(
+        char('('),
+        sp_enc(map(
+            separated_pair(expression, sp_enc(tag_no_case("as")), var),
+            |(expression, var)| ExpressionAsVar {
+                expression: Box::new(expression),
+                var,
+            },
+        )),
+        char(')'),
+    )(i)
+}
+
+pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
+    alt((
+        map(bracketted_expression, |expr| {
+            PrimaryExpression::BrackettedExpression(Box::new(expr))
+        }),
+        map(built_in_call, PrimaryExpression::BuiltInCall),
+        map(iri_or_fun, PrimaryExpression::IriOrFunction),
+        map(rdf_literal, PrimaryExpression::RdfLiteral),
+        map(numeric_literal, PrimaryExpression::NumericLiteral),
+        map(boolean, PrimaryExpression::BooleanLiteral),
+        map(var, PrimaryExpression::Var),
+    ))(i)
+}
+
+pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
+    alt((
+        map(nil, |_| ExpressionList::Nil),
+        map(
+            delimited(
+                char('('),
+                separated_nonempty_list(sp_enc(char(',')), expression),
+                char(')'),
+            ),
+            ExpressionList::List,
+        ),
+    ))(i)
+}
+
+pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
+    map(
+        pair(
+            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            expression,
+        ),
+        |(distinct, expression)| DistinctExpression {
+            distinct,
+            expression,
+        },
+    )(i)
+}
+
+pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
+    bracketted(sp_enc(expression))(i)
+}
+
+pub(crate) fn bind(i: &str) -> IResult<&str, ExpressionAsVar> {
+    preceded_tag1("bind", expression_as_var)(i)
+}
+
+pub(crate) fn expression(i: &str) -> IResult<&str, Expression> {
+    map(
+        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
+        Expression,
+    )(i)
+}
+
+#[cfg(test)]
+mod test {
+    use super::*;
+    use crate::terminals::iri;
+
+    #[test]
+    fn is_iri() {
+        assert_eq!(
+            iri("<http://example.org/book/book1>"),
+            Ok(("", Iri::Iri("http://example.org/book/book1".to_string())))
+        );
+
+        assert_eq!(
+            iri(":book1"),
+            Ok((
+                "",
+                Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "book1".to_string()
+                })
+            ))
+        );
+
+        assert_eq!(
+            iri(":"),
+            Ok(("", Iri::PrefixedName(PrefixedName::PnameNS(None))))
+        );
+    }
+
+    #[test]
+    fn is_expression_as_var() {}
+}
diff --git a/src/graph.rs b/src/graph.rs
index 1c3bd80..9e0d69c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,347 +1,347 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    sequence::separated_pair,
-    sequence::{delimited, pair, preceded, terminated},
-    IResult,
-};
-
-use crate::expression::functions::{filter, Constraint};
-use crate::{
-    data::inline_data,
-    data::{datablock, DataBlock},
-    expression::DefaultOrNamedIri,
-    expression::{bind, ExpressionAsVar, Iri},
-    literal::NumericLiteral,
-    literal::{boolean, numeric_literal, silent},
-    node::{BlankNode, RdfLiteral, TriplesNode},
-    quads::{quads_pattern, Quads},
-    query::select::{sub_select, SubSelect},
-    terminals::sp_sep1,
-    terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep,
-    },
-    triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
-    var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
-};
-use nom::character::complete::char;
-use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
-use nom::sequence::tuple;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphTerm {
-    Iri(Iri),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    BlankNode(BlankNode),
-    /// empty parentheses
-    Nil,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupGraphPatternSub {
-    pub triples_block: Option<TriplesBlock>,
-    pub graph_pattern_and_triples: Vec<GraphPatternAndTriples>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphOrDefault {
-    Graph(Iri),
-    Default,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphRefAll {
-    GraphRef(Iri),
-    Default,
-    Named,
-    All,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphNode {
-    VarOrTerm(VarOrTerm),
-    TriplesNode(Box<TriplesNode>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GroupGraphPattern {
-    SubSelect(Box<SubSelect>),
-    GroupGraphPatternSub(GroupGraphPatternSub),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphPattern {
-    pub pattern_or_filter: GraphPatternOrFilter,
-    pub triples_block: Option<TriplesBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphPatternOrFilter {
-    GraphPattern(Box<GraphPatternNotTriples>),
-    Filter(Constraint),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphPatternNotTriples {
-    Optional(GroupGraphPattern),
-    GroupOrUnion(GroupOrUnionGraphPattern),
-    Minus(GroupGraphPattern),
-    Graph(GraphGraphPattern),
-    Service(ServiceGraphPattern),
-    Filter(Constraint),
-    Bind(ExpressionAsVar),
-    InlineData(DataBlock),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphPatternAndTriples {
-    pub graph_pattern: GraphPatternNotTriples,
-    pub triples: Option<TriplesBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupOrUnionGraphPattern(pub Vec<GroupGraphPattern>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphGraphPattern {
-    pub var_or_iri: VarOrIri,
-    pub graph_pattern: GroupGraphPattern,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ServiceGraphPattern {
-    pub var_or_iri: VarOrIri,
-    pub silent: bool,
-    pub graph_pattern: GroupGraphPattern,
-}
-
-pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
-}
-
-pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
-    alt((
-        map(tag_no_case("default"), |_| GraphOrDefault::Default),
-        map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
-            |(_, iri)| GraphOrDefault::Graph(iri),
-        ),
-    ))(i)
-}
-
-pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
-    alt((
-        map(tag_no_case("default"), |_| GraphRefAll::Default),
-        map(tag_no_case("named"), |_| GraphRefAll::Named),
-        map(tag_no_case("all"), |_| GraphRefAll::All),
-        map(graph_ref, GraphRefAll::GraphRef),
-    ))(i)
-}
-
-pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {
-    alt((
-        map(
-            group_or_union_graph_pattern,
-            GraphPatternNotTriples::GroupOrUnion,
-        ),
-        map(
-            optional_group_graph_pattern,
-            GraphPatternNotTriples::Optional,
-        ),
-        map(minus_graph_pattern, GraphPatternNotTriples::Minus),
-        map(graph_graph_pattern, GraphPatternNotTriples::Graph),
-        map(service_graph_pattern, GraphPatternNotTriples::Service),
-        map(filter, GraphPatternNotTriples::Filter),
-        map(bind, GraphPatternNotTriples::Bind),
-        map(inline_data, GraphPatternNotTriples::InlineData),
-    ))(i)
-}
-
-pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
-    map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
-        GroupOrUnionGraphPattern,
-    )(i)
-}
-pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("optional", group_graph_pattern)(i)
-}
-pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("minus", group_graph_pattern)(i)
-}
-
-pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
-    map(
-        tuple((
-            terminated(tag_no_case("graph"), sp1),
-            terminated(var_or_iri, sp),
-            group_graph_pattern,
-        )),
-        |(_, var_or_iri, graph_pattern)| GraphGraphPattern {
-            var_or_iri,
-            graph_pattern,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatternSub> {
-    map(
-        pair(
-            opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
-        ),
-        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
-            triples_block,
-            graph_pattern_and_triples,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
-    map(
-        separated_pair(
-            graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
-            opt(preceded(sp, triples_block)),
-        ),
-        |(graph_pattern, triples)| GraphPatternAndTriples {
-            graph_pattern,
-            triples,
-        },
-    )(i)
-}
-
-pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
-    map(
-        tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
-            terminated(var_or_iri, sp),
-            group_graph_pattern,
-        )),
-        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
-            var_or_iri,
-            silent,
-            graph_pattern,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    delimited(
-        char('{'),
-        sp_enc(alt((
-            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
-            map(
-                group_graph_pattern_sub,
-                GroupGraphPattern::GroupGraphPatternSub,
-            ),
-        ))),
-        char('}'),
-    )(i)
-}
-
-pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
-    alt((
-        map(iri, GraphTerm::Iri),
-        map(rdf_literal, GraphTerm::RdfLiteral),
-        map(numeric_literal, GraphTerm::NumericLiteral),
-        map(boolean, GraphTerm::BooleanLiteral),
-        map(blank_node, GraphTerm::BlankNode),
-        map(nil, |_| GraphTerm::Nil),
-    ))(i)
-}
-
-pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
-    alt((
-        map(
-            sp_sep(
-                tag("_:"),
-                recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
-                    pn_chars_tail,
-                )),
-            ),
-            |(_, label)| BlankNode::Label(label.to_string()),
-        ),
-        map(anon, |_| BlankNode::Anon),
-    ))(i)
-}
-
-pub(crate) fn graph_node(i: &str) -> IResult<&str, GraphNode> {
-    alt((
-        map(var_or_term, GraphNode::VarOrTerm),
-        map(triples_node, |node| GraphNode::TriplesNode(Box::new(node))),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::PrefixedName;
-
-    #[test]
-    fn is_graph_ref_all() {
-        assert_eq!(graph_ref_all("default"), Ok(("", GraphRefAll::Default)));
-        assert_eq!(
-            graph_ref_all("graph :uri1"),
-            Ok((
-                "",
-                GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-        assert_eq!(
-            graph_ref_all("graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                GraphRefAll::GraphRef(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_graph_term() {
-        assert_eq!(graph_term("()"), Ok(("", GraphTerm::Nil)));
-        assert_eq!(
-            graph_term("true"),
-            Ok(("", GraphTerm::BooleanLiteral(true)))
-        );
-        assert_eq!(
-            graph_term("<http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                GraphTerm::Iri(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            graph_term("-5"),
-            Ok(("", GraphTerm::NumericLiteral(NumericLiteral::Int(-5))))
-        );
-    }
-
-    #[test]
-    fn is_var_or_term() {
-        assert_eq!(var_or_term("()"), Ok(("", VarOrTerm::Term(GraphTerm::Nil))));
-        assert_eq!(
-            var_or_term("false"),
-            Ok(("", VarOrTerm::Term(GraphTerm::BooleanLiteral(false))))
-        );
-
-        assert_eq!(
-            var_or_term("?name"),
-            Ok(("", VarOrTerm::Var(Var::QMark("name".to_string()))))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    sequence::separated_pair,
+    sequence::{delimited, pair, preceded, terminated},
+    IResult,
+};
+
+use crate::expression::functions::{filter, Constraint};
+use crate::{
+    data::inline_data,
+    data::{datablock, DataBlock},
+    expression::DefaultOrNamedIri,
+    expression::{bind, ExpressionAsVar, Iri},
+    literal::NumericLiteral,
+    literal::{boolean, numeric_literal, silent},
+    node::{BlankNode, RdfLiteral, TriplesNode},
+    quads::{quads_pattern, Quads},
+    query::select::{sub_select, SubSelect},
+    terminals::sp_sep1,
+    terminals::{
+        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
+    },
+    triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
+    var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
+};
+use nom::character::complete::char;
+use nom::combinator::recognize;
+use nom::multi::{separated_list, separated_nonempty_list};
+use nom::sequence::tuple;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphTerm {
+    Iri(Iri),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    BlankNode(BlankNode),
+    /// empty parentheses
+    Nil,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupGraphPatternSub {
+    pub triples_block: Option<TriplesBlock>,
+    pub graph_pattern_and_triples: Vec<GraphPatternAndTriples>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphOrDefault {
+    Graph(Iri),
+    Default,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphRefAll {
+    GraphRef(Iri),
+    Default,
+    Named,
+    All,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphNode {
+    VarOrTerm(VarOrTerm),
+    TriplesNode(Box<TriplesNode>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GroupGraphPattern {
+    SubSelect(Box<SubSelect>),
+    GroupGraphPatternSub(GroupGraphPatternSub),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphPattern {
+    pub pattern_or_filter: GraphPatternOrFilter,
+    pub triples_block: Option<TriplesBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphPatternOrFilter {
+    GraphPattern(Box<GraphPatternNotTriples>),
+    Filter(Constraint),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphPatternNotTriples {
+    Optional(GroupGraphPattern),
+    GroupOrUnion(GroupOrUnionGraphPattern),
+    Minus(GroupGraphPattern),
+    Graph(GraphGraphPattern),
+    Service(ServiceGraphPattern),
+    Filter(Constraint),
+    Bind(ExpressionAsVar),
+    InlineData(DataBlock),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphPatternAndTriples {
+    pub graph_pattern: GraphPatternNotTriples,
+    pub triples: Option<TriplesBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupOrUnionGraphPattern(pub Vec<GroupGraphPattern>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphGraphPattern {
+    pub var_or_iri: VarOrIri,
+    pub graph_pattern: GroupGraphPattern,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ServiceGraphPattern {
+    pub var_or_iri: VarOrIri,
+    pub silent: bool,
+    pub graph_pattern: GroupGraphPattern,
+}
+
+pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
+    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+}
+
+pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
+    alt((
+        map(tag_no_case("default"), |_| GraphOrDefault::Default),
+        map(
+            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            |(_, iri)| GraphOrDefault::Graph(iri),
+        ),
+    ))(i)
+}
+
+pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
+    alt((
+        map(tag_no_case("default"), |_| GraphRefAll::Default),
+        map(tag_no_case("named"), |_| GraphRefAll::Named),
+        map(tag_no_case("all"), |_| GraphRefAll::All),
+        map(graph_ref, GraphRefAll::GraphRef),
+    ))(i)
+}
+
+pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {
+    alt((
+        map(
+            group_or_union_graph_pattern,
+            GraphPatternNotTriples::GroupOrUnion,
+        ),
+        map(
+            optional_group_graph_pattern,
+            GraphPatternNotTriples::Optional,
+        ),
+        map(minus_graph_pattern, GraphPatternNotTriples::Minus),
+        map(graph_graph_pattern, GraphPatternNotTriples::Graph),
+        map(service_graph_pattern, GraphPatternNotTriples::Service),
+        map(filter, GraphPatternNotTriples::Filter),
+        map(bind, GraphPatternNotTriples::Bind),
+        map(inline_data, GraphPatternNotTriples::InlineData),
+    ))(i)
+}
+
+pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
+    map(
+        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        GroupOrUnionGraphPattern,
+    )(i)
+}
+pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded_tag1("optional", group_graph_pattern)(i)
+}
+pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded_tag1("minus", group_graph_pattern)(i)
+}
+
+pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
+    map(
+        tuple((
+            terminated(tag_no_case("graph"), sp1),
+            terminated(var_or_iri, sp),
+            group_graph_pattern,
+        )),
+        |(_, var_or_iri, graph_pattern)| GraphGraphPattern {
+            var_or_iri,
+            graph_pattern,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatternSub> {
+    map(
+        pair(
+            opt(terminated(triples_block, sp)),
+            separated_list(sp, group_graph_pattern_and_triples),
+        ),
+        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
+            triples_block,
+            graph_pattern_and_triples,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
+    map(
+        separated_pair(
+            graph_pattern_not_triples,
+            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, triples_block)),
+        ),
+        |(graph_pattern, triples)| GraphPatternAndTriples {
+            graph_pattern,
+            triples,
+        },
+    )(i)
+}
+
+pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
+    map(
+        tuple((
+            terminated(tag_no_case("service"), sp1),
+            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(var_or_iri, sp),
+            group_graph_pattern,
+        )),
+        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
+            var_or_iri,
+            silent,
+            graph_pattern,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    delimited(
+        char('{'),
+        sp_enc(alt((
+            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
+            map(
+                group_graph_pattern_sub,
+                GroupGraphPattern::GroupGraphPatternSub,
+            ),
+        ))),
+        char('}'),
+    )(i)
+}
+
+pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
+    alt((
+        map(iri, GraphTerm::Iri),
+        map(rdf_literal, GraphTerm::RdfLiteral),
+        map(numeric_literal, GraphTerm::NumericLiteral),
+        map(boolean, GraphTerm::BooleanLiteral),
+        map(blank_node, GraphTerm::BlankNode),
+        map(nil, |_| GraphTerm::Nil),
+    ))(i)
+}
+
+pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
+    alt((
+        map(
+            sp_sep(
+                tag("_:"),
+                recognize(pair(
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    pn_chars_tail,
+                )),
+            ),
+            |(_, label)| BlankNode::Label(label.to_string()),
+        ),
+        map(anon, |_| BlankNode::Anon),
+    ))(i)
+}
+
+pub(crate) fn graph_node(i: &str) -> IResult<&str, GraphNode> {
+    alt((
+        map(var_or_term, GraphNode::VarOrTerm),
+        map(triples_node, |node| GraphNode::TriplesNode(Box::new(node))),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::PrefixedName;
+
+    #[test]
+    fn is_graph_ref_all() {
+        assert_eq!(graph_ref_all("default"), Ok(("", GraphRefAll::Default)));
+        assert_eq!(
+            graph_ref_all("graph :uri1"),
+            Ok((
+                "",
+                GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+        assert_eq!(
+            graph_ref_all("graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                GraphRefAll::GraphRef(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_graph_term() {
+        assert_eq!(graph_term("()"), Ok(("", GraphTerm::Nil)));
+        assert_eq!(
+            graph_term("true"),
+            Ok(("", GraphTerm::BooleanLiteral(true)))
+        );
+        assert_eq!(
+            graph_term("<http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                GraphTerm::Iri(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            graph_term("-5"),
+            Ok(("", GraphTerm::NumericLiteral(NumericLiteral::Int(-5))))
+        );
+    }
+
+    #[test]
+    fn is_var_or_term() {
+        assert_eq!(var_or_term("()"), Ok(("", VarOrTerm::Term(GraphTerm::Nil))));
+        assert_eq!(
+            var_or_term("false"),
+            Ok(("", VarOrTerm::Term(GraphTerm::BooleanLiteral(false))))
+        );
+
+        assert_eq!(
+            var_or_term("?name"),
+            Ok(("", VarOrTerm::Var(Var::QMark("name".to_string()))))
+        );
+    }
+
+}
diff --git a/src/group.rs b/src/group.rs
index f759ccc..200bc3f 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,50 +1,50 @@
-use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
-use nom::sequence::delimited;
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
-
-use crate::expression::{
-    expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
-};
-
-use crate::terminals::{sp, sp1};
-use crate::var::{var, Var};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupClause(pub Vec<GroupCondition>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GroupCondition {
-    BuiltInCall(BuiltInCall),
-    FunctionCall(FunctionCall),
-    ExpressionAsVarOpt(ExpressionAsVarOpt),
-    Var(Var),
-}
-
-pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
-    map(
-        preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
-        ),
-        GroupClause,
-    )(i)
-}
-
-pub(crate) fn group_condition(i: &str) -> IResult<&str, GroupCondition> {
-    alt((
-        map(built_in_call, GroupCondition::BuiltInCall),
-        map(function_call, GroupCondition::FunctionCall),
-        map(expression_as_var_opt, GroupCondition::ExpressionAsVarOpt),
-        map(var, GroupCondition::Var),
-    ))(i)
-}
+use nom::combinator::map;
+use nom::multi::separated_nonempty_list;
+use nom::sequence::delimited;
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
+
+use crate::expression::{
+    expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
+};
+
+use crate::terminals::{sp, sp1, tag_no_case};
+use crate::var::{var, Var};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupClause(pub Vec<GroupCondition>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GroupCondition {
+    BuiltInCall(BuiltInCall),
+    FunctionCall(FunctionCall),
+    ExpressionAsVarOpt(ExpressionAsVarOpt),
+    Var(Var),
+}
+
+pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
+    map(
+        preceded(
+            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
+            separated_nonempty_list(sp, group_condition),
+        ),
+        GroupClause,
+    )(i)
+}
+
+pub(crate) fn group_condition(i: &str) -> IResult<&str, GroupCondition> {
+    alt((
+        map(built_in_call, GroupCondition::BuiltInCall),
+        map(function_call, GroupCondition::FunctionCall),
+        map(expression_as_var_opt, GroupCondition::ExpressionAsVarOpt),
+        map(var, GroupCondition::Var),
+    ))(i)
+}
diff --git a/src/literal.rs b/src/literal.rs
index 418fb9c..b91c158 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,246 +1,246 @@
-use nom::combinator::{cut, opt, recognize};
-use nom::error::{make_error, ErrorKind};
-use nom::sequence::{pair, tuple};
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::{
-        complete::{char, digit1},
-        is_digit,
-    },
-    combinator::{map, map_res},
-    error::ParseError,
-    sequence::{preceded, terminated},
-    Err, IResult, ParseTo,
-};
-
-use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum StringLiteral {
-    /// A quoted only string
-    Simple(String),
-    /// The literal and the language
-    Language((String, String)),
-    /// A `xsd:string` typed literal
-    Typed(String),
-}
-
-impl StringLiteral {
-    /// Compatibility of two arguments is defined as:
-    ///
-    /// The arguments are simple literals or literals typed as xsd:string
-    /// The arguments are plain literals with identical language tags
-    /// The first argument is a plain literal with language tag
-    /// and the second argument is a simple literal or literal typed as xsd:string
-    pub fn compatible_arg(&self, arg2: &Self) -> bool {
-        match self {
-            StringLiteral::Simple(_) => {
-                if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
-                    false
-                }
-            }
-            StringLiteral::Language((_, lang)) => {
-                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
-                    lang == arg2_lang
-                } else {
-                    true
-                }
-            }
-            StringLiteral::Typed(_) => {
-                if let StringLiteral::Language(_) = arg2 {
-                    false
-                } else {
-                    true
-                }
-            }
-        }
-    }
-}
-
-#[derive(Debug, Clone, PartialEq)]
-pub enum NumericLiteral {
-    Int(i64),
-    /// a sparql decimal is just sparql double without an exponent
-    Double((f64, Option<i64>)),
-}
-
-impl Eq for NumericLiteral {}
-
-#[inline]
-pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
-    alt((
-        map(
-            terminated(
-                map(string_literal, String::from),
-                tag_no_case("^^xsd:string"),
-            ),
-            StringLiteral::Simple,
-        ),
-        map(
-            pair(
-                map(string_literal, String::from),
-                opt(map(language_tag, String::from)),
-            ),
-            |(lit, lang)| {
-                if let Some(lang) = lang {
-                    StringLiteral::Language((lit, lang))
-                } else {
-                    StringLiteral::Simple(lit)
-                }
-            },
-        ),
-    ))(i)
-}
-
-#[inline]
-pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("silent"), |_| true)(i)
-}
-
-#[inline]
-pub(crate) fn distinct(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("distinct"), |_| true)(i)
-}
-
-pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
-    alt((
-        map(tag_no_case("false"), |_| false),
-        map(tag_no_case("true"), |_| true),
-    ))(i)
-}
-
-pub(crate) fn sign(i: &str) -> IResult<&str, Sign> {
-    alt((map(char('+'), |_| Sign::POS), map(char('-'), |_| Sign::NEG)))(i)
-}
-
-pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
-    preceded(
-        alt((char('e'), char('E'))),
-        map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
-            |s: &str| s.parse::<i64>(),
-        ),
-    )(i)
-}
-
-pub(crate) fn recognize_spaqrql_float(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(alt((char('+'), char('-')))),
-        alt((
-            map(pair(digit1, opt(pair(char('.'), opt(digit1)))), |_| ()),
-            map(tuple((char('.'), digit1)), |_| ()),
-        )),
-    ))(i)
-}
-
-pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
-    match recognize_spaqrql_float(input) {
-        Err(e) => Err(e),
-        Ok((i, s)) => match s.parse_to() {
-            Some(n) => Ok((i, n)),
-            None => Err(Err::Error(make_error(i, ErrorKind::Float))),
-        },
-    }
-}
-
-pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
-    pair(sparql_decimal, opt(exponent))(i)
-}
-
-pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
-    match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
-        Ok((i, o)) => {
-            // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
-                Err(Err::Error(make_error(i, ErrorKind::Float)))
-            } else if let Ok(v) = o.parse() {
-                Ok((i, v))
-            } else {
-                Err(Err::Error(make_error(i, ErrorKind::Digit)))
-            }
-        }
-        Err(e) => Err(e),
-    }
-}
-
-pub(crate) fn numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
-    alt((
-        map(sparql_int, NumericLiteral::Int),
-        map(sparql_double, NumericLiteral::Double),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_exponent() {
-        assert_eq!(exponent("e+25"), Ok(("", 25)));
-        assert_eq!(exponent("e25"), Ok(("", 25)));
-        assert_eq!(exponent("E-25"), Ok(("", -25)));
-    }
-
-    #[test]
-    fn is_decimal() {
-        assert_eq!(sparql_decimal("-.0"), Ok(("", 0.0)));
-        assert_eq!(sparql_decimal(".02"), Ok(("", 0.02)));
-        assert_eq!(sparql_decimal("1."), Ok(("", 1.0)));
-    }
-    #[test]
-    fn is_double() {
-        assert_eq!(sparql_double("-.0"), Ok(("", (0.0, None))));
-        assert_eq!(sparql_double(".02e10"), Ok(("", (0.02, Some(10)))));
-        assert_eq!(sparql_double("1.E-20"), Ok(("", (1.0, Some(-20)))));
-    }
-
-    #[test]
-    fn is_numeric_literal_int() {
-        let mut expected = numeric_literal("+11").unwrap();
-
-        if let NumericLiteral::Int(i) = expected.1 {
-            assert_eq!(11, i);
-        } else {
-            panic!("int literal mistaken for double {:?}", expected.1)
-        }
-
-        expected = numeric_literal("-5").unwrap();
-        if let NumericLiteral::Int(i) = expected.1 {
-            assert_eq!(-5, i);
-        } else {
-            panic!("int literal mistaken for double {:?}", expected.1)
-        }
-    }
-    #[test]
-    fn is_numeric_literal_double() {
-        let mut expected = numeric_literal("+11.").unwrap();
-        if let NumericLiteral::Double((_d, e)) = expected.1 {
-            assert!(e.is_none());
-        } else {
-            panic!("double literal mistaken for int {:?}", expected.1)
-        }
-
-        expected = numeric_literal("+.0e10").unwrap();
-        if let NumericLiteral::Double((_d, e)) = expected.1 {
-            assert_eq!(e, Some(10));
-        } else {
-            panic!("double literal mistaken for int {:?}", expected.1)
-        }
-    }
-
-    #[test]
-    fn is_string_literal_arg() {
-        assert_eq!(
-            string_literal_arg(r#""A""#),
-            Ok(("", StringLiteral::Simple("A".to_string())))
-        );
-    }
-
-}
+use nom::combinator::{cut, opt, recognize};
+use nom::error::{make_error, ErrorKind};
+use nom::sequence::{pair, tuple};
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::{
+        complete::{char, digit1},
+        is_digit,
+    },
+    combinator::{map, map_res},
+    error::ParseError,
+    sequence::{preceded, terminated},
+    Err, IResult, ParseTo,
+};
+
+use crate::arithmetic::Sign;
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum StringLiteral {
+    /// A quoted only string
+    Simple(String),
+    /// The literal and the language
+    Language((String, String)),
+    /// A `xsd:string` typed literal
+    Typed(String),
+}
+
+impl StringLiteral {
+    /// Compatibility of two arguments is defined as:
+    ///
+    /// The arguments are simple literals or literals typed as xsd:string
+    /// The arguments are plain literals with identical language tags
+    /// The first argument is a plain literal with language tag
+    /// and the second argument is a simple literal or literal typed as xsd:string
+    pub fn compatible_arg(&self, arg2: &Self) -> bool {
+        match self {
+            StringLiteral::Simple(_) => {
+                if let StringLiteral::Language(_) = arg2 {
+                    true
+                } else {
+                    false
+                }
+            }
+            StringLiteral::Language((_, lang)) => {
+                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
+                    lang == arg2_lang
+                } else {
+                    true
+                }
+            }
+            StringLiteral::Typed(_) => {
+                if let StringLiteral::Language(_) = arg2 {
+                    false
+                } else {
+                    true
+                }
+            }
+        }
+    }
+}
+
+#[derive(Debug, Clone, PartialEq)]
+pub enum NumericLiteral {
+    Int(i64),
+    /// a sparql decimal is just sparql double without an exponent
+    Double((f64, Option<i64>)),
+}
+
+impl Eq for NumericLiteral {}
+
+#[inline]
+pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
+    alt((
+        map(
+            terminated(
+                map(string_literal, String::from),
+                tag_no_case("^^xsd:string"),
+            ),
+            StringLiteral::Simple,
+        ),
+        map(
+            pair(
+                map(string_literal, String::from),
+                opt(map(language_tag, String::from)),
+            ),
+            |(lit, lang)| {
+                if let Some(lang) = lang {
+                    StringLiteral::Language((lit, lang))
+                } else {
+                    StringLiteral::Simple(lit)
+                }
+            },
+        ),
+    ))(i)
+}
+
+#[inline]
+pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
+    map(tag_no_case("silent"), |_| true)(i)
+}
+
+#[inline]
+pub(crate) fn distinct(i: &str) -> IResult<&str, bool> {
+    map(tag_no_case("distinct"), |_| true)(i)
+}
+
+pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
+    alt((
+        map(tag_no_case("false"), |_| false),
+        map(tag_no_case("true"), |_| true),
+    ))(i)
+}
+
+pub(crate) fn sign(i: &str) -> IResult<&str, Sign> {
+    alt((map(char('+'), |_| Sign::POS), map(char('-'), |_| Sign::NEG)))(i)
+}
+
+pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
+    preceded(
+        alt((char('e'), char('E'))),
+        map_res(
+            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            |s: &str| s.parse::<i64>(),
+        ),
+    )(i)
+}
+
+pub(crate) fn recognize_spaqrql_float(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        opt(alt((char('+'), char('-')))),
+        alt((
+            map(pair(digit1, opt(pair(char('.'), opt(digit1)))), |_| ()),
+            map(tuple((char('.'), digit1)), |_| ()),
+        )),
+    ))(i)
+}
+
+pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
+    match recognize_spaqrql_float(input) {
+        Err(e) => Err(e),
+        Ok((i, s)) => match s.parse_to() {
+            Some(n) => Ok((i, n)),
+            None => Err(Err::Error(make_error(i, ErrorKind::Float))),
+        },
+    }
+}
+
+pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
+    pair(sparql_decimal, opt(exponent))(i)
+}
+
+pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
+    match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
+        Ok((i, o)) => {
+            // validate that no decimal/double is present
+            if i.chars()
+                .next()
+                .map_or_else(|| false, |c| ".eE".contains(c))
+            {
+                Err(Err::Error(make_error(i, ErrorKind::Float)))
+            } else if let Ok(v) = o.parse() {
+                Ok((i, v))
+            } else {
+                Err(Err::Error(make_error(i, ErrorKind::Digit)))
+            }
+        }
+        Err(e) => Err(e),
+    }
+}
+
+pub(crate) fn numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
+    alt((
+        map(sparql_int, NumericLiteral::Int),
+        map(sparql_double, NumericLiteral::Double),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_exponent() {
+        assert_eq!(exponent("e+25"), Ok(("", 25)));
+        assert_eq!(exponent("e25"), Ok(("", 25)));
+        assert_eq!(exponent("E-25"), Ok(("", -25)));
+    }
+
+    #[test]
+    fn is_decimal() {
+        assert_eq!(sparql_decimal("-.0"), Ok(("", 0.0)));
+        assert_eq!(sparql_decimal(".02"), Ok(("", 0.02)));
+        assert_eq!(sparql_decimal("1."), Ok(("", 1.0)));
+    }
+    #[test]
+    fn is_double() {
+        assert_eq!(sparql_double("-.0"), Ok(("", (0.0, None))));
+        assert_eq!(sparql_double(".02e10"), Ok(("", (0.02, Some(10)))));
+        assert_eq!(sparql_double("1.E-20"), Ok(("", (1.0, Some(-20)))));
+    }
+
+    #[test]
+    fn is_numeric_literal_int() {
+        let mut expected = numeric_literal("+11").unwrap();
+
+        if let NumericLiteral::Int(i) = expected.1 {
+            assert_eq!(11, i);
+        } else {
+            panic!("int literal mistaken for double {:?}", expected.1)
+        }
+
+        expected = numeric_literal("-5").unwrap();
+        if let NumericLiteral::Int(i) = expected.1 {
+            assert_eq!(-5, i);
+        } else {
+            panic!("int literal mistaken for double {:?}", expected.1)
+        }
+    }
+    #[test]
+    fn is_numeric_literal_double() {
+        let mut expected = numeric_literal("+11.").unwrap();
+        if let NumericLiteral::Double((_d, e)) = expected.1 {
+            assert!(e.is_none());
+        } else {
+            panic!("double literal mistaken for int {:?}", expected.1)
+        }
+
+        expected = numeric_literal("+.0e10").unwrap();
+        if let NumericLiteral::Double((_d, e)) = expected.1 {
+            assert_eq!(e, Some(10));
+        } else {
+            panic!("double literal mistaken for int {:?}", expected.1)
+        }
+    }
+
+    #[test]
+    fn is_string_literal_arg() {
+        assert_eq!(
+            string_literal_arg(r#""A""#),
+            Ok(("", StringLiteral::Simple("A".to_string())))
+        );
+    }
+
+}
diff --git a/src/operations.rs b/src/operations.rs
index 4d2aff3..de5a399 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,273 +1,273 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::separated_list,
-    sequence::{delimited, pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    clauses::{delete_clause, insert_clause, using_clause},
-    expression::{DefaultOrNamedIri, Iri},
-    graph::{
-        graph_or_default, graph_ref, graph_ref_all, group_graph_pattern, GraphOrDefault,
-        GraphRefAll, GroupGraphPattern,
-    },
-    literal::silent,
-    quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct LoadStatement {
-    pub iri: Iri,
-    pub silent: bool,
-    pub graph_ref: Option<Iri>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct ClearStatement {
-    pub silent: bool,
-    pub graph_ref_all: GraphRefAll,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct DropStatement {
-    pub silent: bool,
-    pub graph_ref_all: GraphRefAll,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct CreateStatement {
-    pub silent: bool,
-    pub graph_ref: Iri,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AddStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct MoveStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct CopyStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ModifyStatement {
-    pub iri: Option<Iri>,
-    pub delete_insert: DeleteInsert,
-    pub using_clauses: Vec<DefaultOrNamedIri>,
-    pub where_group_graph: GroupGraphPattern,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DeleteInsert {
-    DeleteInsert {
-        delete: Quads,
-        insert: Option<Quads>,
-    },
-    Insert(Quads),
-}
-
-pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
-    map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
-        |(_, (silent, from, to))| AddStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
-    map(
-        tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
-            terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
-            sp_enc1(tag_no_case("where")),
-            group_graph_pattern,
-        )),
-        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-            iri,
-            delete_insert,
-            using_clauses,
-            where_group_graph,
-        },
-    )(i)
-}
-
-pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
-    map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
-        |(_, (silent, from, to))| MoveStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
-    map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
-        |(_, (silent, from, to))| CopyStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
-    tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
-        graph_or_default,
-        preceded(sp_enc(tag_no_case("to")), graph_or_default),
-    ))(i)
-}
-
-pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
-    map(
-        tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
-            graph_ref,
-        )),
-        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
-    )(i)
-}
-
-pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
-    map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
-        |(_, (silent, graph_ref_all))| DropStatement {
-            silent,
-            graph_ref_all,
-        },
-    )(i)
-}
-
-pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
-    map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
-        |(_, (silent, graph_ref_all))| ClearStatement {
-            silent,
-            graph_ref_all,
-        },
-    )(i)
-}
-
-pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
-    pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
-        graph_ref_all,
-    )(i)
-}
-
-pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
-    map(
-        tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
-            iri,
-            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
-        )),
-        |(_, silent, iri, graph_ref)| LoadStatement {
-            iri,
-            silent,
-            graph_ref,
-        },
-    )(i)
-}
-
-pub(crate) fn insert_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", preceded_tag1("data", quad_data))(i)
-}
-
-pub(crate) fn delete_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("data", quad_data))(i)
-}
-
-pub(crate) fn delete_where_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("where", quad_data))(i)
-}
-
-pub(crate) fn delete_insert(i: &str) -> IResult<&str, DeleteInsert> {
-    alt((
-        map(
-            pair(delete_clause, opt(preceded(sp, insert_clause))),
-            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },
-        ),
-        map(insert_clause, DeleteInsert::Insert),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::PrefixedName;
-
-    #[test]
-    fn is_drop_stmt() {
-        assert_eq!(
-            drop_stmt("drop  graph :uri1"),
-            Ok((
-                "",
-                DropStatement::new(
-                    false,
-                    GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: None,
-                        pn_local: "uri1".to_string(),
-                    },))
-                )
-            ))
-        );
-
-        assert_eq!(
-            drop_stmt("drop silent graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DropStatement::new(
-                    true,
-                    GraphRefAll::GraphRef(Iri::Iri(
-                        "http://example.org/foaf/aliceFoaf".to_string()
-                    ))
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_create_stmt() {
-        assert_eq!(
-            create_stmt("create silent graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                CreateStatement::new(
-                    true,
-                    Iri::Iri("http://example.org/foaf/aliceFoaf".to_string())
-                )
-            ))
-        );
-
-        assert_eq!(
-            create_stmt("create   graph   :uri1"),
-            Ok((
-                "",
-                CreateStatement::new(
-                    false,
-                    Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: None,
-                        pn_local: "uri1".to_string(),
-                    },)
-                )
-            ))
-        )
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::separated_list,
+    sequence::{delimited, pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    clauses::{delete_clause, insert_clause, using_clause},
+    expression::{DefaultOrNamedIri, Iri},
+    graph::{
+        graph_or_default, graph_ref, graph_ref_all, group_graph_pattern, GraphOrDefault,
+        GraphRefAll, GroupGraphPattern,
+    },
+    literal::silent,
+    quads::{quad_data, Quads},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct LoadStatement {
+    pub iri: Iri,
+    pub silent: bool,
+    pub graph_ref: Option<Iri>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct ClearStatement {
+    pub silent: bool,
+    pub graph_ref_all: GraphRefAll,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct DropStatement {
+    pub silent: bool,
+    pub graph_ref_all: GraphRefAll,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct CreateStatement {
+    pub silent: bool,
+    pub graph_ref: Iri,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AddStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct MoveStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct CopyStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ModifyStatement {
+    pub iri: Option<Iri>,
+    pub delete_insert: DeleteInsert,
+    pub using_clauses: Vec<DefaultOrNamedIri>,
+    pub where_group_graph: GroupGraphPattern,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DeleteInsert {
+    DeleteInsert {
+        delete: Quads,
+        insert: Option<Quads>,
+    },
+    Insert(Quads),
+}
+
+pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
+    map(
+        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        |(_, (silent, from, to))| AddStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
+    map(
+        tuple((
+            opt(delimited(tag_no_case("where"), iri, sp1)),
+            terminated(delete_insert, sp),
+            separated_list(sp, using_clause),
+            sp_enc1(tag_no_case("where")),
+            group_graph_pattern,
+        )),
+        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
+            iri,
+            delete_insert,
+            using_clauses,
+            where_group_graph,
+        },
+    )(i)
+}
+
+pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
+    map(
+        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        |(_, (silent, from, to))| MoveStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
+    map(
+        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        |(_, (silent, from, to))| CopyStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
+    tuple((
+        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        graph_or_default,
+        preceded(sp_enc(tag_no_case("to")), graph_or_default),
+    ))(i)
+}
+
+pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
+    map(
+        tuple((
+            pair(tag_no_case("create"), sp1),
+            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            graph_ref,
+        )),
+        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
+    )(i)
+}
+
+pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
+    map(
+        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        |(_, (silent, graph_ref_all))| DropStatement {
+            silent,
+            graph_ref_all,
+        },
+    )(i)
+}
+
+pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
+    map(
+        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        |(_, (silent, graph_ref_all))| ClearStatement {
+            silent,
+            graph_ref_all,
+        },
+    )(i)
+}
+
+pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
+    pair(
+        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        graph_ref_all,
+    )(i)
+}
+
+pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
+    map(
+        tuple((
+            pair(tag_no_case("load"), sp1),
+            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            iri,
+            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
+        )),
+        |(_, silent, iri, graph_ref)| LoadStatement {
+            iri,
+            silent,
+            graph_ref,
+        },
+    )(i)
+}
+
+pub(crate) fn insert_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("insert", preceded_tag1("data", quad_data))(i)
+}
+
+pub(crate) fn delete_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("delete", preceded_tag1("data", quad_data))(i)
+}
+
+pub(crate) fn delete_where_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("delete", preceded_tag1("where", quad_data))(i)
+}
+
+pub(crate) fn delete_insert(i: &str) -> IResult<&str, DeleteInsert> {
+    alt((
+        map(
+            pair(delete_clause, opt(preceded(sp, insert_clause))),
+            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },
+        ),
+        map(insert_clause, DeleteInsert::Insert),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::PrefixedName;
+
+    #[test]
+    fn is_drop_stmt() {
+        assert_eq!(
+            drop_stmt("drop  graph :uri1"),
+            Ok((
+                "",
+                DropStatement::new(
+                    false,
+                    GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: None,
+                        pn_local: "uri1".to_string(),
+                    },))
+                )
+            ))
+        );
+
+        assert_eq!(
+            drop_stmt("drop silent graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DropStatement::new(
+                    true,
+                    GraphRefAll::GraphRef(Iri::Iri(
+                        "http://example.org/foaf/aliceFoaf".to_string()
+                    ))
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_create_stmt() {
+        assert_eq!(
+            create_stmt("create silent graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                CreateStatement::new(
+                    true,
+                    Iri::Iri("http://example.org/foaf/aliceFoaf".to_string())
+                )
+            ))
+        );
+
+        assert_eq!(
+            create_stmt("create   graph   :uri1"),
+            Ok((
+                "",
+                CreateStatement::new(
+                    false,
+                    Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: None,
+                        pn_local: "uri1".to_string(),
+                    },)
+                )
+            ))
+        )
+    }
+}
diff --git a/src/order.rs b/src/order.rs
index bed59ae..fa250b4 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,55 +1,54 @@
-use nom::branch::alt;
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::map;
-use nom::sequence::separated_pair;
-use nom::IResult;
-
-use crate::expression::functions::{constraint, Constraint};
-use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::sp1;
-use crate::var::{var, Var};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Order {
-    Asc,
-    Desc,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct OrderExpression {
-    pub order: Order,
-    pub expression: Expression,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum OrderCondition {
-    Order(Box<OrderExpression>),
-    Constraint(Box<Constraint>),
-    Var(Var),
-}
-
-pub(crate) fn order(i: &str) -> IResult<&str, Order> {
-    alt((
-        map(tag_no_case("asc"), |_| Order::Asc),
-        map(tag_no_case("desc"), |_| Order::Desc),
-    ))(i)
-}
-
-pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
-    map(
-        separated_pair(order, sp1, bracketted_expression),
-        |(order, expression)| OrderExpression { order, expression },
-    )(i)
-}
-
-pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
-    alt((
-        map(order_expression, |order| {
-            OrderCondition::Order(Box::new(order))
-        }),
-        map(constraint, |constraint| {
-            OrderCondition::Constraint(Box::new(constraint))
-        }),
-        map(var, OrderCondition::Var),
-    ))(i)
-}
+use nom::branch::alt;
+use nom::combinator::map;
+use nom::sequence::separated_pair;
+use nom::IResult;
+
+use crate::expression::functions::{constraint, Constraint};
+use crate::expression::{bracketted_expression, Expression};
+use crate::terminals::{sp1, tag_no_case};
+use crate::var::{var, Var};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Order {
+    Asc,
+    Desc,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct OrderExpression {
+    pub order: Order,
+    pub expression: Expression,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum OrderCondition {
+    Order(Box<OrderExpression>),
+    Constraint(Box<Constraint>),
+    Var(Var),
+}
+
+pub(crate) fn order(i: &str) -> IResult<&str, Order> {
+    alt((
+        map(tag_no_case("asc"), |_| Order::Asc),
+        map(tag_no_case("desc"), |_| Order::Desc),
+    ))(i)
+}
+
+pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
+    map(
+        separated_pair(order, sp1, bracketted_expression),
+        |(order, expression)| OrderExpression { order, expression },
+    )(i)
+}
+
+pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
+    alt((
+        map(order_expression, |order| {
+            OrderCondition::Order(Box::new(order))
+        }),
+        map(constraint, |constraint| {
+            OrderCondition::Constraint(Box::new(constraint))
+        }),
+        map(var, OrderCondition::Var),
+    ))(i)
+}
diff --git a/src/path.rs b/src/path.rs
index 437a410..516e34c 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,302 +1,302 @@
-use std::str::FromStr;
-
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
-use nom::error::ErrorKind;
-use nom::multi::{many0, many1, separated_nonempty_list};
-use nom::sequence::{delimited, pair, separated_pair, tuple};
-use nom::Err;
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    sequence::{preceded, terminated},
-    IResult, Needed,
-};
-
-use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
-use crate::expression::Iri;
-use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
-use crate::triple::object_list;
-use crate::var::{var, var_or_term, Var, VarOrTerm};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphNodePath {
-    VarOrTerm(VarOrTerm),
-    TriplesNodePath(TriplesNodePath),
-}
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesNodePath {
-    CollectionPath(Vec<GraphNodePath>),
-    BlankNodePropertyListPath(PropertyListPath),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesSameSubjectPath {
-    Term {
-        var_or_term: VarOrTerm,
-        property_list: PropertyListPath,
-    },
-    Node {
-        triples_node: TriplesNodePath,
-        property_list: Option<PropertyListPath>,
-    },
-}
-
-/// Property paths allow traversing the graph using regex-like patterns of predicates.
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PropertyListPath {
-    pub verb_path_or_simple: VerbPathOrSimple,
-    pub object_list_path: ObjectListPath,
-    pub entries: Vec<PropertyListPathEntry>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PropertyListPathEntry {
-    pub verb_path_or_simple: VerbPathOrSimple,
-    pub object_list: ObjectList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ObjectListPath(pub Vec<GraphNodePath>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VerbPathOrSimple {
-    Path(Path),
-    Simple(Var),
-}
-
-pub(crate) type Path = PathAlternative;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathAlternative(pub Vec<PathSequence>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathSequence(pub Vec<PathEltOrInverse>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathEltOrInverse {
-    PathElt(PathElt),
-    Inverse(PathElt),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathElt {
-    pub path_primary: PathPrimary,
-    pub path_mod: Option<PathMod>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathMod {
-    QuestionMark,
-    Asterisk,
-    Plus,
-}
-
-impl FromStr for PathMod {
-    type Err = ();
-
-    fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s {
-            "?" => Ok(PathMod::QuestionMark),
-            "*" => Ok(PathMod::Asterisk),
-            "+" => Ok(PathMod::Plus),
-            _ => Err(()),
-        }
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathPrimary {
-    Iri(Iri),
-    A,
-    PathNegatedPropertySet(PathNegatedPropertySet),
-    Path(Path),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathOneInPropertySet(pub IriOrAOrCaret);
-
-pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
-    alt((
-        map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
-            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
-                var_or_term,
-                property_list,
-            },
-        ),
-        map(
-            sp_sep(triples_node_path, property_list_path),
-            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
-                triples_node,
-                property_list,
-            },
-        ),
-    ))(i)
-}
-
-pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyListPath> {
-    delimited(
-        terminated(tag("["), sp),
-        property_list_path_not_empty,
-        preceded(sp, tag("]")),
-    )(i)
-}
-
-pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
-    map(
-        tuple((
-            terminated(verb_path_or_simple, sp1),
-            object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
-        )),
-        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
-            verb_path_or_simple,
-            object_list_path,
-            entries,
-        },
-    )(i)
-}
-
-pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {
-    opt(property_list_path_not_empty)(i)
-}
-
-pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
-    alt((
-        map(path_alternative, VerbPathOrSimple::Path),
-        map(var, VerbPathOrSimple::Simple),
-    ))(i)
-}
-
-pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
-    map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
-        ObjectListPath,
-    )(i)
-}
-
-pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
-    map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
-        |(verb_path_or_simple, object_list)| PropertyListPathEntry {
-            verb_path_or_simple,
-            object_list,
-        },
-    )(i)
-}
-
-pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
-    alt((
-        map(
-            blank_node_property_list_path,
-            TriplesNodePath::BlankNodePropertyListPath,
-        ),
-        map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
-            TriplesNodePath::CollectionPath,
-        ),
-    ))(i)
-}
-
-pub(crate) fn graph_node_path(i: &str) -> IResult<&str, GraphNodePath> {
-    alt((
-        map(var_or_term, GraphNodePath::VarOrTerm),
-        map(triples_node_path, GraphNodePath::TriplesNodePath),
-    ))(i)
-}
-
-pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
-    map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
-        PathAlternative,
-    )(i)
-}
-
-pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
-    map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
-        PathSequence,
-    )(i)
-}
-
-pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
-    alt((
-        map(iri, PathPrimary::Iri),
-        map(tag("a"), |_| PathPrimary::A),
-        map(
-            preceded(tag("!"), path_negated_property_set),
-            PathPrimary::PathNegatedPropertySet,
-        ),
-        map(
-            delimited(tag("("), path_alternative, tag(")")),
-            PathPrimary::Path,
-        ),
-    ))(i)
-}
-
-pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
-    alt((
-        map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
-    ))(i)
-}
-
-pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
-    map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
-        |(path_primary, path_mod)| PathElt {
-            path_primary,
-            path_mod,
-        },
-    )(i)
-}
-
-pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
-    map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
-        PathNegatedPropertySet,
-    )(i)
-}
-
-pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
-    map(iri_or_a_or_caret, PathOneInPropertySet)(i)
-}
-
-pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
-    }
-}
-
-#[inline]
-pub(crate) fn is_path_mod(c: char) -> bool {
-    "?*+".contains(c)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_path_mode() {
-        assert_eq!(path_mod("*"), Ok(("", PathMod::Asterisk)));
-        assert_eq!(path_mod("+"), Ok(("", PathMod::Plus)));
-        assert_eq!(path_mod("?"), Ok(("", PathMod::QuestionMark)));
-    }
-
-}
+use std::str::FromStr;
+
+use nom::character::complete::char;
+use nom::combinator::{map, opt};
+use nom::error::ErrorKind;
+use nom::multi::{many0, many1, separated_nonempty_list};
+use nom::sequence::{delimited, pair, separated_pair, tuple};
+use nom::Err;
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    sequence::{preceded, terminated},
+    IResult, Needed,
+};
+
+use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
+use crate::expression::Iri;
+use crate::node::ObjectList;
+use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::triple::object_list;
+use crate::var::{var, var_or_term, Var, VarOrTerm};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphNodePath {
+    VarOrTerm(VarOrTerm),
+    TriplesNodePath(TriplesNodePath),
+}
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesNodePath {
+    CollectionPath(Vec<GraphNodePath>),
+    BlankNodePropertyListPath(PropertyListPath),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesSameSubjectPath {
+    Term {
+        var_or_term: VarOrTerm,
+        property_list: PropertyListPath,
+    },
+    Node {
+        triples_node: TriplesNodePath,
+        property_list: Option<PropertyListPath>,
+    },
+}
+
+/// Property paths allow traversing the graph using regex-like patterns of predicates.
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PropertyListPath {
+    pub verb_path_or_simple: VerbPathOrSimple,
+    pub object_list_path: ObjectListPath,
+    pub entries: Vec<PropertyListPathEntry>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PropertyListPathEntry {
+    pub verb_path_or_simple: VerbPathOrSimple,
+    pub object_list: ObjectList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ObjectListPath(pub Vec<GraphNodePath>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VerbPathOrSimple {
+    Path(Path),
+    Simple(Var),
+}
+
+pub(crate) type Path = PathAlternative;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathAlternative(pub Vec<PathSequence>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathSequence(pub Vec<PathEltOrInverse>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathEltOrInverse {
+    PathElt(PathElt),
+    Inverse(PathElt),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathElt {
+    pub path_primary: PathPrimary,
+    pub path_mod: Option<PathMod>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathMod {
+    QuestionMark,
+    Asterisk,
+    Plus,
+}
+
+impl FromStr for PathMod {
+    type Err = ();
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "?" => Ok(PathMod::QuestionMark),
+            "*" => Ok(PathMod::Asterisk),
+            "+" => Ok(PathMod::Plus),
+            _ => Err(()),
+        }
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathPrimary {
+    Iri(Iri),
+    A,
+    PathNegatedPropertySet(PathNegatedPropertySet),
+    Path(Path),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathOneInPropertySet(pub IriOrAOrCaret);
+
+pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
+    alt((
+        map(
+            sp_sep1(var_or_term, property_list_path_not_empty),
+            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
+                var_or_term,
+                property_list,
+            },
+        ),
+        map(
+            sp_sep(triples_node_path, property_list_path),
+            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
+                triples_node,
+                property_list,
+            },
+        ),
+    ))(i)
+}
+
+pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyListPath> {
+    delimited(
+        terminated(tag("["), sp),
+        property_list_path_not_empty,
+        preceded(sp, tag("]")),
+    )(i)
+}
+
+pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
+    map(
+        tuple((
+            terminated(verb_path_or_simple, sp1),
+            object_list_path,
+            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+        )),
+        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
+            verb_path_or_simple,
+            object_list_path,
+            entries,
+        },
+    )(i)
+}
+
+pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {
+    opt(property_list_path_not_empty)(i)
+}
+
+pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
+    alt((
+        map(path_alternative, VerbPathOrSimple::Path),
+        map(var, VerbPathOrSimple::Simple),
+    ))(i)
+}
+
+pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
+    map(
+        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        ObjectListPath,
+    )(i)
+}
+
+pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
+    map(
+        separated_pair(verb_path_or_simple, sp1, object_list),
+        |(verb_path_or_simple, object_list)| PropertyListPathEntry {
+            verb_path_or_simple,
+            object_list,
+        },
+    )(i)
+}
+
+pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
+    alt((
+        map(
+            blank_node_property_list_path,
+            TriplesNodePath::BlankNodePropertyListPath,
+        ),
+        map(
+            delimited(tag("("), many1(graph_node_path), tag(")")),
+            TriplesNodePath::CollectionPath,
+        ),
+    ))(i)
+}
+
+pub(crate) fn graph_node_path(i: &str) -> IResult<&str, GraphNodePath> {
+    alt((
+        map(var_or_term, GraphNodePath::VarOrTerm),
+        map(triples_node_path, GraphNodePath::TriplesNodePath),
+    ))(i)
+}
+
+pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
+    map(
+        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
+        PathAlternative,
+    )(i)
+}
+
+pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
+    map(
+        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        PathSequence,
+    )(i)
+}
+
+pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
+    alt((
+        map(iri, PathPrimary::Iri),
+        map(tag("a"), |_| PathPrimary::A),
+        map(
+            preceded(tag("!"), path_negated_property_set),
+            PathPrimary::PathNegatedPropertySet,
+        ),
+        map(
+            delimited(tag("("), path_alternative, tag(")")),
+            PathPrimary::Path,
+        ),
+    ))(i)
+}
+
+pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
+    alt((
+        map(path_elt, PathEltOrInverse::PathElt),
+        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+    ))(i)
+}
+
+pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
+    map(
+        pair(path_primary, opt(preceded(sp1, path_mod))),
+        |(path_primary, path_mod)| PathElt {
+            path_primary,
+            path_mod,
+        },
+    )(i)
+}
+
+pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
+    map(
+        delimited(
+            terminated(tag("("), sp),
+            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+            preceded(sp, tag(")")),
+        ),
+        PathNegatedPropertySet,
+    )(i)
+}
+
+pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
+    map(iri_or_a_or_caret, PathOneInPropertySet)(i)
+}
+
+pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
+    if i.is_empty() {
+        Err(Err::Incomplete(Needed::Size(1)))
+    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
+        Ok((&i[1..], path))
+    } else {
+        Err(Err::Error((i, ErrorKind::Char)))
+    }
+}
+
+#[inline]
+pub(crate) fn is_path_mod(c: char) -> bool {
+    "?*+".contains(c)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_path_mode() {
+        assert_eq!(path_mod("*"), Ok(("", PathMod::Asterisk)));
+        assert_eq!(path_mod("+"), Ok(("", PathMod::Plus)));
+        assert_eq!(path_mod("?"), Ok(("", PathMod::QuestionMark)));
+    }
+
+}
diff --git a/src/quads.rs b/src/quads.rs
index cf30fff..ee7342b 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,202 +1,202 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::complete::char,
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::{many0, many1, separated_nonempty_list},
-    sequence::{delimited, pair, separated_pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    expression::ArgList,
-    graph::graph_node,
-    node::{Collection, ObjectList, PropertyList, TriplesNode},
-    path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
-    triple::{triples_template, TriplesTemplate},
-    var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct Quads {
-    pub first_triple: Option<TriplesTemplate>,
-    pub entries: Vec<QuadsEntry>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct QuadsEntry {
-    pub quads_not_triples: QuadsNotTriples,
-    pub triples_template: Option<TriplesTemplate>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct QuadsNotTriples {
-    pub var_or_iri: VarOrIri,
-    pub triples_template: Option<TriplesTemplate>,
-}
-
-pub(crate) fn quads_pattern(i: &str) -> IResult<&str, Quads> {
-    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
-}
-
-pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
-    quads_pattern(i)
-}
-
-pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
-    map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
-        |(first_triples, entries)| Quads {
-            first_triple: first_triples,
-            entries,
-        },
-    )(i)
-}
-
-pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
-    map(
-        tuple((
-            tag_no_case("graph"),
-            sp_enc(var_or_iri),
-            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
-        )),
-        |(_, var_or_iri, triples_template)| QuadsNotTriples {
-            var_or_iri,
-            triples_template,
-        },
-    )(i)
-}
-
-pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
-    map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
-        |(quads_not_triples, triples_template)| QuadsEntry {
-            quads_not_triples,
-            triples_template,
-        },
-    )(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::{Iri, PrefixedName};
-    use crate::graph::{GraphNode, GraphTerm};
-    use crate::triple::TriplesSameSubject;
-    use crate::var::{Var, Verb};
-
-    #[test]
-    fn is_quads_not_triples() {
-        let _nil = TriplesSameSubject::Node {
-            triples_node: TriplesNode::Collection(Collection(vec![
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-            ])),
-            property_list: None,
-        };
-
-        assert_eq!(
-            quads_not_triples("graph ?name {}"),
-            Ok((
-                "",
-                QuadsNotTriples::new(VarOrIri::Var(Var::QMark("name".to_string())), None)
-            ))
-        );
-
-        assert_eq!(
-            quads_not_triples("graph ?name { (true ()) }"),
-            Ok((
-                "",
-                QuadsNotTriples::new(
-                    VarOrIri::Var(Var::QMark("name".to_string())),
-                    Some(vec![TriplesSameSubject::Node {
-                        triples_node: TriplesNode::Collection(Collection(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ])),
-                        property_list: None,
-                    }])
-                )
-            ))
-        );
-
-        assert_eq!(
-            quads_not_triples("GRAPH ?g { ?x foaf:mbox ?mbox }"),
-            Ok((
-                "",
-                QuadsNotTriples::new(
-                    VarOrIri::Var(Var::QMark("g".to_string())),
-                    Some(vec![TriplesSameSubject::Term {
-                        var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
-                        property_list: PropertyList(vec![VerbList::new(
-                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                PrefixedName::PnameLN {
-                                    pn_prefix: Some("foaf".to_string()),
-                                    pn_local: "mbox".to_string(),
-                                }
-                            ))),
-                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
-                                "mbox".to_string(),
-                            )))]),
-                        )]),
-                    }])
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_quads_pattern() {
-        assert_eq!(
-            quads_pattern(
-                r#"{
-   ?g dc:publisher ?who .
-   GRAPH ?g { ?x foaf:mbox ?mbox }
-}"#
-            ),
-            Ok((
-                "",
-                Quads::new(
-                    Some(vec![TriplesSameSubject::Term {
-                        var_or_term: VarOrTerm::Var(Var::QMark("g".to_string())),
-                        property_list: PropertyList(vec![VerbList::new(
-                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                PrefixedName::PnameLN {
-                                    pn_prefix: Some("dc".to_string()),
-                                    pn_local: "publisher".to_string(),
-                                }
-                            ))),
-                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
-                                "who".to_string(),
-                            )))]),
-                        )]),
-                    }]),
-                    vec![QuadsEntry::new(
-                        QuadsNotTriples::new(
-                            VarOrIri::Var(Var::QMark("g".to_string())),
-                            Some(vec![TriplesSameSubject::Term {
-                                var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
-                                property_list: PropertyList(vec![VerbList::new(
-                                    Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                        PrefixedName::PnameLN {
-                                            pn_prefix: Some("foaf".to_string()),
-                                            pn_local: "mbox".to_string(),
-                                        }
-                                    ))),
-                                    ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(
-                                        Var::QMark("mbox".to_string(),)
-                                    ))]),
-                                )]),
-                            }])
-                        ),
-                        None
-                    )]
-                )
-            ))
-        );
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::char,
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::{many0, many1, separated_nonempty_list},
+    sequence::{delimited, pair, separated_pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    expression::ArgList,
+    graph::graph_node,
+    node::{Collection, ObjectList, PropertyList, TriplesNode},
+    path::{triples_same_subject_path, TriplesSameSubjectPath},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
+    triple::{triples_template, TriplesTemplate},
+    var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct Quads {
+    pub first_triple: Option<TriplesTemplate>,
+    pub entries: Vec<QuadsEntry>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct QuadsEntry {
+    pub quads_not_triples: QuadsNotTriples,
+    pub triples_template: Option<TriplesTemplate>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct QuadsNotTriples {
+    pub var_or_iri: VarOrIri,
+    pub triples_template: Option<TriplesTemplate>,
+}
+
+pub(crate) fn quads_pattern(i: &str) -> IResult<&str, Quads> {
+    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
+}
+
+pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
+    quads_pattern(i)
+}
+
+pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
+    map(
+        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        |(first_triples, entries)| Quads {
+            first_triple: first_triples,
+            entries,
+        },
+    )(i)
+}
+
+pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
+    map(
+        tuple((
+            tag_no_case("graph"),
+            sp_enc(var_or_iri),
+            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
+        )),
+        |(_, var_or_iri, triples_template)| QuadsNotTriples {
+            var_or_iri,
+            triples_template,
+        },
+    )(i)
+}
+
+pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
+    map(
+        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        |(quads_not_triples, triples_template)| QuadsEntry {
+            quads_not_triples,
+            triples_template,
+        },
+    )(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::{Iri, PrefixedName};
+    use crate::graph::{GraphNode, GraphTerm};
+    use crate::triple::TriplesSameSubject;
+    use crate::var::{Var, Verb};
+
+    #[test]
+    fn is_quads_not_triples() {
+        let _nil = TriplesSameSubject::Node {
+            triples_node: TriplesNode::Collection(Collection(vec![
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+            ])),
+            property_list: None,
+        };
+
+        assert_eq!(
+            quads_not_triples("graph ?name {}"),
+            Ok((
+                "",
+                QuadsNotTriples::new(VarOrIri::Var(Var::QMark("name".to_string())), None)
+            ))
+        );
+
+        assert_eq!(
+            quads_not_triples("graph ?name { (true ()) }"),
+            Ok((
+                "",
+                QuadsNotTriples::new(
+                    VarOrIri::Var(Var::QMark("name".to_string())),
+                    Some(vec![TriplesSameSubject::Node {
+                        triples_node: TriplesNode::Collection(Collection(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ])),
+                        property_list: None,
+                    }])
+                )
+            ))
+        );
+
+        assert_eq!(
+            quads_not_triples("GRAPH ?g { ?x foaf:mbox ?mbox }"),
+            Ok((
+                "",
+                QuadsNotTriples::new(
+                    VarOrIri::Var(Var::QMark("g".to_string())),
+                    Some(vec![TriplesSameSubject::Term {
+                        var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
+                        property_list: PropertyList(vec![VerbList::new(
+                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                PrefixedName::PnameLN {
+                                    pn_prefix: Some("foaf".to_string()),
+                                    pn_local: "mbox".to_string(),
+                                }
+                            ))),
+                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
+                                "mbox".to_string(),
+                            )))]),
+                        )]),
+                    }])
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_quads_pattern() {
+        assert_eq!(
+            quads_pattern(
+                r#"{
+   ?g dc:publisher ?who .
+   GRAPH ?g { ?x foaf:mbox ?mbox }
+}"#
+            ),
+            Ok((
+                "",
+                Quads::new(
+                    Some(vec![TriplesSameSubject::Term {
+                        var_or_term: VarOrTerm::Var(Var::QMark("g".to_string())),
+                        property_list: PropertyList(vec![VerbList::new(
+                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                PrefixedName::PnameLN {
+                                    pn_prefix: Some("dc".to_string()),
+                                    pn_local: "publisher".to_string(),
+                                }
+                            ))),
+                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
+                                "who".to_string(),
+                            )))]),
+                        )]),
+                    }]),
+                    vec![QuadsEntry::new(
+                        QuadsNotTriples::new(
+                            VarOrIri::Var(Var::QMark("g".to_string())),
+                            Some(vec![TriplesSameSubject::Term {
+                                var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
+                                property_list: PropertyList(vec![VerbList::new(
+                                    Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                        PrefixedName::PnameLN {
+                                            pn_prefix: Some("foaf".to_string()),
+                                            pn_local: "mbox".to_string(),
+                                        }
+                                    ))),
+                                    ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(
+                                        Var::QMark("mbox".to_string(),)
+                                    ))]),
+                                )]),
+                            }])
+                        ),
+                        None
+                    )]
+                )
+            ))
+        );
+    }
+}
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 2802af4..9a3f6ba 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,32 +1,31 @@
-use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataSetClause};
-use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1};
-use nom::bytes::complete::tag_no_case;
-use nom::combinator::map;
-use nom::multi::separated_list;
-use nom::sequence::{terminated, tuple};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AskQuery {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
-    map(
-        tuple((
-            terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
-            terminated(where_clause, sp),
-            solution_modifier,
-        )),
-        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
+use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataSetClause};
+use crate::graph::GroupGraphPattern;
+use crate::terminals::{sp, sp1, tag_no_case};
+use nom::combinator::map;
+use nom::multi::separated_list;
+use nom::sequence::{terminated, tuple};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AskQuery {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
+    map(
+        tuple((
+            terminated(tag_no_case("ask"), sp1),
+            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(where_clause, sp),
+            solution_modifier,
+        )),
+        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 1d60b30..a53decc 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -1,98 +1,97 @@
-use crate::{
-    clauses::{solution_modifier, where_clause, SolutionModifier},
-    data::{data_set_clause, DataSetClause},
-    graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1},
-    triple::TriplesSameSubject,
-    triple::{triples_same_subject, triples_template, TriplesTemplate},
-    var::{var_or_iri, VarOrIri},
-};
-use nom::{
-    branch::alt,
-    bytes::complete::tag_no_case,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::many1,
-    multi::separated_list,
-    sequence::{delimited, preceded},
-    sequence::{terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ConstructQuery {
-    SubConstruct(SubConstruct),
-    SubTriples(SubTriples),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubConstruct {
-    pub construct_template: ConstructTemplate,
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubTriples {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub triples_template: Option<TriplesTemplate>,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
-
-pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
-    map(
-        tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
-            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
-            preceded(sp, solution_modifier),
-        )),
-        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {
-            dataset_clauses,
-            triples_template,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
-    map(
-        tuple((
-            terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
-            terminated(where_clause, sp),
-            solution_modifier,
-        )),
-        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
-            construct_template,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub fn construct_query(i: &str) -> IResult<&str, ConstructQuery> {
-    preceded_tag1(
-        "construct",
-        alt((
-            map(sub_construct, ConstructQuery::SubConstruct),
-            map(sub_triples, ConstructQuery::SubTriples),
-        )),
-    )(i)
-}
-
-pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
-    map(
-        delimited(
-            terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
-            preceded(sp, char('}')),
-        ),
-        ConstructTemplate,
-    )(i)
-}
+use crate::{
+    clauses::{solution_modifier, where_clause, SolutionModifier},
+    data::{data_set_clause, DataSetClause},
+    graph::GroupGraphPattern,
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    triple::TriplesSameSubject,
+    triple::{triples_same_subject, triples_template, TriplesTemplate},
+    var::{var_or_iri, VarOrIri},
+};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::many1,
+    multi::separated_list,
+    sequence::{delimited, preceded},
+    sequence::{terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ConstructQuery {
+    SubConstruct(SubConstruct),
+    SubTriples(SubTriples),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubConstruct {
+    pub construct_template: ConstructTemplate,
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubTriples {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub triples_template: Option<TriplesTemplate>,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
+
+pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
+    map(
+        tuple((
+            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(tag_no_case("where"), sp1),
+            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
+            preceded(sp, solution_modifier),
+        )),
+        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {
+            dataset_clauses,
+            triples_template,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
+    map(
+        tuple((
+            terminated(construct_template, sp1),
+            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(where_clause, sp),
+            solution_modifier,
+        )),
+        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
+            construct_template,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub fn construct_query(i: &str) -> IResult<&str, ConstructQuery> {
+    preceded_tag1(
+        "construct",
+        alt((
+            map(sub_construct, ConstructQuery::SubConstruct),
+            map(sub_triples, ConstructQuery::SubTriples),
+        )),
+    )(i)
+}
+
+pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
+    map(
+        delimited(
+            terminated(char('{'), sp),
+            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            preceded(sp, char('}')),
+        ),
+        ConstructTemplate,
+    )(i)
+}
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 88bf066..facb5a5 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,40 +1,39 @@
-use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataSetClause};
-use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1};
-use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
-use nom::{
-    branch::alt,
-    bytes::complete::tag_no_case,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct DescribeQuery {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub var_or_iris_or_all: VarOrIrisOrAll,
-    pub where_clause: Option<GroupGraphPattern>,
-    pub solution_modifier: SolutionModifier,
-}
-
-pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
-    map(
-        tuple((
-            tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
-            opt(terminated(where_clause, sp)),
-            solution_modifier,
-        )),
-        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
-            var_or_iris_or_all,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
+use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataSetClause};
+use crate::graph::GroupGraphPattern;
+use crate::terminals::{sp, sp_enc1, tag_no_case};
+use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::{separated_list, separated_nonempty_list},
+    sequence::{terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct DescribeQuery {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub var_or_iris_or_all: VarOrIrisOrAll,
+    pub where_clause: Option<GroupGraphPattern>,
+    pub solution_modifier: SolutionModifier,
+}
+
+pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
+    map(
+        tuple((
+            tag_no_case("describe"),
+            sp_enc1(var_or_iris_or_all),
+            terminated(separated_list(sp, data_set_clause), sp),
+            opt(terminated(where_clause, sp)),
+            solution_modifier,
+        )),
+        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
+            var_or_iris_or_all,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
diff --git a/src/query/select.rs b/src/query/select.rs
index f9e1014..d83fc2e 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,113 +1,113 @@
-use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
-use nom::character::complete::{anychar, char, digit1, none_of, one_of};
-use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
-use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
-use nom::IResult;
-
-use crate::clauses::{solution_modifier, values_clause, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataBlock, DataSetClause};
-use crate::expression::{
-    expression, expression_as_var, Expression, ExpressionAsVar, Iri, IriOrFunction, PrefixedName,
-};
-use crate::graph::GroupGraphPattern;
-
-use crate::terminals::{sp, sp1, sp_enc};
-use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SelectQuery {
-    pub select_clause: SelectClause,
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubSelect {
-    pub select_clause: SelectClause,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-    pub values_clause: Option<DataBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SelectClause {
-    pub modifier: Option<SelectModifier>,
-    pub vars: SelectVars,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum SelectVars {
-    VarOrExpressionAsVar(Vec<VarOrExpressionAsVar>),
-    All,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum SelectModifier {
-    Distinct,
-    Reduced,
-}
-
-pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
-    map(
-        tuple((
-            terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
-            sp_enc(where_clause),
-            solution_modifier,
-        )),
-        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
-            select_clause,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
-    map(
-        tuple((
-            select_clause,
-            sp_enc(where_clause),
-            solution_modifier,
-            preceded(sp, values_clause),
-        )),
-        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
-            select_clause,
-            where_clause,
-            solution_modifier,
-            values_clause,
-        },
-    )(i)
-}
-
-pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
-    map(
-        tuple((
-            tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
-        )),
-        |(_, modifier, vars)| SelectClause { modifier, vars },
-    )(i)
-}
-
-pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
-    alt((
-        map(char('*'), |_| SelectVars::All),
-        map(
-            many1(var_or_expression_as_var),
-            SelectVars::VarOrExpressionAsVar,
-        ),
-    ))(i)
-}
-
-pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
-    alt((
-        map(tag_no_case("distinct"), |_| SelectModifier::Distinct),
-        map(tag_no_case("reduced"), |_| SelectModifier::Reduced),
-    ))(i)
-}
+use nom::branch::alt;
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
+use nom::character::complete::{anychar, char, digit1, none_of, one_of};
+use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
+use nom::multi::{many1, separated_list};
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
+use nom::IResult;
+
+use crate::clauses::{solution_modifier, values_clause, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataBlock, DataSetClause};
+use crate::expression::{
+    expression, expression_as_var, Expression, ExpressionAsVar, Iri, IriOrFunction, PrefixedName,
+};
+use crate::graph::GroupGraphPattern;
+
+use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
+use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SelectQuery {
+    pub select_clause: SelectClause,
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubSelect {
+    pub select_clause: SelectClause,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+    pub values_clause: Option<DataBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SelectClause {
+    pub modifier: Option<SelectModifier>,
+    pub vars: SelectVars,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum SelectVars {
+    VarOrExpressionAsVar(Vec<VarOrExpressionAsVar>),
+    All,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum SelectModifier {
+    Distinct,
+    Reduced,
+}
+
+pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
+    map(
+        tuple((
+            terminated(select_clause, sp1),
+            separated_list(sp, data_set_clause),
+            sp_enc(where_clause),
+            solution_modifier,
+        )),
+        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
+            select_clause,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
+    map(
+        tuple((
+            select_clause,
+            sp_enc(where_clause),
+            solution_modifier,
+            preceded(sp, values_clause),
+        )),
+        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
+            select_clause,
+            where_clause,
+            solution_modifier,
+            values_clause,
+        },
+    )(i)
+}
+
+pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
+    map(
+        tuple((
+            tag_no_case("select"),
+            opt(preceded(sp1, select_modifier)),
+            preceded(sp1, select_vars),
+        )),
+        |(_, modifier, vars)| SelectClause { modifier, vars },
+    )(i)
+}
+
+pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
+    alt((
+        map(char('*'), |_| SelectVars::All),
+        map(
+            many1(var_or_expression_as_var),
+            SelectVars::VarOrExpressionAsVar,
+        ),
+    ))(i)
+}
+
+pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
+    alt((
+        map(tag_no_case("distinct"), |_| SelectModifier::Distinct),
+        map(tag_no_case("reduced"), |_| SelectModifier::Reduced),
+    ))(i)
+}
diff --git a/src/terminals.rs b/src/terminals.rs
index 43bcfc0..7f714f0 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,538 +1,558 @@
-use nom::{
-    branch::alt,
-    bytes::complete::take_while,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::complete::{anychar, char, digit1, none_of, one_of},
-    character::{
-        complete::{alpha1, alphanumeric1},
-        is_alphabetic,
-    },
-    character::{is_alphanumeric, is_digit},
-    combinator::recognize,
-    combinator::{complete, cond, cut, map, map_res, not, opt, peek},
-    error::ErrorKind,
-    multi::{fold_many0, separated_list},
-    multi::{many0, many1},
-    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
-    AsChar, Err, IResult,
-};
-
-use crate::{
-    aggregate::count,
-    call::arg_list,
-    clauses::values_clause,
-    data::datablock,
-    expression::{DefaultOrNamedIri, Iri, IriOrFunction, PrefixedName},
-    graph::graph_term,
-    node::{Collection, ObjectList, PropertyList, RdfLiteral, RdfLiteralDescriptor, TriplesNode},
-    prologue::{BaseOrPrefixDecl, PrefixDecl, Prologue},
-    var::{Var, VarOrIri, VarOrTerm, VerbList},
-};
-
-#[inline]
-pub(crate) fn preceded_bracketted<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded_tag(tag, bracketted(pat))
-}
-
-#[inline]
-pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(char('('), pat, char(')'))
-}
-
-#[inline]
-pub(crate) fn preceded_tag1<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded(terminated(tag_no_case(tag), sp1), pat)
-}
-
-#[inline]
-pub(crate) fn preceded_tag<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded(terminated(tag_no_case(tag), sp), pat)
-}
-
-#[inline]
-pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
-    recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
-}
-
-#[inline]
-pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
-    recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
-}
-
-pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
-    ))(i)
-}
-
-#[inline]
-pub(crate) fn sp_enc<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(sp, pat, sp)
-}
-
-#[inline]
-pub(crate) fn sp_enc1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(sp1, pat, sp1)
-}
-
-#[inline]
-pub(crate) fn sp_sep1<'a, O1, O2, F, G>(
-    first: F,
-    second: G,
-) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-    G: Fn(&'a str) -> IResult<&'a str, O2>,
-{
-    separated_pair(first, sp1, second)
-}
-
-#[inline]
-pub(crate) fn sp_sep<'a, O1, O2, F, G>(
-    first: F,
-    second: G,
-) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-    G: Fn(&'a str) -> IResult<&'a str, O2>,
-{
-    separated_pair(first, sp, second)
-}
-
-pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
-    escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
-}
-
-/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
-pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
-    alt((
-        delimited(
-            tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
-            tag("'"),
-        ),
-        delimited(
-            tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
-            tag("\""),
-        ),
-    ))(i)
-}
-
-pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
-    map(
-        pair(
-            map(string_literal, String::from),
-            opt(alt((
-                map(
-                    map(language_tag, String::from),
-                    RdfLiteralDescriptor::LangTag,
-                ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
-            ))),
-        ),
-        |(literal, descriptor)| RdfLiteral {
-            literal,
-            descriptor,
-        },
-    )(i)
-}
-
-// TODO refactor
-pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
-    preceded(
-        char('@'),
-        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
-    )(i)
-}
-
-#[inline]
-pub(crate) fn echar(i: &str) -> IResult<&str, &str> {
-    escaped(none_of("\\"), '\\', one_of(r#""tbnrf'"#))(i)
-}
-
-pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
-    alt((
-        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
-            pn_prefix,
-            pn_local,
-        }),
-        map(pname_ns, PrefixedName::PnameNS),
-    ))(i)
-}
-
-pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
-}
-
-pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
-    map(
-        tuple((
-            tag_no_case("prefix"),
-            sp_enc(pname_ns),
-            map(iri_ref, String::from),
-        )),
-        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
-    )(i)
-}
-
-pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
-    map(
-        separated_list(
-            sp1,
-            alt((
-                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
-                map(prefix_decl, BaseOrPrefixDecl::Prefix),
-            )),
-        ),
-        Prologue,
-    )(i)
-}
-
-pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
-    delimited(
-        tag("<"),
-        take_while(|c| {
-            let chrs = "<>\"{}|^\\`";
-            if chrs.contains(c) {
-                false
-            } else {
-                c as u8 > 0x20
-            }
-        }),
-        tag(">"),
-    )(i)
-}
-
-pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
-    preceded_tag1(
-        "named",
-        alt((
-            map(iri_ref, |i| Iri::Iri(i.to_string())),
-            map(prefixed_name, Iri::PrefixedName),
-        )),
-    )(i)
-}
-
-pub(crate) fn default_or_named_iri(i: &str) -> IResult<&str, DefaultOrNamedIri> {
-    alt((
-        map(named_iri, DefaultOrNamedIri::Named),
-        map(iri, DefaultOrNamedIri::Default),
-    ))(i)
-}
-
-pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
-    alt((
-        map(iri_ref, |i| Iri::Iri(i.to_string())),
-        map(prefixed_name, Iri::PrefixedName),
-    ))(i)
-}
-
-pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
-    map(
-        pair(iri, opt(preceded(sp1, arg_list))),
-        |(iri, arg_list)| IriOrFunction { iri, arg_list },
-    )(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
-    // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
-}
-
-fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
-    u8::from_str_radix(input, 16)
-}
-fn is_hex_digit(c: char) -> bool {
-    c.is_digit(16)
-}
-
-fn hex_primary(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(2, 2, is_hex_digit)(i)
-}
-
-fn plx(i: &str) -> IResult<&str, &str> {
-    recognize(alt((
-        pair(tag("%"), hex_primary),
-        pair(tag("\\"), recognize(one_of("_~.-!$&'()*+,;=/?#@%"))),
-    )))(i)
-}
-
-pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        alt((
-            pn_chars_u_one,
-            tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
-            plx,
-        )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
-    ))(i)
-}
-
-pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
-    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)
-}
-
-pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
-}
-
-pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
-}
-
-#[inline]
-pub(crate) fn is_sp(c: char) -> bool {
-    " \t\n\r".contains(c)
-}
-
-pub(crate) fn is_unicode(c: char) -> bool {
-    match c {
-        '\u{00C0}'..='\u{00D6}' => true,
-        '\u{00D8}'..='\u{00F6}' => true,
-        '\u{00F8}'..='\u{02FF}' => true,
-        '\u{0370}'..='\u{037D}' => true,
-        '\u{037F}'..='\u{1FFF}' => true,
-        '\u{200C}'..='\u{200D}' => true,
-        '\u{2070}'..='\u{218F}' => true,
-        '\u{2C00}'..='\u{2FEF}' => true,
-        '\u{3001}'..='\u{D7FF}' => true,
-        '\u{F900}'..='\u{FDCF}' => true,
-        '\u{FDF0}'..='\u{FFFD}' => true,
-        _ => false,
-    }
-}
-
-#[inline]
-pub(crate) fn is_illegal_char_lit_1(c: char) -> bool {
-    match c {
-        '\u{0027}' | '\u{005C}' | '\u{000A}' | '\u{000D}' => true,
-        _ => false,
-    }
-}
-
-#[inline]
-pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
-    if !is_illegal_char_lit_1(c) {
-        c == '\u{0022}'
-    } else {
-        true
-    }
-}
-
-#[inline]
-pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_base_one(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(1, 1, is_pn_chars_base)(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_base1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_chars_base)(i)
-}
-
-#[inline]
-pub(crate) fn is_pn_chars_u(i: char) -> bool {
-    is_pn_chars_base(i) || i == '_'
-}
-
-#[inline]
-pub(crate) fn pn_chars_u_one(i: &str) -> IResult<&str, &str> {
-    alt((pn_chars_base_one, tag("_")))(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_chars_u)(i)
-}
-
-#[inline]
-pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
-}
-
-#[inline]
-pub(crate) fn pn_chars_one(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(1, 1, is_pn_char)(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_char)(i)
-}
-
-pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
-    preceded(char('['), cut(terminated(sp, char(']'))))(i)
-}
-
-pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_anon() {
-        assert_eq!(anon("[]"), Ok(("", "")));
-        assert_eq!(anon("[   ]"), Ok(("", "   ")));
-        assert_eq!(anon("[a]"), Err(Err::Failure(("a]", ErrorKind::Char))));
-    }
-
-    #[test]
-    fn is_pn_chars_base() {
-        assert_eq!(pn_chars_base_one("a "), Ok((" ", "a")));
-        assert_eq!(pn_chars_base_one("\u{00C0} "), Ok((" ", "\u{00C0}")));
-        assert_eq!(pn_chars_base_one("\u{03b1} "), Ok((" ", "\u{03b1}")));
-        assert_eq!(pn_chars_base_one("\u{00D8} "), Ok((" ", "\u{00D8}")));
-        assert_eq!(pn_chars_base_one("\u{FDF0} "), Ok((" ", "\u{FDF0}")));
-        assert_eq!(pn_chars_base_one("\u{F900} "), Ok((" ", "\u{F900}")));
-    }
-
-    #[test]
-    fn is_iri_ref() {
-        assert_eq!(
-            iri("<http://education.data.gov.uk/def/school/>"),
-            Ok((
-                "",
-                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
-            ))
-        );
-    }
-
-    #[test]
-    fn is_iri() {
-        assert_eq!(
-            iri("<http://education.data.gov.uk/def/school/>"),
-            Ok((
-                "",
-                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
-            ))
-        );
-    }
-
-    #[test]
-    fn is_string_literal() {
-        assert_eq!(
-            string_literal(r#""some string lit""#),
-            Ok(("", r#"some string lit"#))
-        );
-        assert_eq!(
-            string_literal("'some string lit'"),
-            Ok(("", "some string lit"))
-        );
-        assert_eq!(
-            string_literal("'some \tstring\n\r\"  lit'"),
-            Ok(("", "some \tstring\n\r\"  lit"))
-        );
-    }
-
-    #[test]
-    fn is_lang_tag() {
-        assert_eq!(language_tag("@en"), Ok(("", "en")));
-        assert_eq!(language_tag("@some-lang-tag1"), Ok(("", "some-lang-tag1")));
-        assert_eq!(
-            language_tag("@some-123lang-tag1"),
-            Ok(("", "some-123lang-tag1"))
-        );
-        assert_eq!(
-            language_tag("@1lang"),
-            Err(Err::Error(("1lang", ErrorKind::Alpha)))
-        );
-    }
-
-    #[test]
-    fn is_rdf_literal() {
-        assert_eq!(rdf_literal("'chat'"), Ok(("", RdfLiteral::literal("chat"))));
-
-        assert_eq!(
-            rdf_literal("'chat'@fr"),
-            Ok((
-                "",
-                RdfLiteral::new("chat", RdfLiteralDescriptor::LangTag("fr".to_string()))
-            ))
-        );
-        assert_eq!(
-            rdf_literal("'xyz'^^<http://example.org/ns/userDatatype>"),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "xyz",
-                    RdfLiteralDescriptor::IriRef(Iri::Iri(
-                        "http://example.org/ns/userDatatype".to_string()
-                    ))
-                )
-            ))
-        );
-        assert_eq!(
-            rdf_literal(r#""abc"^^appNS:1app.Data.Type"#),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "abc",
-                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: Some("appNS".to_string()),
-                        pn_local: "1app.Data.Type".to_string()
-                    }))
-                )
-            ))
-        );
-        assert_eq!(
-            rdf_literal(r#""abc"^^appNS:1...app.Data.Type"#),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "abc",
-                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: Some("appNS".to_string()),
-                        pn_local: "1...app.Data.Type".to_string()
-                    }))
-                )
-            ))
-        );
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::take_while,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::{anychar, char, digit1, none_of, one_of},
+    character::{
+        complete::{alpha1, alphanumeric1},
+        is_alphabetic,
+    },
+    character::{is_alphanumeric, is_digit},
+    combinator::recognize,
+    combinator::{complete, cond, cut, map, map_res, not, opt, peek},
+    error::ErrorKind,
+    multi::{fold_many0, separated_list},
+    multi::{many0, many1},
+    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
+    AsChar, Err, IResult,
+};
+
+use crate::{
+    aggregate::count,
+    call::arg_list,
+    clauses::values_clause,
+    data::datablock,
+    expression::{DefaultOrNamedIri, Iri, IriOrFunction, PrefixedName},
+    graph::graph_term,
+    node::{Collection, ObjectList, PropertyList, RdfLiteral, RdfLiteralDescriptor, TriplesNode},
+    prologue::{BaseOrPrefixDecl, PrefixDecl, Prologue},
+    var::{Var, VarOrIri, VarOrTerm, VerbList},
+};
+
+/// Matches `tag` without regard to ASCII case.
+///
+/// Unlike nom's `tag_no_case` this never folds a non ASCII character onto an
+/// ASCII letter (U+212A, the Kelvin sign, is not a `k`), and a tag that ends
+/// with a letter only matches as a whole word.
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    let word = tag.ends_with(|c: char| c.is_ascii_alphabetic());
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(head) if head.eq_ignore_ascii_case(tag) => {
+            let rest = &i[tag.len()..];
+            if word && rest.starts_with(|c: char| is_pn_chars_u(c) || c == ':') {
+                Err(Err::Error((i, ErrorKind::Tag)))
+            } else {
+                Ok((rest, head))
+            }
+        }
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
+#[inline]
+pub(crate) fn preceded_bracketted<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded_tag(tag, bracketted(pat))
+}
+
+#[inline]
+pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(char('('), pat, char(')'))
+}
+
+#[inline]
+pub(crate) fn preceded_tag1<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded(terminated(tag_no_case(tag), sp1), pat)
+}
+
+#[inline]
+pub(crate) fn preceded_tag<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded(terminated(tag_no_case(tag), sp), pat)
+}
+
+#[inline]
+pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
+    recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
+}
+
+#[inline]
+pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
+    recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
+}
+
+pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        opt(preceded(char('#'), many0(none_of("\n\r")))),
+        one_of("\r\n"),
+    ))(i)
+}
+
+#[inline]
+pub(crate) fn sp_enc<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(sp, pat, sp)
+}
+
+#[inline]
+pub(crate) fn sp_enc1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(sp1, pat, sp1)
+}
+
+#[inline]
+pub(crate) fn sp_sep1<'a, O1, O2, F, G>(
+    first: F,
+    second: G,
+) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+    G: Fn(&'a str) -> IResult<&'a str, O2>,
+{
+    separated_pair(first, sp1, second)
+}
+
+#[inline]
+pub(crate) fn sp_sep<'a, O1, O2, F, G>(
+    first: F,
+    second: G,
+) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+    G: Fn(&'a str) -> IResult<&'a str, O2>,
+{
+    separated_pair(first, sp, second)
+}
+
+pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
+    escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
+}
+
+/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
+pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
+    alt((
+        delimited(
+            tag("'"),
+            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            tag("'"),
+        ),
+        delimited(
+            tag("\""),
+            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            tag("\""),
+        ),
+    ))(i)
+}
+
+pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
+    map(
+        pair(
+            map(string_literal, String::from),
+            opt(alt((
+                map(
+                    map(language_tag, String::from),
+                    RdfLiteralDescriptor::LangTag,
+                ),
+                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
+            ))),
+        ),
+        |(literal, descriptor)| RdfLiteral {
+            literal,
+            descriptor,
+        },
+    )(i)
+}
+
+// TODO refactor
+pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
+    preceded(
+        char('@'),
+        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
+    )(i)
+}
+
+#[inline]
+pub(crate) fn echar(i: &str) -> IResult<&str, &str> {
+    escaped(none_of("\\"), '\\', one_of(r#""tbnrf'"#))(i)
+}
+
+pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
+    alt((
+        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
+            pn_prefix,
+            pn_local,
+        }),
+        map(pname_ns, PrefixedName::PnameNS),
+    ))(i)
+}
+
+pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
+    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+}
+
+pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
+    map(
+        tuple((
+            tag_no_case("prefix"),
+            sp_enc(pname_ns),
+            map(iri_ref, String::from),
+        )),
+        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
+    )(i)
+}
+
+pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
+    map(
+        separated_list(
+            sp1,
+            alt((
+                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
+                map(prefix_decl, BaseOrPrefixDecl::Prefix),
+            )),
+        ),
+        Prologue,
+    )(i)
+}
+
+pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
+    delimited(
+        tag("<"),
+        take_while(|c| {
+            let chrs = "<>\"{}|^\\`";
+            if chrs.contains(c) {
+                false
+            } else {
+                c as u8 > 0x20
+            }
+        }),
+        tag(">"),
+    )(i)
+}
+
+pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
+    preceded_tag1(
+        "named",
+        alt((
+            map(iri_ref, |i| Iri::Iri(i.to_string())),
+            map(prefixed_name, Iri::PrefixedName),
+        )),
+    )(i)
+}
+
+pub(crate) fn default_or_named_iri(i: &str) -> IResult<&str, DefaultOrNamedIri> {
+    alt((
+        map(named_iri, DefaultOrNamedIri::Named),
+        map(iri, DefaultOrNamedIri::Default),
+    ))(i)
+}
+
+pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
+    alt((
+        map(iri_ref, |i| Iri::Iri(i.to_string())),
+        map(prefixed_name, Iri::PrefixedName),
+    ))(i)
+}
+
+pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
+    map(
+        pair(iri, opt(preceded(sp1, arg_list))),
+        |(iri, arg_list)| IriOrFunction { iri, arg_list },
+    )(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
+    // ((PN_CHARS|'.')* PN_CHARS)?
+    recognize(pair(
+        opt(take_while1(|c| c == '.')),
+        separated_list(take_while1(|c| c == '.'), pn_chars1),
+    ))(i)
+}
+
+fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
+    u8::from_str_radix(input, 16)
+}
+fn is_hex_digit(c: char) -> bool {
+    c.is_digit(16)
+}
+
+fn hex_primary(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(2, 2, is_hex_digit)(i)
+}
+
+fn plx(i: &str) -> IResult<&str, &str> {
+    recognize(alt((
+        pair(tag("%"), hex_primary),
+        pair(tag("\\"), recognize(one_of("_~.-!$&'()*+,;=/?#@%"))),
+    )))(i)
+}
+
+pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        alt((
+            pn_chars_u_one,
+            tag(":"),
+            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            plx,
+        )),
+        recognize(pair(
+            opt(take_while1(|c| c == '.')),
+            separated_list(
+                take_while1(|c| c == '.'),
+                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
+            ),
+        )),
+    ))(i)
+}
+
+pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
+    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)
+}
+
+pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
+    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+}
+
+pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
+    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+}
+
+#[inline]
+pub(crate) fn is_sp(c: char) -> bool {
+    " \t\n\r".contains(c)
+}
+
+pub(crate) fn is_unicode(c: char) -> bool {
+    match c {
+        '\u{00C0}'..='\u{00D6}' => true,
+        '\u{00D8}'..='\u{00F6}' => true,
+        '\u{00F8}'..='\u{02FF}' => true,
+        '\u{0370}'..='\u{037D}' => true,
+        '\u{037F}'..='\u{1FFF}' => true,
+        '\u{200C}'..='\u{200D}' => true,
+        '\u{2070}'..='\u{218F}' => true,
+        '\u{2C00}'..='\u{2FEF}' => true,
+        '\u{3001}'..='\u{D7FF}' => true,
+        '\u{F900}'..='\u{FDCF}' => true,
+        '\u{FDF0}'..='\u{FFFD}' => true,
+        _ => false,
+    }
+}
+
+#[inline]
+pub(crate) fn is_illegal_char_lit_1(c: char) -> bool {
+    match c {
+        '\u{0027}' | '\u{005C}' | '\u{000A}' | '\u{000D}' => true,
+        _ => false,
+    }
+}
+
+#[inline]
+pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
+    if !is_illegal_char_lit_1(c) {
+        c == '\u{0022}'
+    } else {
+        true
+    }
+}
+
+#[inline]
+pub(crate) fn is_pn_chars_base(i: char) -> bool {
+    is_alphabetic(i as u8) || is_unicode(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_base_one(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(1, 1, is_pn_chars_base)(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_base1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_chars_base)(i)
+}
+
+#[inline]
+pub(crate) fn is_pn_chars_u(i: char) -> bool {
+    is_pn_chars_base(i) || i == '_'
+}
+
+#[inline]
+pub(crate) fn pn_chars_u_one(i: &str) -> IResult<&str, &str> {
+    alt((pn_chars_base_one, tag("_")))(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_chars_u)(i)
+}
+
+#[inline]
+pub(crate) fn is_pn_char(i: char) -> bool {
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+}
+
+#[inline]
+pub(crate) fn pn_chars_one(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(1, 1, is_pn_char)(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_char)(i)
+}
+
+pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
+    preceded(char('['), cut(terminated(sp, char(']'))))(i)
+}
+
+pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
+    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_anon() {
+        assert_eq!(anon("[]"), Ok(("", "")));
+        assert_eq!(anon("[   ]"), Ok(("", "   ")));
+        assert_eq!(anon("[a]"), Err(Err::Failure(("a]", ErrorKind::Char))));
+    }
+
+    #[test]
+    fn is_pn_chars_base() {
+        assert_eq!(pn_chars_base_one("a "), Ok((" ", "a")));
+        assert_eq!(pn_chars_base_one("\u{00C0} "), Ok((" ", "\u{00C0}")));
+        assert_eq!(pn_chars_base_one("\u{03b1} "), Ok((" ", "\u{03b1}")));
+        assert_eq!(pn_chars_base_one("\u{00D8} "), Ok((" ", "\u{00D8}")));
+        assert_eq!(pn_chars_base_one("\u{FDF0} "), Ok((" ", "\u{FDF0}")));
+        assert_eq!(pn_chars_base_one("\u{F900} "), Ok((" ", "\u{F900}")));
+    }
+
+    #[test]
+    fn is_iri_ref() {
+        assert_eq!(
+            iri("<http://education.data.gov.uk/def/school/>"),
+            Ok((
+                "",
+                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
+            ))
+        );
+    }
+
+    #[test]
+    fn is_iri() {
+        assert_eq!(
+            iri("<http://education.data.gov.uk/def/school/>"),
+            Ok((
+                "",
+                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
+            ))
+        );
+    }
+
+    #[test]
+    fn is_string_literal() {
+        assert_eq!(
+            string_literal(r#""some string lit""#),
+            Ok(("", r#"some string lit"#))
+        );
+        assert_eq!(
+            string_literal("'some string lit'"),
+            Ok(("", "some string lit"))
+        );
+        assert_eq!(
+            string_literal("'some \tstring\n\r\"  lit'"),
+            Ok(("", "some \tstring\n\r\"  lit"))
+        );
+    }
+
+    #[test]
+    fn is_lang_tag() {
+        assert_eq!(language_tag("@en"), Ok(("", "en")));
+        assert_eq!(language_tag("@some-lang-tag1"), Ok(("", "some-lang-tag1")));
+        assert_eq!(
+            language_tag("@some-123lang-tag1"),
+            Ok(("", "some-123lang-tag1"))
+        );
+        assert_eq!(
+            language_tag("@1lang"),
+            Err(Err::Error(("1lang", ErrorKind::Alpha)))
+        );
+    }
+
+    #[test]
+    fn is_rdf_literal() {
+        assert_eq!(rdf_literal("'chat'"), Ok(("", RdfLiteral::literal("chat"))));
+
+        assert_eq!(
+            rdf_literal("'chat'@fr"),
+            Ok((
+                "",
+                RdfLiteral::new("chat", RdfLiteralDescriptor::LangTag("fr".to_string()))
+            ))
+        );
+        assert_eq!(
+            rdf_literal("'xyz'^^<http://example.org/ns/userDatatype>"),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "xyz",
+                    RdfLiteralDescriptor::IriRef(Iri::Iri(
+                        "http://example.org/ns/userDatatype".to_string()
+                    ))
+                )
+            ))
+        );
+        assert_eq!(
+            rdf_literal(r#""abc"^^appNS:1app.Data.Type"#),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "abc",
+                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: Some("appNS".to_string()),
+                        pn_local: "1app.Data.Type".to_string()
+                    }))
+                )
+            ))
+        );
+        assert_eq!(
+            rdf_literal(r#""abc"^^appNS:1...app.Data.Type"#),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "abc",
+                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: Some("appNS".to_string()),
+                        pn_local: "1...app.Data.Type".to_string()
+                    }))
+                )
+            ))
+        );
+    }
+}
diff --git a/src/triple.rs b/src/triple.rs
index 7ce8f5e..ee6f08c 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,266 +1,266 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n},
-    character::complete::char,
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::{many0, many1, separated_nonempty_list},
-    sequence::{delimited, pair, separated_pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    expression::ArgList,
-    graph::graph_node,
-    node::{Collection, ObjectList, PropertyList, TriplesNode},
-    path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
-    var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesSameSubject {
-    Term {
-        var_or_term: VarOrTerm,
-        property_list: PropertyList,
-    },
-    Node {
-        triples_node: TriplesNode,
-        property_list: Option<PropertyList>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConstructTriples {
-    pub first_triples: TriplesSameSubject,
-    pub further_triples: Vec<TriplesSameSubject>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct TriplesBlock(pub Vec<TriplesSameSubjectPath>);
-
-pub type TriplesTemplate = Vec<TriplesSameSubject>;
-
-pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
-    delimited(
-        terminated(char('['), sp),
-        property_list_not_empty,
-        preceded(sp, char(']')),
-    )(i)
-}
-
-pub(crate) fn collection(i: &str) -> IResult<&str, Collection> {
-    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)
-}
-
-pub(crate) fn object_list(i: &str) -> IResult<&str, ObjectList> {
-    map(
-        separated_nonempty_list(sp_enc(tag(",")), graph_node),
-        ObjectList,
-    )(i)
-}
-
-pub(crate) fn property_list_not_empty(i: &str) -> IResult<&str, PropertyList> {
-    map(
-        terminated(
-            separated_nonempty_list(
-                sp_enc(many1(sp_enc(char(';')))),
-                map(separated_pair(verb, sp, object_list), |(v, l)| {
-                    VerbList::new(v, l)
-                }),
-            ),
-            many0(preceded(sp, char(';'))),
-        ),
-        PropertyList,
-    )(i)
-}
-
-#[inline]
-pub(crate) fn property_list(i: &str) -> IResult<&str, Option<PropertyList>> {
-    opt(property_list_not_empty)(i)
-}
-
-pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
-    alt((
-        map(collection, TriplesNode::Collection),
-        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
-    ))(i)
-}
-
-pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
-    map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
-        TriplesBlock,
-    )(i)
-}
-
-pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
-    terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
-        opt(preceded(sp, char('.'))),
-    )(i)
-}
-
-pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject> {
-    alt((
-        map(
-            sp_sep(triples_node, property_list),
-            |(triples_node, property_list)| TriplesSameSubject::Node {
-                triples_node,
-                property_list,
-            },
-        ),
-        map(
-            sp_sep1(var_or_term, property_list_not_empty),
-            |(var_or_term, property_list)| TriplesSameSubject::Term {
-                var_or_term,
-                property_list,
-            },
-        ),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    use crate::graph::{GraphNode, GraphTerm};
-
-    #[test]
-    fn is_triple_same_subject() {
-        assert_eq!(
-            triples_same_subject("() a true,()"),
-            Ok((
-                "",
-                TriplesSameSubject::Term {
-                    var_or_term: VarOrTerm::Term(GraphTerm::Nil),
-                    property_list: PropertyList(vec![VerbList::new(
-                        Verb::A,
-                        ObjectList(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ]),
-                    )])
-                }
-            ))
-        );
-
-        assert_eq!(
-            triples_same_subject("(()())"),
-            Ok((
-                "",
-                TriplesSameSubject::Node {
-                    triples_node: TriplesNode::Collection(Collection(vec![
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
-                    ])),
-                    property_list: None
-                }
-            ))
-        );
-
-        assert_eq!(
-            triples_same_subject("[   a (),()\t] a false,()"),
-            Ok((
-                "",
-                TriplesSameSubject::Node {
-                    triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
-                        VerbList::new(
-                            Verb::A,
-                            ObjectList(vec![
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                            ]),
-                        )
-                    ])),
-                    property_list: Some(PropertyList(vec![VerbList::new(
-                        Verb::A,
-                        ObjectList(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ]),
-                    )]))
-                }
-            ))
-        );
-    }
-
-    #[test]
-    fn is_triples_node() {
-        assert_eq!(
-            triples_node("(true ())"),
-            Ok((
-                "",
-                TriplesNode::Collection(Collection(vec![
-                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
-                ]))
-            ))
-        );
-
-        assert_eq!(
-            triples_node("[\na false,() \n]"),
-            Ok((
-                "",
-                TriplesNode::BlankNodePropertyList(PropertyList(vec![VerbList::new(
-                    Verb::A,
-                    ObjectList(vec![
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                    ]),
-                )]))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_triples_template() {
-        let nil = TriplesSameSubject::Node {
-            triples_node: TriplesNode::Collection(Collection(vec![
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-            ])),
-            property_list: None,
-        };
-
-        assert_eq!(triples_template("(true())."), Ok(("", vec![nil.clone()])));
-
-        assert_eq!(
-            triples_template("(true()).(true())"),
-            Ok(("", vec![nil.clone(), nil.clone()]))
-        );
-
-        assert_eq!(
-            triples_template("(true()).[   a (),()\t] a false,()"),
-            Ok((
-                "",
-                vec![
-                    nil.clone(),
-                    TriplesSameSubject::Node {
-                        triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
-                            VerbList::new(
-                                Verb::A,
-                                ObjectList(vec![
-                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                ]),
-                            )
-                        ])),
-                        property_list: Some(PropertyList(vec![VerbList::new(
-                            Verb::A,
-                            ObjectList(vec![
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(
-                                    false
-                                ))),
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                            ]),
-                        )]))
-                    }
-                ]
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::char,
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::{many0, many1, separated_nonempty_list},
+    sequence::{delimited, pair, separated_pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    expression::ArgList,
+    graph::graph_node,
+    node::{Collection, ObjectList, PropertyList, TriplesNode},
+    path::{triples_same_subject_path, TriplesSameSubjectPath},
+    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesSameSubject {
+    Term {
+        var_or_term: VarOrTerm,
+        property_list: PropertyList,
+    },
+    Node {
+        triples_node: TriplesNode,
+        property_list: Option<PropertyList>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConstructTriples {
+    pub first_triples: TriplesSameSubject,
+    pub further_triples: Vec<TriplesSameSubject>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct TriplesBlock(pub Vec<TriplesSameSubjectPath>);
+
+pub type TriplesTemplate = Vec<TriplesSameSubject>;
+
+pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
+    delimited(
+        terminated(char('['), sp),
+        property_list_not_empty,
+        preceded(sp, char(']')),
+    )(i)
+}
+
+pub(crate) fn collection(i: &str) -> IResult<&str, Collection> {
+    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)
+}
+
+pub(crate) fn object_list(i: &str) -> IResult<&str, ObjectList> {
+    map(
+        separated_nonempty_list(sp_enc(tag(",")), graph_node),
+        ObjectList,
+    )(i)
+}
+
+pub(crate) fn property_list_not_empty(i: &str) -> IResult<&str, PropertyList> {
+    map(
+        terminated(
+            separated_nonempty_list(
+                sp_enc(many1(sp_enc(char(';')))),
+                map(separated_pair(verb, sp, object_list), |(v, l)| {
+                    VerbList::new(v, l)
+                }),
+            ),
+            many0(preceded(sp, char(';'))),
+        ),
+        PropertyList,
+    )(i)
+}
+
+#[inline]
+pub(crate) fn property_list(i: &str) -> IResult<&str, Option<PropertyList>> {
+    opt(property_list_not_empty)(i)
+}
+
+pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
+    alt((
+        map(collection, TriplesNode::Collection),
+        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
+    ))(i)
+}
+
+pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
+    map(
+        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        TriplesBlock,
+    )(i)
+}
+
+pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
+    terminated(
+        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
+        opt(preceded(sp, char('.'))),
+    )(i)
+}
+
+pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject> {
+    alt((
+        map(
+            sp_sep(triples_node, property_list),
+            |(triples_node, property_list)| TriplesSameSubject::Node {
+                triples_node,
+                property_list,
+            },
+        ),
+        map(
+            sp_sep1(var_or_term, property_list_not_empty),
+            |(var_or_term, property_list)| TriplesSameSubject::Term {
+                var_or_term,
+                property_list,
+            },
+        ),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    use crate::graph::{GraphNode, GraphTerm};
+
+    #[test]
+    fn is_triple_same_subject() {
+        assert_eq!(
+            triples_same_subject("() a true,()"),
+            Ok((
+                "",
+                TriplesSameSubject::Term {
+                    var_or_term: VarOrTerm::Term(GraphTerm::Nil),
+                    property_list: PropertyList(vec![VerbList::new(
+                        Verb::A,
+                        ObjectList(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ]),
+                    )])
+                }
+            ))
+        );
+
+        assert_eq!(
+            triples_same_subject("(()())"),
+            Ok((
+                "",
+                TriplesSameSubject::Node {
+                    triples_node: TriplesNode::Collection(Collection(vec![
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
+                    ])),
+                    property_list: None
+                }
+            ))
+        );
+
+        assert_eq!(
+            triples_same_subject("[   a (),()\t] a false,()"),
+            Ok((
+                "",
+                TriplesSameSubject::Node {
+                    triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
+                        VerbList::new(
+                            Verb::A,
+                            ObjectList(vec![
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                            ]),
+                        )
+                    ])),
+                    property_list: Some(PropertyList(vec![VerbList::new(
+                        Verb::A,
+                        ObjectList(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ]),
+                    )]))
+                }
+            ))
+        );
+    }
+
+    #[test]
+    fn is_triples_node() {
+        assert_eq!(
+            triples_node("(true ())"),
+            Ok((
+                "",
+                TriplesNode::Collection(Collection(vec![
+                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
+                ]))
+            ))
+        );
+
+        assert_eq!(
+            triples_node("[\na false,() \n]"),
+            Ok((
+                "",
+                TriplesNode::BlankNodePropertyList(PropertyList(vec![VerbList::new(
+                    Verb::A,
+                    ObjectList(vec![
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                    ]),
+                )]))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_triples_template() {
+        let nil = TriplesSameSubject::Node {
+            triples_node: TriplesNode::Collection(Collection(vec![
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+            ])),
+            property_list: None,
+        };
+
+        assert_eq!(triples_template("(true())."), Ok(("", vec![nil.clone()])));
+
+        assert_eq!(
+            triples_template("(true()).(true())"),
+            Ok(("", vec![nil.clone(), nil.clone()]))
+        );
+
+        assert_eq!(
+            triples_template("(true()).[   a (),()\t] a false,()"),
+            Ok((
+                "",
+                vec![
+                    nil.clone(),
+                    TriplesSameSubject::Node {
+                        triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
+                            VerbList::new(
+                                Verb::A,
+                                ObjectList(vec![
+                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                ]),
+                            )
+                        ])),
+                        property_list: Some(PropertyList(vec![VerbList::new(
+                            Verb::A,
+                            ObjectList(vec![
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(
+                                    false
+                                ))),
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                            ]),
+                        )]))
+                    }
+                ]
+            ))
+        );
+    }
+
+}
diff --git a/src/var.rs b/src/var.rs
index 432c2c5..0fd7232 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,152 +1,152 @@
-use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
-use crate::graph::{graph_term, GraphTerm};
-use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp};
-use nom::branch::alt;
-use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, tag_no_case, take_while1, take_while_m_n};
-use nom::character::complete::{anychar, char, digit1, none_of, one_of};
-use nom::combinator::recognize;
-use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
-use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
-use nom::{AsChar, IResult};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrIri {
-    Var(Var),
-    Iri(Iri),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Var {
-    QMark(String),
-    Dollar(String),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrTerm {
-    Var(Var),
-    Term(GraphTerm),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct VerbList {
-    pub verb: Verb,
-    pub object_list: ObjectList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrIrisOrAll {
-    VarIri(Vec<VarOrIri>),
-    All,
-}
-
-#[derive(Clone, Debug, Eq, PartialEq)]
-pub enum Verb {
-    VarOrIri(VarOrIri),
-    /// syntactic shortcut for rdf:type
-    A,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrExpressionAsVar {
-    Var(Var),
-    ExpressionAsVar(ExpressionAsVar),
-}
-
-pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
-    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)
-}
-
-pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
-    alt((
-        map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
-    ))(i)
-}
-
-pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
-    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)
-}
-
-pub(crate) fn var(i: &str) -> IResult<&str, Var> {
-    alt((
-        map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
-            Var::QMark,
-        ),
-        map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
-            Var::Dollar,
-        ),
-    ))(i)
-}
-
-pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
-    alt((
-        map(
-            separated_nonempty_list(sp, var_or_iri),
-            VarOrIrisOrAll::VarIri,
-        ),
-        map(char('*'), |_| VarOrIrisOrAll::All),
-    ))(i)
-}
-
-pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpressionAsVar> {
-    alt((
-        map(var, VarOrExpressionAsVar::Var),
-        map(expression_as_var, VarOrExpressionAsVar::ExpressionAsVar),
-    ))(i)
-}
-
-// TODO consider unicode cases in second
-pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_verb() {
-        assert_eq!(verb("a"), Ok(("", Verb::A)));
-
-        assert_eq!(
-            verb("?name"),
-            Ok((
-                "",
-                Verb::VarOrIri(VarOrIri::Var(Var::QMark("name".to_string())))
-            ))
-        );
-
-        assert_eq!(
-            verb("<http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                Verb::VarOrIri(VarOrIri::Iri(Iri::Iri(
-                    "http://example.org/foaf/aliceFoaf".to_string()
-                )))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_var_or_iri() {
-        assert_eq!(
-            var_or_iri("?name"),
-            Ok(("", VarOrIri::Var(Var::QMark("name".to_string()))))
-        );
-    }
-
-    #[test]
-    fn is_var() {
-        assert_eq!(var("?name"), Ok(("", Var::QMark("name".to_string()))));
-
-        assert_eq!(var("$name"), Ok(("", Var::Dollar("name".to_string()))));
-    }
-}
+use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
+use crate::graph::{graph_term, GraphTerm};
+use crate::node::ObjectList;
+use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
+use nom::branch::alt;
+use nom::bytes::complete::take_while;
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
+use nom::character::complete::{anychar, char, digit1, none_of, one_of};
+use nom::combinator::recognize;
+use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
+use nom::multi::separated_nonempty_list;
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
+use nom::{AsChar, IResult};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrIri {
+    Var(Var),
+    Iri(Iri),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Var {
+    QMark(String),
+    Dollar(String),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrTerm {
+    Var(Var),
+    Term(GraphTerm),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct VerbList {
+    pub verb: Verb,
+    pub object_list: ObjectList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrIrisOrAll {
+    VarIri(Vec<VarOrIri>),
+    All,
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum Verb {
+    VarOrIri(VarOrIri),
+    /// syntactic shortcut for rdf:type
+    A,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrExpressionAsVar {
+    Var(Var),
+    ExpressionAsVar(ExpressionAsVar),
+}
+
+pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
+    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)
+}
+
+pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
+    alt((
+        map(var_or_iri, Verb::VarOrIri),
+        map(tag_no_case("a"), |_| Verb::A),
+    ))(i)
+}
+
+pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
+    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)
+}
+
+pub(crate) fn var(i: &str) -> IResult<&str, Var> {
+    alt((
+        map(
+            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            Var::QMark,
+        ),
+        map(
+            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            Var::Dollar,
+        ),
+    ))(i)
+}
+
+pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
+    alt((
+        map(
+            separated_nonempty_list(sp, var_or_iri),
+            VarOrIrisOrAll::VarIri,
+        ),
+        map(char('*'), |_| VarOrIrisOrAll::All),
+    ))(i)
+}
+
+pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpressionAsVar> {
+    alt((
+        map(var, VarOrExpressionAsVar::Var),
+        map(expression_as_var, VarOrExpressionAsVar::ExpressionAsVar),
+    ))(i)
+}
+
+// TODO consider unicode cases in second
+pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_verb() {
+        assert_eq!(verb("a"), Ok(("", Verb::A)));
+
+        assert_eq!(
+            verb("?name"),
+            Ok((
+                "",
+                Verb::VarOrIri(VarOrIri::Var(Var::QMark("name".to_string())))
+            ))
+        );
+
+        assert_eq!(
+            verb("<http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                Verb::VarOrIri(VarOrIri::Iri(Iri::Iri(
+                    "http://example.org/foaf/aliceFoaf".to_string()
+                )))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_var_or_iri() {
+        assert_eq!(
+            var_or_iri("?name"),
+            Ok(("", VarOrIri::Var(Var::QMark("name".to_string()))))
+        );
+    }
+
+    #[test]
+    fn is_var() {
+        assert_eq!(var("?name"), Ok(("", Var::QMark("name".to_string()))));
+
+        assert_eq!(var("$name"), Ok(("", Var::Dollar("name".to_string()))));
+    }
+}
-- 
2.43.0


From 1a951f3ca394233e7d0c52a1f9d44640909ef6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 02/28] fix: do not truncate characters to a byte when
 classifying them

`c as u8` keeps only the low byte of a character, so U+0161 counted as the
letter `a`, U+0132 as the digit `2` and U+0120 as a space: names contained
characters that are not allowed in them, IRIs with allowed characters were
rejected, and a LIMIT of non ASCII digits was taken for a number.
---
 src/clauses.rs   | 2 +-
 src/graph.rs     | 2 +-
 src/terminals.rs | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index dd30d38..4e34570 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -120,7 +120,7 @@ where
     F: Fn(&'a str) -> IResult<&'a str, &'a str>,
 {
     map_res(
-        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
         |s| s.parse::<u64>(),
     )
 }
diff --git a/src/graph.rs b/src/graph.rs
index 9e0d69c..34ca530 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -265,7 +265,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             sp_sep(
                 tag("_:"),
                 recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c| is_digit(c as u8)))),
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
                     pn_chars_tail,
                 )),
             ),
diff --git a/src/terminals.rs b/src/terminals.rs
index 7f714f0..b7cacba 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -245,7 +245,7 @@ pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
             if chrs.contains(c) {
                 false
             } else {
-                c as u8 > 0x20
+                c > '\u{20}'
             }
         }),
         tag(">"),
@@ -315,7 +315,7 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
         alt((
             pn_chars_u_one,
             tag(":"),
-            take_while_m_n(1, 1, |c| is_digit(c as u8)),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
         recognize(pair(
@@ -381,7 +381,7 @@ pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
 
 #[inline]
 pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    is_alphabetic(i as u8) || is_unicode(i)
+    i.is_ascii_alphabetic() || is_unicode(i)
 }
 
 #[inline]
-- 
2.43.0


From b02ff226d9ef385b46191238def87fac82564e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 03/28] fix: accept every character SPARQL allows in a name

PN_CHARS_BASE lacked the supplementary planes, PN_CHARS and VARNAME the
middle dot, the combining marks and the ties.
---
 src/terminals.rs | 12 +++++++++++-
 src/var.rs       |  5 ++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index b7cacba..e18c0ca 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -358,6 +358,7 @@ pub(crate) fn is_unicode(c: char) -> bool {
         '\u{3001}'..='\u{D7FF}' => true,
         '\u{F900}'..='\u{FDCF}' => true,
         '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
         _ => false,
     }
 }
@@ -409,9 +410,18 @@ pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
     take_while1(is_pn_chars_u)(i)
 }
 
+/// The characters that may continue, but not start, a name besides digits.
+#[inline]
+pub(crate) fn is_name_extender(i: char) -> bool {
+    match i {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
+}
+
 #[inline]
 pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit()
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index 0fd7232..fe04481 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -100,11 +100,10 @@ pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpression
     ))(i)
 }
 
-// TODO consider unicode cases in second
 pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
     recognize(pair(
         take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
     ))(i)
 }
 
-- 
2.43.0


From 6cd839536448f3675d463c65081ff30313ecf3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 04/28] fix: accept empty string literals

`escaped` fails on empty content, so "" and '' were rejected.
---
 src/terminals.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index e18c0ca..d5aef3d 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -156,12 +156,18 @@ pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
     alt((
         delimited(
             tag("'"),
-            escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#)),
+            map(
+                opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
             tag("'"),
         ),
         delimited(
             tag("\""),
-            escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#)),
+            map(
+                opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
             tag("\""),
         ),
     ))(i)
-- 
2.43.0


From 6998453ca610f5c59952336fa1ca7d05ccf27817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/28] fix: accept one letter local names, leave trailing dots
 to the statement

The list of dot separated parts of a local name failed when it was empty, so
`:a` was read as the namespace `:` followed by garbage, and the optional
leading dots swallowed the `.` that ends a triple in `:a :b :c.`.
---
 src/terminals.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index d5aef3d..c77fe3a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -292,10 +292,7 @@ pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
 #[inline]
 pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
     // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(pair(
-        opt(take_while1(|c| c == '.')),
-        separated_list(take_while1(|c| c == '.'), pn_chars1),
-    ))(i)
+    recognize(many0(preceded(take_while(|c| c == '.'), pn_chars1)))(i)
 }
 
 fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
@@ -324,13 +321,10 @@ pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
             take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
             plx,
         )),
-        recognize(pair(
-            opt(take_while1(|c| c == '.')),
-            separated_list(
-                take_while1(|c| c == '.'),
-                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
-            ),
-        )),
+        recognize(many0(preceded(
+            take_while(|c| c == '.'),
+            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
+        ))),
     ))(i)
 }
 
-- 
2.43.0


From 37d8ff35ccbe7b4a1c142b5f1bbfe9afbb630199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 06/28] fix: do not allow whitespace inside a token

`?`, `$`, `prefix:` and `_:` could be separated from the name that belongs to
them: `:a : :b` lost a term, `?s :p ? o` accepted a broken variable.
---
 src/graph.rs     | 2 +-
 src/terminals.rs | 4 ++--
 src/var.rs       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 34ca530..3b6fd15 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -262,7 +262,7 @@ pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
 pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
     alt((
         map(
-            sp_sep(
+            pair(
                 tag("_:"),
                 recognize(pair(
                     alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
diff --git a/src/terminals.rs b/src/terminals.rs
index c77fe3a..3fce447 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -333,11 +333,11 @@ pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
 }
 
 pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
+    pair(pname_ns, map(pn_local, String::from))(i)
 }
 
 #[inline]
diff --git a/src/var.rs b/src/var.rs
index fe04481..437e1ff 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -73,11 +73,11 @@ pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
 pub(crate) fn var(i: &str) -> IResult<&str, Var> {
     alt((
         map(
-            preceded(char('?'), preceded(sp, map(var_name, String::from))),
+            preceded(char('?'), map(var_name, String::from)),
             Var::QMark,
         ),
         map(
-            preceded(char('$'), preceded(sp, map(var_name, String::from))),
+            preceded(char('$'), map(var_name, String::from)),
             Var::Dollar,
         ),
     ))(i)
-- 
2.43.0


From 422656ff0c1567fb4ff2f45861060e6f0f8d9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 07/28] fix: let `(` and `[` start something that is not empty

`nil` and `anon` turn every bracket that is not closed at once into a hard
failure, so argument lists, IN lists, collections and blank node property
lists with content could never be parsed after them.
---
 src/graph.rs     | 2 +-
 src/terminals.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 3b6fd15..aa14eda 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -271,7 +271,7 @@ pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
             ),
             |(_, label)| BlankNode::Label(label.to_string()),
         ),
-        map(anon, |_| BlankNode::Anon),
+        map(delimited(char('['), sp, char(']')), |_| BlankNode::Anon),
     ))(i)
 }
 
diff --git a/src/terminals.rs b/src/terminals.rs
index 3fce447..2ee95d9 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -439,7 +439,7 @@ pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    preceded(char('('), cut(terminated(sp, char(')'))))(i)
+    delimited(char('('), sp, char(')'))(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From b88573154fdf23baed833ab69295220f0625e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 08/28] fix: lists whose items are separated by optional
 whitespace

nom's separated_list stops with an error when the separator matches nothing,
so two selected variables, dataset clauses, order, group or having
conditions, graph patterns, and operands in a row did not parse, or only
with or only without whitespace.
---
 src/arithmetic.rs      |  8 ++++----
 src/clauses.rs         |  6 +++---
 src/graph.rs           |  4 ++--
 src/group.rs           |  4 ++--
 src/operations.rs      |  4 ++--
 src/quads.rs           |  4 ++--
 src/query/ask.rs       |  4 ++--
 src/query/construct.rs |  6 +++---
 src/query/describe.rs  |  4 ++--
 src/query/select.rs    |  6 +++---
 src/terminals.rs       | 32 +++++++++++++++++++++++++-------
 src/var.rs             |  4 ++--
 12 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index a1f738b..9dc367b 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -6,7 +6,7 @@ use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, opt};
-use nom::multi::{separated_list, separated_nonempty_list};
+use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
 
@@ -119,7 +119,7 @@ pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression>
     map(
         pair(
             multiplicative_expression,
-            preceded(sp, separated_list(sp, add_expression)),
+            many0(preceded(sp, add_expression)),
         ),
         |(lhs, rhs)| AdditiveExpression { lhs, rhs },
     )(i)
@@ -138,7 +138,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         map(
             pair(
                 numeric_literal,
-                preceded(sp, separated_list(sp, mult_expression)),
+                many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
                 numeric,
@@ -152,7 +152,7 @@ pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, Multiplicative
     map(
         pair(
             unary_expression,
-            preceded(sp, separated_list(sp, mult_expression)),
+            many0(preceded(sp, mult_expression)),
         ),
         |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
     )(i)
diff --git a/src/clauses.rs b/src/clauses.rs
index 4e34570..5ce2591 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -19,7 +19,7 @@ use crate::{
     group::{group_clause, GroupClause},
     order::{order_condition, OrderCondition},
     quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, tag_no_case},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -72,7 +72,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, order_condition),
+            sp_list1(order_condition),
         ),
         OrderClause,
     )(i)
@@ -82,7 +82,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
             terminated(tag_no_case("having"), sp1),
-            separated_nonempty_list(sp, constraint),
+            sp_list1(constraint),
         ),
         HavingClause,
     )(i)
diff --git a/src/graph.rs b/src/graph.rs
index aa14eda..8f023cb 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,7 +23,7 @@ use crate::{
     terminals::sp_sep1,
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_sep, tag_no_case,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
     },
     triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
     var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
@@ -195,7 +195,7 @@ pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatter
     map(
         pair(
             opt(terminated(triples_block, sp)),
-            separated_list(sp, group_graph_pattern_and_triples),
+            sp_list0(group_graph_pattern_and_triples),
         ),
         |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
             triples_block,
diff --git a/src/group.rs b/src/group.rs
index 200bc3f..7eb4351 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -16,7 +16,7 @@ use crate::expression::{
     expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
 };
 
-use crate::terminals::{sp, sp1, tag_no_case};
+use crate::terminals::{sp, sp1, sp_list1, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -34,7 +34,7 @@ pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
             terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
-            separated_nonempty_list(sp, group_condition),
+            sp_list1(group_condition),
         ),
         GroupClause,
     )(i)
diff --git a/src/operations.rs b/src/operations.rs
index de5a399..d0dac18 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -19,7 +19,7 @@ use crate::{
     },
     literal::silent,
     quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
 };
 
 #[derive(Debug, Clone, Eq, PartialEq, new)]
@@ -97,7 +97,7 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
         tuple((
             opt(delimited(tag_no_case("where"), iri, sp1)),
             terminated(delete_insert, sp),
-            separated_list(sp, using_clause),
+            sp_list0(using_clause),
             sp_enc1(tag_no_case("where")),
             group_graph_pattern,
         )),
diff --git a/src/quads.rs b/src/quads.rs
index ee7342b..dd8d1e4 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1, tag_no_case},
+    terminals::{bracketted, sp, sp_enc, sp_list0, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -49,7 +49,7 @@ pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
 
 pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
     map(
-        pair(opt(terminated(triples_template, sp)), many0(quads_entry)),
+        pair(opt(terminated(triples_template, sp)), sp_list0(quads_entry)),
         |(first_triples, entries)| Quads {
             first_triple: first_triples,
             entries,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 9a3f6ba..8aebfc8 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1, tag_no_case};
+use crate::terminals::{sp, sp1, sp_list0, tag_no_case};
 use nom::combinator::map;
 use nom::multi::separated_list;
 use nom::sequence::{terminated, tuple};
@@ -18,7 +18,7 @@ pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
             terminated(tag_no_case("ask"), sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/construct.rs b/src/query/construct.rs
index a53decc..b356406 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -2,7 +2,7 @@ use crate::{
     clauses::{solution_modifier, where_clause, SolutionModifier},
     data::{data_set_clause, DataSetClause},
     graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
     triple::TriplesSameSubject,
     triple::{triples_same_subject, triples_template, TriplesTemplate},
     var::{var_or_iri, VarOrIri},
@@ -45,7 +45,7 @@ pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
 pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(tag_no_case("where"), sp1),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
@@ -62,7 +62,7 @@ pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
             terminated(construct_template, sp1),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
         )),
diff --git a/src/query/describe.rs b/src/query/describe.rs
index facb5a5..ab558f8 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, tag_no_case};
+use crate::terminals::{sp, sp_enc1, sp_list0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
@@ -25,7 +25,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
         tuple((
             tag_no_case("describe"),
             sp_enc1(var_or_iris_or_all),
-            terminated(separated_list(sp, data_set_clause), sp),
+            terminated(sp_list0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
         )),
diff --git a/src/query/select.rs b/src/query/select.rs
index d83fc2e..906c921 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -13,7 +13,7 @@ use crate::expression::{
 };
 use crate::graph::GroupGraphPattern;
 
-use crate::terminals::{sp, sp1, sp_enc, tag_no_case};
+use crate::terminals::{sp, sp1, sp_enc, sp_list0, sp_list1, tag_no_case};
 use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -54,7 +54,7 @@ pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
             terminated(select_clause, sp1),
-            separated_list(sp, data_set_clause),
+            sp_list0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
         )),
@@ -99,7 +99,7 @@ pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
     alt((
         map(char('*'), |_| SelectVars::All),
         map(
-            many1(var_or_expression_as_var),
+            sp_list1(var_or_expression_as_var),
             SelectVars::VarOrExpressionAsVar,
         ),
     ))(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 2ee95d9..383738c 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -147,6 +147,27 @@ where
     separated_pair(first, sp, second)
 }
 
+/// `pat`s with optional whitespace between them, at least one
+pub(crate) fn sp_list1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    move |i: &'a str| {
+        let (i, first) = pat(i)?;
+        let (i, mut list) = many0(preceded(sp, &pat))(i)?;
+        list.insert(0, first);
+        Ok((i, list))
+    }
+}
+
+/// `pat`s with optional whitespace between them, possibly none
+pub(crate) fn sp_list0<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    map(opt(sp_list1(pat)), Option::unwrap_or_default)
+}
+
 pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
     escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
 }
@@ -232,13 +253,10 @@ pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
 
 pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
     map(
-        separated_list(
-            sp1,
-            alt((
-                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
-                map(prefix_decl, BaseOrPrefixDecl::Prefix),
-            )),
-        ),
+        sp_list0(alt((
+            map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
+            map(prefix_decl, BaseOrPrefixDecl::Prefix),
+        ))),
         Prologue,
     )(i)
 }
diff --git a/src/var.rs b/src/var.rs
index 437e1ff..a3275da 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, tag_no_case};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, sp_list1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -86,7 +86,7 @@ pub(crate) fn var(i: &str) -> IResult<&str, Var> {
 pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
     alt((
         map(
-            separated_nonempty_list(sp, var_or_iri),
+            sp_list1(var_or_iri),
             VarOrIrisOrAll::VarIri,
         ),
         map(char('*'), |_| VarOrIrisOrAll::All),
-- 
2.43.0


From 6057b7efbec2689461deb55ef411eca6ab05504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 09/28] fix: whitespace is optional next to tokens that delimit
 themselves

`WHERE{`, `FILTER(?x)`, `SELECT*`, `}UNION{`, `<a><b><c>`, `DESC(?x)`,
`COUNT( ?x )`, `{} VALUES ...`, a DESCRIBE at the end of the input and many
more required whitespace, or forbade it, in places where SPARQL does not
care. Keywords are matched as whole words, so nothing needs a mandatory
separator any more. A comment may also end the input, and whitespace may
surround a complete statement.
---
 src/aggregate.rs       |  2 +-
 src/arithmetic.rs      |  2 +-
 src/call.rs            |  6 ++--
 src/clauses.rs         | 14 ++++-----
 src/expression/mod.rs  | 12 +++-----
 src/graph.rs           | 12 ++++----
 src/group.rs           |  2 +-
 src/operations.rs      | 22 ++++++-------
 src/order.rs           |  4 +--
 src/parser.rs          | 70 +++++++++++++++++++++---------------------
 src/path.rs            |  6 ++--
 src/quads.rs           |  6 +++-
 src/query/ask.rs       |  2 +-
 src/query/construct.rs |  4 +--
 src/query/describe.rs  |  4 +--
 src/query/select.rs    |  6 ++--
 src/terminals.rs       | 34 +++++++++++---------
 src/triple.rs          |  2 +-
 18 files changed, 108 insertions(+), 102 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index bad7692..a02ed34 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -93,7 +93,7 @@ pub(crate) fn count(i: &str) -> IResult<&str, Count> {
         preceded_tag(
             "count",
             bracketted(pair(
-                map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                 count_target,
             )),
         ),
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 9dc367b..5776f7b 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -176,7 +176,7 @@ pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
         map(preceded_tag("in", expression_list), OpExpression::IN),
         map(
             preceded(
-                terminated(tag_no_case("not"), sp_enc1(tag_no_case("in"))),
+                terminated(tag_no_case("not"), sp_enc(tag_no_case("in"))),
                 expression_list,
             ),
             OpExpression::NIN,
diff --git a/src/call.rs b/src/call.rs
index 4f65161..ddbf6b8 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -284,7 +284,7 @@ pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
         map(
             tuple((
                 tag_no_case("not"),
-                sp_enc1(tag_no_case("exists")),
+                sp_enc(tag_no_case("exists")),
                 group_graph_pattern,
             )),
             |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
@@ -299,10 +299,10 @@ pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
             delimited(
                 terminated(char('('), sp),
                 tuple((
-                    map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
                     separated_nonempty_list(sp_enc(char(',')), expression),
                 )),
-                char(')'),
+                preceded(sp, char(')')),
             ),
             |(distinct, expressions)| ArgList::Expression {
                 distinct,
diff --git a/src/clauses.rs b/src/clauses.rs
index 5ce2591..60c62a5 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -5,7 +5,7 @@ use nom::{
     combinator::map_res,
     combinator::{map, opt},
     multi::separated_nonempty_list,
-    sequence::{delimited, separated_pair, tuple},
+    sequence::{delimited, pair, tuple},
     sequence::{preceded, terminated},
     IResult,
 };
@@ -54,7 +54,7 @@ impl LimitOffsetClause {
 pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
     map(
         tuple((
-            opt(group_clause),
+            opt(preceded(sp, group_clause)),
             opt(preceded(sp, having_clause)),
             opt(preceded(sp, order_clause)),
             opt(preceded(sp, limit_offset_clause)),
@@ -71,7 +71,7 @@ pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
 pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp),
             sp_list1(order_condition),
         ),
         OrderClause,
@@ -81,7 +81,7 @@ pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
 pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
     map(
         preceded(
-            terminated(tag_no_case("having"), sp1),
+            terminated(tag_no_case("having"), sp),
             sp_list1(constraint),
         ),
         HavingClause,
@@ -90,7 +90,7 @@ pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
 
 pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
     preceded(
-        opt(terminated(tag_no_case("where"), sp1)),
+        opt(terminated(tag_no_case("where"), sp)),
         group_graph_pattern,
     )(i)
 }
@@ -138,11 +138,11 @@ pub(crate) fn offset_clause(i: &str) -> IResult<&str, u64> {
 pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
     alt((
         map(
-            separated_pair(limit_clause, sp, opt(offset_clause)),
+            pair(limit_clause, opt(preceded(sp, offset_clause))),
             |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
         ),
         map(
-            separated_pair(offset_clause, sp, opt(limit_clause)),
+            pair(offset_clause, opt(preceded(sp, limit_clause))),
             |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },
         ),
     ))(i)
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 4f94c36..7e7ab34 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -13,7 +13,7 @@ use crate::{
     call::{built_in_call, function_call, BuiltInCall, FunctionCall},
     literal::{boolean, distinct, numeric_literal, NumericLiteral},
     node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, tag_no_case},
 };
 
 use crate::var::{var, Var};
@@ -126,7 +126,7 @@ pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt
     delimited(
         char('('),
         sp_enc(map(
-            pair(expression, opt(preceded(sp_enc1(tag_no_case("as")), var))),
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
             |(expression, var)| ExpressionAsVarOpt {
                 expression: Box::new(expression),
                 var,
@@ -168,11 +168,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
     alt((
         map(nil, |_| ExpressionList::Nil),
         map(
-            delimited(
-                char('('),
-                separated_nonempty_list(sp_enc(char(',')), expression),
-                char(')'),
-            ),
+            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
             ExpressionList::List,
         ),
     ))(i)
@@ -181,7 +177,7 @@ pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
 pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
     map(
         pair(
-            map(opt(terminated(distinct, sp1)), Option::unwrap_or_default),
+            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
             expression,
         ),
         |(distinct, expression)| DistinctExpression {
diff --git a/src/graph.rs b/src/graph.rs
index 8f023cb..6e0b4ef 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -123,14 +123,14 @@ pub struct ServiceGraphPattern {
 }
 
 pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep1(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+    map(sp_sep(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
 }
 
 pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
     alt((
         map(tag_no_case("default"), |_| GraphOrDefault::Default),
         map(
-            pair(opt(pair(tag_no_case("graph"), sp1)), iri),
+            pair(opt(pair(tag_no_case("graph"), sp)), iri),
             |(_, iri)| GraphOrDefault::Graph(iri),
         ),
     ))(i)
@@ -166,7 +166,7 @@ pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNo
 
 pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
     map(
-        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
         GroupOrUnionGraphPattern,
     )(i)
 }
@@ -180,7 +180,7 @@ pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
 pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("graph"), sp1),
+            terminated(tag_no_case("graph"), sp),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
@@ -221,8 +221,8 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
 pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
     map(
         tuple((
-            terminated(tag_no_case("service"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            terminated(tag_no_case("service"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             terminated(var_or_iri, sp),
             group_graph_pattern,
         )),
diff --git a/src/group.rs b/src/group.rs
index 7eb4351..bdec56e 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -33,7 +33,7 @@ pub enum GroupCondition {
 pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
     map(
         preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp1),
+            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp),
             sp_list1(group_condition),
         ),
         GroupClause,
diff --git a/src/operations.rs b/src/operations.rs
index d0dac18..bc27aa2 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -87,7 +87,7 @@ pub enum DeleteInsert {
 
 pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
     map(
-        pair(pair(tag_no_case("add"), sp1), silent_from_to),
+        pair(pair(tag_no_case("add"), sp), silent_from_to),
         |(_, (silent, from, to))| AddStatement { silent, from, to },
     )(i)
 }
@@ -112,21 +112,21 @@ pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
 
 pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
     map(
-        pair(pair(tag_no_case("move"), sp1), silent_from_to),
+        pair(pair(tag_no_case("move"), sp), silent_from_to),
         |(_, (silent, from, to))| MoveStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
     map(
-        pair(pair(tag_no_case("copy"), sp1), silent_from_to),
+        pair(pair(tag_no_case("copy"), sp), silent_from_to),
         |(_, (silent, from, to))| CopyStatement { silent, from, to },
     )(i)
 }
 
 pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
     tuple((
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_or_default,
         preceded(sp_enc(tag_no_case("to")), graph_or_default),
     ))(i)
@@ -135,8 +135,8 @@ pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, Gr
 pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
     map(
         tuple((
-            pair(tag_no_case("create"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("create"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             graph_ref,
         )),
         |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
@@ -145,7 +145,7 @@ pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
 
 pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
     map(
-        pair(pair(tag_no_case("drop"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("drop"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| DropStatement {
             silent,
             graph_ref_all,
@@ -155,7 +155,7 @@ pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
 
 pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
     map(
-        pair(pair(tag_no_case("clear"), sp1), silent_graph_ref_all),
+        pair(pair(tag_no_case("clear"), sp), silent_graph_ref_all),
         |(_, (silent, graph_ref_all))| ClearStatement {
             silent,
             graph_ref_all,
@@ -165,7 +165,7 @@ pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
 
 pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
     pair(
-        map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
         graph_ref_all,
     )(i)
 }
@@ -173,8 +173,8 @@ pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)
 pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
     map(
         tuple((
-            pair(tag_no_case("load"), sp1),
-            map(opt(terminated(silent, sp1)), Option::unwrap_or_default),
+            pair(tag_no_case("load"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
             iri,
             opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
         )),
diff --git a/src/order.rs b/src/order.rs
index fa250b4..b2f8431 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -5,7 +5,7 @@ use nom::IResult;
 
 use crate::expression::functions::{constraint, Constraint};
 use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::{sp1, tag_no_case};
+use crate::terminals::{sp, tag_no_case};
 use crate::var::{var, Var};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -36,7 +36,7 @@ pub(crate) fn order(i: &str) -> IResult<&str, Order> {
 
 pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
     map(
-        separated_pair(order, sp1, bracketted_expression),
+        separated_pair(order, sp, bracketted_expression),
         |(order, expression)| OrderExpression { order, expression },
     )(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index 4ad7263..550d8ef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,35 +1,35 @@
-use crate::data::datablock;
-use crate::query::ask::ask_query;
-use crate::query::construct::construct_query;
-use crate::query::describe::describe_query;
-use crate::query::select::select_query;
-use crate::query::{SparqlQuery, SparqlQueryStatement};
-use crate::terminals::{preceded_tag1, prologue, sp, sp1};
-use nom::branch::alt;
-use nom::combinator::{map, opt};
-use nom::sequence::{preceded, terminated, tuple};
-use nom::IResult;
-
-pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
-    map(
-        tuple((
-            terminated(prologue, sp),
-            sparql_query,
-            opt(preceded(sp1, preceded_tag1("values", datablock))),
-        )),
-        |(prologue, query, values)| SparqlQueryStatement {
-            prologue,
-            query,
-            values,
-        },
-    )(i)
-}
-
-pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
-    alt((
-        map(select_query, SparqlQuery::Select),
-        map(construct_query, SparqlQuery::Construct),
-        map(describe_query, SparqlQuery::Describe),
-        map(ask_query, SparqlQuery::Ask),
-    ))(i)
-}
+use crate::data::datablock;
+use crate::query::ask::ask_query;
+use crate::query::construct::construct_query;
+use crate::query::describe::describe_query;
+use crate::query::select::select_query;
+use crate::query::{SparqlQuery, SparqlQueryStatement};
+use crate::terminals::{preceded_tag1, prologue, sp, sp1};
+use nom::branch::alt;
+use nom::combinator::{map, opt};
+use nom::sequence::{delimited, preceded, terminated, tuple};
+use nom::IResult;
+
+pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
+    map(
+        tuple((
+            delimited(sp, prologue, sp),
+            sparql_query,
+            delimited(sp, opt(preceded_tag1("values", datablock)), sp),
+        )),
+        |(prologue, query, values)| SparqlQueryStatement {
+            prologue,
+            query,
+            values,
+        },
+    )(i)
+}
+
+pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
+    alt((
+        map(select_query, SparqlQuery::Select),
+        map(construct_query, SparqlQuery::Construct),
+        map(describe_query, SparqlQuery::Describe),
+        map(ask_query, SparqlQuery::Ask),
+    ))(i)
+}
diff --git a/src/path.rs b/src/path.rs
index 516e34c..fe5bc3a 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -125,7 +125,7 @@ pub struct PathOneInPropertySet(pub IriOrAOrCaret);
 pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
     alt((
         map(
-            sp_sep1(var_or_term, property_list_path_not_empty),
+            sp_sep(var_or_term, property_list_path_not_empty),
             |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
                 var_or_term,
                 property_list,
@@ -152,7 +152,7 @@ pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyLi
 pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
     map(
         tuple((
-            terminated(verb_path_or_simple, sp1),
+            terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
         )),
@@ -184,7 +184,7 @@ pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
 
 pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
     map(
-        separated_pair(verb_path_or_simple, sp1, object_list),
+        separated_pair(verb_path_or_simple, sp, object_list),
         |(verb_path_or_simple, object_list)| PropertyListPathEntry {
             verb_path_or_simple,
             object_list,
diff --git a/src/quads.rs b/src/quads.rs
index dd8d1e4..97e9a1f 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -73,7 +73,11 @@ pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
 
 pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
-        separated_pair(quads_not_triples, opt(char('.')), opt(triples_template)),
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, triples_template)),
+        ),
         |(quads_not_triples, triples_template)| QuadsEntry {
             quads_not_triples,
             triples_template,
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 8aebfc8..280fefe 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -17,7 +17,7 @@ pub struct AskQuery {
 pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
     map(
         tuple((
-            terminated(tag_no_case("ask"), sp1),
+            terminated(tag_no_case("ask"), sp),
             terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index b356406..fada1ed 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -46,7 +46,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
     map(
         tuple((
             terminated(sp_list0(data_set_clause), sp),
-            terminated(tag_no_case("where"), sp1),
+            terminated(tag_no_case("where"), sp),
             delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
             preceded(sp, solution_modifier),
         )),
@@ -61,7 +61,7 @@ pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
 pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
     map(
         tuple((
-            terminated(construct_template, sp1),
+            terminated(construct_template, sp),
             terminated(sp_list0(data_set_clause), sp),
             terminated(where_clause, sp),
             solution_modifier,
diff --git a/src/query/describe.rs b/src/query/describe.rs
index ab558f8..91f80f3 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,7 +1,7 @@
 use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
 use crate::data::{data_set_clause, DataSetClause};
 use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc1, sp_list0, tag_no_case};
+use crate::terminals::{sp, sp_enc, sp_list0, tag_no_case};
 use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
 use nom::{
     branch::alt,
@@ -24,7 +24,7 @@ pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
     map(
         tuple((
             tag_no_case("describe"),
-            sp_enc1(var_or_iris_or_all),
+            sp_enc(var_or_iris_or_all),
             terminated(sp_list0(data_set_clause), sp),
             opt(terminated(where_clause, sp)),
             solution_modifier,
diff --git a/src/query/select.rs b/src/query/select.rs
index 906c921..e893170 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -53,7 +53,7 @@ pub enum SelectModifier {
 pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
     map(
         tuple((
-            terminated(select_clause, sp1),
+            terminated(select_clause, sp),
             sp_list0(data_set_clause),
             sp_enc(where_clause),
             solution_modifier,
@@ -88,8 +88,8 @@ pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
     map(
         tuple((
             tag_no_case("select"),
-            opt(preceded(sp1, select_modifier)),
-            preceded(sp1, select_vars),
+            opt(preceded(sp, select_modifier)),
+            preceded(sp, select_vars),
         )),
         |(_, modifier, vars)| SelectClause { modifier, vars },
     )(i)
diff --git a/src/terminals.rs b/src/terminals.rs
index 383738c..030137e 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -65,7 +65,7 @@ pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a s
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    delimited(char('('), pat, char(')'))
+    delimited(char('('), sp_enc(pat), char(')'))
 }
 
 #[inline]
@@ -76,7 +76,7 @@ pub(crate) fn preceded_tag1<'a, O1, F>(
 where
     F: Fn(&'a str) -> IResult<&'a str, O1>,
 {
-    preceded(terminated(tag_no_case(tag), sp1), pat)
+    preceded(terminated(tag_no_case(tag), sp), pat)
 }
 
 #[inline]
@@ -101,9 +101,9 @@ pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(preceded(char('#'), many0(none_of("\n\r")))),
-        one_of("\r\n"),
+    alt((
+        recognize(pair(char('#'), take_while(|c| c != '\n' && c != '\r'))),
+        recognize(one_of("\r\n")),
     ))(i)
 }
 
@@ -198,13 +198,19 @@ pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
     map(
         pair(
             map(string_literal, String::from),
-            opt(alt((
-                map(
-                    map(language_tag, String::from),
-                    RdfLiteralDescriptor::LangTag,
-                ),
-                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
-            ))),
+            opt(preceded(
+                sp,
+                alt((
+                    map(
+                        map(language_tag, String::from),
+                        RdfLiteralDescriptor::LangTag,
+                    ),
+                    map(
+                        preceded(terminated(tag("^^"), sp), iri),
+                        RdfLiteralDescriptor::IriRef,
+                    ),
+                )),
+            )),
         ),
         |(literal, descriptor)| RdfLiteral {
             literal,
@@ -237,7 +243,7 @@ pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
 }
 
 pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
+    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)
 }
 
 pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
@@ -302,7 +308,7 @@ pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
 
 pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
     map(
-        pair(iri, opt(preceded(sp1, arg_list))),
+        pair(iri, opt(preceded(sp, arg_list))),
         |(iri, arg_list)| IriOrFunction { iri, arg_list },
     )(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index ee6f08c..0be29e5 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -113,7 +113,7 @@ pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject>
             },
         ),
         map(
-            sp_sep1(var_or_term, property_list_not_empty),
+            sp_sep(var_or_term, property_list_not_empty),
             |(var_or_term, property_list)| TriplesSameSubject::Term {
                 var_or_term,
                 property_list,
-- 
2.43.0


From 215bde891925f03eeb94a03dcbd7dfdb4d9d8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 10/28] fix: parse DELETE/INSERT ... WHERE updates

The delete clause looked for the keyword OFFSET, the WITH clause for WHERE,
and WHERE itself for whitespace that was already consumed.
---
 src/clauses.rs    | 2 +-
 src/operations.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/clauses.rs b/src/clauses.rs
index 60c62a5..5705c7e 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -106,7 +106,7 @@ pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
 
 #[inline]
 pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("offset", quads_pattern)(i)
+    preceded_tag1("delete", quads_pattern)(i)
 }
 
 #[inline]
diff --git a/src/operations.rs b/src/operations.rs
index bc27aa2..8090636 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -95,10 +95,10 @@ pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
 pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
     map(
         tuple((
-            opt(delimited(tag_no_case("where"), iri, sp1)),
+            opt(terminated(preceded_tag1("with", iri), sp)),
             terminated(delete_insert, sp),
-            sp_list0(using_clause),
-            sp_enc1(tag_no_case("where")),
+            terminated(sp_list0(using_clause), sp),
+            terminated(tag_no_case("where"), sp),
             group_graph_pattern,
         )),
         |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-- 
2.43.0


From e13f77f8d4e8487dd285f7de86bac46f34263dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 11/28] fix: parse ADD and MOVE updates

The statements existed but were missing from the list of alternatives. An
update may also start with whitespace.
---
 src/update.rs | 166 +++++++++++++++++++++++++-------------------------
 1 file changed, 84 insertions(+), 82 deletions(-)

diff --git a/src/update.rs b/src/update.rs
index 2f79543..5283a71 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -1,82 +1,84 @@
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    sequence::preceded,
-    sequence::{pair, tuple},
-    IResult,
-};
-
-use crate::operations::{
-    clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt, insert_data,
-    load_stmt, modify_stmt, AddStatement, ClearStatement, CopyStatement, CreateStatement,
-    DropStatement, LoadStatement, ModifyStatement, MoveStatement,
-};
-use crate::prologue::Prologue;
-use crate::quads::Quads;
-use crate::terminals::{prologue, sp, sp_enc};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Update {
-    pub prologue: Prologue,
-    pub update_stmt: Option<UpdateStatement>,
-    pub inner_update: Option<Box<Update>>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum UpdateStatement {
-    Load(LoadStatement),
-    Clear(ClearStatement),
-    Drop(DropStatement),
-    Create(CreateStatement),
-    Add(AddStatement),
-    Move(MoveStatement),
-    Copy(CopyStatement),
-    InsertData(Quads),
-    DeleteData(Quads),
-    DeleteWhere(Quads),
-    Modify(Box<ModifyStatement>),
-}
-
-pub(crate) fn update(i: &str) -> IResult<&str, Update> {
-    map(
-        tuple((
-            prologue,
-            opt(pair(
-                preceded(sp, update_stmt),
-                opt(preceded(sp_enc(char(';')), map(update, Box::new))),
-            )),
-        )),
-        |(prologue, opts)| {
-            if let Some((update_stmt, inner_update)) = opts {
-                Update {
-                    prologue,
-                    update_stmt: Some(update_stmt),
-                    inner_update,
-                }
-            } else {
-                Update {
-                    prologue,
-                    update_stmt: None,
-                    inner_update: None,
-                }
-            }
-        },
-    )(i)
-}
-
-pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
-    alt((
-        map(load_stmt, UpdateStatement::Load),
-        map(clear_stmt, UpdateStatement::Clear),
-        map(drop_stmt, UpdateStatement::Drop),
-        map(create_stmt, UpdateStatement::Create),
-        map(copy_stmt, UpdateStatement::Copy),
-        map(insert_data, UpdateStatement::InsertData),
-        map(delete_data, UpdateStatement::DeleteData),
-        map(delete_where_data, UpdateStatement::DeleteWhere),
-        map(modify_stmt, |modify| {
-            UpdateStatement::Modify(Box::new(modify))
-        }),
-    ))(i)
-}
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    sequence::preceded,
+    sequence::{pair, tuple},
+    IResult,
+};
+
+use crate::operations::{
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement,
+    CreateStatement, DropStatement, LoadStatement, ModifyStatement, MoveStatement,
+};
+use crate::prologue::Prologue;
+use crate::quads::Quads;
+use crate::terminals::{prologue, sp, sp_enc};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Update {
+    pub prologue: Prologue,
+    pub update_stmt: Option<UpdateStatement>,
+    pub inner_update: Option<Box<Update>>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum UpdateStatement {
+    Load(LoadStatement),
+    Clear(ClearStatement),
+    Drop(DropStatement),
+    Create(CreateStatement),
+    Add(AddStatement),
+    Move(MoveStatement),
+    Copy(CopyStatement),
+    InsertData(Quads),
+    DeleteData(Quads),
+    DeleteWhere(Quads),
+    Modify(Box<ModifyStatement>),
+}
+
+pub(crate) fn update(i: &str) -> IResult<&str, Update> {
+    map(
+        tuple((
+            preceded(sp, prologue),
+            opt(pair(
+                preceded(sp, update_stmt),
+                opt(preceded(sp_enc(char(';')), map(update, Box::new))),
+            )),
+        )),
+        |(prologue, opts)| {
+            if let Some((update_stmt, inner_update)) = opts {
+                Update {
+                    prologue,
+                    update_stmt: Some(update_stmt),
+                    inner_update,
+                }
+            } else {
+                Update {
+                    prologue,
+                    update_stmt: None,
+                    inner_update: None,
+                }
+            }
+        },
+    )(i)
+}
+
+pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
+    alt((
+        map(load_stmt, UpdateStatement::Load),
+        map(clear_stmt, UpdateStatement::Clear),
+        map(drop_stmt, UpdateStatement::Drop),
+        map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
+        map(copy_stmt, UpdateStatement::Copy),
+        map(insert_data, UpdateStatement::InsertData),
+        map(delete_data, UpdateStatement::DeleteData),
+        map(delete_where_data, UpdateStatement::DeleteWhere),
+        map(modify_stmt, |modify| {
+            UpdateStatement::Modify(Box::new(modify))
+        }),
+    ))(i)
+}
-- 
2.43.0


From 39929973c06fa5c599b40cb15fb1186c70ab908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 12/28] fix: separators of sequence paths and of object lists
 in patterns

A path sequence is separated by `/`, not by `|`, and the objects of a triple
pattern by `,`, not by `;`.
---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index fe5bc3a..6690b5d 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -177,7 +177,7 @@ pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
 
 pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
     map(
-        separated_nonempty_list(sp_enc(tag(";")), graph_node_path),
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
         ObjectListPath,
     )(i)
 }
@@ -221,7 +221,7 @@ pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
 
 pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
     map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_elt_or_inverse),
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
         PathSequence,
     )(i)
 }
-- 
2.43.0


From a724bc111034bb255df239474e4872ec245c7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 13/28] fix: path modifiers directly behind the path, not the
 next variable

The modifier needed whitespace in front of it, took the `?` of the variable
that follows the path, answered Incomplete at the end of the input and
panicked on a non ASCII character.
---
 src/path.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 6690b5d..5cda438 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
+use nom::character::complete::{char, digit1};
+use nom::combinator::{map, not, opt};
 use nom::error::ErrorKind;
 use nom::multi::{many0, many1, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
@@ -20,7 +20,7 @@ use crate::expression::Iri;
 use crate::node::ObjectList;
 use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
 use crate::triple::object_list;
-use crate::var::{var, var_or_term, Var, VarOrTerm};
+use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 pub enum GraphNodePath {
@@ -250,7 +250,7 @@ pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
 
 pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
     map(
-        pair(path_primary, opt(preceded(sp1, path_mod))),
+        pair(path_primary, opt(preceded(sp, path_mod))),
         |(path_primary, path_mod)| PathElt {
             path_primary,
             path_mod,
@@ -274,13 +274,17 @@ pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInProper
 }
 
 pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    if i.is_empty() {
-        Err(Err::Incomplete(Needed::Size(1)))
-    } else if let Ok(path) = PathMod::from_str(&i[0..1]) {
-        Ok((&i[1..], path))
-    } else {
-        Err(Err::Error((i, ErrorKind::Char)))
-    }
+    alt((
+        // `?o` is a variable and `+5` a number
+        map(terminated(char('?'), not(var_name)), |_| {
+            PathMod::QuestionMark
+        }),
+        map(char('*'), |_| PathMod::Asterisk),
+        map(
+            terminated(char('+'), not(pair(opt(char('.')), digit1))),
+            |_| PathMod::Plus,
+        ),
+    ))(i)
 }
 
 #[inline]
-- 
2.43.0


From b6d0caa10dedab34dbfc9a15ffd27e54d7201f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 14/28] fix: negated property sets, and whitespace in path and
 pattern brackets

`!:p` and `!()` are valid negated property sets, and the brackets of a path
or of a collection may contain whitespace.
---
 src/expression/iri.rs |  6 +++---
 src/path.rs           | 26 ++++++++++++++++----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index d4b8b0e..b846cd3 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,9 +1,9 @@
 use crate::expression::Iri;
-use crate::terminals::{iri, tag_no_case};
+use crate::terminals::{iri, sp, tag_no_case};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::sequence::{preceded, terminated};
 use nom::IResult;
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -25,6 +25,6 @@ pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
     alt((
         map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(char('^'), iri_or_a), IriOrAOrCaret::Caret),
+        map(preceded(terminated(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
     ))(i)
 }
diff --git a/src/path.rs b/src/path.rs
index 5cda438..d5e9708 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -3,7 +3,7 @@ use std::str::FromStr;
 use nom::character::complete::{char, digit1};
 use nom::combinator::{map, not, opt};
 use nom::error::ErrorKind;
-use nom::multi::{many0, many1, separated_nonempty_list};
+use nom::multi::{many0, many1, separated_list, separated_nonempty_list};
 use nom::sequence::{delimited, pair, separated_pair, tuple};
 use nom::Err;
 use nom::{
@@ -199,7 +199,7 @@ pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
             TriplesNodePath::BlankNodePropertyListPath,
         ),
         map(
-            delimited(tag("("), many1(graph_node_path), tag(")")),
+            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
             TriplesNodePath::CollectionPath,
         ),
     ))(i)
@@ -231,11 +231,11 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
         map(iri, PathPrimary::Iri),
         map(tag("a"), |_| PathPrimary::A),
         map(
-            preceded(tag("!"), path_negated_property_set),
+            preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
         ),
         map(
-            delimited(tag("("), path_alternative, tag(")")),
+            delimited(tag("("), sp_enc(path_alternative), tag(")")),
             PathPrimary::Path,
         ),
     ))(i)
@@ -244,7 +244,10 @@ pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
 pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
     alt((
         map(path_elt, PathEltOrInverse::PathElt),
-        map(preceded(tag("^"), path_elt), PathEltOrInverse::Inverse),
+        map(
+            preceded(terminated(tag("^"), sp), path_elt),
+            PathEltOrInverse::Inverse,
+        ),
     ))(i)
 }
 
@@ -260,11 +263,14 @@ pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
 
 pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
     map(
-        delimited(
-            terminated(tag("("), sp),
-            separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-            preceded(sp, tag(")")),
-        ),
+        alt((
+            delimited(
+                terminated(tag("("), sp),
+                separated_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+            map(path_one_in_property_set, |one| vec![one]),
+        )),
         PathNegatedPropertySet,
     )(i)
 }
-- 
2.43.0


From 84c5128c20991af54fe296253a04b24547d94a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 15/28] fix: triples may end with a `.` and property lists with
 a `;`

The last triple of a group pattern or CONSTRUCT template could not be
terminated, nor the last property of a subject in a group pattern.
---
 src/path.rs            | 3 ++-
 src/query/construct.rs | 4 ++--
 src/triple.rs          | 5 ++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index d5e9708..5a97b7b 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -155,8 +155,9 @@ pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyLis
             terminated(verb_path_or_simple, sp),
             object_list_path,
             many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            many0(preceded(sp, char(';'))),
         )),
-        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
+        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
             verb_path_or_simple,
             object_list_path,
             entries,
diff --git a/src/query/construct.rs b/src/query/construct.rs
index fada1ed..88e8444 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -89,9 +89,9 @@ pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
     map(
         delimited(
             terminated(char('{'), sp),
-            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
+            opt(triples_template),
             preceded(sp, char('}')),
         ),
-        ConstructTemplate,
+        |triples| ConstructTemplate(triples.unwrap_or_default()),
     )(i)
 }
diff --git a/src/triple.rs b/src/triple.rs
index 0be29e5..3fef958 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -91,7 +91,10 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+        terminated(
+            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
+            opt(preceded(sp, char('.'))),
+        ),
         TriplesBlock,
     )(i)
 }
-- 
2.43.0


From 50ca5d3813009fe31de46c58b953a89cba8b0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 16/28] fix: graph patterns are separated from triples by a `.`

... and not by a `?`, which was taken from the variable that followed.
---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 6e0b4ef..c3eae10 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('?'))),
+            opt(preceded(sp, char('.'))),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
-- 
2.43.0


From 1de2c9426c873907053e799b257dcb448569c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 17/28] fix: the verb `a` is a lower case word of its own

Patterns took the first letter of any word for it, templates also accepted
an upper case `A`.
---
 src/expression/iri.rs | 4 ++--
 src/path.rs           | 6 ++++--
 src/terminals.rs      | 5 +++++
 src/var.rs            | 4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index b846cd3..7390e51 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,5 +1,5 @@
 use crate::expression::Iri;
-use crate::terminals::{iri, sp, tag_no_case};
+use crate::terminals::{iri, sp, verb_a};
 use nom::branch::alt;
 use nom::character::complete::char;
 use nom::combinator::map;
@@ -19,7 +19,7 @@ pub enum IriOrA {
 }
 
 pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(tag_no_case("a"), |_| IriOrA::A)))(i)
+    alt((map(iri, IriOrA::Iri), map(verb_a, |_| IriOrA::A)))(i)
 }
 
 pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
diff --git a/src/path.rs b/src/path.rs
index 5a97b7b..5826894 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -18,7 +18,9 @@ use nom::{
 use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
 use crate::expression::Iri;
 use crate::node::ObjectList;
-use crate::terminals::{anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1};
+use crate::terminals::{
+    anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1, verb_a,
+};
 use crate::triple::object_list;
 use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
 
@@ -230,7 +232,7 @@ pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
 pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
     alt((
         map(iri, PathPrimary::Iri),
-        map(tag("a"), |_| PathPrimary::A),
+        map(verb_a, |_| PathPrimary::A),
         map(
             preceded(terminated(tag("!"), sp), path_negated_property_set),
             PathPrimary::PathNegatedPropertySet,
diff --git a/src/terminals.rs b/src/terminals.rs
index 030137e..e73f153 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -49,6 +49,11 @@ pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a s
     }
 }
 
+/// The verb `a`, the only keyword that is case sensitive
+pub(crate) fn verb_a(i: &str) -> IResult<&str, &str> {
+    preceded(peek(char('a')), tag_no_case("a"))(i)
+}
+
 #[inline]
 pub(crate) fn preceded_bracketted<'a, O1, F>(
     tag: &'a str,
diff --git a/src/var.rs b/src/var.rs
index a3275da..3841a18 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,7 +1,7 @@
 use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
 use crate::graph::{graph_term, GraphTerm};
 use crate::node::ObjectList;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, sp_list1, tag_no_case};
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, sp_list1, tag_no_case, verb_a};
 use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
@@ -62,7 +62,7 @@ pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
 pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
     alt((
         map(var_or_iri, Verb::VarOrIri),
-        map(tag_no_case("a"), |_| Verb::A),
+        map(verb_a, |_| Verb::A),
     ))(i)
 }
 
-- 
2.43.0


From f7e52d5e4ebad7f3e21b04b77f5f3dd816c10617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 18/28] fix: ABS, CEIL, FLOOR, ROUND and CONTAINS are functions
 of their own

The first four were returned as URI calls and CONTAINS was only recognised
under the name STRLEN.
---
 src/call.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index ddbf6b8..5b0ebd9 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -119,10 +119,10 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Bnode,
         ),
         map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Uri),
-        map(preceded_bracketted("round", expression), BuiltInCall::Uri),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
             preceded_tag1(
                 "concat",
@@ -145,7 +145,7 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         ),
         map(
             preceded_bracketted(
-                "strlen",
+                "contains",
                 separated_pair(expression, sp_enc(char(',')), expression),
             ),
             BuiltInCall::Contains,
-- 
2.43.0


From 5235a3d17b8f5e8e2be774f3991281036ce3203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 19/28] fix: functions without arguments take one pair of
 parentheses

RAND, NOW, UUID, STRUUID and BNODE were only accepted as `RAND(())`.
---
 src/call.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 5b0ebd9..8ac1f37 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -19,7 +19,10 @@ use crate::{
     },
     graph::{group_graph_pattern, GroupGraphPattern},
     literal::distinct,
-    terminals::{iri, nil, preceded_bracketted, preceded_tag1, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+    terminals::{
+        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1, tag_no_case,
+    },
     var::{var, Var},
 };
 
@@ -112,13 +115,13 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
         map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
         map(
-            preceded_bracketted(
+            preceded_tag(
                 "bnode",
-                alt((map(expression, Option::Some), map(nil, |_| None))),
+                alt((map(nil, |_| None), map(bracketted(expression), Option::Some))),
             ),
             BuiltInCall::Bnode,
         ),
-        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
         map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
         map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
@@ -200,9 +203,9 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             BuiltInCall::Timezone,
         ),
         map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),
-        map(preceded_bracketted("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_bracketted("struuid", nil), |_| {
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| {
             BuiltInCall::StrUUID
         }),
     ))(i)
-- 
2.43.0


From 3fde85c683eadf071fbcb590c00490cf525e2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 20/28] fix: CONCAT, SUBSTR, STRLEN and REPLACE are four
 functions

The grammar lists CONCAT(...) | SUBSTR(...) | STRLEN(...) | REPLACE(...);
two of the bars were overlooked, so that CONCAT had to be followed by SUBSTR
and STRLEN by the arguments of REPLACE. None of the four could be parsed on
its own.
---
 src/call.rs                 |  18 ++--
 src/expression/functions.rs | 187 ++++++++++++++++++------------------
 2 files changed, 103 insertions(+), 102 deletions(-)

diff --git a/src/call.rs b/src/call.rs
index 8ac1f37..a0cc37f 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -48,8 +48,10 @@ pub enum BuiltInCall {
     Ceil(Expression),
     Floor(Expression),
     Round(Expression),
-    Concat((ExpressionList, SubstringExpression)),
-    StrLen((Expression, StrReplaceExpression)),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
     UCase(Expression),
     LCase(Expression),
     EncodeForUri(Expression),
@@ -127,17 +129,11 @@ fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
         map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
         map(preceded_bracketted("round", expression), BuiltInCall::Round),
         map(
-            preceded_tag1(
-                "concat",
-                separated_pair(expression_list, sp, substring_expression),
-            ),
+            preceded_tag1("concat", expression_list),
             BuiltInCall::Concat,
         ),
         map(
-            preceded_tag1(
-                "strlen",
-                separated_pair(bracketted_expression, sp, str_replace_expression),
-            ),
+            preceded_bracketted("strlen", expression),
             BuiltInCall::StrLen,
         ),
         map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
@@ -186,6 +182,8 @@ fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
             ),
             BuiltInCall::StrAfter,
         ),
+        map(substring_expression, BuiltInCall::SubStr),
+        map(str_replace_expression, BuiltInCall::Replace),
         map(preceded_bracketted("year", expression), BuiltInCall::Year),
         map(preceded_bracketted("month", expression), BuiltInCall::Month),
         map(preceded_bracketted("day", expression), BuiltInCall::Day),
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index e0c1db7..ad7f467 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,92 +1,95 @@
-use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
-use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
-use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_tag1, sp_enc};
-use nom::branch::alt;
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct RegexExpression {
-    pub first: Expression,
-    pub second: Expression,
-    pub third: Option<Expression>,
-}
-
-pub type SubstringExpression = RegexExpression;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct StrReplaceExpression {
-    pub first: Expression,
-    pub second: Expression,
-    pub third: Expression,
-    pub fourth: Option<Expression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Constraint {
-    Bracketted(Expression),
-    BuiltInCall(BuiltInCall),
-    FunctionCall(FunctionCall),
-}
-
-pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
-    map(
-        preceded_tag1("regex", bracketted_expr3),
-        |(first, second, third)| RegexExpression {
-            first,
-            second,
-            third,
-        },
-    )(i)
-}
-
-pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
-    map(
-        preceded_tag1("substr", bracketted_expr3),
-        |(first, second, third)| SubstringExpression {
-            first,
-            second,
-            third,
-        },
-    )(i)
-}
-
-pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
-    map(
-        bracketted(tuple((
-            expression,
-            preceded(sp_enc(char(',')), expression),
-            preceded(sp_enc(char(',')), expression),
-            opt(preceded(sp_enc(char(',')), expression)),
-        ))),
-        |(first, second, third, fourth)| StrReplaceExpression {
-            first,
-            second,
-            third,
-            fourth,
-        },
-    )(i)
-}
-
-pub(crate) fn constraint(i: &str) -> IResult<&str, Constraint> {
-    alt((
-        map(bracketted_expression, Constraint::Bracketted),
-        map(built_in_call, Constraint::BuiltInCall),
-        map(function_call, Constraint::FunctionCall),
-    ))(i)
-}
-
-pub(crate) fn filter(i: &str) -> IResult<&str, Constraint> {
-    preceded_tag1("filter", constraint)(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_filter() {}
-}
+use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
+use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
+use crate::literal::StringLiteral;
+use crate::terminals::{bracketted, preceded_bracketted, preceded_tag1, sp_enc};
+use nom::branch::alt;
+use nom::character::complete::char;
+use nom::combinator::{map, opt};
+use nom::sequence::{preceded, tuple};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct RegexExpression {
+    pub first: Expression,
+    pub second: Expression,
+    pub third: Option<Expression>,
+}
+
+pub type SubstringExpression = RegexExpression;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct StrReplaceExpression {
+    pub first: Expression,
+    pub second: Expression,
+    pub third: Expression,
+    pub fourth: Option<Expression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Constraint {
+    Bracketted(Expression),
+    BuiltInCall(BuiltInCall),
+    FunctionCall(FunctionCall),
+}
+
+pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
+    map(
+        preceded_tag1("regex", bracketted_expr3),
+        |(first, second, third)| RegexExpression {
+            first,
+            second,
+            third,
+        },
+    )(i)
+}
+
+pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
+    map(
+        preceded_tag1("substr", bracketted_expr3),
+        |(first, second, third)| SubstringExpression {
+            first,
+            second,
+            third,
+        },
+    )(i)
+}
+
+pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
+    map(
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
+        |(first, second, third, fourth)| StrReplaceExpression {
+            first,
+            second,
+            third,
+            fourth,
+        },
+    )(i)
+}
+
+pub(crate) fn constraint(i: &str) -> IResult<&str, Constraint> {
+    alt((
+        map(bracketted_expression, Constraint::Bracketted),
+        map(built_in_call, Constraint::BuiltInCall),
+        map(function_call, Constraint::FunctionCall),
+    ))(i)
+}
+
+pub(crate) fn filter(i: &str) -> IResult<&str, Constraint> {
+    preceded_tag1("filter", constraint)(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_filter() {}
+}
-- 
2.43.0


From b16bf8e2762ddec35731df3e34dc647045103fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 21/28] fix: a simple literal is not compatible with a language
 tagged one

The branch for simple literals was the wrong way round.
---
 src/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index b91c158..78b0c83 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -38,9 +38,9 @@ impl StringLiteral {
         match self {
             StringLiteral::Simple(_) => {
                 if let StringLiteral::Language(_) = arg2 {
-                    true
-                } else {
                     false
+                } else {
+                    true
                 }
             }
             StringLiteral::Language((_, lang)) => {
-- 
2.43.0


From 98c761378ca16e7a6a68223abba360dc6b7bbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 22/28] fix: two numbers in a row are not a sum

Only a signed number may follow an operand without an operator; `(1 2)` and
`?x 1` were accepted as additions.
---
 src/arithmetic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 5776f7b..0db4c2d 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -5,7 +5,8 @@ use crate::literal::{numeric_literal, NumericLiteral};
 use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, opt};
+use nom::character::complete::one_of;
+use nom::combinator::{map, opt, peek};
 use nom::multi::{many0, separated_nonempty_list};
 use nom::sequence::{pair, preceded, terminated};
 use nom::IResult;
@@ -137,7 +138,7 @@ pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
         ),
         map(
             pair(
-                numeric_literal,
+                preceded(peek(one_of("+-")), numeric_literal),
                 many0(preceded(sp, mult_expression)),
             ),
             |(numeric, expressions)| AddExpression::Numeric {
-- 
2.43.0


From 1415ae455e148721ee4abed975bee52a494cdf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 23/28] hook: expose the update grammar under
 cfg(nom_sparql_verif)

---
 src/lib.rs | 75 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84d5e83..73f5742 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,33 +1,42 @@
-//#![deny(missing_docs)]
-
-#![allow(unused)]
-
-#[macro_use]
-extern crate derive_new;
-
-/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
-pub mod aggregate;
-pub mod arithmetic;
-pub mod call;
-pub mod clauses;
-pub mod data;
-pub mod expression;
-pub mod graph;
-pub mod group;
-pub mod literal;
-pub mod node;
-pub mod operations;
-pub mod order;
-pub mod parser;
-pub mod path;
-pub mod prologue;
-pub mod quads;
-pub mod query;
-pub mod read;
-pub mod terminals;
-pub mod triple;
-pub mod update;
-pub mod var;
-pub mod write;
-
-pub mod mimes {}
+//#![deny(missing_docs)]
+
+#![allow(unused)]
+
+#[macro_use]
+extern crate derive_new;
+
+/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
+pub mod aggregate;
+pub mod arithmetic;
+pub mod call;
+pub mod clauses;
+pub mod data;
+pub mod expression;
+pub mod graph;
+pub mod group;
+pub mod literal;
+pub mod node;
+pub mod operations;
+pub mod order;
+pub mod parser;
+pub mod path;
+pub mod prologue;
+pub mod quads;
+pub mod query;
+pub mod read;
+pub mod terminals;
+pub mod triple;
+pub mod update;
+pub mod var;
+pub mod write;
+
+pub mod mimes {}
+
+/// Entry points for the verification harness, which cannot reach them otherwise.
+#[allow(unexpected_cfgs)]
+#[cfg(nom_sparql_verif)]
+pub mod verif_hooks {
+    pub fn update(i: &str) -> nom::IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+}
-- 
2.43.0


From 70433d4e0e2427effcaeb8c4c86c63457973a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 24/28] fix: a dot in front of a digit begins a decimal

In `{ } .25 ?p ?o` the dot was read as the separator and the subject as the
integer 25; the longest token there is the decimal .25.
---
 src/graph.rs     |  4 ++--
 src/quads.rs     |  4 ++--
 src/terminals.rs |  5 +++++
 src/triple.rs    | 10 +++++-----
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index c3eae10..9866992 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -20,7 +20,7 @@ use crate::{
     node::{BlankNode, RdfLiteral, TriplesNode},
     quads::{quads_pattern, Quads},
     query::select::{sub_select, SubSelect},
-    terminals::sp_sep1,
+    terminals::{dot, sp_sep1},
     terminals::{
         anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
         preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
@@ -208,7 +208,7 @@ pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPat
     map(
         separated_pair(
             graph_pattern_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_block)),
         ),
         |(graph_pattern, triples)| GraphPatternAndTriples {
diff --git a/src/quads.rs b/src/quads.rs
index 97e9a1f..d4c7d7c 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_list0, sp_sep, sp_sep1, tag_no_case},
+    terminals::{bracketted, dot, sp, sp_enc, sp_list0, sp_sep, sp_sep1, tag_no_case},
     triple::{triples_template, TriplesTemplate},
     var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
 };
@@ -75,7 +75,7 @@ pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
     map(
         separated_pair(
             quads_not_triples,
-            opt(preceded(sp, char('.'))),
+            opt(preceded(sp, dot)),
             opt(preceded(sp, triples_template)),
         ),
         |(quads_not_triples, triples_template)| QuadsEntry {
diff --git a/src/terminals.rs b/src/terminals.rs
index e73f153..e8c0d3a 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -65,6 +65,11 @@ where
     preceded_tag(tag, bracketted(pat))
 }
 
+/// The `.` that ends triples, in front of a digit it begins a decimal
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
 #[inline]
 pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
 where
diff --git a/src/triple.rs b/src/triple.rs
index 3fef958..3b7ac15 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -16,7 +16,7 @@ use crate::{
     graph::graph_node,
     node::{Collection, ObjectList, PropertyList, TriplesNode},
     path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, sp, sp_enc, sp_sep, sp_sep1},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
     var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
 };
 
@@ -92,8 +92,8 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
         terminated(
-            separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
-            opt(preceded(sp, char('.'))),
+            separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject_path),
+            opt(preceded(sp, dot)),
         ),
         TriplesBlock,
     )(i)
@@ -101,8 +101,8 @@ pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject),
-        opt(preceded(sp, char('.'))),
+        separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject),
+        opt(preceded(sp, dot)),
     )(i)
 }
 
-- 
2.43.0


From 76d313296eff1210818ae96075b39f2f5cc173ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 25/28] fix: restore the CRLF line endings of the repository

The editor used for the previous fixes wrote LF; no other change.
---
 src/aggregate.rs            |  262 ++++----
 src/arithmetic.rs           |  400 ++++++------
 src/call.rs                 |  628 +++++++++---------
 src/clauses.rs              |  430 ++++++-------
 src/data.rs                 |  516 +++++++--------
 src/expression/functions.rs |  190 +++---
 src/expression/iri.rs       |   60 +-
 src/expression/mod.rs       |  472 +++++++-------
 src/graph.rs                |  694 ++++++++++----------
 src/group.rs                |  100 +--
 src/lib.rs                  |   84 +--
 src/literal.rs              |  492 +++++++-------
 src/operations.rs           |  546 ++++++++--------
 src/order.rs                |  108 ++--
 src/parser.rs               |   70 +-
 src/path.rs                 |  630 +++++++++---------
 src/quads.rs                |  412 ++++++------
 src/query/ask.rs            |   62 +-
 src/query/construct.rs      |  194 +++---
 src/query/describe.rs       |   78 +--
 src/query/select.rs         |  226 +++----
 src/terminals.rs            | 1204 +++++++++++++++++------------------
 src/triple.rs               |  538 ++++++++--------
 src/update.rs               |  168 ++---
 src/var.rs                  |  302 ++++-----
 25 files changed, 4433 insertions(+), 4433 deletions(-)

diff --git a/src/aggregate.rs b/src/aggregate.rs
index a02ed34..36c34a3 100644
--- a/src/aggregate.rs
+++ b/src/aggregate.rs
@@ -1,131 +1,131 @@
-use crate::{
-    expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
-    literal::distinct,
-    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case},
-};
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    sequence::{pair, preceded, terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Aggregate {
-    Count(Count),
-    Sum(DistinctExpression),
-    Min(DistinctExpression),
-    Max(DistinctExpression),
-    Avg(DistinctExpression),
-    Sample(DistinctExpression),
-    GroupConcat(GroupConcat),
-}
-
-impl Aggregate {
-    pub fn is_distinct(&self) -> bool {
-        match self {
-            Aggregate::Sum(a)
-            | Aggregate::Min(a)
-            | Aggregate::Max(a)
-            | Aggregate::Avg(a)
-            | Aggregate::Sample(a) => a.distinct,
-            Aggregate::Count(c) => c.distinct,
-            Aggregate::GroupConcat(c) => c.expression.distinct,
-        }
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Count {
-    pub distinct: bool,
-    pub target: CountTarget,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum CountTarget {
-    All,
-    Expr(Box<Expression>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupConcat {
-    pub expression: DistinctExpression,
-    pub separator: Option<String>,
-}
-
-pub(crate) fn aggregate(i: &str) -> IResult<&str, Aggregate> {
-    alt((
-        map(count, Aggregate::Count),
-        map(
-            preceded_bracketted("sum", distinct_expression),
-            Aggregate::Sum,
-        ),
-        map(
-            preceded_bracketted("min", distinct_expression),
-            Aggregate::Min,
-        ),
-        map(
-            preceded_bracketted("max", distinct_expression),
-            Aggregate::Max,
-        ),
-        map(
-            preceded_bracketted("avg", distinct_expression),
-            Aggregate::Avg,
-        ),
-        map(
-            preceded_bracketted("sample", distinct_expression),
-            Aggregate::Sample,
-        ),
-        map(group_concat, Aggregate::GroupConcat),
-    ))(i)
-}
-
-pub(crate) fn count_target(i: &str) -> IResult<&str, CountTarget> {
-    alt((
-        map(char('*'), |_| CountTarget::All),
-        map(expression, |expr| CountTarget::Expr(Box::new(expr))),
-    ))(i)
-}
-
-pub(crate) fn count(i: &str) -> IResult<&str, Count> {
-    map(
-        preceded_tag(
-            "count",
-            bracketted(pair(
-                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
-                count_target,
-            )),
-        ),
-        |(distinct, target)| Count { distinct, target },
-    )(i)
-}
-
-pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
-    map(
-        preceded_tag(
-            "group_concat",
-            bracketted(pair(
-                distinct_expression,
-                opt(preceded(
-                    sp,
-                    preceded(
-                        tuple((
-                            char(';'),
-                            sp_enc(tag_no_case("separator")),
-                            terminated(char('='), sp),
-                        )),
-                        map(string_literal, String::from),
-                    ),
-                )),
-            )),
-        ),
-        |(expression, separator)| GroupConcat {
-            expression,
-            separator,
-        },
-    )(i)
-}
-
-#[cfg(test)]
-mod tests {}
+use crate::{
+    expression::{distinct_expression, expression, ArgList, DistinctExpression, Expression, Iri},
+    literal::distinct,
+    terminals::{bracketted, preceded_bracketted, preceded_tag, sp, sp1, sp_enc, string_literal, tag_no_case},
+};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    sequence::{pair, preceded, terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Aggregate {
+    Count(Count),
+    Sum(DistinctExpression),
+    Min(DistinctExpression),
+    Max(DistinctExpression),
+    Avg(DistinctExpression),
+    Sample(DistinctExpression),
+    GroupConcat(GroupConcat),
+}
+
+impl Aggregate {
+    pub fn is_distinct(&self) -> bool {
+        match self {
+            Aggregate::Sum(a)
+            | Aggregate::Min(a)
+            | Aggregate::Max(a)
+            | Aggregate::Avg(a)
+            | Aggregate::Sample(a) => a.distinct,
+            Aggregate::Count(c) => c.distinct,
+            Aggregate::GroupConcat(c) => c.expression.distinct,
+        }
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Count {
+    pub distinct: bool,
+    pub target: CountTarget,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum CountTarget {
+    All,
+    Expr(Box<Expression>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupConcat {
+    pub expression: DistinctExpression,
+    pub separator: Option<String>,
+}
+
+pub(crate) fn aggregate(i: &str) -> IResult<&str, Aggregate> {
+    alt((
+        map(count, Aggregate::Count),
+        map(
+            preceded_bracketted("sum", distinct_expression),
+            Aggregate::Sum,
+        ),
+        map(
+            preceded_bracketted("min", distinct_expression),
+            Aggregate::Min,
+        ),
+        map(
+            preceded_bracketted("max", distinct_expression),
+            Aggregate::Max,
+        ),
+        map(
+            preceded_bracketted("avg", distinct_expression),
+            Aggregate::Avg,
+        ),
+        map(
+            preceded_bracketted("sample", distinct_expression),
+            Aggregate::Sample,
+        ),
+        map(group_concat, Aggregate::GroupConcat),
+    ))(i)
+}
+
+pub(crate) fn count_target(i: &str) -> IResult<&str, CountTarget> {
+    alt((
+        map(char('*'), |_| CountTarget::All),
+        map(expression, |expr| CountTarget::Expr(Box::new(expr))),
+    ))(i)
+}
+
+pub(crate) fn count(i: &str) -> IResult<&str, Count> {
+    map(
+        preceded_tag(
+            "count",
+            bracketted(pair(
+                map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
+                count_target,
+            )),
+        ),
+        |(distinct, target)| Count { distinct, target },
+    )(i)
+}
+
+pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
+    map(
+        preceded_tag(
+            "group_concat",
+            bracketted(pair(
+                distinct_expression,
+                opt(preceded(
+                    sp,
+                    preceded(
+                        tuple((
+                            char(';'),
+                            sp_enc(tag_no_case("separator")),
+                            terminated(char('='), sp),
+                        )),
+                        map(string_literal, String::from),
+                    ),
+                )),
+            )),
+        ),
+        |(expression, separator)| GroupConcat {
+            expression,
+            separator,
+        },
+    )(i)
+}
+
+#[cfg(test)]
+mod tests {}
diff --git a/src/arithmetic.rs b/src/arithmetic.rs
index 0db4c2d..9522001 100644
--- a/src/arithmetic.rs
+++ b/src/arithmetic.rs
@@ -1,200 +1,200 @@
-use std::{fmt, str::FromStr};
-
-use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
-use crate::literal::{numeric_literal, NumericLiteral};
-use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
-use nom::branch::alt;
-use nom::bytes::complete::tag;
-use nom::character::complete::one_of;
-use nom::combinator::{map, opt, peek};
-use nom::multi::{many0, separated_nonempty_list};
-use nom::sequence::{pair, preceded, terminated};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct RelationalExpression {
-    pub lhs: AdditiveExpression,
-    pub rhs: Option<OpExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConditionalAndExpression(pub Vec<RelationalExpression>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum OpExpression {
-    EQ(AdditiveExpression),
-    NE(AdditiveExpression),
-    LT(AdditiveExpression),
-    GT(AdditiveExpression),
-    LE(AdditiveExpression),
-    GE(AdditiveExpression),
-    IN(ExpressionList),
-    NIN(ExpressionList),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AdditiveExpression {
-    pub lhs: MultiplicativeExpression,
-    pub rhs: Vec<AddExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum AddExpression {
-    Add(MultiplicativeExpression),
-    Sub(MultiplicativeExpression),
-    Numeric {
-        numeric: NumericLiteral,
-        expressions: Vec<MultExpression>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct MultiplicativeExpression {
-    pub lhs: UnaryExpression,
-    pub rhs: Vec<MultExpression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum MultExpression {
-    Mult(UnaryExpression),
-    Div(UnaryExpression),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum UnaryExpression {
-    Not(PrimaryExpression),
-    Add(PrimaryExpression),
-    Sub(PrimaryExpression),
-    Default(PrimaryExpression),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, Copy)]
-pub enum Sign {
-    POS,
-    NEG,
-}
-
-impl Default for Sign {
-    fn default() -> Self {
-        Sign::POS
-    }
-}
-
-impl AsRef<str> for Sign {
-    fn as_ref(&self) -> &str {
-        match self {
-            Sign::POS => "+",
-            Sign::NEG => "-",
-        }
-    }
-}
-
-impl FromStr for Sign {
-    type Err = ();
-
-    fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s {
-            "+" | "" => Ok(Sign::POS),
-            "-" => Ok(Sign::NEG),
-            _ => Err(()),
-        }
-    }
-}
-
-impl fmt::Display for Sign {
-    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        f.write_str(self.as_ref())
-    }
-}
-
-pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
-    alt((
-        map(preceded_tag("!", primary_expression), UnaryExpression::Not),
-        map(preceded_tag("+", primary_expression), UnaryExpression::Add),
-        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
-        map(primary_expression, UnaryExpression::Default),
-    ))(i)
-}
-
-pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression> {
-    map(
-        pair(
-            multiplicative_expression,
-            many0(preceded(sp, add_expression)),
-        ),
-        |(lhs, rhs)| AdditiveExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
-    alt((
-        map(
-            preceded_tag("+", multiplicative_expression),
-            AddExpression::Add,
-        ),
-        map(
-            preceded_tag("-", multiplicative_expression),
-            AddExpression::Sub,
-        ),
-        map(
-            pair(
-                preceded(peek(one_of("+-")), numeric_literal),
-                many0(preceded(sp, mult_expression)),
-            ),
-            |(numeric, expressions)| AddExpression::Numeric {
-                numeric,
-                expressions,
-            },
-        ),
-    ))(i)
-}
-
-pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
-    map(
-        pair(
-            unary_expression,
-            many0(preceded(sp, mult_expression)),
-        ),
-        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn mult_expression(i: &str) -> IResult<&str, MultExpression> {
-    alt((
-        map(preceded_tag("*", unary_expression), MultExpression::Mult),
-        map(preceded_tag("/", unary_expression), MultExpression::Div),
-    ))(i)
-}
-
-pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
-    alt((
-        map(preceded_tag("=", additive_expression), OpExpression::EQ),
-        map(preceded_tag("!=", additive_expression), OpExpression::NE),
-        map(preceded_tag("<", additive_expression), OpExpression::LT),
-        map(preceded_tag(">", additive_expression), OpExpression::GT),
-        map(preceded_tag("<=", additive_expression), OpExpression::LE),
-        map(preceded_tag(">=", additive_expression), OpExpression::GE),
-        map(preceded_tag("in", expression_list), OpExpression::IN),
-        map(
-            preceded(
-                terminated(tag_no_case("not"), sp_enc(tag_no_case("in"))),
-                expression_list,
-            ),
-            OpExpression::NIN,
-        ),
-    ))(i)
-}
-
-pub(crate) fn relational_expression(i: &str) -> IResult<&str, RelationalExpression> {
-    map(
-        pair(additive_expression, opt(preceded(sp, op_expression))),
-        |(lhs, rhs)| RelationalExpression { lhs, rhs },
-    )(i)
-}
-
-pub(crate) fn conditional_and_expression(i: &str) -> IResult<&str, ConditionalAndExpression> {
-    map(
-        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
-        ConditionalAndExpression,
-    )(i)
-}
+use std::{fmt, str::FromStr};
+
+use crate::expression::{expression_list, primary_expression, ExpressionList, PrimaryExpression};
+use crate::literal::{numeric_literal, NumericLiteral};
+use crate::terminals::{preceded_tag, sp, sp_enc, sp_enc1, tag_no_case};
+use nom::branch::alt;
+use nom::bytes::complete::tag;
+use nom::character::complete::one_of;
+use nom::combinator::{map, opt, peek};
+use nom::multi::{many0, separated_nonempty_list};
+use nom::sequence::{pair, preceded, terminated};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct RelationalExpression {
+    pub lhs: AdditiveExpression,
+    pub rhs: Option<OpExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConditionalAndExpression(pub Vec<RelationalExpression>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum OpExpression {
+    EQ(AdditiveExpression),
+    NE(AdditiveExpression),
+    LT(AdditiveExpression),
+    GT(AdditiveExpression),
+    LE(AdditiveExpression),
+    GE(AdditiveExpression),
+    IN(ExpressionList),
+    NIN(ExpressionList),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AdditiveExpression {
+    pub lhs: MultiplicativeExpression,
+    pub rhs: Vec<AddExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum AddExpression {
+    Add(MultiplicativeExpression),
+    Sub(MultiplicativeExpression),
+    Numeric {
+        numeric: NumericLiteral,
+        expressions: Vec<MultExpression>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct MultiplicativeExpression {
+    pub lhs: UnaryExpression,
+    pub rhs: Vec<MultExpression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum MultExpression {
+    Mult(UnaryExpression),
+    Div(UnaryExpression),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum UnaryExpression {
+    Not(PrimaryExpression),
+    Add(PrimaryExpression),
+    Sub(PrimaryExpression),
+    Default(PrimaryExpression),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, Copy)]
+pub enum Sign {
+    POS,
+    NEG,
+}
+
+impl Default for Sign {
+    fn default() -> Self {
+        Sign::POS
+    }
+}
+
+impl AsRef<str> for Sign {
+    fn as_ref(&self) -> &str {
+        match self {
+            Sign::POS => "+",
+            Sign::NEG => "-",
+        }
+    }
+}
+
+impl FromStr for Sign {
+    type Err = ();
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "+" | "" => Ok(Sign::POS),
+            "-" => Ok(Sign::NEG),
+            _ => Err(()),
+        }
+    }
+}
+
+impl fmt::Display for Sign {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str(self.as_ref())
+    }
+}
+
+pub(crate) fn unary_expression(i: &str) -> IResult<&str, UnaryExpression> {
+    alt((
+        map(preceded_tag("!", primary_expression), UnaryExpression::Not),
+        map(preceded_tag("+", primary_expression), UnaryExpression::Add),
+        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
+        map(primary_expression, UnaryExpression::Default),
+    ))(i)
+}
+
+pub(crate) fn additive_expression(i: &str) -> IResult<&str, AdditiveExpression> {
+    map(
+        pair(
+            multiplicative_expression,
+            many0(preceded(sp, add_expression)),
+        ),
+        |(lhs, rhs)| AdditiveExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn add_expression(i: &str) -> IResult<&str, AddExpression> {
+    alt((
+        map(
+            preceded_tag("+", multiplicative_expression),
+            AddExpression::Add,
+        ),
+        map(
+            preceded_tag("-", multiplicative_expression),
+            AddExpression::Sub,
+        ),
+        map(
+            pair(
+                preceded(peek(one_of("+-")), numeric_literal),
+                many0(preceded(sp, mult_expression)),
+            ),
+            |(numeric, expressions)| AddExpression::Numeric {
+                numeric,
+                expressions,
+            },
+        ),
+    ))(i)
+}
+
+pub(crate) fn multiplicative_expression(i: &str) -> IResult<&str, MultiplicativeExpression> {
+    map(
+        pair(
+            unary_expression,
+            many0(preceded(sp, mult_expression)),
+        ),
+        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn mult_expression(i: &str) -> IResult<&str, MultExpression> {
+    alt((
+        map(preceded_tag("*", unary_expression), MultExpression::Mult),
+        map(preceded_tag("/", unary_expression), MultExpression::Div),
+    ))(i)
+}
+
+pub(crate) fn op_expression(i: &str) -> IResult<&str, OpExpression> {
+    alt((
+        map(preceded_tag("=", additive_expression), OpExpression::EQ),
+        map(preceded_tag("!=", additive_expression), OpExpression::NE),
+        map(preceded_tag("<", additive_expression), OpExpression::LT),
+        map(preceded_tag(">", additive_expression), OpExpression::GT),
+        map(preceded_tag("<=", additive_expression), OpExpression::LE),
+        map(preceded_tag(">=", additive_expression), OpExpression::GE),
+        map(preceded_tag("in", expression_list), OpExpression::IN),
+        map(
+            preceded(
+                terminated(tag_no_case("not"), sp_enc(tag_no_case("in"))),
+                expression_list,
+            ),
+            OpExpression::NIN,
+        ),
+    ))(i)
+}
+
+pub(crate) fn relational_expression(i: &str) -> IResult<&str, RelationalExpression> {
+    map(
+        pair(additive_expression, opt(preceded(sp, op_expression))),
+        |(lhs, rhs)| RelationalExpression { lhs, rhs },
+    )(i)
+}
+
+pub(crate) fn conditional_and_expression(i: &str) -> IResult<&str, ConditionalAndExpression> {
+    map(
+        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
+        ConditionalAndExpression,
+    )(i)
+}
diff --git a/src/call.rs b/src/call.rs
index a0cc37f..c886ec5 100644
--- a/src/call.rs
+++ b/src/call.rs
@@ -1,314 +1,314 @@
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, preceded, separated_pair, terminated, tuple},
-    IResult,
-};
-
-use crate::expression::functions::{
-    regex_expression, str_replace_expression, substring_expression, RegexExpression,
-    StrReplaceExpression, SubstringExpression,
-};
-use crate::{
-    aggregate::{aggregate, Aggregate},
-    expression::{
-        bracketted_expression, expression, expression_list, ArgList, Expression, ExpressionList,
-        Iri,
-    },
-    graph::{group_graph_pattern, GroupGraphPattern},
-    literal::distinct,
-    terminals::{
-        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
-        sp_enc1, tag_no_case,
-    },
-    var::{var, Var},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct FunctionCall {
-    pub iri: Iri,
-    pub args: ArgList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum BuiltInCall {
-    Aggregate(Aggregate),
-    Str(Expression),
-    Lang(Expression),
-    LangMatches((Expression, Expression)),
-    Datatype(Expression),
-    Bound(Var),
-    Iri(Expression),
-    Uri(Expression),
-    Bnode(Option<Expression>),
-    Rand,
-    Abs(Expression),
-    Ceil(Expression),
-    Floor(Expression),
-    Round(Expression),
-    Concat(ExpressionList),
-    SubStr(SubstringExpression),
-    StrLen(Expression),
-    Replace(StrReplaceExpression),
-    UCase(Expression),
-    LCase(Expression),
-    EncodeForUri(Expression),
-    Contains((Expression, Expression)),
-    StrStarts((Expression, Expression)),
-    StrEnds((Expression, Expression)),
-    StrBefore((Expression, Expression)),
-    StrAfter((Expression, Expression)),
-    Year(Expression),
-    Month(Expression),
-    Day(Expression),
-    Hours(Expression),
-    Minutes(Expression),
-    Seconds(Expression),
-    Timezone(Expression),
-    Tz(Expression),
-    Now,
-    UUID,
-    StrUUID,
-    MD5(Expression),
-    SHA1(Expression),
-    SHA256(Expression),
-    SHA384(Expression),
-    SHA512(Expression),
-    Coalesce(ExpressionList),
-    If((Expression, Expression, Expression)),
-    StrLang((Expression, Expression)),
-    StrDt((Expression, Expression)),
-    SameTerm((Expression, Expression)),
-    IsIri(Expression),
-    IsUri(Expression),
-    IsBlank(Expression),
-    IsLiteral(Expression),
-    IsNumeric(Expression),
-    Regex(RegexExpression),
-    ExistsFunc(GroupGraphPattern),
-    NotExistsFunc(GroupGraphPattern),
-}
-
-pub(crate) fn function_call(i: &str) -> IResult<&str, FunctionCall> {
-    map(separated_pair(iri, sp, arg_list), |(iri, args)| {
-        FunctionCall { iri, args }
-    })(i)
-}
-
-fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        map(aggregate, BuiltInCall::Aggregate),
-        map(preceded_bracketted("str", expression), BuiltInCall::Str),
-        map(preceded_bracketted("lang", expression), BuiltInCall::Lang),
-        map(
-            preceded_bracketted(
-                "langmatches",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::LangMatches,
-        ),
-        map(
-            preceded_bracketted("datatype", expression),
-            BuiltInCall::Datatype,
-        ),
-        map(preceded_bracketted("bound", var), BuiltInCall::Bound),
-        map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
-        map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
-        map(
-            preceded_tag(
-                "bnode",
-                alt((map(nil, |_| None), map(bracketted(expression), Option::Some))),
-            ),
-            BuiltInCall::Bnode,
-        ),
-        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
-        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
-        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
-        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
-        map(preceded_bracketted("round", expression), BuiltInCall::Round),
-        map(
-            preceded_tag1("concat", expression_list),
-            BuiltInCall::Concat,
-        ),
-        map(
-            preceded_bracketted("strlen", expression),
-            BuiltInCall::StrLen,
-        ),
-        map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
-        map(preceded_bracketted("lcase", expression), BuiltInCall::LCase),
-        map(
-            preceded_bracketted("encode_for_uri", expression),
-            BuiltInCall::EncodeForUri,
-        ),
-        map(
-            preceded_bracketted(
-                "contains",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::Contains,
-        ),
-        map(
-            preceded_bracketted(
-                "strstarts",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrStarts,
-        ),
-    ))(i)
-}
-
-fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        map(
-            preceded_bracketted(
-                "strends",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrEnds,
-        ),
-        map(
-            preceded_bracketted(
-                "strbefore",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrBefore,
-        ),
-        map(
-            preceded_bracketted(
-                "strafter",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrAfter,
-        ),
-        map(substring_expression, BuiltInCall::SubStr),
-        map(str_replace_expression, BuiltInCall::Replace),
-        map(preceded_bracketted("year", expression), BuiltInCall::Year),
-        map(preceded_bracketted("month", expression), BuiltInCall::Month),
-        map(preceded_bracketted("day", expression), BuiltInCall::Day),
-        map(preceded_bracketted("hours", expression), BuiltInCall::Hours),
-        map(
-            preceded_bracketted("minutes", expression),
-            BuiltInCall::Minutes,
-        ),
-        map(
-            preceded_bracketted("seconds", expression),
-            BuiltInCall::Seconds,
-        ),
-        map(
-            preceded_bracketted("timezone", expression),
-            BuiltInCall::Timezone,
-        ),
-        map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
-        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
-        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
-        map(preceded_tag("struuid", nil), |_| {
-            BuiltInCall::StrUUID
-        }),
-    ))(i)
-}
-
-pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
-    alt((
-        built_in_call_1,
-        built_in_call_2,
-        map(preceded_bracketted("md5", expression), BuiltInCall::MD5),
-        map(preceded_bracketted("sha1", expression), BuiltInCall::SHA1),
-        map(
-            preceded_bracketted("sha256", expression),
-            BuiltInCall::SHA256,
-        ),
-        map(
-            preceded_bracketted("sha384", expression),
-            BuiltInCall::SHA384,
-        ),
-        map(
-            preceded_bracketted("sha512", expression),
-            BuiltInCall::SHA512,
-        ),
-        map(
-            preceded_tag1("coalesce", expression_list),
-            BuiltInCall::Coalesce,
-        ),
-        map(
-            preceded_bracketted(
-                "if",
-                tuple((
-                    expression,
-                    preceded(sp_enc(char(',')), expression),
-                    preceded(sp_enc(char(',')), expression),
-                )),
-            ),
-            BuiltInCall::If,
-        ),
-        map(
-            preceded_bracketted(
-                "strlang",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrLang,
-        ),
-        map(
-            preceded_bracketted(
-                "strdt",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::StrDt,
-        ),
-        map(
-            preceded_bracketted(
-                "sameterm",
-                separated_pair(expression, sp_enc(char(',')), expression),
-            ),
-            BuiltInCall::SameTerm,
-        ),
-        map(preceded_bracketted("isiri", expression), BuiltInCall::IsIri),
-        map(preceded_bracketted("isuri", expression), BuiltInCall::IsUri),
-        map(
-            preceded_bracketted("isblank", expression),
-            BuiltInCall::IsBlank,
-        ),
-        map(
-            preceded_bracketted("isliteral", expression),
-            BuiltInCall::IsLiteral,
-        ),
-        map(
-            preceded_bracketted("isnumeric", expression),
-            BuiltInCall::IsNumeric,
-        ),
-        map(regex_expression, BuiltInCall::Regex),
-        map(
-            preceded_tag1("exists", group_graph_pattern),
-            BuiltInCall::ExistsFunc,
-        ),
-        map(
-            tuple((
-                tag_no_case("not"),
-                sp_enc(tag_no_case("exists")),
-                group_graph_pattern,
-            )),
-            |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
-        ),
-    ))(i)
-}
-
-pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
-    alt((
-        map(nil, |_| ArgList::Nil),
-        map(
-            delimited(
-                terminated(char('('), sp),
-                tuple((
-                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
-                    separated_nonempty_list(sp_enc(char(',')), expression),
-                )),
-                preceded(sp, char(')')),
-            ),
-            |(distinct, expressions)| ArgList::Expression {
-                distinct,
-                expressions,
-            },
-        ),
-    ))(i)
-}
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, preceded, separated_pair, terminated, tuple},
+    IResult,
+};
+
+use crate::expression::functions::{
+    regex_expression, str_replace_expression, substring_expression, RegexExpression,
+    StrReplaceExpression, SubstringExpression,
+};
+use crate::{
+    aggregate::{aggregate, Aggregate},
+    expression::{
+        bracketted_expression, expression, expression_list, ArgList, Expression, ExpressionList,
+        Iri,
+    },
+    graph::{group_graph_pattern, GroupGraphPattern},
+    literal::distinct,
+    terminals::{
+        bracketted, iri, nil, preceded_bracketted, preceded_tag, preceded_tag1, sp, sp1, sp_enc,
+        sp_enc1, tag_no_case,
+    },
+    var::{var, Var},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct FunctionCall {
+    pub iri: Iri,
+    pub args: ArgList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum BuiltInCall {
+    Aggregate(Aggregate),
+    Str(Expression),
+    Lang(Expression),
+    LangMatches((Expression, Expression)),
+    Datatype(Expression),
+    Bound(Var),
+    Iri(Expression),
+    Uri(Expression),
+    Bnode(Option<Expression>),
+    Rand,
+    Abs(Expression),
+    Ceil(Expression),
+    Floor(Expression),
+    Round(Expression),
+    Concat(ExpressionList),
+    SubStr(SubstringExpression),
+    StrLen(Expression),
+    Replace(StrReplaceExpression),
+    UCase(Expression),
+    LCase(Expression),
+    EncodeForUri(Expression),
+    Contains((Expression, Expression)),
+    StrStarts((Expression, Expression)),
+    StrEnds((Expression, Expression)),
+    StrBefore((Expression, Expression)),
+    StrAfter((Expression, Expression)),
+    Year(Expression),
+    Month(Expression),
+    Day(Expression),
+    Hours(Expression),
+    Minutes(Expression),
+    Seconds(Expression),
+    Timezone(Expression),
+    Tz(Expression),
+    Now,
+    UUID,
+    StrUUID,
+    MD5(Expression),
+    SHA1(Expression),
+    SHA256(Expression),
+    SHA384(Expression),
+    SHA512(Expression),
+    Coalesce(ExpressionList),
+    If((Expression, Expression, Expression)),
+    StrLang((Expression, Expression)),
+    StrDt((Expression, Expression)),
+    SameTerm((Expression, Expression)),
+    IsIri(Expression),
+    IsUri(Expression),
+    IsBlank(Expression),
+    IsLiteral(Expression),
+    IsNumeric(Expression),
+    Regex(RegexExpression),
+    ExistsFunc(GroupGraphPattern),
+    NotExistsFunc(GroupGraphPattern),
+}
+
+pub(crate) fn function_call(i: &str) -> IResult<&str, FunctionCall> {
+    map(separated_pair(iri, sp, arg_list), |(iri, args)| {
+        FunctionCall { iri, args }
+    })(i)
+}
+
+fn built_in_call_1(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        map(aggregate, BuiltInCall::Aggregate),
+        map(preceded_bracketted("str", expression), BuiltInCall::Str),
+        map(preceded_bracketted("lang", expression), BuiltInCall::Lang),
+        map(
+            preceded_bracketted(
+                "langmatches",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::LangMatches,
+        ),
+        map(
+            preceded_bracketted("datatype", expression),
+            BuiltInCall::Datatype,
+        ),
+        map(preceded_bracketted("bound", var), BuiltInCall::Bound),
+        map(preceded_bracketted("iri", expression), BuiltInCall::Iri),
+        map(preceded_bracketted("uri", expression), BuiltInCall::Uri),
+        map(
+            preceded_tag(
+                "bnode",
+                alt((map(nil, |_| None), map(bracketted(expression), Option::Some))),
+            ),
+            BuiltInCall::Bnode,
+        ),
+        map(preceded_tag("rand", nil), |_| BuiltInCall::Rand),
+        map(preceded_bracketted("abs", expression), BuiltInCall::Abs),
+        map(preceded_bracketted("ceil", expression), BuiltInCall::Ceil),
+        map(preceded_bracketted("floor", expression), BuiltInCall::Floor),
+        map(preceded_bracketted("round", expression), BuiltInCall::Round),
+        map(
+            preceded_tag1("concat", expression_list),
+            BuiltInCall::Concat,
+        ),
+        map(
+            preceded_bracketted("strlen", expression),
+            BuiltInCall::StrLen,
+        ),
+        map(preceded_bracketted("ucase", expression), BuiltInCall::UCase),
+        map(preceded_bracketted("lcase", expression), BuiltInCall::LCase),
+        map(
+            preceded_bracketted("encode_for_uri", expression),
+            BuiltInCall::EncodeForUri,
+        ),
+        map(
+            preceded_bracketted(
+                "contains",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::Contains,
+        ),
+        map(
+            preceded_bracketted(
+                "strstarts",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrStarts,
+        ),
+    ))(i)
+}
+
+fn built_in_call_2(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        map(
+            preceded_bracketted(
+                "strends",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrEnds,
+        ),
+        map(
+            preceded_bracketted(
+                "strbefore",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrBefore,
+        ),
+        map(
+            preceded_bracketted(
+                "strafter",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrAfter,
+        ),
+        map(substring_expression, BuiltInCall::SubStr),
+        map(str_replace_expression, BuiltInCall::Replace),
+        map(preceded_bracketted("year", expression), BuiltInCall::Year),
+        map(preceded_bracketted("month", expression), BuiltInCall::Month),
+        map(preceded_bracketted("day", expression), BuiltInCall::Day),
+        map(preceded_bracketted("hours", expression), BuiltInCall::Hours),
+        map(
+            preceded_bracketted("minutes", expression),
+            BuiltInCall::Minutes,
+        ),
+        map(
+            preceded_bracketted("seconds", expression),
+            BuiltInCall::Seconds,
+        ),
+        map(
+            preceded_bracketted("timezone", expression),
+            BuiltInCall::Timezone,
+        ),
+        map(preceded_bracketted("tz", expression), BuiltInCall::Tz),
+        map(preceded_tag("now", nil), |_| BuiltInCall::Now),
+        map(preceded_tag("uuid", nil), |_| BuiltInCall::UUID),
+        map(preceded_tag("struuid", nil), |_| {
+            BuiltInCall::StrUUID
+        }),
+    ))(i)
+}
+
+pub(crate) fn built_in_call(i: &str) -> IResult<&str, BuiltInCall> {
+    alt((
+        built_in_call_1,
+        built_in_call_2,
+        map(preceded_bracketted("md5", expression), BuiltInCall::MD5),
+        map(preceded_bracketted("sha1", expression), BuiltInCall::SHA1),
+        map(
+            preceded_bracketted("sha256", expression),
+            BuiltInCall::SHA256,
+        ),
+        map(
+            preceded_bracketted("sha384", expression),
+            BuiltInCall::SHA384,
+        ),
+        map(
+            preceded_bracketted("sha512", expression),
+            BuiltInCall::SHA512,
+        ),
+        map(
+            preceded_tag1("coalesce", expression_list),
+            BuiltInCall::Coalesce,
+        ),
+        map(
+            preceded_bracketted(
+                "if",
+                tuple((
+                    expression,
+                    preceded(sp_enc(char(',')), expression),
+                    preceded(sp_enc(char(',')), expression),
+                )),
+            ),
+            BuiltInCall::If,
+        ),
+        map(
+            preceded_bracketted(
+                "strlang",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrLang,
+        ),
+        map(
+            preceded_bracketted(
+                "strdt",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::StrDt,
+        ),
+        map(
+            preceded_bracketted(
+                "sameterm",
+                separated_pair(expression, sp_enc(char(',')), expression),
+            ),
+            BuiltInCall::SameTerm,
+        ),
+        map(preceded_bracketted("isiri", expression), BuiltInCall::IsIri),
+        map(preceded_bracketted("isuri", expression), BuiltInCall::IsUri),
+        map(
+            preceded_bracketted("isblank", expression),
+            BuiltInCall::IsBlank,
+        ),
+        map(
+            preceded_bracketted("isliteral", expression),
+            BuiltInCall::IsLiteral,
+        ),
+        map(
+            preceded_bracketted("isnumeric", expression),
+            BuiltInCall::IsNumeric,
+        ),
+        map(regex_expression, BuiltInCall::Regex),
+        map(
+            preceded_tag1("exists", group_graph_pattern),
+            BuiltInCall::ExistsFunc,
+        ),
+        map(
+            tuple((
+                tag_no_case("not"),
+                sp_enc(tag_no_case("exists")),
+                group_graph_pattern,
+            )),
+            |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),
+        ),
+    ))(i)
+}
+
+pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
+    alt((
+        map(nil, |_| ArgList::Nil),
+        map(
+            delimited(
+                terminated(char('('), sp),
+                tuple((
+                    map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
+                    separated_nonempty_list(sp_enc(char(',')), expression),
+                )),
+                preceded(sp, char(')')),
+            ),
+            |(distinct, expressions)| ArgList::Expression {
+                distinct,
+                expressions,
+            },
+        ),
+    ))(i)
+}
diff --git a/src/clauses.rs b/src/clauses.rs
index 5705c7e..7a2b0a7 100644
--- a/src/clauses.rs
+++ b/src/clauses.rs
@@ -1,215 +1,215 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::expression::functions::{constraint, Constraint};
-use crate::{
-    data::{datablock, DataBlock},
-    expression::DefaultOrNamedIri,
-    graph::group_graph_pattern,
-    graph::GroupGraphPattern,
-    group::{group_clause, GroupClause},
-    order::{order_condition, OrderCondition},
-    quads::{quads_pattern, Quads},
-    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1, tag_no_case},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SolutionModifier {
-    pub order_by: Option<OrderClause>,
-    pub group_by: Option<GroupClause>,
-    pub having: Option<HavingClause>,
-    pub limit_offset: Option<LimitOffsetClause>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct HavingClause(pub Vec<Constraint>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct OrderClause(pub Vec<OrderCondition>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum LimitOffsetClause {
-    LimitOffset { limit: u64, offset: Option<u64> },
-    OffsetLimit { offset: u64, limit: Option<u64> },
-}
-
-impl LimitOffsetClause {
-    pub fn limit_offset(limit: u64, offset: Option<u64>) -> Self {
-        LimitOffsetClause::LimitOffset { limit, offset }
-    }
-    pub fn offset_limit(offset: u64, limit: Option<u64>) -> Self {
-        LimitOffsetClause::OffsetLimit { offset, limit }
-    }
-}
-
-pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
-    map(
-        tuple((
-            opt(preceded(sp, group_clause)),
-            opt(preceded(sp, having_clause)),
-            opt(preceded(sp, order_clause)),
-            opt(preceded(sp, limit_offset_clause)),
-        )),
-        |(group_by, having, order_by, limit_offset)| SolutionModifier {
-            group_by,
-            having,
-            order_by,
-            limit_offset,
-        },
-    )(i)
-}
-
-pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
-    map(
-        preceded(
-            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp),
-            sp_list1(order_condition),
-        ),
-        OrderClause,
-    )(i)
-}
-
-pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
-    map(
-        preceded(
-            terminated(tag_no_case("having"), sp),
-            sp_list1(constraint),
-        ),
-        HavingClause,
-    )(i)
-}
-
-pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded(
-        opt(terminated(tag_no_case("where"), sp)),
-        group_graph_pattern,
-    )(i)
-}
-
-pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
-    opt(preceded_tag1("values", datablock))(i)
-}
-
-#[inline]
-pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", quads_pattern)(i)
-}
-
-#[inline]
-pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", quads_pattern)(i)
-}
-
-#[inline]
-pub(crate) fn using_clause(i: &str) -> IResult<&str, DefaultOrNamedIri> {
-    preceded_tag1("using", default_or_named_iri)(i)
-}
-
-#[inline]
-pub(crate) fn int_clause<'a, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, u64>
-where
-    F: Fn(&'a str) -> IResult<&'a str, &'a str>,
-{
-    map_res(
-        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
-        |s| s.parse::<u64>(),
-    )
-}
-
-#[inline]
-pub(crate) fn limit_clause(i: &str) -> IResult<&str, u64> {
-    int_clause(tag_no_case("limit"))(i)
-}
-
-#[inline]
-pub(crate) fn offset_clause(i: &str) -> IResult<&str, u64> {
-    int_clause(tag_no_case("offset"))(i)
-}
-
-pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
-    alt((
-        map(
-            pair(limit_clause, opt(preceded(sp, offset_clause))),
-            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
-        ),
-        map(
-            pair(offset_clause, opt(preceded(sp, limit_clause))),
-            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },
-        ),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::{Iri, PrefixedName};
-
-    #[test]
-    fn is_limit_clause() {
-        assert_eq!(limit_clause("limit 5"), Ok(("", 5)));
-    }
-
-    #[test]
-    fn is_offset_clause() {
-        assert_eq!(offset_clause("offset 5"), Ok(("", 5)));
-        assert_eq!(offset_clause("offset      100"), Ok(("", 100)));
-    }
-
-    #[test]
-    fn is_limit_offset_clause() {
-        assert_eq!(
-            limit_offset_clause("limit 5     offset 10"),
-            Ok(("", LimitOffsetClause::limit_offset(5, Some(10))))
-        );
-    }
-
-    #[test]
-    fn is_offset_limit_clause() {
-        assert_eq!(
-            limit_offset_clause("offset 5 limit 10"),
-            Ok(("", LimitOffsetClause::offset_limit(5, Some(10))))
-        );
-    }
-    #[test]
-    fn is_using_clause() {
-        assert_eq!(
-            using_clause("using named <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            using_clause("using named :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-
-        assert_eq!(
-            using_clause("using :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Default(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::expression::functions::{constraint, Constraint};
+use crate::{
+    data::{datablock, DataBlock},
+    expression::DefaultOrNamedIri,
+    graph::group_graph_pattern,
+    graph::GroupGraphPattern,
+    group::{group_clause, GroupClause},
+    order::{order_condition, OrderCondition},
+    quads::{quads_pattern, Quads},
+    terminals::{default_or_named_iri, preceded_tag1, sp, sp1, sp_list1, tag_no_case},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SolutionModifier {
+    pub order_by: Option<OrderClause>,
+    pub group_by: Option<GroupClause>,
+    pub having: Option<HavingClause>,
+    pub limit_offset: Option<LimitOffsetClause>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct HavingClause(pub Vec<Constraint>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct OrderClause(pub Vec<OrderCondition>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum LimitOffsetClause {
+    LimitOffset { limit: u64, offset: Option<u64> },
+    OffsetLimit { offset: u64, limit: Option<u64> },
+}
+
+impl LimitOffsetClause {
+    pub fn limit_offset(limit: u64, offset: Option<u64>) -> Self {
+        LimitOffsetClause::LimitOffset { limit, offset }
+    }
+    pub fn offset_limit(offset: u64, limit: Option<u64>) -> Self {
+        LimitOffsetClause::OffsetLimit { offset, limit }
+    }
+}
+
+pub(crate) fn solution_modifier(i: &str) -> IResult<&str, SolutionModifier> {
+    map(
+        tuple((
+            opt(preceded(sp, group_clause)),
+            opt(preceded(sp, having_clause)),
+            opt(preceded(sp, order_clause)),
+            opt(preceded(sp, limit_offset_clause)),
+        )),
+        |(group_by, having, order_by, limit_offset)| SolutionModifier {
+            group_by,
+            having,
+            order_by,
+            limit_offset,
+        },
+    )(i)
+}
+
+pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
+    map(
+        preceded(
+            terminated(delimited(tag_no_case("order"), sp1, tag_no_case("by")), sp),
+            sp_list1(order_condition),
+        ),
+        OrderClause,
+    )(i)
+}
+
+pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
+    map(
+        preceded(
+            terminated(tag_no_case("having"), sp),
+            sp_list1(constraint),
+        ),
+        HavingClause,
+    )(i)
+}
+
+pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded(
+        opt(terminated(tag_no_case("where"), sp)),
+        group_graph_pattern,
+    )(i)
+}
+
+pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
+    opt(preceded_tag1("values", datablock))(i)
+}
+
+#[inline]
+pub(crate) fn insert_clause(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("insert", quads_pattern)(i)
+}
+
+#[inline]
+pub(crate) fn delete_clause(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("delete", quads_pattern)(i)
+}
+
+#[inline]
+pub(crate) fn using_clause(i: &str) -> IResult<&str, DefaultOrNamedIri> {
+    preceded_tag1("using", default_or_named_iri)(i)
+}
+
+#[inline]
+pub(crate) fn int_clause<'a, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, u64>
+where
+    F: Fn(&'a str) -> IResult<&'a str, &'a str>,
+{
+    map_res(
+        preceded(terminated(pat, sp), take_while1(|c: char| c.is_ascii_digit())),
+        |s| s.parse::<u64>(),
+    )
+}
+
+#[inline]
+pub(crate) fn limit_clause(i: &str) -> IResult<&str, u64> {
+    int_clause(tag_no_case("limit"))(i)
+}
+
+#[inline]
+pub(crate) fn offset_clause(i: &str) -> IResult<&str, u64> {
+    int_clause(tag_no_case("offset"))(i)
+}
+
+pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
+    alt((
+        map(
+            pair(limit_clause, opt(preceded(sp, offset_clause))),
+            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
+        ),
+        map(
+            pair(offset_clause, opt(preceded(sp, limit_clause))),
+            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },
+        ),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::{Iri, PrefixedName};
+
+    #[test]
+    fn is_limit_clause() {
+        assert_eq!(limit_clause("limit 5"), Ok(("", 5)));
+    }
+
+    #[test]
+    fn is_offset_clause() {
+        assert_eq!(offset_clause("offset 5"), Ok(("", 5)));
+        assert_eq!(offset_clause("offset      100"), Ok(("", 100)));
+    }
+
+    #[test]
+    fn is_limit_offset_clause() {
+        assert_eq!(
+            limit_offset_clause("limit 5     offset 10"),
+            Ok(("", LimitOffsetClause::limit_offset(5, Some(10))))
+        );
+    }
+
+    #[test]
+    fn is_offset_limit_clause() {
+        assert_eq!(
+            limit_offset_clause("offset 5 limit 10"),
+            Ok(("", LimitOffsetClause::offset_limit(5, Some(10))))
+        );
+    }
+    #[test]
+    fn is_using_clause() {
+        assert_eq!(
+            using_clause("using named <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            using_clause("using named :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+
+        assert_eq!(
+            using_clause("using :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Default(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+    }
+
+}
diff --git a/src/data.rs b/src/data.rs
index 3af127d..9279e48 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -1,258 +1,258 @@
-use nom::{
-    branch::alt,
-    bytes::complete::tag,
-    character::complete::char,
-    combinator::map,
-    multi::{many0, many1, separated_list, separated_nonempty_list},
-    sequence::{delimited, pair, preceded, tuple},
-    IResult,
-};
-
-use crate::{
-    expression::{DefaultOrNamedIri, Iri},
-    literal::{boolean, numeric_literal, NumericLiteral},
-    node::RdfLiteral,
-    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
-    var::{var, Var},
-};
-
-/// NAMED GraphClause = NAMED Iri
-pub type DataSetClause = DefaultOrNamedIri;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DataBlock {
-    InlineDataOneVar(InlineDataOneVar),
-    InlineDataFull(InlineDataFull),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct InlineDataOneVar {
-    pub var: Var,
-    pub values: Vec<DataBlockValue>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct InlineDataFull {
-    pub vars: Vec<Var>,
-    pub data_block_values: Vec<Vec<DataBlockValue>>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DataBlockValue {
-    Iri(Iri),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    /// If a variable has no value for a particular solution in the VALUES clause,
-    /// the keyword UNDEF is used instead of an RDF term.
-    UnDef,
-}
-
-pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
-    preceded_tag1("from", default_or_named_iri)(i)
-}
-
-pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
-    alt((
-        map(inline_data_one_var, DataBlock::InlineDataOneVar),
-        map(inline_data_full, DataBlock::InlineDataFull),
-    ))(i)
-}
-
-pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {
-    preceded_tag1("values", datablock)(i)
-}
-
-//delimited(tag("("), map(var,|x|vec![x]), tag(")")),
-pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
-    map(
-        tuple((
-            bracketted(preceded(sp, many0(sp_enc(var)))),
-            delimited(
-                sp_enc(char('{')),
-                many0(sp_enc(bracketted(preceded(
-                    sp,
-                    many0(sp_enc(datablock_value)),
-                )))),
-                preceded(sp, char('}')),
-            ),
-        )),
-        |(vars, data_block_values)| InlineDataFull {
-            vars,
-            data_block_values,
-        },
-    )(i)
-}
-
-pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
-    map(
-        pair(
-            var,
-            delimited(
-                sp_enc(char('{')),
-                many0(sp_enc(datablock_value)),
-                preceded(sp, char('}')),
-            ),
-        ),
-        |(var, values)| InlineDataOneVar { var, values },
-    )(i)
-}
-
-pub(crate) fn datablock_value(i: &str) -> IResult<&str, DataBlockValue> {
-    alt((
-        map(iri, DataBlockValue::Iri),
-        map(rdf_literal, DataBlockValue::RdfLiteral),
-        map(numeric_literal, DataBlockValue::NumericLiteral),
-        map(boolean, DataBlockValue::BooleanLiteral),
-        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::clauses::values_clause;
-    use crate::expression::PrefixedName;
-    use crate::node::{RdfLiteral, RdfLiteralDescriptor};
-
-    #[test]
-    fn is_datablock_value() {
-        assert_eq!(
-            datablock_value("true"),
-            Ok(("", DataBlockValue::BooleanLiteral(true)))
-        );
-
-        assert_eq!(
-            datablock_value("'chat'@fr"),
-            Ok((
-                "",
-                DataBlockValue::RdfLiteral(RdfLiteral::new(
-                    "chat",
-                    RdfLiteralDescriptor::LangTag("fr".to_string())
-                ))
-            ))
-        );
-
-        assert_eq!(
-            datablock_value(r#""abc""#),
-            Ok(("", DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))))
-        );
-    }
-
-    #[test]
-    fn is_inline_data_one_var() {
-        assert_eq!(
-            inline_data_one_var(r#"?name { "abc" "def" }"#),
-            Ok((
-                "",
-                InlineDataOneVar::new(
-                    Var::QMark("name".to_string()),
-                    vec![
-                        DataBlockValue::RdfLiteral(RdfLiteral::literal("abc")),
-                        DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))
-                    ]
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_inline_data_full() {
-        assert_eq!(
-            inline_data_full(r#"() { }"#),
-            Ok(("", InlineDataFull::new(vec![], vec![])))
-        );
-
-        assert_eq!(
-            inline_data_full("( ?name ?z) { }"),
-            Ok((
-                "",
-                InlineDataFull::new(
-                    vec![Var::QMark("name".to_string()), Var::QMark("z".to_string())],
-                    vec![]
-                )
-            ))
-        );
-
-        assert_eq!(
-            inline_data_full(r#"(?name) {  ("abc")  ("def")}"#),
-            Ok((
-                "",
-                InlineDataFull::new(
-                    vec![Var::QMark("name".to_string())],
-                    vec![
-                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))],
-                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))]
-                    ]
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_values_clause() {
-        assert_eq!(
-            values_clause(
-                r#"values (?x ?y) {
-  (:uri1 1)
-  (:uri2 UNDEF)
-}"#
-            ),
-            Ok((
-                "",
-                Some(DataBlock::InlineDataFull(InlineDataFull::new(
-                    vec![Var::QMark("x".to_string()), Var::QMark("y".to_string())],
-                    vec![
-                        vec![
-                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
-                                pn_prefix: None,
-                                pn_local: "uri1".to_string(),
-                            },)),
-                            DataBlockValue::NumericLiteral(NumericLiteral::Int(1))
-                        ],
-                        vec![
-                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
-                                pn_prefix: None,
-                                pn_local: "uri2".to_string(),
-                            },)),
-                            DataBlockValue::UnDef
-                        ]
-                    ]
-                )))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_data_set_clause() {
-        assert_eq!(
-            data_set_clause("FROM    <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Default(Iri::Iri(
-                    "http://example.org/foaf/aliceFoaf".to_string()
-                ))
-            ))
-        );
-
-        assert_eq!(
-            data_set_clause("FROM NAMED <http://example.org/bob>"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/bob".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            data_set_clause("FROM NAMED :uri1"),
-            Ok((
-                "",
-                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::char,
+    combinator::map,
+    multi::{many0, many1, separated_list, separated_nonempty_list},
+    sequence::{delimited, pair, preceded, tuple},
+    IResult,
+};
+
+use crate::{
+    expression::{DefaultOrNamedIri, Iri},
+    literal::{boolean, numeric_literal, NumericLiteral},
+    node::RdfLiteral,
+    terminals::{bracketted, default_or_named_iri, iri, preceded_tag1, rdf_literal, sp, sp_enc, tag_no_case},
+    var::{var, Var},
+};
+
+/// NAMED GraphClause = NAMED Iri
+pub type DataSetClause = DefaultOrNamedIri;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DataBlock {
+    InlineDataOneVar(InlineDataOneVar),
+    InlineDataFull(InlineDataFull),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct InlineDataOneVar {
+    pub var: Var,
+    pub values: Vec<DataBlockValue>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct InlineDataFull {
+    pub vars: Vec<Var>,
+    pub data_block_values: Vec<Vec<DataBlockValue>>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DataBlockValue {
+    Iri(Iri),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    /// If a variable has no value for a particular solution in the VALUES clause,
+    /// the keyword UNDEF is used instead of an RDF term.
+    UnDef,
+}
+
+pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
+    preceded_tag1("from", default_or_named_iri)(i)
+}
+
+pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
+    alt((
+        map(inline_data_one_var, DataBlock::InlineDataOneVar),
+        map(inline_data_full, DataBlock::InlineDataFull),
+    ))(i)
+}
+
+pub(crate) fn inline_data(i: &str) -> IResult<&str, DataBlock> {
+    preceded_tag1("values", datablock)(i)
+}
+
+//delimited(tag("("), map(var,|x|vec![x]), tag(")")),
+pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
+    map(
+        tuple((
+            bracketted(preceded(sp, many0(sp_enc(var)))),
+            delimited(
+                sp_enc(char('{')),
+                many0(sp_enc(bracketted(preceded(
+                    sp,
+                    many0(sp_enc(datablock_value)),
+                )))),
+                preceded(sp, char('}')),
+            ),
+        )),
+        |(vars, data_block_values)| InlineDataFull {
+            vars,
+            data_block_values,
+        },
+    )(i)
+}
+
+pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
+    map(
+        pair(
+            var,
+            delimited(
+                sp_enc(char('{')),
+                many0(sp_enc(datablock_value)),
+                preceded(sp, char('}')),
+            ),
+        ),
+        |(var, values)| InlineDataOneVar { var, values },
+    )(i)
+}
+
+pub(crate) fn datablock_value(i: &str) -> IResult<&str, DataBlockValue> {
+    alt((
+        map(iri, DataBlockValue::Iri),
+        map(rdf_literal, DataBlockValue::RdfLiteral),
+        map(numeric_literal, DataBlockValue::NumericLiteral),
+        map(boolean, DataBlockValue::BooleanLiteral),
+        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::clauses::values_clause;
+    use crate::expression::PrefixedName;
+    use crate::node::{RdfLiteral, RdfLiteralDescriptor};
+
+    #[test]
+    fn is_datablock_value() {
+        assert_eq!(
+            datablock_value("true"),
+            Ok(("", DataBlockValue::BooleanLiteral(true)))
+        );
+
+        assert_eq!(
+            datablock_value("'chat'@fr"),
+            Ok((
+                "",
+                DataBlockValue::RdfLiteral(RdfLiteral::new(
+                    "chat",
+                    RdfLiteralDescriptor::LangTag("fr".to_string())
+                ))
+            ))
+        );
+
+        assert_eq!(
+            datablock_value(r#""abc""#),
+            Ok(("", DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))))
+        );
+    }
+
+    #[test]
+    fn is_inline_data_one_var() {
+        assert_eq!(
+            inline_data_one_var(r#"?name { "abc" "def" }"#),
+            Ok((
+                "",
+                InlineDataOneVar::new(
+                    Var::QMark("name".to_string()),
+                    vec![
+                        DataBlockValue::RdfLiteral(RdfLiteral::literal("abc")),
+                        DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))
+                    ]
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_inline_data_full() {
+        assert_eq!(
+            inline_data_full(r#"() { }"#),
+            Ok(("", InlineDataFull::new(vec![], vec![])))
+        );
+
+        assert_eq!(
+            inline_data_full("( ?name ?z) { }"),
+            Ok((
+                "",
+                InlineDataFull::new(
+                    vec![Var::QMark("name".to_string()), Var::QMark("z".to_string())],
+                    vec![]
+                )
+            ))
+        );
+
+        assert_eq!(
+            inline_data_full(r#"(?name) {  ("abc")  ("def")}"#),
+            Ok((
+                "",
+                InlineDataFull::new(
+                    vec![Var::QMark("name".to_string())],
+                    vec![
+                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("abc"))],
+                        vec![DataBlockValue::RdfLiteral(RdfLiteral::literal("def"))]
+                    ]
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_values_clause() {
+        assert_eq!(
+            values_clause(
+                r#"values (?x ?y) {
+  (:uri1 1)
+  (:uri2 UNDEF)
+}"#
+            ),
+            Ok((
+                "",
+                Some(DataBlock::InlineDataFull(InlineDataFull::new(
+                    vec![Var::QMark("x".to_string()), Var::QMark("y".to_string())],
+                    vec![
+                        vec![
+                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
+                                pn_prefix: None,
+                                pn_local: "uri1".to_string(),
+                            },)),
+                            DataBlockValue::NumericLiteral(NumericLiteral::Int(1))
+                        ],
+                        vec![
+                            DataBlockValue::Iri(Iri::PrefixedName(PrefixedName::PnameLN {
+                                pn_prefix: None,
+                                pn_local: "uri2".to_string(),
+                            },)),
+                            DataBlockValue::UnDef
+                        ]
+                    ]
+                )))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_data_set_clause() {
+        assert_eq!(
+            data_set_clause("FROM    <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Default(Iri::Iri(
+                    "http://example.org/foaf/aliceFoaf".to_string()
+                ))
+            ))
+        );
+
+        assert_eq!(
+            data_set_clause("FROM NAMED <http://example.org/bob>"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::Iri("http://example.org/bob".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            data_set_clause("FROM NAMED :uri1"),
+            Ok((
+                "",
+                DefaultOrNamedIri::Named(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+    }
+
+}
diff --git a/src/expression/functions.rs b/src/expression/functions.rs
index ad7f467..920d73b 100644
--- a/src/expression/functions.rs
+++ b/src/expression/functions.rs
@@ -1,95 +1,95 @@
-use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
-use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
-use crate::literal::StringLiteral;
-use crate::terminals::{bracketted, preceded_bracketted, preceded_tag1, sp_enc};
-use nom::branch::alt;
-use nom::character::complete::char;
-use nom::combinator::{map, opt};
-use nom::sequence::{preceded, tuple};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct RegexExpression {
-    pub first: Expression,
-    pub second: Expression,
-    pub third: Option<Expression>,
-}
-
-pub type SubstringExpression = RegexExpression;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct StrReplaceExpression {
-    pub first: Expression,
-    pub second: Expression,
-    pub third: Expression,
-    pub fourth: Option<Expression>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Constraint {
-    Bracketted(Expression),
-    BuiltInCall(BuiltInCall),
-    FunctionCall(FunctionCall),
-}
-
-pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
-    map(
-        preceded_tag1("regex", bracketted_expr3),
-        |(first, second, third)| RegexExpression {
-            first,
-            second,
-            third,
-        },
-    )(i)
-}
-
-pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
-    map(
-        preceded_tag1("substr", bracketted_expr3),
-        |(first, second, third)| SubstringExpression {
-            first,
-            second,
-            third,
-        },
-    )(i)
-}
-
-pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
-    map(
-        preceded_bracketted(
-            "replace",
-            tuple((
-                expression,
-                preceded(sp_enc(char(',')), expression),
-                preceded(sp_enc(char(',')), expression),
-                opt(preceded(sp_enc(char(',')), expression)),
-            )),
-        ),
-        |(first, second, third, fourth)| StrReplaceExpression {
-            first,
-            second,
-            third,
-            fourth,
-        },
-    )(i)
-}
-
-pub(crate) fn constraint(i: &str) -> IResult<&str, Constraint> {
-    alt((
-        map(bracketted_expression, Constraint::Bracketted),
-        map(built_in_call, Constraint::BuiltInCall),
-        map(function_call, Constraint::FunctionCall),
-    ))(i)
-}
-
-pub(crate) fn filter(i: &str) -> IResult<&str, Constraint> {
-    preceded_tag1("filter", constraint)(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_filter() {}
-}
+use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
+use crate::expression::{bracketted_expr3, bracketted_expression, expression, Expression};
+use crate::literal::StringLiteral;
+use crate::terminals::{bracketted, preceded_bracketted, preceded_tag1, sp_enc};
+use nom::branch::alt;
+use nom::character::complete::char;
+use nom::combinator::{map, opt};
+use nom::sequence::{preceded, tuple};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct RegexExpression {
+    pub first: Expression,
+    pub second: Expression,
+    pub third: Option<Expression>,
+}
+
+pub type SubstringExpression = RegexExpression;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct StrReplaceExpression {
+    pub first: Expression,
+    pub second: Expression,
+    pub third: Expression,
+    pub fourth: Option<Expression>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Constraint {
+    Bracketted(Expression),
+    BuiltInCall(BuiltInCall),
+    FunctionCall(FunctionCall),
+}
+
+pub(crate) fn regex_expression(i: &str) -> IResult<&str, RegexExpression> {
+    map(
+        preceded_tag1("regex", bracketted_expr3),
+        |(first, second, third)| RegexExpression {
+            first,
+            second,
+            third,
+        },
+    )(i)
+}
+
+pub(crate) fn substring_expression(i: &str) -> IResult<&str, SubstringExpression> {
+    map(
+        preceded_tag1("substr", bracketted_expr3),
+        |(first, second, third)| SubstringExpression {
+            first,
+            second,
+            third,
+        },
+    )(i)
+}
+
+pub(crate) fn str_replace_expression(i: &str) -> IResult<&str, StrReplaceExpression> {
+    map(
+        preceded_bracketted(
+            "replace",
+            tuple((
+                expression,
+                preceded(sp_enc(char(',')), expression),
+                preceded(sp_enc(char(',')), expression),
+                opt(preceded(sp_enc(char(',')), expression)),
+            )),
+        ),
+        |(first, second, third, fourth)| StrReplaceExpression {
+            first,
+            second,
+            third,
+            fourth,
+        },
+    )(i)
+}
+
+pub(crate) fn constraint(i: &str) -> IResult<&str, Constraint> {
+    alt((
+        map(bracketted_expression, Constraint::Bracketted),
+        map(built_in_call, Constraint::BuiltInCall),
+        map(function_call, Constraint::FunctionCall),
+    ))(i)
+}
+
+pub(crate) fn filter(i: &str) -> IResult<&str, Constraint> {
+    preceded_tag1("filter", constraint)(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_filter() {}
+}
diff --git a/src/expression/iri.rs b/src/expression/iri.rs
index 7390e51..d15190d 100644
--- a/src/expression/iri.rs
+++ b/src/expression/iri.rs
@@ -1,30 +1,30 @@
-use crate::expression::Iri;
-use crate::terminals::{iri, sp, verb_a};
-use nom::branch::alt;
-use nom::character::complete::char;
-use nom::combinator::map;
-use nom::sequence::{preceded, terminated};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum IriOrAOrCaret {
-    IriOrA(IriOrA),
-    /// [`IriOrA`] prefixed with a `^`
-    Caret(IriOrA),
-}
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum IriOrA {
-    Iri(Iri),
-    A,
-}
-
-pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
-    alt((map(iri, IriOrA::Iri), map(verb_a, |_| IriOrA::A)))(i)
-}
-
-pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
-    alt((
-        map(iri_or_a, IriOrAOrCaret::IriOrA),
-        map(preceded(terminated(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
-    ))(i)
-}
+use crate::expression::Iri;
+use crate::terminals::{iri, sp, verb_a};
+use nom::branch::alt;
+use nom::character::complete::char;
+use nom::combinator::map;
+use nom::sequence::{preceded, terminated};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum IriOrAOrCaret {
+    IriOrA(IriOrA),
+    /// [`IriOrA`] prefixed with a `^`
+    Caret(IriOrA),
+}
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum IriOrA {
+    Iri(Iri),
+    A,
+}
+
+pub(crate) fn iri_or_a(i: &str) -> IResult<&str, IriOrA> {
+    alt((map(iri, IriOrA::Iri), map(verb_a, |_| IriOrA::A)))(i)
+}
+
+pub(crate) fn iri_or_a_or_caret(i: &str) -> IResult<&str, IriOrAOrCaret> {
+    alt((
+        map(iri_or_a, IriOrAOrCaret::IriOrA),
+        map(preceded(terminated(char('^'), sp), iri_or_a), IriOrAOrCaret::Caret),
+    ))(i)
+}
diff --git a/src/expression/mod.rs b/src/expression/mod.rs
index 7e7ab34..5606200 100644
--- a/src/expression/mod.rs
+++ b/src/expression/mod.rs
@@ -1,236 +1,236 @@
-use nom::{
-    branch::alt,
-    bytes::complete::tag,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::separated_nonempty_list,
-    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
-    IResult,
-};
-
-use crate::{
-    arithmetic::{conditional_and_expression, ConditionalAndExpression},
-    call::{built_in_call, function_call, BuiltInCall, FunctionCall},
-    literal::{boolean, distinct, numeric_literal, NumericLiteral},
-    node::RdfLiteral,
-    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, tag_no_case},
-};
-
-use crate::var::{var, Var};
-
-pub mod functions;
-pub mod iri;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Expression(pub Vec<ConditionalAndExpression>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ExpressionList {
-    Nil,
-    List(Vec<Expression>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PrimaryExpression {
-    BrackettedExpression(Box<Expression>),
-    BuiltInCall(BuiltInCall),
-    IriOrFunction(IriOrFunction),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    Var(Var),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Iri {
-    Iri(String),
-    PrefixedName(PrefixedName),
-}
-
-impl Iri {
-    pub fn iri_ref<T: ToString>(iri_ref: T) -> Self {
-        Iri::Iri(iri_ref.to_string())
-    }
-
-    pub fn prefixed_name<T: Into<PrefixedName>>(prefixed_name: T) -> Self {
-        Iri::PrefixedName(prefixed_name.into())
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PrefixedName {
-    PnameLN {
-        pn_prefix: Option<String>,
-        pn_local: String,
-    },
-    PnameNS(Option<String>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DefaultOrNamedIri {
-    Default(Iri),
-    Named(Iri),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct IriOrFunction {
-    pub iri: Iri,
-    pub arg_list: Option<ArgList>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ArgList {
-    Nil,
-    Expression {
-        distinct: bool,
-        expressions: Vec<Expression>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct DistinctExpression {
-    pub distinct: bool,
-    pub expression: Expression,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ExpressionAsVar {
-    pub expression: Box<Expression>,
-    pub var: Var,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ExpressionAsVarOpt {
-    pub expression: Box<Expression>,
-    pub var: Option<Var>,
-}
-
-pub(crate) fn bracketted3<'a, O1, F>(i: &'a str, pat: F) -> IResult<&str, (O1, O1, Option<O1>)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    bracketted(tuple((
-        &pat,
-        preceded(sp_enc(char(',')), &pat),
-        opt(preceded(sp_enc(char(',')), &pat)),
-    )))(i)
-}
-
-pub(crate) fn bracketted_expr3(
-    i: &str,
-) -> IResult<&str, (Expression, Expression, Option<Expression>)> {
-    bracketted3(i, expression)
-}
-
-pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt> {
-    delimited(
-        char('('),
-        sp_enc(map(
-            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
-            |(expression, var)| ExpressionAsVarOpt {
-                expression: Box::new(expression),
-                var,
-            },
-        )),
-        char(')'),
-    )(i)
-}
-
-pub(crate) fn expression_as_var(i: &str) -> IResult<&str, ExpressionAsVar> {
-    delimited(
-        char('('),
-        sp_enc(map(
-            separated_pair(expression, sp_enc(tag_no_case("as")), var),
-            |(expression, var)| ExpressionAsVar {
-                expression: Box::new(expression),
-                var,
-            },
-        )),
-        char(')'),
-    )(i)
-}
-
-pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
-    alt((
-        map(bracketted_expression, |expr| {
-            PrimaryExpression::BrackettedExpression(Box::new(expr))
-        }),
-        map(built_in_call, PrimaryExpression::BuiltInCall),
-        map(iri_or_fun, PrimaryExpression::IriOrFunction),
-        map(rdf_literal, PrimaryExpression::RdfLiteral),
-        map(numeric_literal, PrimaryExpression::NumericLiteral),
-        map(boolean, PrimaryExpression::BooleanLiteral),
-        map(var, PrimaryExpression::Var),
-    ))(i)
-}
-
-pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
-    alt((
-        map(nil, |_| ExpressionList::Nil),
-        map(
-            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
-            ExpressionList::List,
-        ),
-    ))(i)
-}
-
-pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
-    map(
-        pair(
-            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
-            expression,
-        ),
-        |(distinct, expression)| DistinctExpression {
-            distinct,
-            expression,
-        },
-    )(i)
-}
-
-pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
-    bracketted(sp_enc(expression))(i)
-}
-
-pub(crate) fn bind(i: &str) -> IResult<&str, ExpressionAsVar> {
-    preceded_tag1("bind", expression_as_var)(i)
-}
-
-pub(crate) fn expression(i: &str) -> IResult<&str, Expression> {
-    map(
-        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
-        Expression,
-    )(i)
-}
-
-#[cfg(test)]
-mod test {
-    use super::*;
-    use crate::terminals::iri;
-
-    #[test]
-    fn is_iri() {
-        assert_eq!(
-            iri("<http://example.org/book/book1>"),
-            Ok(("", Iri::Iri("http://example.org/book/book1".to_string())))
-        );
-
-        assert_eq!(
-            iri(":book1"),
-            Ok((
-                "",
-                Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "book1".to_string()
-                })
-            ))
-        );
-
-        assert_eq!(
-            iri(":"),
-            Ok(("", Iri::PrefixedName(PrefixedName::PnameNS(None))))
-        );
-    }
-
-    #[test]
-    fn is_expression_as_var() {}
-}
+use nom::{
+    branch::alt,
+    bytes::complete::tag,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::separated_nonempty_list,
+    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
+    IResult,
+};
+
+use crate::{
+    arithmetic::{conditional_and_expression, ConditionalAndExpression},
+    call::{built_in_call, function_call, BuiltInCall, FunctionCall},
+    literal::{boolean, distinct, numeric_literal, NumericLiteral},
+    node::RdfLiteral,
+    terminals::{bracketted, iri_or_fun, nil, preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, tag_no_case},
+};
+
+use crate::var::{var, Var};
+
+pub mod functions;
+pub mod iri;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Expression(pub Vec<ConditionalAndExpression>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ExpressionList {
+    Nil,
+    List(Vec<Expression>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PrimaryExpression {
+    BrackettedExpression(Box<Expression>),
+    BuiltInCall(BuiltInCall),
+    IriOrFunction(IriOrFunction),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    Var(Var),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Iri {
+    Iri(String),
+    PrefixedName(PrefixedName),
+}
+
+impl Iri {
+    pub fn iri_ref<T: ToString>(iri_ref: T) -> Self {
+        Iri::Iri(iri_ref.to_string())
+    }
+
+    pub fn prefixed_name<T: Into<PrefixedName>>(prefixed_name: T) -> Self {
+        Iri::PrefixedName(prefixed_name.into())
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PrefixedName {
+    PnameLN {
+        pn_prefix: Option<String>,
+        pn_local: String,
+    },
+    PnameNS(Option<String>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DefaultOrNamedIri {
+    Default(Iri),
+    Named(Iri),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct IriOrFunction {
+    pub iri: Iri,
+    pub arg_list: Option<ArgList>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ArgList {
+    Nil,
+    Expression {
+        distinct: bool,
+        expressions: Vec<Expression>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct DistinctExpression {
+    pub distinct: bool,
+    pub expression: Expression,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ExpressionAsVar {
+    pub expression: Box<Expression>,
+    pub var: Var,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ExpressionAsVarOpt {
+    pub expression: Box<Expression>,
+    pub var: Option<Var>,
+}
+
+pub(crate) fn bracketted3<'a, O1, F>(i: &'a str, pat: F) -> IResult<&str, (O1, O1, Option<O1>)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    bracketted(tuple((
+        &pat,
+        preceded(sp_enc(char(',')), &pat),
+        opt(preceded(sp_enc(char(',')), &pat)),
+    )))(i)
+}
+
+pub(crate) fn bracketted_expr3(
+    i: &str,
+) -> IResult<&str, (Expression, Expression, Option<Expression>)> {
+    bracketted3(i, expression)
+}
+
+pub(crate) fn expression_as_var_opt(i: &str) -> IResult<&str, ExpressionAsVarOpt> {
+    delimited(
+        char('('),
+        sp_enc(map(
+            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),
+            |(expression, var)| ExpressionAsVarOpt {
+                expression: Box::new(expression),
+                var,
+            },
+        )),
+        char(')'),
+    )(i)
+}
+
+pub(crate) fn expression_as_var(i: &str) -> IResult<&str, ExpressionAsVar> {
+    delimited(
+        char('('),
+        sp_enc(map(
+            separated_pair(expression, sp_enc(tag_no_case("as")), var),
+            |(expression, var)| ExpressionAsVar {
+                expression: Box::new(expression),
+                var,
+            },
+        )),
+        char(')'),
+    )(i)
+}
+
+pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
+    alt((
+        map(bracketted_expression, |expr| {
+            PrimaryExpression::BrackettedExpression(Box::new(expr))
+        }),
+        map(built_in_call, PrimaryExpression::BuiltInCall),
+        map(iri_or_fun, PrimaryExpression::IriOrFunction),
+        map(rdf_literal, PrimaryExpression::RdfLiteral),
+        map(numeric_literal, PrimaryExpression::NumericLiteral),
+        map(boolean, PrimaryExpression::BooleanLiteral),
+        map(var, PrimaryExpression::Var),
+    ))(i)
+}
+
+pub(crate) fn expression_list(i: &str) -> IResult<&str, ExpressionList> {
+    alt((
+        map(nil, |_| ExpressionList::Nil),
+        map(
+            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
+            ExpressionList::List,
+        ),
+    ))(i)
+}
+
+pub(crate) fn distinct_expression(i: &str) -> IResult<&str, DistinctExpression> {
+    map(
+        pair(
+            map(opt(terminated(distinct, sp)), Option::unwrap_or_default),
+            expression,
+        ),
+        |(distinct, expression)| DistinctExpression {
+            distinct,
+            expression,
+        },
+    )(i)
+}
+
+pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
+    bracketted(sp_enc(expression))(i)
+}
+
+pub(crate) fn bind(i: &str) -> IResult<&str, ExpressionAsVar> {
+    preceded_tag1("bind", expression_as_var)(i)
+}
+
+pub(crate) fn expression(i: &str) -> IResult<&str, Expression> {
+    map(
+        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
+        Expression,
+    )(i)
+}
+
+#[cfg(test)]
+mod test {
+    use super::*;
+    use crate::terminals::iri;
+
+    #[test]
+    fn is_iri() {
+        assert_eq!(
+            iri("<http://example.org/book/book1>"),
+            Ok(("", Iri::Iri("http://example.org/book/book1".to_string())))
+        );
+
+        assert_eq!(
+            iri(":book1"),
+            Ok((
+                "",
+                Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "book1".to_string()
+                })
+            ))
+        );
+
+        assert_eq!(
+            iri(":"),
+            Ok(("", Iri::PrefixedName(PrefixedName::PnameNS(None))))
+        );
+    }
+
+    #[test]
+    fn is_expression_as_var() {}
+}
diff --git a/src/graph.rs b/src/graph.rs
index 9866992..4ce6b89 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -1,347 +1,347 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    sequence::separated_pair,
-    sequence::{delimited, pair, preceded, terminated},
-    IResult,
-};
-
-use crate::expression::functions::{filter, Constraint};
-use crate::{
-    data::inline_data,
-    data::{datablock, DataBlock},
-    expression::DefaultOrNamedIri,
-    expression::{bind, ExpressionAsVar, Iri},
-    literal::NumericLiteral,
-    literal::{boolean, numeric_literal, silent},
-    node::{BlankNode, RdfLiteral, TriplesNode},
-    quads::{quads_pattern, Quads},
-    query::select::{sub_select, SubSelect},
-    terminals::{dot, sp_sep1},
-    terminals::{
-        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
-        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
-    },
-    triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
-    var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
-};
-use nom::character::complete::char;
-use nom::combinator::recognize;
-use nom::multi::{separated_list, separated_nonempty_list};
-use nom::sequence::tuple;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphTerm {
-    Iri(Iri),
-    RdfLiteral(RdfLiteral),
-    NumericLiteral(NumericLiteral),
-    BooleanLiteral(bool),
-    BlankNode(BlankNode),
-    /// empty parentheses
-    Nil,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupGraphPatternSub {
-    pub triples_block: Option<TriplesBlock>,
-    pub graph_pattern_and_triples: Vec<GraphPatternAndTriples>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphOrDefault {
-    Graph(Iri),
-    Default,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphRefAll {
-    GraphRef(Iri),
-    Default,
-    Named,
-    All,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphNode {
-    VarOrTerm(VarOrTerm),
-    TriplesNode(Box<TriplesNode>),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GroupGraphPattern {
-    SubSelect(Box<SubSelect>),
-    GroupGraphPatternSub(GroupGraphPatternSub),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphPattern {
-    pub pattern_or_filter: GraphPatternOrFilter,
-    pub triples_block: Option<TriplesBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphPatternOrFilter {
-    GraphPattern(Box<GraphPatternNotTriples>),
-    Filter(Constraint),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphPatternNotTriples {
-    Optional(GroupGraphPattern),
-    GroupOrUnion(GroupOrUnionGraphPattern),
-    Minus(GroupGraphPattern),
-    Graph(GraphGraphPattern),
-    Service(ServiceGraphPattern),
-    Filter(Constraint),
-    Bind(ExpressionAsVar),
-    InlineData(DataBlock),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphPatternAndTriples {
-    pub graph_pattern: GraphPatternNotTriples,
-    pub triples: Option<TriplesBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupOrUnionGraphPattern(pub Vec<GroupGraphPattern>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GraphGraphPattern {
-    pub var_or_iri: VarOrIri,
-    pub graph_pattern: GroupGraphPattern,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ServiceGraphPattern {
-    pub var_or_iri: VarOrIri,
-    pub silent: bool,
-    pub graph_pattern: GroupGraphPattern,
-}
-
-pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
-    map(sp_sep(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
-}
-
-pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
-    alt((
-        map(tag_no_case("default"), |_| GraphOrDefault::Default),
-        map(
-            pair(opt(pair(tag_no_case("graph"), sp)), iri),
-            |(_, iri)| GraphOrDefault::Graph(iri),
-        ),
-    ))(i)
-}
-
-pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
-    alt((
-        map(tag_no_case("default"), |_| GraphRefAll::Default),
-        map(tag_no_case("named"), |_| GraphRefAll::Named),
-        map(tag_no_case("all"), |_| GraphRefAll::All),
-        map(graph_ref, GraphRefAll::GraphRef),
-    ))(i)
-}
-
-pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {
-    alt((
-        map(
-            group_or_union_graph_pattern,
-            GraphPatternNotTriples::GroupOrUnion,
-        ),
-        map(
-            optional_group_graph_pattern,
-            GraphPatternNotTriples::Optional,
-        ),
-        map(minus_graph_pattern, GraphPatternNotTriples::Minus),
-        map(graph_graph_pattern, GraphPatternNotTriples::Graph),
-        map(service_graph_pattern, GraphPatternNotTriples::Service),
-        map(filter, GraphPatternNotTriples::Filter),
-        map(bind, GraphPatternNotTriples::Bind),
-        map(inline_data, GraphPatternNotTriples::InlineData),
-    ))(i)
-}
-
-pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
-    map(
-        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
-        GroupOrUnionGraphPattern,
-    )(i)
-}
-pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("optional", group_graph_pattern)(i)
-}
-pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    preceded_tag1("minus", group_graph_pattern)(i)
-}
-
-pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
-    map(
-        tuple((
-            terminated(tag_no_case("graph"), sp),
-            terminated(var_or_iri, sp),
-            group_graph_pattern,
-        )),
-        |(_, var_or_iri, graph_pattern)| GraphGraphPattern {
-            var_or_iri,
-            graph_pattern,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatternSub> {
-    map(
-        pair(
-            opt(terminated(triples_block, sp)),
-            sp_list0(group_graph_pattern_and_triples),
-        ),
-        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
-            triples_block,
-            graph_pattern_and_triples,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
-    map(
-        separated_pair(
-            graph_pattern_not_triples,
-            opt(preceded(sp, dot)),
-            opt(preceded(sp, triples_block)),
-        ),
-        |(graph_pattern, triples)| GraphPatternAndTriples {
-            graph_pattern,
-            triples,
-        },
-    )(i)
-}
-
-pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
-    map(
-        tuple((
-            terminated(tag_no_case("service"), sp),
-            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
-            terminated(var_or_iri, sp),
-            group_graph_pattern,
-        )),
-        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
-            var_or_iri,
-            silent,
-            graph_pattern,
-        },
-    )(i)
-}
-
-pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
-    delimited(
-        char('{'),
-        sp_enc(alt((
-            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
-            map(
-                group_graph_pattern_sub,
-                GroupGraphPattern::GroupGraphPatternSub,
-            ),
-        ))),
-        char('}'),
-    )(i)
-}
-
-pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
-    alt((
-        map(iri, GraphTerm::Iri),
-        map(rdf_literal, GraphTerm::RdfLiteral),
-        map(numeric_literal, GraphTerm::NumericLiteral),
-        map(boolean, GraphTerm::BooleanLiteral),
-        map(blank_node, GraphTerm::BlankNode),
-        map(nil, |_| GraphTerm::Nil),
-    ))(i)
-}
-
-pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
-    alt((
-        map(
-            pair(
-                tag("_:"),
-                recognize(pair(
-                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
-                    pn_chars_tail,
-                )),
-            ),
-            |(_, label)| BlankNode::Label(label.to_string()),
-        ),
-        map(delimited(char('['), sp, char(']')), |_| BlankNode::Anon),
-    ))(i)
-}
-
-pub(crate) fn graph_node(i: &str) -> IResult<&str, GraphNode> {
-    alt((
-        map(var_or_term, GraphNode::VarOrTerm),
-        map(triples_node, |node| GraphNode::TriplesNode(Box::new(node))),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::PrefixedName;
-
-    #[test]
-    fn is_graph_ref_all() {
-        assert_eq!(graph_ref_all("default"), Ok(("", GraphRefAll::Default)));
-        assert_eq!(
-            graph_ref_all("graph :uri1"),
-            Ok((
-                "",
-                GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                    pn_prefix: None,
-                    pn_local: "uri1".to_string(),
-                },))
-            ))
-        );
-        assert_eq!(
-            graph_ref_all("graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                GraphRefAll::GraphRef(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_graph_term() {
-        assert_eq!(graph_term("()"), Ok(("", GraphTerm::Nil)));
-        assert_eq!(
-            graph_term("true"),
-            Ok(("", GraphTerm::BooleanLiteral(true)))
-        );
-        assert_eq!(
-            graph_term("<http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                GraphTerm::Iri(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
-            ))
-        );
-
-        assert_eq!(
-            graph_term("-5"),
-            Ok(("", GraphTerm::NumericLiteral(NumericLiteral::Int(-5))))
-        );
-    }
-
-    #[test]
-    fn is_var_or_term() {
-        assert_eq!(var_or_term("()"), Ok(("", VarOrTerm::Term(GraphTerm::Nil))));
-        assert_eq!(
-            var_or_term("false"),
-            Ok(("", VarOrTerm::Term(GraphTerm::BooleanLiteral(false))))
-        );
-
-        assert_eq!(
-            var_or_term("?name"),
-            Ok(("", VarOrTerm::Var(Var::QMark("name".to_string()))))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    sequence::separated_pair,
+    sequence::{delimited, pair, preceded, terminated},
+    IResult,
+};
+
+use crate::expression::functions::{filter, Constraint};
+use crate::{
+    data::inline_data,
+    data::{datablock, DataBlock},
+    expression::DefaultOrNamedIri,
+    expression::{bind, ExpressionAsVar, Iri},
+    literal::NumericLiteral,
+    literal::{boolean, numeric_literal, silent},
+    node::{BlankNode, RdfLiteral, TriplesNode},
+    quads::{quads_pattern, Quads},
+    query::select::{sub_select, SubSelect},
+    terminals::{dot, sp_sep1},
+    terminals::{
+        anon, default_or_named_iri, iri, nil, pn_chars_tail, pn_chars_u_one, pn_local,
+        preceded_tag1, rdf_literal, sp, sp1, sp_enc, sp_enc1, sp_list0, sp_sep, tag_no_case,
+    },
+    triple::{property_list, property_list_not_empty, triples_block, triples_node, TriplesBlock},
+    var::{var_or_iri, var_or_term, Var, VarOrIri, VarOrTerm, Verb},
+};
+use nom::character::complete::char;
+use nom::combinator::recognize;
+use nom::multi::{separated_list, separated_nonempty_list};
+use nom::sequence::tuple;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphTerm {
+    Iri(Iri),
+    RdfLiteral(RdfLiteral),
+    NumericLiteral(NumericLiteral),
+    BooleanLiteral(bool),
+    BlankNode(BlankNode),
+    /// empty parentheses
+    Nil,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupGraphPatternSub {
+    pub triples_block: Option<TriplesBlock>,
+    pub graph_pattern_and_triples: Vec<GraphPatternAndTriples>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphOrDefault {
+    Graph(Iri),
+    Default,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphRefAll {
+    GraphRef(Iri),
+    Default,
+    Named,
+    All,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphNode {
+    VarOrTerm(VarOrTerm),
+    TriplesNode(Box<TriplesNode>),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GroupGraphPattern {
+    SubSelect(Box<SubSelect>),
+    GroupGraphPatternSub(GroupGraphPatternSub),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphPattern {
+    pub pattern_or_filter: GraphPatternOrFilter,
+    pub triples_block: Option<TriplesBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphPatternOrFilter {
+    GraphPattern(Box<GraphPatternNotTriples>),
+    Filter(Constraint),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphPatternNotTriples {
+    Optional(GroupGraphPattern),
+    GroupOrUnion(GroupOrUnionGraphPattern),
+    Minus(GroupGraphPattern),
+    Graph(GraphGraphPattern),
+    Service(ServiceGraphPattern),
+    Filter(Constraint),
+    Bind(ExpressionAsVar),
+    InlineData(DataBlock),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphPatternAndTriples {
+    pub graph_pattern: GraphPatternNotTriples,
+    pub triples: Option<TriplesBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupOrUnionGraphPattern(pub Vec<GroupGraphPattern>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GraphGraphPattern {
+    pub var_or_iri: VarOrIri,
+    pub graph_pattern: GroupGraphPattern,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ServiceGraphPattern {
+    pub var_or_iri: VarOrIri,
+    pub silent: bool,
+    pub graph_pattern: GroupGraphPattern,
+}
+
+pub(crate) fn graph_ref(i: &str) -> IResult<&str, Iri> {
+    map(sp_sep(tag_no_case("graph"), iri), |(_, iri)| iri)(i)
+}
+
+pub(crate) fn graph_or_default(i: &str) -> IResult<&str, GraphOrDefault> {
+    alt((
+        map(tag_no_case("default"), |_| GraphOrDefault::Default),
+        map(
+            pair(opt(pair(tag_no_case("graph"), sp)), iri),
+            |(_, iri)| GraphOrDefault::Graph(iri),
+        ),
+    ))(i)
+}
+
+pub(crate) fn graph_ref_all(i: &str) -> IResult<&str, GraphRefAll> {
+    alt((
+        map(tag_no_case("default"), |_| GraphRefAll::Default),
+        map(tag_no_case("named"), |_| GraphRefAll::Named),
+        map(tag_no_case("all"), |_| GraphRefAll::All),
+        map(graph_ref, GraphRefAll::GraphRef),
+    ))(i)
+}
+
+pub(crate) fn graph_pattern_not_triples(i: &str) -> IResult<&str, GraphPatternNotTriples> {
+    alt((
+        map(
+            group_or_union_graph_pattern,
+            GraphPatternNotTriples::GroupOrUnion,
+        ),
+        map(
+            optional_group_graph_pattern,
+            GraphPatternNotTriples::Optional,
+        ),
+        map(minus_graph_pattern, GraphPatternNotTriples::Minus),
+        map(graph_graph_pattern, GraphPatternNotTriples::Graph),
+        map(service_graph_pattern, GraphPatternNotTriples::Service),
+        map(filter, GraphPatternNotTriples::Filter),
+        map(bind, GraphPatternNotTriples::Bind),
+        map(inline_data, GraphPatternNotTriples::InlineData),
+    ))(i)
+}
+
+pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
+    map(
+        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
+        GroupOrUnionGraphPattern,
+    )(i)
+}
+pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded_tag1("optional", group_graph_pattern)(i)
+}
+pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    preceded_tag1("minus", group_graph_pattern)(i)
+}
+
+pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
+    map(
+        tuple((
+            terminated(tag_no_case("graph"), sp),
+            terminated(var_or_iri, sp),
+            group_graph_pattern,
+        )),
+        |(_, var_or_iri, graph_pattern)| GraphGraphPattern {
+            var_or_iri,
+            graph_pattern,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern_sub(i: &str) -> IResult<&str, GroupGraphPatternSub> {
+    map(
+        pair(
+            opt(terminated(triples_block, sp)),
+            sp_list0(group_graph_pattern_and_triples),
+        ),
+        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
+            triples_block,
+            graph_pattern_and_triples,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
+    map(
+        separated_pair(
+            graph_pattern_not_triples,
+            opt(preceded(sp, dot)),
+            opt(preceded(sp, triples_block)),
+        ),
+        |(graph_pattern, triples)| GraphPatternAndTriples {
+            graph_pattern,
+            triples,
+        },
+    )(i)
+}
+
+pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
+    map(
+        tuple((
+            terminated(tag_no_case("service"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
+            terminated(var_or_iri, sp),
+            group_graph_pattern,
+        )),
+        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
+            var_or_iri,
+            silent,
+            graph_pattern,
+        },
+    )(i)
+}
+
+pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
+    delimited(
+        char('{'),
+        sp_enc(alt((
+            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
+            map(
+                group_graph_pattern_sub,
+                GroupGraphPattern::GroupGraphPatternSub,
+            ),
+        ))),
+        char('}'),
+    )(i)
+}
+
+pub(crate) fn graph_term(i: &str) -> IResult<&str, GraphTerm> {
+    alt((
+        map(iri, GraphTerm::Iri),
+        map(rdf_literal, GraphTerm::RdfLiteral),
+        map(numeric_literal, GraphTerm::NumericLiteral),
+        map(boolean, GraphTerm::BooleanLiteral),
+        map(blank_node, GraphTerm::BlankNode),
+        map(nil, |_| GraphTerm::Nil),
+    ))(i)
+}
+
+pub(crate) fn blank_node(i: &str) -> IResult<&str, BlankNode> {
+    alt((
+        map(
+            pair(
+                tag("_:"),
+                recognize(pair(
+                    alt((pn_chars_u_one, take_while_m_n(1, 1, |c: char| c.is_ascii_digit()))),
+                    pn_chars_tail,
+                )),
+            ),
+            |(_, label)| BlankNode::Label(label.to_string()),
+        ),
+        map(delimited(char('['), sp, char(']')), |_| BlankNode::Anon),
+    ))(i)
+}
+
+pub(crate) fn graph_node(i: &str) -> IResult<&str, GraphNode> {
+    alt((
+        map(var_or_term, GraphNode::VarOrTerm),
+        map(triples_node, |node| GraphNode::TriplesNode(Box::new(node))),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::PrefixedName;
+
+    #[test]
+    fn is_graph_ref_all() {
+        assert_eq!(graph_ref_all("default"), Ok(("", GraphRefAll::Default)));
+        assert_eq!(
+            graph_ref_all("graph :uri1"),
+            Ok((
+                "",
+                GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                    pn_prefix: None,
+                    pn_local: "uri1".to_string(),
+                },))
+            ))
+        );
+        assert_eq!(
+            graph_ref_all("graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                GraphRefAll::GraphRef(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_graph_term() {
+        assert_eq!(graph_term("()"), Ok(("", GraphTerm::Nil)));
+        assert_eq!(
+            graph_term("true"),
+            Ok(("", GraphTerm::BooleanLiteral(true)))
+        );
+        assert_eq!(
+            graph_term("<http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                GraphTerm::Iri(Iri::Iri("http://example.org/foaf/aliceFoaf".to_string()))
+            ))
+        );
+
+        assert_eq!(
+            graph_term("-5"),
+            Ok(("", GraphTerm::NumericLiteral(NumericLiteral::Int(-5))))
+        );
+    }
+
+    #[test]
+    fn is_var_or_term() {
+        assert_eq!(var_or_term("()"), Ok(("", VarOrTerm::Term(GraphTerm::Nil))));
+        assert_eq!(
+            var_or_term("false"),
+            Ok(("", VarOrTerm::Term(GraphTerm::BooleanLiteral(false))))
+        );
+
+        assert_eq!(
+            var_or_term("?name"),
+            Ok(("", VarOrTerm::Var(Var::QMark("name".to_string()))))
+        );
+    }
+
+}
diff --git a/src/group.rs b/src/group.rs
index bdec56e..8b9fd13 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -1,50 +1,50 @@
-use nom::combinator::map;
-use nom::multi::separated_nonempty_list;
-use nom::sequence::delimited;
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
-
-use crate::expression::{
-    expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
-};
-
-use crate::terminals::{sp, sp1, sp_list1, tag_no_case};
-use crate::var::{var, Var};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct GroupClause(pub Vec<GroupCondition>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GroupCondition {
-    BuiltInCall(BuiltInCall),
-    FunctionCall(FunctionCall),
-    ExpressionAsVarOpt(ExpressionAsVarOpt),
-    Var(Var),
-}
-
-pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
-    map(
-        preceded(
-            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp),
-            sp_list1(group_condition),
-        ),
-        GroupClause,
-    )(i)
-}
-
-pub(crate) fn group_condition(i: &str) -> IResult<&str, GroupCondition> {
-    alt((
-        map(built_in_call, GroupCondition::BuiltInCall),
-        map(function_call, GroupCondition::FunctionCall),
-        map(expression_as_var_opt, GroupCondition::ExpressionAsVarOpt),
-        map(var, GroupCondition::Var),
-    ))(i)
-}
+use nom::combinator::map;
+use nom::multi::separated_nonempty_list;
+use nom::sequence::delimited;
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::call::{built_in_call, function_call, BuiltInCall, FunctionCall};
+
+use crate::expression::{
+    expression_as_var_opt, DefaultOrNamedIri, ExpressionAsVar, ExpressionAsVarOpt, Iri,
+};
+
+use crate::terminals::{sp, sp1, sp_list1, tag_no_case};
+use crate::var::{var, Var};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct GroupClause(pub Vec<GroupCondition>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GroupCondition {
+    BuiltInCall(BuiltInCall),
+    FunctionCall(FunctionCall),
+    ExpressionAsVarOpt(ExpressionAsVarOpt),
+    Var(Var),
+}
+
+pub(crate) fn group_clause(i: &str) -> IResult<&str, GroupClause> {
+    map(
+        preceded(
+            terminated(delimited(tag_no_case("group"), sp1, tag_no_case("by")), sp),
+            sp_list1(group_condition),
+        ),
+        GroupClause,
+    )(i)
+}
+
+pub(crate) fn group_condition(i: &str) -> IResult<&str, GroupCondition> {
+    alt((
+        map(built_in_call, GroupCondition::BuiltInCall),
+        map(function_call, GroupCondition::FunctionCall),
+        map(expression_as_var_opt, GroupCondition::ExpressionAsVarOpt),
+        map(var, GroupCondition::Var),
+    ))(i)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 73f5742..dfa3b9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,42 +1,42 @@
-//#![deny(missing_docs)]
-
-#![allow(unused)]
-
-#[macro_use]
-extern crate derive_new;
-
-/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
-pub mod aggregate;
-pub mod arithmetic;
-pub mod call;
-pub mod clauses;
-pub mod data;
-pub mod expression;
-pub mod graph;
-pub mod group;
-pub mod literal;
-pub mod node;
-pub mod operations;
-pub mod order;
-pub mod parser;
-pub mod path;
-pub mod prologue;
-pub mod quads;
-pub mod query;
-pub mod read;
-pub mod terminals;
-pub mod triple;
-pub mod update;
-pub mod var;
-pub mod write;
-
-pub mod mimes {}
-
-/// Entry points for the verification harness, which cannot reach them otherwise.
-#[allow(unexpected_cfgs)]
-#[cfg(nom_sparql_verif)]
-pub mod verif_hooks {
-    pub fn update(i: &str) -> nom::IResult<&str, crate::update::Update> {
-        crate::update::update(i)
-    }
-}
+//#![deny(missing_docs)]
+
+#![allow(unused)]
+
+#[macro_use]
+extern crate derive_new;
+
+/// https://www.obitko.com/tutorials/ontologies-semantic-web/rdf-query-language-sparql.html
+pub mod aggregate;
+pub mod arithmetic;
+pub mod call;
+pub mod clauses;
+pub mod data;
+pub mod expression;
+pub mod graph;
+pub mod group;
+pub mod literal;
+pub mod node;
+pub mod operations;
+pub mod order;
+pub mod parser;
+pub mod path;
+pub mod prologue;
+pub mod quads;
+pub mod query;
+pub mod read;
+pub mod terminals;
+pub mod triple;
+pub mod update;
+pub mod var;
+pub mod write;
+
+pub mod mimes {}
+
+/// Entry points for the verification harness, which cannot reach them otherwise.
+#[allow(unexpected_cfgs)]
+#[cfg(nom_sparql_verif)]
+pub mod verif_hooks {
+    pub fn update(i: &str) -> nom::IResult<&str, crate::update::Update> {
+        crate::update::update(i)
+    }
+}
diff --git a/src/literal.rs b/src/literal.rs
index 78b0c83..f14a03e 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,246 +1,246 @@
-use nom::combinator::{cut, opt, recognize};
-use nom::error::{make_error, ErrorKind};
-use nom::sequence::{pair, tuple};
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::{
-        complete::{char, digit1},
-        is_digit,
-    },
-    combinator::{map, map_res},
-    error::ParseError,
-    sequence::{preceded, terminated},
-    Err, IResult, ParseTo,
-};
-
-use crate::arithmetic::Sign;
-use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum StringLiteral {
-    /// A quoted only string
-    Simple(String),
-    /// The literal and the language
-    Language((String, String)),
-    /// A `xsd:string` typed literal
-    Typed(String),
-}
-
-impl StringLiteral {
-    /// Compatibility of two arguments is defined as:
-    ///
-    /// The arguments are simple literals or literals typed as xsd:string
-    /// The arguments are plain literals with identical language tags
-    /// The first argument is a plain literal with language tag
-    /// and the second argument is a simple literal or literal typed as xsd:string
-    pub fn compatible_arg(&self, arg2: &Self) -> bool {
-        match self {
-            StringLiteral::Simple(_) => {
-                if let StringLiteral::Language(_) = arg2 {
-                    false
-                } else {
-                    true
-                }
-            }
-            StringLiteral::Language((_, lang)) => {
-                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
-                    lang == arg2_lang
-                } else {
-                    true
-                }
-            }
-            StringLiteral::Typed(_) => {
-                if let StringLiteral::Language(_) = arg2 {
-                    false
-                } else {
-                    true
-                }
-            }
-        }
-    }
-}
-
-#[derive(Debug, Clone, PartialEq)]
-pub enum NumericLiteral {
-    Int(i64),
-    /// a sparql decimal is just sparql double without an exponent
-    Double((f64, Option<i64>)),
-}
-
-impl Eq for NumericLiteral {}
-
-#[inline]
-pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
-    alt((
-        map(
-            terminated(
-                map(string_literal, String::from),
-                tag_no_case("^^xsd:string"),
-            ),
-            StringLiteral::Simple,
-        ),
-        map(
-            pair(
-                map(string_literal, String::from),
-                opt(map(language_tag, String::from)),
-            ),
-            |(lit, lang)| {
-                if let Some(lang) = lang {
-                    StringLiteral::Language((lit, lang))
-                } else {
-                    StringLiteral::Simple(lit)
-                }
-            },
-        ),
-    ))(i)
-}
-
-#[inline]
-pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("silent"), |_| true)(i)
-}
-
-#[inline]
-pub(crate) fn distinct(i: &str) -> IResult<&str, bool> {
-    map(tag_no_case("distinct"), |_| true)(i)
-}
-
-pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
-    alt((
-        map(tag_no_case("false"), |_| false),
-        map(tag_no_case("true"), |_| true),
-    ))(i)
-}
-
-pub(crate) fn sign(i: &str) -> IResult<&str, Sign> {
-    alt((map(char('+'), |_| Sign::POS), map(char('-'), |_| Sign::NEG)))(i)
-}
-
-pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
-    preceded(
-        alt((char('e'), char('E'))),
-        map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
-            |s: &str| s.parse::<i64>(),
-        ),
-    )(i)
-}
-
-pub(crate) fn recognize_spaqrql_float(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        opt(alt((char('+'), char('-')))),
-        alt((
-            map(pair(digit1, opt(pair(char('.'), opt(digit1)))), |_| ()),
-            map(tuple((char('.'), digit1)), |_| ()),
-        )),
-    ))(i)
-}
-
-pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
-    match recognize_spaqrql_float(input) {
-        Err(e) => Err(e),
-        Ok((i, s)) => match s.parse_to() {
-            Some(n) => Ok((i, n)),
-            None => Err(Err::Error(make_error(i, ErrorKind::Float))),
-        },
-    }
-}
-
-pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
-    pair(sparql_decimal, opt(exponent))(i)
-}
-
-pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
-    match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
-        Ok((i, o)) => {
-            // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
-                Err(Err::Error(make_error(i, ErrorKind::Float)))
-            } else if let Ok(v) = o.parse() {
-                Ok((i, v))
-            } else {
-                Err(Err::Error(make_error(i, ErrorKind::Digit)))
-            }
-        }
-        Err(e) => Err(e),
-    }
-}
-
-pub(crate) fn numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
-    alt((
-        map(sparql_int, NumericLiteral::Int),
-        map(sparql_double, NumericLiteral::Double),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_exponent() {
-        assert_eq!(exponent("e+25"), Ok(("", 25)));
-        assert_eq!(exponent("e25"), Ok(("", 25)));
-        assert_eq!(exponent("E-25"), Ok(("", -25)));
-    }
-
-    #[test]
-    fn is_decimal() {
-        assert_eq!(sparql_decimal("-.0"), Ok(("", 0.0)));
-        assert_eq!(sparql_decimal(".02"), Ok(("", 0.02)));
-        assert_eq!(sparql_decimal("1."), Ok(("", 1.0)));
-    }
-    #[test]
-    fn is_double() {
-        assert_eq!(sparql_double("-.0"), Ok(("", (0.0, None))));
-        assert_eq!(sparql_double(".02e10"), Ok(("", (0.02, Some(10)))));
-        assert_eq!(sparql_double("1.E-20"), Ok(("", (1.0, Some(-20)))));
-    }
-
-    #[test]
-    fn is_numeric_literal_int() {
-        let mut expected = numeric_literal("+11").unwrap();
-
-        if let NumericLiteral::Int(i) = expected.1 {
-            assert_eq!(11, i);
-        } else {
-            panic!("int literal mistaken for double {:?}", expected.1)
-        }
-
-        expected = numeric_literal("-5").unwrap();
-        if let NumericLiteral::Int(i) = expected.1 {
-            assert_eq!(-5, i);
-        } else {
-            panic!("int literal mistaken for double {:?}", expected.1)
-        }
-    }
-    #[test]
-    fn is_numeric_literal_double() {
-        let mut expected = numeric_literal("+11.").unwrap();
-        if let NumericLiteral::Double((_d, e)) = expected.1 {
-            assert!(e.is_none());
-        } else {
-            panic!("double literal mistaken for int {:?}", expected.1)
-        }
-
-        expected = numeric_literal("+.0e10").unwrap();
-        if let NumericLiteral::Double((_d, e)) = expected.1 {
-            assert_eq!(e, Some(10));
-        } else {
-            panic!("double literal mistaken for int {:?}", expected.1)
-        }
-    }
-
-    #[test]
-    fn is_string_literal_arg() {
-        assert_eq!(
-            string_literal_arg(r#""A""#),
-            Ok(("", StringLiteral::Simple("A".to_string())))
-        );
-    }
-
-}
+use nom::combinator::{cut, opt, recognize};
+use nom::error::{make_error, ErrorKind};
+use nom::sequence::{pair, tuple};
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::{
+        complete::{char, digit1},
+        is_digit,
+    },
+    combinator::{map, map_res},
+    error::ParseError,
+    sequence::{preceded, terminated},
+    Err, IResult, ParseTo,
+};
+
+use crate::arithmetic::Sign;
+use crate::terminals::{language_tag, rdf_literal, string_literal, tag_no_case};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum StringLiteral {
+    /// A quoted only string
+    Simple(String),
+    /// The literal and the language
+    Language((String, String)),
+    /// A `xsd:string` typed literal
+    Typed(String),
+}
+
+impl StringLiteral {
+    /// Compatibility of two arguments is defined as:
+    ///
+    /// The arguments are simple literals or literals typed as xsd:string
+    /// The arguments are plain literals with identical language tags
+    /// The first argument is a plain literal with language tag
+    /// and the second argument is a simple literal or literal typed as xsd:string
+    pub fn compatible_arg(&self, arg2: &Self) -> bool {
+        match self {
+            StringLiteral::Simple(_) => {
+                if let StringLiteral::Language(_) = arg2 {
+                    false
+                } else {
+                    true
+                }
+            }
+            StringLiteral::Language((_, lang)) => {
+                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
+                    lang == arg2_lang
+                } else {
+                    true
+                }
+            }
+            StringLiteral::Typed(_) => {
+                if let StringLiteral::Language(_) = arg2 {
+                    false
+                } else {
+                    true
+                }
+            }
+        }
+    }
+}
+
+#[derive(Debug, Clone, PartialEq)]
+pub enum NumericLiteral {
+    Int(i64),
+    /// a sparql decimal is just sparql double without an exponent
+    Double((f64, Option<i64>)),
+}
+
+impl Eq for NumericLiteral {}
+
+#[inline]
+pub(crate) fn string_literal_arg(i: &str) -> IResult<&str, StringLiteral> {
+    alt((
+        map(
+            terminated(
+                map(string_literal, String::from),
+                tag_no_case("^^xsd:string"),
+            ),
+            StringLiteral::Simple,
+        ),
+        map(
+            pair(
+                map(string_literal, String::from),
+                opt(map(language_tag, String::from)),
+            ),
+            |(lit, lang)| {
+                if let Some(lang) = lang {
+                    StringLiteral::Language((lit, lang))
+                } else {
+                    StringLiteral::Simple(lit)
+                }
+            },
+        ),
+    ))(i)
+}
+
+#[inline]
+pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
+    map(tag_no_case("silent"), |_| true)(i)
+}
+
+#[inline]
+pub(crate) fn distinct(i: &str) -> IResult<&str, bool> {
+    map(tag_no_case("distinct"), |_| true)(i)
+}
+
+pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
+    alt((
+        map(tag_no_case("false"), |_| false),
+        map(tag_no_case("true"), |_| true),
+    ))(i)
+}
+
+pub(crate) fn sign(i: &str) -> IResult<&str, Sign> {
+    alt((map(char('+'), |_| Sign::POS), map(char('-'), |_| Sign::NEG)))(i)
+}
+
+pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
+    preceded(
+        alt((char('e'), char('E'))),
+        map_res(
+            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            |s: &str| s.parse::<i64>(),
+        ),
+    )(i)
+}
+
+pub(crate) fn recognize_spaqrql_float(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        opt(alt((char('+'), char('-')))),
+        alt((
+            map(pair(digit1, opt(pair(char('.'), opt(digit1)))), |_| ()),
+            map(tuple((char('.'), digit1)), |_| ()),
+        )),
+    ))(i)
+}
+
+pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
+    match recognize_spaqrql_float(input) {
+        Err(e) => Err(e),
+        Ok((i, s)) => match s.parse_to() {
+            Some(n) => Ok((i, n)),
+            None => Err(Err::Error(make_error(i, ErrorKind::Float))),
+        },
+    }
+}
+
+pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
+    pair(sparql_decimal, opt(exponent))(i)
+}
+
+pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
+    match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
+        Ok((i, o)) => {
+            // validate that no decimal/double is present
+            if i.chars()
+                .next()
+                .map_or_else(|| false, |c| ".eE".contains(c))
+            {
+                Err(Err::Error(make_error(i, ErrorKind::Float)))
+            } else if let Ok(v) = o.parse() {
+                Ok((i, v))
+            } else {
+                Err(Err::Error(make_error(i, ErrorKind::Digit)))
+            }
+        }
+        Err(e) => Err(e),
+    }
+}
+
+pub(crate) fn numeric_literal(i: &str) -> IResult<&str, NumericLiteral> {
+    alt((
+        map(sparql_int, NumericLiteral::Int),
+        map(sparql_double, NumericLiteral::Double),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_exponent() {
+        assert_eq!(exponent("e+25"), Ok(("", 25)));
+        assert_eq!(exponent("e25"), Ok(("", 25)));
+        assert_eq!(exponent("E-25"), Ok(("", -25)));
+    }
+
+    #[test]
+    fn is_decimal() {
+        assert_eq!(sparql_decimal("-.0"), Ok(("", 0.0)));
+        assert_eq!(sparql_decimal(".02"), Ok(("", 0.02)));
+        assert_eq!(sparql_decimal("1."), Ok(("", 1.0)));
+    }
+    #[test]
+    fn is_double() {
+        assert_eq!(sparql_double("-.0"), Ok(("", (0.0, None))));
+        assert_eq!(sparql_double(".02e10"), Ok(("", (0.02, Some(10)))));
+        assert_eq!(sparql_double("1.E-20"), Ok(("", (1.0, Some(-20)))));
+    }
+
+    #[test]
+    fn is_numeric_literal_int() {
+        let mut expected = numeric_literal("+11").unwrap();
+
+        if let NumericLiteral::Int(i) = expected.1 {
+            assert_eq!(11, i);
+        } else {
+            panic!("int literal mistaken for double {:?}", expected.1)
+        }
+
+        expected = numeric_literal("-5").unwrap();
+        if let NumericLiteral::Int(i) = expected.1 {
+            assert_eq!(-5, i);
+        } else {
+            panic!("int literal mistaken for double {:?}", expected.1)
+        }
+    }
+    #[test]
+    fn is_numeric_literal_double() {
+        let mut expected = numeric_literal("+11.").unwrap();
+        if let NumericLiteral::Double((_d, e)) = expected.1 {
+            assert!(e.is_none());
+        } else {
+            panic!("double literal mistaken for int {:?}", expected.1)
+        }
+
+        expected = numeric_literal("+.0e10").unwrap();
+        if let NumericLiteral::Double((_d, e)) = expected.1 {
+            assert_eq!(e, Some(10));
+        } else {
+            panic!("double literal mistaken for int {:?}", expected.1)
+        }
+    }
+
+    #[test]
+    fn is_string_literal_arg() {
+        assert_eq!(
+            string_literal_arg(r#""A""#),
+            Ok(("", StringLiteral::Simple("A".to_string())))
+        );
+    }
+
+}
diff --git a/src/operations.rs b/src/operations.rs
index 8090636..2e48f91 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,273 +1,273 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::separated_list,
-    sequence::{delimited, pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    clauses::{delete_clause, insert_clause, using_clause},
-    expression::{DefaultOrNamedIri, Iri},
-    graph::{
-        graph_or_default, graph_ref, graph_ref_all, group_graph_pattern, GraphOrDefault,
-        GraphRefAll, GroupGraphPattern,
-    },
-    literal::silent,
-    quads::{quad_data, Quads},
-    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct LoadStatement {
-    pub iri: Iri,
-    pub silent: bool,
-    pub graph_ref: Option<Iri>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct ClearStatement {
-    pub silent: bool,
-    pub graph_ref_all: GraphRefAll,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct DropStatement {
-    pub silent: bool,
-    pub graph_ref_all: GraphRefAll,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct CreateStatement {
-    pub silent: bool,
-    pub graph_ref: Iri,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AddStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct MoveStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct CopyStatement {
-    pub silent: bool,
-    pub from: GraphOrDefault,
-    pub to: GraphOrDefault,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ModifyStatement {
-    pub iri: Option<Iri>,
-    pub delete_insert: DeleteInsert,
-    pub using_clauses: Vec<DefaultOrNamedIri>,
-    pub where_group_graph: GroupGraphPattern,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum DeleteInsert {
-    DeleteInsert {
-        delete: Quads,
-        insert: Option<Quads>,
-    },
-    Insert(Quads),
-}
-
-pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
-    map(
-        pair(pair(tag_no_case("add"), sp), silent_from_to),
-        |(_, (silent, from, to))| AddStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
-    map(
-        tuple((
-            opt(terminated(preceded_tag1("with", iri), sp)),
-            terminated(delete_insert, sp),
-            terminated(sp_list0(using_clause), sp),
-            terminated(tag_no_case("where"), sp),
-            group_graph_pattern,
-        )),
-        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
-            iri,
-            delete_insert,
-            using_clauses,
-            where_group_graph,
-        },
-    )(i)
-}
-
-pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
-    map(
-        pair(pair(tag_no_case("move"), sp), silent_from_to),
-        |(_, (silent, from, to))| MoveStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
-    map(
-        pair(pair(tag_no_case("copy"), sp), silent_from_to),
-        |(_, (silent, from, to))| CopyStatement { silent, from, to },
-    )(i)
-}
-
-pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
-    tuple((
-        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
-        graph_or_default,
-        preceded(sp_enc(tag_no_case("to")), graph_or_default),
-    ))(i)
-}
-
-pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
-    map(
-        tuple((
-            pair(tag_no_case("create"), sp),
-            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
-            graph_ref,
-        )),
-        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
-    )(i)
-}
-
-pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
-    map(
-        pair(pair(tag_no_case("drop"), sp), silent_graph_ref_all),
-        |(_, (silent, graph_ref_all))| DropStatement {
-            silent,
-            graph_ref_all,
-        },
-    )(i)
-}
-
-pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
-    map(
-        pair(pair(tag_no_case("clear"), sp), silent_graph_ref_all),
-        |(_, (silent, graph_ref_all))| ClearStatement {
-            silent,
-            graph_ref_all,
-        },
-    )(i)
-}
-
-pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
-    pair(
-        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
-        graph_ref_all,
-    )(i)
-}
-
-pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
-    map(
-        tuple((
-            pair(tag_no_case("load"), sp),
-            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
-            iri,
-            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
-        )),
-        |(_, silent, iri, graph_ref)| LoadStatement {
-            iri,
-            silent,
-            graph_ref,
-        },
-    )(i)
-}
-
-pub(crate) fn insert_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("insert", preceded_tag1("data", quad_data))(i)
-}
-
-pub(crate) fn delete_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("data", quad_data))(i)
-}
-
-pub(crate) fn delete_where_data(i: &str) -> IResult<&str, Quads> {
-    preceded_tag1("delete", preceded_tag1("where", quad_data))(i)
-}
-
-pub(crate) fn delete_insert(i: &str) -> IResult<&str, DeleteInsert> {
-    alt((
-        map(
-            pair(delete_clause, opt(preceded(sp, insert_clause))),
-            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },
-        ),
-        map(insert_clause, DeleteInsert::Insert),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::PrefixedName;
-
-    #[test]
-    fn is_drop_stmt() {
-        assert_eq!(
-            drop_stmt("drop  graph :uri1"),
-            Ok((
-                "",
-                DropStatement::new(
-                    false,
-                    GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: None,
-                        pn_local: "uri1".to_string(),
-                    },))
-                )
-            ))
-        );
-
-        assert_eq!(
-            drop_stmt("drop silent graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                DropStatement::new(
-                    true,
-                    GraphRefAll::GraphRef(Iri::Iri(
-                        "http://example.org/foaf/aliceFoaf".to_string()
-                    ))
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_create_stmt() {
-        assert_eq!(
-            create_stmt("create silent graph <http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                CreateStatement::new(
-                    true,
-                    Iri::Iri("http://example.org/foaf/aliceFoaf".to_string())
-                )
-            ))
-        );
-
-        assert_eq!(
-            create_stmt("create   graph   :uri1"),
-            Ok((
-                "",
-                CreateStatement::new(
-                    false,
-                    Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: None,
-                        pn_local: "uri1".to_string(),
-                    },)
-                )
-            ))
-        )
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::separated_list,
+    sequence::{delimited, pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    clauses::{delete_clause, insert_clause, using_clause},
+    expression::{DefaultOrNamedIri, Iri},
+    graph::{
+        graph_or_default, graph_ref, graph_ref_all, group_graph_pattern, GraphOrDefault,
+        GraphRefAll, GroupGraphPattern,
+    },
+    literal::silent,
+    quads::{quad_data, Quads},
+    terminals::{iri, preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct LoadStatement {
+    pub iri: Iri,
+    pub silent: bool,
+    pub graph_ref: Option<Iri>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct ClearStatement {
+    pub silent: bool,
+    pub graph_ref_all: GraphRefAll,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct DropStatement {
+    pub silent: bool,
+    pub graph_ref_all: GraphRefAll,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct CreateStatement {
+    pub silent: bool,
+    pub graph_ref: Iri,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AddStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct MoveStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct CopyStatement {
+    pub silent: bool,
+    pub from: GraphOrDefault,
+    pub to: GraphOrDefault,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ModifyStatement {
+    pub iri: Option<Iri>,
+    pub delete_insert: DeleteInsert,
+    pub using_clauses: Vec<DefaultOrNamedIri>,
+    pub where_group_graph: GroupGraphPattern,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum DeleteInsert {
+    DeleteInsert {
+        delete: Quads,
+        insert: Option<Quads>,
+    },
+    Insert(Quads),
+}
+
+pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
+    map(
+        pair(pair(tag_no_case("add"), sp), silent_from_to),
+        |(_, (silent, from, to))| AddStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn modify_stmt(i: &str) -> IResult<&str, ModifyStatement> {
+    map(
+        tuple((
+            opt(terminated(preceded_tag1("with", iri), sp)),
+            terminated(delete_insert, sp),
+            terminated(sp_list0(using_clause), sp),
+            terminated(tag_no_case("where"), sp),
+            group_graph_pattern,
+        )),
+        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
+            iri,
+            delete_insert,
+            using_clauses,
+            where_group_graph,
+        },
+    )(i)
+}
+
+pub(crate) fn move_stmt(i: &str) -> IResult<&str, MoveStatement> {
+    map(
+        pair(pair(tag_no_case("move"), sp), silent_from_to),
+        |(_, (silent, from, to))| MoveStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn copy_stmt(i: &str) -> IResult<&str, CopyStatement> {
+    map(
+        pair(pair(tag_no_case("copy"), sp), silent_from_to),
+        |(_, (silent, from, to))| CopyStatement { silent, from, to },
+    )(i)
+}
+
+pub(crate) fn silent_from_to(i: &str) -> IResult<&str, (bool, GraphOrDefault, GraphOrDefault)> {
+    tuple((
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
+        graph_or_default,
+        preceded(sp_enc(tag_no_case("to")), graph_or_default),
+    ))(i)
+}
+
+pub(crate) fn create_stmt(i: &str) -> IResult<&str, CreateStatement> {
+    map(
+        tuple((
+            pair(tag_no_case("create"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
+            graph_ref,
+        )),
+        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },
+    )(i)
+}
+
+pub(crate) fn drop_stmt(i: &str) -> IResult<&str, DropStatement> {
+    map(
+        pair(pair(tag_no_case("drop"), sp), silent_graph_ref_all),
+        |(_, (silent, graph_ref_all))| DropStatement {
+            silent,
+            graph_ref_all,
+        },
+    )(i)
+}
+
+pub(crate) fn clear_stmt(i: &str) -> IResult<&str, ClearStatement> {
+    map(
+        pair(pair(tag_no_case("clear"), sp), silent_graph_ref_all),
+        |(_, (silent, graph_ref_all))| ClearStatement {
+            silent,
+            graph_ref_all,
+        },
+    )(i)
+}
+
+pub(crate) fn silent_graph_ref_all(i: &str) -> IResult<&str, (bool, GraphRefAll)> {
+    pair(
+        map(opt(terminated(silent, sp)), Option::unwrap_or_default),
+        graph_ref_all,
+    )(i)
+}
+
+pub(crate) fn load_stmt(i: &str) -> IResult<&str, LoadStatement> {
+    map(
+        tuple((
+            pair(tag_no_case("load"), sp),
+            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
+            iri,
+            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),
+        )),
+        |(_, silent, iri, graph_ref)| LoadStatement {
+            iri,
+            silent,
+            graph_ref,
+        },
+    )(i)
+}
+
+pub(crate) fn insert_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("insert", preceded_tag1("data", quad_data))(i)
+}
+
+pub(crate) fn delete_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("delete", preceded_tag1("data", quad_data))(i)
+}
+
+pub(crate) fn delete_where_data(i: &str) -> IResult<&str, Quads> {
+    preceded_tag1("delete", preceded_tag1("where", quad_data))(i)
+}
+
+pub(crate) fn delete_insert(i: &str) -> IResult<&str, DeleteInsert> {
+    alt((
+        map(
+            pair(delete_clause, opt(preceded(sp, insert_clause))),
+            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },
+        ),
+        map(insert_clause, DeleteInsert::Insert),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::PrefixedName;
+
+    #[test]
+    fn is_drop_stmt() {
+        assert_eq!(
+            drop_stmt("drop  graph :uri1"),
+            Ok((
+                "",
+                DropStatement::new(
+                    false,
+                    GraphRefAll::GraphRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: None,
+                        pn_local: "uri1".to_string(),
+                    },))
+                )
+            ))
+        );
+
+        assert_eq!(
+            drop_stmt("drop silent graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                DropStatement::new(
+                    true,
+                    GraphRefAll::GraphRef(Iri::Iri(
+                        "http://example.org/foaf/aliceFoaf".to_string()
+                    ))
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_create_stmt() {
+        assert_eq!(
+            create_stmt("create silent graph <http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                CreateStatement::new(
+                    true,
+                    Iri::Iri("http://example.org/foaf/aliceFoaf".to_string())
+                )
+            ))
+        );
+
+        assert_eq!(
+            create_stmt("create   graph   :uri1"),
+            Ok((
+                "",
+                CreateStatement::new(
+                    false,
+                    Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: None,
+                        pn_local: "uri1".to_string(),
+                    },)
+                )
+            ))
+        )
+    }
+}
diff --git a/src/order.rs b/src/order.rs
index b2f8431..15959f1 100644
--- a/src/order.rs
+++ b/src/order.rs
@@ -1,54 +1,54 @@
-use nom::branch::alt;
-use nom::combinator::map;
-use nom::sequence::separated_pair;
-use nom::IResult;
-
-use crate::expression::functions::{constraint, Constraint};
-use crate::expression::{bracketted_expression, Expression};
-use crate::terminals::{sp, tag_no_case};
-use crate::var::{var, Var};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Order {
-    Asc,
-    Desc,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct OrderExpression {
-    pub order: Order,
-    pub expression: Expression,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum OrderCondition {
-    Order(Box<OrderExpression>),
-    Constraint(Box<Constraint>),
-    Var(Var),
-}
-
-pub(crate) fn order(i: &str) -> IResult<&str, Order> {
-    alt((
-        map(tag_no_case("asc"), |_| Order::Asc),
-        map(tag_no_case("desc"), |_| Order::Desc),
-    ))(i)
-}
-
-pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
-    map(
-        separated_pair(order, sp, bracketted_expression),
-        |(order, expression)| OrderExpression { order, expression },
-    )(i)
-}
-
-pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
-    alt((
-        map(order_expression, |order| {
-            OrderCondition::Order(Box::new(order))
-        }),
-        map(constraint, |constraint| {
-            OrderCondition::Constraint(Box::new(constraint))
-        }),
-        map(var, OrderCondition::Var),
-    ))(i)
-}
+use nom::branch::alt;
+use nom::combinator::map;
+use nom::sequence::separated_pair;
+use nom::IResult;
+
+use crate::expression::functions::{constraint, Constraint};
+use crate::expression::{bracketted_expression, Expression};
+use crate::terminals::{sp, tag_no_case};
+use crate::var::{var, Var};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Order {
+    Asc,
+    Desc,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct OrderExpression {
+    pub order: Order,
+    pub expression: Expression,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum OrderCondition {
+    Order(Box<OrderExpression>),
+    Constraint(Box<Constraint>),
+    Var(Var),
+}
+
+pub(crate) fn order(i: &str) -> IResult<&str, Order> {
+    alt((
+        map(tag_no_case("asc"), |_| Order::Asc),
+        map(tag_no_case("desc"), |_| Order::Desc),
+    ))(i)
+}
+
+pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
+    map(
+        separated_pair(order, sp, bracketted_expression),
+        |(order, expression)| OrderExpression { order, expression },
+    )(i)
+}
+
+pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
+    alt((
+        map(order_expression, |order| {
+            OrderCondition::Order(Box::new(order))
+        }),
+        map(constraint, |constraint| {
+            OrderCondition::Constraint(Box::new(constraint))
+        }),
+        map(var, OrderCondition::Var),
+    ))(i)
+}
diff --git a/src/parser.rs b/src/parser.rs
index 550d8ef..4c8ec08 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,35 +1,35 @@
-use crate::data::datablock;
-use crate::query::ask::ask_query;
-use crate::query::construct::construct_query;
-use crate::query::describe::describe_query;
-use crate::query::select::select_query;
-use crate::query::{SparqlQuery, SparqlQueryStatement};
-use crate::terminals::{preceded_tag1, prologue, sp, sp1};
-use nom::branch::alt;
-use nom::combinator::{map, opt};
-use nom::sequence::{delimited, preceded, terminated, tuple};
-use nom::IResult;
-
-pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
-    map(
-        tuple((
-            delimited(sp, prologue, sp),
-            sparql_query,
-            delimited(sp, opt(preceded_tag1("values", datablock)), sp),
-        )),
-        |(prologue, query, values)| SparqlQueryStatement {
-            prologue,
-            query,
-            values,
-        },
-    )(i)
-}
-
-pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
-    alt((
-        map(select_query, SparqlQuery::Select),
-        map(construct_query, SparqlQuery::Construct),
-        map(describe_query, SparqlQuery::Describe),
-        map(ask_query, SparqlQuery::Ask),
-    ))(i)
-}
+use crate::data::datablock;
+use crate::query::ask::ask_query;
+use crate::query::construct::construct_query;
+use crate::query::describe::describe_query;
+use crate::query::select::select_query;
+use crate::query::{SparqlQuery, SparqlQueryStatement};
+use crate::terminals::{preceded_tag1, prologue, sp, sp1};
+use nom::branch::alt;
+use nom::combinator::{map, opt};
+use nom::sequence::{delimited, preceded, terminated, tuple};
+use nom::IResult;
+
+pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
+    map(
+        tuple((
+            delimited(sp, prologue, sp),
+            sparql_query,
+            delimited(sp, opt(preceded_tag1("values", datablock)), sp),
+        )),
+        |(prologue, query, values)| SparqlQueryStatement {
+            prologue,
+            query,
+            values,
+        },
+    )(i)
+}
+
+pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
+    alt((
+        map(select_query, SparqlQuery::Select),
+        map(construct_query, SparqlQuery::Construct),
+        map(describe_query, SparqlQuery::Describe),
+        map(ask_query, SparqlQuery::Ask),
+    ))(i)
+}
diff --git a/src/path.rs b/src/path.rs
index 5826894..f26908c 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -1,315 +1,315 @@
-use std::str::FromStr;
-
-use nom::character::complete::{char, digit1};
-use nom::combinator::{map, not, opt};
-use nom::error::ErrorKind;
-use nom::multi::{many0, many1, separated_list, separated_nonempty_list};
-use nom::sequence::{delimited, pair, separated_pair, tuple};
-use nom::Err;
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::is_digit,
-    combinator::map_res,
-    sequence::{preceded, terminated},
-    IResult, Needed,
-};
-
-use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
-use crate::expression::Iri;
-use crate::node::ObjectList;
-use crate::terminals::{
-    anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1, verb_a,
-};
-use crate::triple::object_list;
-use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum GraphNodePath {
-    VarOrTerm(VarOrTerm),
-    TriplesNodePath(TriplesNodePath),
-}
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesNodePath {
-    CollectionPath(Vec<GraphNodePath>),
-    BlankNodePropertyListPath(PropertyListPath),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesSameSubjectPath {
-    Term {
-        var_or_term: VarOrTerm,
-        property_list: PropertyListPath,
-    },
-    Node {
-        triples_node: TriplesNodePath,
-        property_list: Option<PropertyListPath>,
-    },
-}
-
-/// Property paths allow traversing the graph using regex-like patterns of predicates.
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PropertyListPath {
-    pub verb_path_or_simple: VerbPathOrSimple,
-    pub object_list_path: ObjectListPath,
-    pub entries: Vec<PropertyListPathEntry>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PropertyListPathEntry {
-    pub verb_path_or_simple: VerbPathOrSimple,
-    pub object_list: ObjectList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ObjectListPath(pub Vec<GraphNodePath>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VerbPathOrSimple {
-    Path(Path),
-    Simple(Var),
-}
-
-pub(crate) type Path = PathAlternative;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathAlternative(pub Vec<PathSequence>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathSequence(pub Vec<PathEltOrInverse>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathEltOrInverse {
-    PathElt(PathElt),
-    Inverse(PathElt),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathElt {
-    pub path_primary: PathPrimary,
-    pub path_mod: Option<PathMod>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathMod {
-    QuestionMark,
-    Asterisk,
-    Plus,
-}
-
-impl FromStr for PathMod {
-    type Err = ();
-
-    fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s {
-            "?" => Ok(PathMod::QuestionMark),
-            "*" => Ok(PathMod::Asterisk),
-            "+" => Ok(PathMod::Plus),
-            _ => Err(()),
-        }
-    }
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum PathPrimary {
-    Iri(Iri),
-    A,
-    PathNegatedPropertySet(PathNegatedPropertySet),
-    Path(Path),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct PathOneInPropertySet(pub IriOrAOrCaret);
-
-pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
-    alt((
-        map(
-            sp_sep(var_or_term, property_list_path_not_empty),
-            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
-                var_or_term,
-                property_list,
-            },
-        ),
-        map(
-            sp_sep(triples_node_path, property_list_path),
-            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
-                triples_node,
-                property_list,
-            },
-        ),
-    ))(i)
-}
-
-pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyListPath> {
-    delimited(
-        terminated(tag("["), sp),
-        property_list_path_not_empty,
-        preceded(sp, tag("]")),
-    )(i)
-}
-
-pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
-    map(
-        tuple((
-            terminated(verb_path_or_simple, sp),
-            object_list_path,
-            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
-            many0(preceded(sp, char(';'))),
-        )),
-        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
-            verb_path_or_simple,
-            object_list_path,
-            entries,
-        },
-    )(i)
-}
-
-pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {
-    opt(property_list_path_not_empty)(i)
-}
-
-pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
-    alt((
-        map(path_alternative, VerbPathOrSimple::Path),
-        map(var, VerbPathOrSimple::Simple),
-    ))(i)
-}
-
-pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
-    map(
-        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
-        ObjectListPath,
-    )(i)
-}
-
-pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
-    map(
-        separated_pair(verb_path_or_simple, sp, object_list),
-        |(verb_path_or_simple, object_list)| PropertyListPathEntry {
-            verb_path_or_simple,
-            object_list,
-        },
-    )(i)
-}
-
-pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
-    alt((
-        map(
-            blank_node_property_list_path,
-            TriplesNodePath::BlankNodePropertyListPath,
-        ),
-        map(
-            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
-            TriplesNodePath::CollectionPath,
-        ),
-    ))(i)
-}
-
-pub(crate) fn graph_node_path(i: &str) -> IResult<&str, GraphNodePath> {
-    alt((
-        map(var_or_term, GraphNodePath::VarOrTerm),
-        map(triples_node_path, GraphNodePath::TriplesNodePath),
-    ))(i)
-}
-
-pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
-    map(
-        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
-        PathAlternative,
-    )(i)
-}
-
-pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
-    map(
-        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
-        PathSequence,
-    )(i)
-}
-
-pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
-    alt((
-        map(iri, PathPrimary::Iri),
-        map(verb_a, |_| PathPrimary::A),
-        map(
-            preceded(terminated(tag("!"), sp), path_negated_property_set),
-            PathPrimary::PathNegatedPropertySet,
-        ),
-        map(
-            delimited(tag("("), sp_enc(path_alternative), tag(")")),
-            PathPrimary::Path,
-        ),
-    ))(i)
-}
-
-pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
-    alt((
-        map(path_elt, PathEltOrInverse::PathElt),
-        map(
-            preceded(terminated(tag("^"), sp), path_elt),
-            PathEltOrInverse::Inverse,
-        ),
-    ))(i)
-}
-
-pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
-    map(
-        pair(path_primary, opt(preceded(sp, path_mod))),
-        |(path_primary, path_mod)| PathElt {
-            path_primary,
-            path_mod,
-        },
-    )(i)
-}
-
-pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
-    map(
-        alt((
-            delimited(
-                terminated(tag("("), sp),
-                separated_list(delimited(sp, char('|'), sp), path_one_in_property_set),
-                preceded(sp, tag(")")),
-            ),
-            map(path_one_in_property_set, |one| vec![one]),
-        )),
-        PathNegatedPropertySet,
-    )(i)
-}
-
-pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
-    map(iri_or_a_or_caret, PathOneInPropertySet)(i)
-}
-
-pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
-    alt((
-        // `?o` is a variable and `+5` a number
-        map(terminated(char('?'), not(var_name)), |_| {
-            PathMod::QuestionMark
-        }),
-        map(char('*'), |_| PathMod::Asterisk),
-        map(
-            terminated(char('+'), not(pair(opt(char('.')), digit1))),
-            |_| PathMod::Plus,
-        ),
-    ))(i)
-}
-
-#[inline]
-pub(crate) fn is_path_mod(c: char) -> bool {
-    "?*+".contains(c)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_path_mode() {
-        assert_eq!(path_mod("*"), Ok(("", PathMod::Asterisk)));
-        assert_eq!(path_mod("+"), Ok(("", PathMod::Plus)));
-        assert_eq!(path_mod("?"), Ok(("", PathMod::QuestionMark)));
-    }
-
-}
+use std::str::FromStr;
+
+use nom::character::complete::{char, digit1};
+use nom::combinator::{map, not, opt};
+use nom::error::ErrorKind;
+use nom::multi::{many0, many1, separated_list, separated_nonempty_list};
+use nom::sequence::{delimited, pair, separated_pair, tuple};
+use nom::Err;
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::is_digit,
+    combinator::map_res,
+    sequence::{preceded, terminated},
+    IResult, Needed,
+};
+
+use crate::expression::iri::{iri_or_a_or_caret, IriOrAOrCaret};
+use crate::expression::Iri;
+use crate::node::ObjectList;
+use crate::terminals::{
+    anon, iri, nil, pn_local, rdf_literal, sp, sp1, sp_enc, sp_sep, sp_sep1, verb_a,
+};
+use crate::triple::object_list;
+use crate::var::{var, var_name, var_or_term, Var, VarOrTerm};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum GraphNodePath {
+    VarOrTerm(VarOrTerm),
+    TriplesNodePath(TriplesNodePath),
+}
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesNodePath {
+    CollectionPath(Vec<GraphNodePath>),
+    BlankNodePropertyListPath(PropertyListPath),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesSameSubjectPath {
+    Term {
+        var_or_term: VarOrTerm,
+        property_list: PropertyListPath,
+    },
+    Node {
+        triples_node: TriplesNodePath,
+        property_list: Option<PropertyListPath>,
+    },
+}
+
+/// Property paths allow traversing the graph using regex-like patterns of predicates.
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PropertyListPath {
+    pub verb_path_or_simple: VerbPathOrSimple,
+    pub object_list_path: ObjectListPath,
+    pub entries: Vec<PropertyListPathEntry>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PropertyListPathEntry {
+    pub verb_path_or_simple: VerbPathOrSimple,
+    pub object_list: ObjectList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ObjectListPath(pub Vec<GraphNodePath>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VerbPathOrSimple {
+    Path(Path),
+    Simple(Var),
+}
+
+pub(crate) type Path = PathAlternative;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathAlternative(pub Vec<PathSequence>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathSequence(pub Vec<PathEltOrInverse>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathEltOrInverse {
+    PathElt(PathElt),
+    Inverse(PathElt),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathElt {
+    pub path_primary: PathPrimary,
+    pub path_mod: Option<PathMod>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathMod {
+    QuestionMark,
+    Asterisk,
+    Plus,
+}
+
+impl FromStr for PathMod {
+    type Err = ();
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "?" => Ok(PathMod::QuestionMark),
+            "*" => Ok(PathMod::Asterisk),
+            "+" => Ok(PathMod::Plus),
+            _ => Err(()),
+        }
+    }
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum PathPrimary {
+    Iri(Iri),
+    A,
+    PathNegatedPropertySet(PathNegatedPropertySet),
+    Path(Path),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct PathOneInPropertySet(pub IriOrAOrCaret);
+
+pub(crate) fn triples_same_subject_path(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
+    alt((
+        map(
+            sp_sep(var_or_term, property_list_path_not_empty),
+            |(var_or_term, property_list)| TriplesSameSubjectPath::Term {
+                var_or_term,
+                property_list,
+            },
+        ),
+        map(
+            sp_sep(triples_node_path, property_list_path),
+            |(triples_node, property_list)| TriplesSameSubjectPath::Node {
+                triples_node,
+                property_list,
+            },
+        ),
+    ))(i)
+}
+
+pub(crate) fn blank_node_property_list_path(i: &str) -> IResult<&str, PropertyListPath> {
+    delimited(
+        terminated(tag("["), sp),
+        property_list_path_not_empty,
+        preceded(sp, tag("]")),
+    )(i)
+}
+
+pub(crate) fn property_list_path_not_empty(i: &str) -> IResult<&str, PropertyListPath> {
+    map(
+        tuple((
+            terminated(verb_path_or_simple, sp),
+            object_list_path,
+            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
+            many0(preceded(sp, char(';'))),
+        )),
+        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
+            verb_path_or_simple,
+            object_list_path,
+            entries,
+        },
+    )(i)
+}
+
+pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {
+    opt(property_list_path_not_empty)(i)
+}
+
+pub(crate) fn verb_path_or_simple(i: &str) -> IResult<&str, VerbPathOrSimple> {
+    alt((
+        map(path_alternative, VerbPathOrSimple::Path),
+        map(var, VerbPathOrSimple::Simple),
+    ))(i)
+}
+
+pub(crate) fn object_list_path(i: &str) -> IResult<&str, ObjectListPath> {
+    map(
+        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
+        ObjectListPath,
+    )(i)
+}
+
+pub(crate) fn property_list_path_entry(i: &str) -> IResult<&str, PropertyListPathEntry> {
+    map(
+        separated_pair(verb_path_or_simple, sp, object_list),
+        |(verb_path_or_simple, object_list)| PropertyListPathEntry {
+            verb_path_or_simple,
+            object_list,
+        },
+    )(i)
+}
+
+pub(crate) fn triples_node_path(i: &str) -> IResult<&str, TriplesNodePath> {
+    alt((
+        map(
+            blank_node_property_list_path,
+            TriplesNodePath::BlankNodePropertyListPath,
+        ),
+        map(
+            delimited(tag("("), many1(sp_enc(graph_node_path)), tag(")")),
+            TriplesNodePath::CollectionPath,
+        ),
+    ))(i)
+}
+
+pub(crate) fn graph_node_path(i: &str) -> IResult<&str, GraphNodePath> {
+    alt((
+        map(var_or_term, GraphNodePath::VarOrTerm),
+        map(triples_node_path, GraphNodePath::TriplesNodePath),
+    ))(i)
+}
+
+pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
+    map(
+        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
+        PathAlternative,
+    )(i)
+}
+
+pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
+    map(
+        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
+        PathSequence,
+    )(i)
+}
+
+pub(crate) fn path_primary(i: &str) -> IResult<&str, PathPrimary> {
+    alt((
+        map(iri, PathPrimary::Iri),
+        map(verb_a, |_| PathPrimary::A),
+        map(
+            preceded(terminated(tag("!"), sp), path_negated_property_set),
+            PathPrimary::PathNegatedPropertySet,
+        ),
+        map(
+            delimited(tag("("), sp_enc(path_alternative), tag(")")),
+            PathPrimary::Path,
+        ),
+    ))(i)
+}
+
+pub(crate) fn path_elt_or_inverse(i: &str) -> IResult<&str, PathEltOrInverse> {
+    alt((
+        map(path_elt, PathEltOrInverse::PathElt),
+        map(
+            preceded(terminated(tag("^"), sp), path_elt),
+            PathEltOrInverse::Inverse,
+        ),
+    ))(i)
+}
+
+pub(crate) fn path_elt(i: &str) -> IResult<&str, PathElt> {
+    map(
+        pair(path_primary, opt(preceded(sp, path_mod))),
+        |(path_primary, path_mod)| PathElt {
+            path_primary,
+            path_mod,
+        },
+    )(i)
+}
+
+pub(crate) fn path_negated_property_set(i: &str) -> IResult<&str, PathNegatedPropertySet> {
+    map(
+        alt((
+            delimited(
+                terminated(tag("("), sp),
+                separated_list(delimited(sp, char('|'), sp), path_one_in_property_set),
+                preceded(sp, tag(")")),
+            ),
+            map(path_one_in_property_set, |one| vec![one]),
+        )),
+        PathNegatedPropertySet,
+    )(i)
+}
+
+pub(crate) fn path_one_in_property_set(i: &str) -> IResult<&str, PathOneInPropertySet> {
+    map(iri_or_a_or_caret, PathOneInPropertySet)(i)
+}
+
+pub(crate) fn path_mod(i: &str) -> IResult<&str, PathMod> {
+    alt((
+        // `?o` is a variable and `+5` a number
+        map(terminated(char('?'), not(var_name)), |_| {
+            PathMod::QuestionMark
+        }),
+        map(char('*'), |_| PathMod::Asterisk),
+        map(
+            terminated(char('+'), not(pair(opt(char('.')), digit1))),
+            |_| PathMod::Plus,
+        ),
+    ))(i)
+}
+
+#[inline]
+pub(crate) fn is_path_mod(c: char) -> bool {
+    "?*+".contains(c)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_path_mode() {
+        assert_eq!(path_mod("*"), Ok(("", PathMod::Asterisk)));
+        assert_eq!(path_mod("+"), Ok(("", PathMod::Plus)));
+        assert_eq!(path_mod("?"), Ok(("", PathMod::QuestionMark)));
+    }
+
+}
diff --git a/src/quads.rs b/src/quads.rs
index d4c7d7c..7b9eefc 100644
--- a/src/quads.rs
+++ b/src/quads.rs
@@ -1,206 +1,206 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::complete::char,
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::{many0, many1, separated_nonempty_list},
-    sequence::{delimited, pair, separated_pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    expression::ArgList,
-    graph::graph_node,
-    node::{Collection, ObjectList, PropertyList, TriplesNode},
-    path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, dot, sp, sp_enc, sp_list0, sp_sep, sp_sep1, tag_no_case},
-    triple::{triples_template, TriplesTemplate},
-    var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct Quads {
-    pub first_triple: Option<TriplesTemplate>,
-    pub entries: Vec<QuadsEntry>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct QuadsEntry {
-    pub quads_not_triples: QuadsNotTriples,
-    pub triples_template: Option<TriplesTemplate>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct QuadsNotTriples {
-    pub var_or_iri: VarOrIri,
-    pub triples_template: Option<TriplesTemplate>,
-}
-
-pub(crate) fn quads_pattern(i: &str) -> IResult<&str, Quads> {
-    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
-}
-
-pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
-    quads_pattern(i)
-}
-
-pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
-    map(
-        pair(opt(terminated(triples_template, sp)), sp_list0(quads_entry)),
-        |(first_triples, entries)| Quads {
-            first_triple: first_triples,
-            entries,
-        },
-    )(i)
-}
-
-pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
-    map(
-        tuple((
-            tag_no_case("graph"),
-            sp_enc(var_or_iri),
-            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
-        )),
-        |(_, var_or_iri, triples_template)| QuadsNotTriples {
-            var_or_iri,
-            triples_template,
-        },
-    )(i)
-}
-
-pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
-    map(
-        separated_pair(
-            quads_not_triples,
-            opt(preceded(sp, dot)),
-            opt(preceded(sp, triples_template)),
-        ),
-        |(quads_not_triples, triples_template)| QuadsEntry {
-            quads_not_triples,
-            triples_template,
-        },
-    )(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-    use crate::expression::{Iri, PrefixedName};
-    use crate::graph::{GraphNode, GraphTerm};
-    use crate::triple::TriplesSameSubject;
-    use crate::var::{Var, Verb};
-
-    #[test]
-    fn is_quads_not_triples() {
-        let _nil = TriplesSameSubject::Node {
-            triples_node: TriplesNode::Collection(Collection(vec![
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-            ])),
-            property_list: None,
-        };
-
-        assert_eq!(
-            quads_not_triples("graph ?name {}"),
-            Ok((
-                "",
-                QuadsNotTriples::new(VarOrIri::Var(Var::QMark("name".to_string())), None)
-            ))
-        );
-
-        assert_eq!(
-            quads_not_triples("graph ?name { (true ()) }"),
-            Ok((
-                "",
-                QuadsNotTriples::new(
-                    VarOrIri::Var(Var::QMark("name".to_string())),
-                    Some(vec![TriplesSameSubject::Node {
-                        triples_node: TriplesNode::Collection(Collection(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ])),
-                        property_list: None,
-                    }])
-                )
-            ))
-        );
-
-        assert_eq!(
-            quads_not_triples("GRAPH ?g { ?x foaf:mbox ?mbox }"),
-            Ok((
-                "",
-                QuadsNotTriples::new(
-                    VarOrIri::Var(Var::QMark("g".to_string())),
-                    Some(vec![TriplesSameSubject::Term {
-                        var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
-                        property_list: PropertyList(vec![VerbList::new(
-                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                PrefixedName::PnameLN {
-                                    pn_prefix: Some("foaf".to_string()),
-                                    pn_local: "mbox".to_string(),
-                                }
-                            ))),
-                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
-                                "mbox".to_string(),
-                            )))]),
-                        )]),
-                    }])
-                )
-            ))
-        );
-    }
-
-    #[test]
-    fn is_quads_pattern() {
-        assert_eq!(
-            quads_pattern(
-                r#"{
-   ?g dc:publisher ?who .
-   GRAPH ?g { ?x foaf:mbox ?mbox }
-}"#
-            ),
-            Ok((
-                "",
-                Quads::new(
-                    Some(vec![TriplesSameSubject::Term {
-                        var_or_term: VarOrTerm::Var(Var::QMark("g".to_string())),
-                        property_list: PropertyList(vec![VerbList::new(
-                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                PrefixedName::PnameLN {
-                                    pn_prefix: Some("dc".to_string()),
-                                    pn_local: "publisher".to_string(),
-                                }
-                            ))),
-                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
-                                "who".to_string(),
-                            )))]),
-                        )]),
-                    }]),
-                    vec![QuadsEntry::new(
-                        QuadsNotTriples::new(
-                            VarOrIri::Var(Var::QMark("g".to_string())),
-                            Some(vec![TriplesSameSubject::Term {
-                                var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
-                                property_list: PropertyList(vec![VerbList::new(
-                                    Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
-                                        PrefixedName::PnameLN {
-                                            pn_prefix: Some("foaf".to_string()),
-                                            pn_local: "mbox".to_string(),
-                                        }
-                                    ))),
-                                    ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(
-                                        Var::QMark("mbox".to_string(),)
-                                    ))]),
-                                )]),
-                            }])
-                        ),
-                        None
-                    )]
-                )
-            ))
-        );
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::char,
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::{many0, many1, separated_nonempty_list},
+    sequence::{delimited, pair, separated_pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    expression::ArgList,
+    graph::graph_node,
+    node::{Collection, ObjectList, PropertyList, TriplesNode},
+    path::{triples_same_subject_path, TriplesSameSubjectPath},
+    terminals::{bracketted, dot, sp, sp_enc, sp_list0, sp_sep, sp_sep1, tag_no_case},
+    triple::{triples_template, TriplesTemplate},
+    var::{var_or_iri, var_or_term, VarOrIri, VarOrTerm, VerbList},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct Quads {
+    pub first_triple: Option<TriplesTemplate>,
+    pub entries: Vec<QuadsEntry>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct QuadsEntry {
+    pub quads_not_triples: QuadsNotTriples,
+    pub triples_template: Option<TriplesTemplate>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct QuadsNotTriples {
+    pub var_or_iri: VarOrIri,
+    pub triples_template: Option<TriplesTemplate>,
+}
+
+pub(crate) fn quads_pattern(i: &str) -> IResult<&str, Quads> {
+    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
+}
+
+pub(crate) fn quad_data(i: &str) -> IResult<&str, Quads> {
+    quads_pattern(i)
+}
+
+pub(crate) fn quads(i: &str) -> IResult<&str, Quads> {
+    map(
+        pair(opt(terminated(triples_template, sp)), sp_list0(quads_entry)),
+        |(first_triples, entries)| Quads {
+            first_triple: first_triples,
+            entries,
+        },
+    )(i)
+}
+
+pub(crate) fn quads_not_triples(i: &str) -> IResult<&str, QuadsNotTriples> {
+    map(
+        tuple((
+            tag_no_case("graph"),
+            sp_enc(var_or_iri),
+            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
+        )),
+        |(_, var_or_iri, triples_template)| QuadsNotTriples {
+            var_or_iri,
+            triples_template,
+        },
+    )(i)
+}
+
+pub(crate) fn quads_entry(i: &str) -> IResult<&str, QuadsEntry> {
+    map(
+        separated_pair(
+            quads_not_triples,
+            opt(preceded(sp, dot)),
+            opt(preceded(sp, triples_template)),
+        ),
+        |(quads_not_triples, triples_template)| QuadsEntry {
+            quads_not_triples,
+            triples_template,
+        },
+    )(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+    use crate::expression::{Iri, PrefixedName};
+    use crate::graph::{GraphNode, GraphTerm};
+    use crate::triple::TriplesSameSubject;
+    use crate::var::{Var, Verb};
+
+    #[test]
+    fn is_quads_not_triples() {
+        let _nil = TriplesSameSubject::Node {
+            triples_node: TriplesNode::Collection(Collection(vec![
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+            ])),
+            property_list: None,
+        };
+
+        assert_eq!(
+            quads_not_triples("graph ?name {}"),
+            Ok((
+                "",
+                QuadsNotTriples::new(VarOrIri::Var(Var::QMark("name".to_string())), None)
+            ))
+        );
+
+        assert_eq!(
+            quads_not_triples("graph ?name { (true ()) }"),
+            Ok((
+                "",
+                QuadsNotTriples::new(
+                    VarOrIri::Var(Var::QMark("name".to_string())),
+                    Some(vec![TriplesSameSubject::Node {
+                        triples_node: TriplesNode::Collection(Collection(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ])),
+                        property_list: None,
+                    }])
+                )
+            ))
+        );
+
+        assert_eq!(
+            quads_not_triples("GRAPH ?g { ?x foaf:mbox ?mbox }"),
+            Ok((
+                "",
+                QuadsNotTriples::new(
+                    VarOrIri::Var(Var::QMark("g".to_string())),
+                    Some(vec![TriplesSameSubject::Term {
+                        var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
+                        property_list: PropertyList(vec![VerbList::new(
+                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                PrefixedName::PnameLN {
+                                    pn_prefix: Some("foaf".to_string()),
+                                    pn_local: "mbox".to_string(),
+                                }
+                            ))),
+                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
+                                "mbox".to_string(),
+                            )))]),
+                        )]),
+                    }])
+                )
+            ))
+        );
+    }
+
+    #[test]
+    fn is_quads_pattern() {
+        assert_eq!(
+            quads_pattern(
+                r#"{
+   ?g dc:publisher ?who .
+   GRAPH ?g { ?x foaf:mbox ?mbox }
+}"#
+            ),
+            Ok((
+                "",
+                Quads::new(
+                    Some(vec![TriplesSameSubject::Term {
+                        var_or_term: VarOrTerm::Var(Var::QMark("g".to_string())),
+                        property_list: PropertyList(vec![VerbList::new(
+                            Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                PrefixedName::PnameLN {
+                                    pn_prefix: Some("dc".to_string()),
+                                    pn_local: "publisher".to_string(),
+                                }
+                            ))),
+                            ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(Var::QMark(
+                                "who".to_string(),
+                            )))]),
+                        )]),
+                    }]),
+                    vec![QuadsEntry::new(
+                        QuadsNotTriples::new(
+                            VarOrIri::Var(Var::QMark("g".to_string())),
+                            Some(vec![TriplesSameSubject::Term {
+                                var_or_term: VarOrTerm::Var(Var::QMark("x".to_string())),
+                                property_list: PropertyList(vec![VerbList::new(
+                                    Verb::VarOrIri(VarOrIri::Iri(Iri::PrefixedName(
+                                        PrefixedName::PnameLN {
+                                            pn_prefix: Some("foaf".to_string()),
+                                            pn_local: "mbox".to_string(),
+                                        }
+                                    ))),
+                                    ObjectList(vec![GraphNode::VarOrTerm(VarOrTerm::Var(
+                                        Var::QMark("mbox".to_string(),)
+                                    ))]),
+                                )]),
+                            }])
+                        ),
+                        None
+                    )]
+                )
+            ))
+        );
+    }
+}
diff --git a/src/query/ask.rs b/src/query/ask.rs
index 280fefe..ebf054e 100644
--- a/src/query/ask.rs
+++ b/src/query/ask.rs
@@ -1,31 +1,31 @@
-use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataSetClause};
-use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp1, sp_list0, tag_no_case};
-use nom::combinator::map;
-use nom::multi::separated_list;
-use nom::sequence::{terminated, tuple};
-use nom::IResult;
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct AskQuery {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
-    map(
-        tuple((
-            terminated(tag_no_case("ask"), sp),
-            terminated(sp_list0(data_set_clause), sp),
-            terminated(where_clause, sp),
-            solution_modifier,
-        )),
-        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
+use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataSetClause};
+use crate::graph::GroupGraphPattern;
+use crate::terminals::{sp, sp1, sp_list0, tag_no_case};
+use nom::combinator::map;
+use nom::multi::separated_list;
+use nom::sequence::{terminated, tuple};
+use nom::IResult;
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct AskQuery {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+pub fn ask_query(i: &str) -> IResult<&str, AskQuery> {
+    map(
+        tuple((
+            terminated(tag_no_case("ask"), sp),
+            terminated(sp_list0(data_set_clause), sp),
+            terminated(where_clause, sp),
+            solution_modifier,
+        )),
+        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
diff --git a/src/query/construct.rs b/src/query/construct.rs
index 88e8444..35b4861 100644
--- a/src/query/construct.rs
+++ b/src/query/construct.rs
@@ -1,97 +1,97 @@
-use crate::{
-    clauses::{solution_modifier, where_clause, SolutionModifier},
-    data::{data_set_clause, DataSetClause},
-    graph::GroupGraphPattern,
-    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
-    triple::TriplesSameSubject,
-    triple::{triples_same_subject, triples_template, TriplesTemplate},
-    var::{var_or_iri, VarOrIri},
-};
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::many1,
-    multi::separated_list,
-    sequence::{delimited, preceded},
-    sequence::{terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum ConstructQuery {
-    SubConstruct(SubConstruct),
-    SubTriples(SubTriples),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubConstruct {
-    pub construct_template: ConstructTemplate,
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubTriples {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub triples_template: Option<TriplesTemplate>,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
-
-pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
-    map(
-        tuple((
-            terminated(sp_list0(data_set_clause), sp),
-            terminated(tag_no_case("where"), sp),
-            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
-            preceded(sp, solution_modifier),
-        )),
-        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {
-            dataset_clauses,
-            triples_template,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
-    map(
-        tuple((
-            terminated(construct_template, sp),
-            terminated(sp_list0(data_set_clause), sp),
-            terminated(where_clause, sp),
-            solution_modifier,
-        )),
-        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
-            construct_template,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub fn construct_query(i: &str) -> IResult<&str, ConstructQuery> {
-    preceded_tag1(
-        "construct",
-        alt((
-            map(sub_construct, ConstructQuery::SubConstruct),
-            map(sub_triples, ConstructQuery::SubTriples),
-        )),
-    )(i)
-}
-
-pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
-    map(
-        delimited(
-            terminated(char('{'), sp),
-            opt(triples_template),
-            preceded(sp, char('}')),
-        ),
-        |triples| ConstructTemplate(triples.unwrap_or_default()),
-    )(i)
-}
+use crate::{
+    clauses::{solution_modifier, where_clause, SolutionModifier},
+    data::{data_set_clause, DataSetClause},
+    graph::GroupGraphPattern,
+    terminals::{preceded_tag1, sp, sp1, sp_enc, sp_enc1, sp_list0, tag_no_case},
+    triple::TriplesSameSubject,
+    triple::{triples_same_subject, triples_template, TriplesTemplate},
+    var::{var_or_iri, VarOrIri},
+};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::many1,
+    multi::separated_list,
+    sequence::{delimited, preceded},
+    sequence::{terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum ConstructQuery {
+    SubConstruct(SubConstruct),
+    SubTriples(SubTriples),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubConstruct {
+    pub construct_template: ConstructTemplate,
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubTriples {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub triples_template: Option<TriplesTemplate>,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConstructTemplate(pub Vec<TriplesSameSubject>);
+
+pub fn sub_triples(i: &str) -> IResult<&str, SubTriples> {
+    map(
+        tuple((
+            terminated(sp_list0(data_set_clause), sp),
+            terminated(tag_no_case("where"), sp),
+            delimited(char('{'), sp_enc(opt(triples_template)), char('}')),
+            preceded(sp, solution_modifier),
+        )),
+        |(dataset_clauses, _, triples_template, solution_modifier)| SubTriples {
+            dataset_clauses,
+            triples_template,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub fn sub_construct(i: &str) -> IResult<&str, SubConstruct> {
+    map(
+        tuple((
+            terminated(construct_template, sp),
+            terminated(sp_list0(data_set_clause), sp),
+            terminated(where_clause, sp),
+            solution_modifier,
+        )),
+        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
+            construct_template,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub fn construct_query(i: &str) -> IResult<&str, ConstructQuery> {
+    preceded_tag1(
+        "construct",
+        alt((
+            map(sub_construct, ConstructQuery::SubConstruct),
+            map(sub_triples, ConstructQuery::SubTriples),
+        )),
+    )(i)
+}
+
+pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
+    map(
+        delimited(
+            terminated(char('{'), sp),
+            opt(triples_template),
+            preceded(sp, char('}')),
+        ),
+        |triples| ConstructTemplate(triples.unwrap_or_default()),
+    )(i)
+}
diff --git a/src/query/describe.rs b/src/query/describe.rs
index 91f80f3..c98253e 100644
--- a/src/query/describe.rs
+++ b/src/query/describe.rs
@@ -1,39 +1,39 @@
-use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataSetClause};
-use crate::graph::GroupGraphPattern;
-use crate::terminals::{sp, sp_enc, sp_list0, tag_no_case};
-use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    multi::{separated_list, separated_nonempty_list},
-    sequence::{terminated, tuple},
-    IResult,
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct DescribeQuery {
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub var_or_iris_or_all: VarOrIrisOrAll,
-    pub where_clause: Option<GroupGraphPattern>,
-    pub solution_modifier: SolutionModifier,
-}
-
-pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
-    map(
-        tuple((
-            tag_no_case("describe"),
-            sp_enc(var_or_iris_or_all),
-            terminated(sp_list0(data_set_clause), sp),
-            opt(terminated(where_clause, sp)),
-            solution_modifier,
-        )),
-        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
-            var_or_iris_or_all,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
+use crate::clauses::{solution_modifier, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataSetClause};
+use crate::graph::GroupGraphPattern;
+use crate::terminals::{sp, sp_enc, sp_list0, tag_no_case};
+use crate::var::{var_or_iri, var_or_iris_or_all, VarOrIri, VarOrIrisOrAll};
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    multi::{separated_list, separated_nonempty_list},
+    sequence::{terminated, tuple},
+    IResult,
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct DescribeQuery {
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub var_or_iris_or_all: VarOrIrisOrAll,
+    pub where_clause: Option<GroupGraphPattern>,
+    pub solution_modifier: SolutionModifier,
+}
+
+pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
+    map(
+        tuple((
+            tag_no_case("describe"),
+            sp_enc(var_or_iris_or_all),
+            terminated(sp_list0(data_set_clause), sp),
+            opt(terminated(where_clause, sp)),
+            solution_modifier,
+        )),
+        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
+            var_or_iris_or_all,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
diff --git a/src/query/select.rs b/src/query/select.rs
index e893170..087a6c4 100644
--- a/src/query/select.rs
+++ b/src/query/select.rs
@@ -1,113 +1,113 @@
-use nom::branch::alt;
-use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
-use nom::character::complete::{anychar, char, digit1, none_of, one_of};
-use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::{many1, separated_list};
-use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
-use nom::IResult;
-
-use crate::clauses::{solution_modifier, values_clause, where_clause, SolutionModifier};
-use crate::data::{data_set_clause, DataBlock, DataSetClause};
-use crate::expression::{
-    expression, expression_as_var, Expression, ExpressionAsVar, Iri, IriOrFunction, PrefixedName,
-};
-use crate::graph::GroupGraphPattern;
-
-use crate::terminals::{sp, sp1, sp_enc, sp_list0, sp_list1, tag_no_case};
-use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SelectQuery {
-    pub select_clause: SelectClause,
-    pub dataset_clauses: Vec<DataSetClause>,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SubSelect {
-    pub select_clause: SelectClause,
-    pub where_clause: GroupGraphPattern,
-    pub solution_modifier: SolutionModifier,
-    pub values_clause: Option<DataBlock>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct SelectClause {
-    pub modifier: Option<SelectModifier>,
-    pub vars: SelectVars,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum SelectVars {
-    VarOrExpressionAsVar(Vec<VarOrExpressionAsVar>),
-    All,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum SelectModifier {
-    Distinct,
-    Reduced,
-}
-
-pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
-    map(
-        tuple((
-            terminated(select_clause, sp),
-            sp_list0(data_set_clause),
-            sp_enc(where_clause),
-            solution_modifier,
-        )),
-        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
-            select_clause,
-            dataset_clauses,
-            where_clause,
-            solution_modifier,
-        },
-    )(i)
-}
-
-pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
-    map(
-        tuple((
-            select_clause,
-            sp_enc(where_clause),
-            solution_modifier,
-            preceded(sp, values_clause),
-        )),
-        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
-            select_clause,
-            where_clause,
-            solution_modifier,
-            values_clause,
-        },
-    )(i)
-}
-
-pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
-    map(
-        tuple((
-            tag_no_case("select"),
-            opt(preceded(sp, select_modifier)),
-            preceded(sp, select_vars),
-        )),
-        |(_, modifier, vars)| SelectClause { modifier, vars },
-    )(i)
-}
-
-pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
-    alt((
-        map(char('*'), |_| SelectVars::All),
-        map(
-            sp_list1(var_or_expression_as_var),
-            SelectVars::VarOrExpressionAsVar,
-        ),
-    ))(i)
-}
-
-pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
-    alt((
-        map(tag_no_case("distinct"), |_| SelectModifier::Distinct),
-        map(tag_no_case("reduced"), |_| SelectModifier::Reduced),
-    ))(i)
-}
+use nom::branch::alt;
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
+use nom::character::complete::{anychar, char, digit1, none_of, one_of};
+use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
+use nom::multi::{many1, separated_list};
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
+use nom::IResult;
+
+use crate::clauses::{solution_modifier, values_clause, where_clause, SolutionModifier};
+use crate::data::{data_set_clause, DataBlock, DataSetClause};
+use crate::expression::{
+    expression, expression_as_var, Expression, ExpressionAsVar, Iri, IriOrFunction, PrefixedName,
+};
+use crate::graph::GroupGraphPattern;
+
+use crate::terminals::{sp, sp1, sp_enc, sp_list0, sp_list1, tag_no_case};
+use crate::var::{var, var_or_expression_as_var, VarOrExpressionAsVar};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SelectQuery {
+    pub select_clause: SelectClause,
+    pub dataset_clauses: Vec<DataSetClause>,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SubSelect {
+    pub select_clause: SelectClause,
+    pub where_clause: GroupGraphPattern,
+    pub solution_modifier: SolutionModifier,
+    pub values_clause: Option<DataBlock>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct SelectClause {
+    pub modifier: Option<SelectModifier>,
+    pub vars: SelectVars,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum SelectVars {
+    VarOrExpressionAsVar(Vec<VarOrExpressionAsVar>),
+    All,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum SelectModifier {
+    Distinct,
+    Reduced,
+}
+
+pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
+    map(
+        tuple((
+            terminated(select_clause, sp),
+            sp_list0(data_set_clause),
+            sp_enc(where_clause),
+            solution_modifier,
+        )),
+        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
+            select_clause,
+            dataset_clauses,
+            where_clause,
+            solution_modifier,
+        },
+    )(i)
+}
+
+pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
+    map(
+        tuple((
+            select_clause,
+            sp_enc(where_clause),
+            solution_modifier,
+            preceded(sp, values_clause),
+        )),
+        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
+            select_clause,
+            where_clause,
+            solution_modifier,
+            values_clause,
+        },
+    )(i)
+}
+
+pub(crate) fn select_clause(i: &str) -> IResult<&str, SelectClause> {
+    map(
+        tuple((
+            tag_no_case("select"),
+            opt(preceded(sp, select_modifier)),
+            preceded(sp, select_vars),
+        )),
+        |(_, modifier, vars)| SelectClause { modifier, vars },
+    )(i)
+}
+
+pub(crate) fn select_vars(i: &str) -> IResult<&str, SelectVars> {
+    alt((
+        map(char('*'), |_| SelectVars::All),
+        map(
+            sp_list1(var_or_expression_as_var),
+            SelectVars::VarOrExpressionAsVar,
+        ),
+    ))(i)
+}
+
+pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
+    alt((
+        map(tag_no_case("distinct"), |_| SelectModifier::Distinct),
+        map(tag_no_case("reduced"), |_| SelectModifier::Reduced),
+    ))(i)
+}
diff --git a/src/terminals.rs b/src/terminals.rs
index e8c0d3a..528ab81 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -1,602 +1,602 @@
-use nom::{
-    branch::alt,
-    bytes::complete::take_while,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::complete::{anychar, char, digit1, none_of, one_of},
-    character::{
-        complete::{alpha1, alphanumeric1},
-        is_alphabetic,
-    },
-    character::{is_alphanumeric, is_digit},
-    combinator::recognize,
-    combinator::{complete, cond, cut, map, map_res, not, opt, peek},
-    error::ErrorKind,
-    multi::{fold_many0, separated_list},
-    multi::{many0, many1},
-    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
-    AsChar, Err, IResult,
-};
-
-use crate::{
-    aggregate::count,
-    call::arg_list,
-    clauses::values_clause,
-    data::datablock,
-    expression::{DefaultOrNamedIri, Iri, IriOrFunction, PrefixedName},
-    graph::graph_term,
-    node::{Collection, ObjectList, PropertyList, RdfLiteral, RdfLiteralDescriptor, TriplesNode},
-    prologue::{BaseOrPrefixDecl, PrefixDecl, Prologue},
-    var::{Var, VarOrIri, VarOrTerm, VerbList},
-};
-
-/// Matches `tag` without regard to ASCII case.
-///
-/// Unlike nom's `tag_no_case` this never folds a non ASCII character onto an
-/// ASCII letter (U+212A, the Kelvin sign, is not a `k`), and a tag that ends
-/// with a letter only matches as a whole word.
-pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
-    let word = tag.ends_with(|c: char| c.is_ascii_alphabetic());
-    move |i: &'a str| match i.get(..tag.len()) {
-        Some(head) if head.eq_ignore_ascii_case(tag) => {
-            let rest = &i[tag.len()..];
-            if word && rest.starts_with(|c: char| is_pn_chars_u(c) || c == ':') {
-                Err(Err::Error((i, ErrorKind::Tag)))
-            } else {
-                Ok((rest, head))
-            }
-        }
-        _ => Err(Err::Error((i, ErrorKind::Tag))),
-    }
-}
-
-/// The verb `a`, the only keyword that is case sensitive
-pub(crate) fn verb_a(i: &str) -> IResult<&str, &str> {
-    preceded(peek(char('a')), tag_no_case("a"))(i)
-}
-
-#[inline]
-pub(crate) fn preceded_bracketted<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded_tag(tag, bracketted(pat))
-}
-
-/// The `.` that ends triples, in front of a digit it begins a decimal
-pub(crate) fn dot(i: &str) -> IResult<&str, char> {
-    terminated(char('.'), not(digit1))(i)
-}
-
-#[inline]
-pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(char('('), sp_enc(pat), char(')'))
-}
-
-#[inline]
-pub(crate) fn preceded_tag1<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded(terminated(tag_no_case(tag), sp), pat)
-}
-
-#[inline]
-pub(crate) fn preceded_tag<'a, O1, F>(
-    tag: &'a str,
-    pat: F,
-) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    preceded(terminated(tag_no_case(tag), sp), pat)
-}
-
-#[inline]
-pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
-    recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
-}
-
-#[inline]
-pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
-    recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
-}
-
-pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
-    alt((
-        recognize(pair(char('#'), take_while(|c| c != '\n' && c != '\r'))),
-        recognize(one_of("\r\n")),
-    ))(i)
-}
-
-#[inline]
-pub(crate) fn sp_enc<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(sp, pat, sp)
-}
-
-#[inline]
-pub(crate) fn sp_enc1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    delimited(sp1, pat, sp1)
-}
-
-#[inline]
-pub(crate) fn sp_sep1<'a, O1, O2, F, G>(
-    first: F,
-    second: G,
-) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-    G: Fn(&'a str) -> IResult<&'a str, O2>,
-{
-    separated_pair(first, sp1, second)
-}
-
-#[inline]
-pub(crate) fn sp_sep<'a, O1, O2, F, G>(
-    first: F,
-    second: G,
-) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-    G: Fn(&'a str) -> IResult<&'a str, O2>,
-{
-    separated_pair(first, sp, second)
-}
-
-/// `pat`s with optional whitespace between them, at least one
-pub(crate) fn sp_list1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    move |i: &'a str| {
-        let (i, first) = pat(i)?;
-        let (i, mut list) = many0(preceded(sp, &pat))(i)?;
-        list.insert(0, first);
-        Ok((i, list))
-    }
-}
-
-/// `pat`s with optional whitespace between them, possibly none
-pub(crate) fn sp_list0<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
-where
-    F: Fn(&'a str) -> IResult<&'a str, O1>,
-{
-    map(opt(sp_list1(pat)), Option::unwrap_or_default)
-}
-
-pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
-    escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
-}
-
-/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
-pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
-    alt((
-        delimited(
-            tag("'"),
-            map(
-                opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#))),
-                Option::unwrap_or_default,
-            ),
-            tag("'"),
-        ),
-        delimited(
-            tag("\""),
-            map(
-                opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#))),
-                Option::unwrap_or_default,
-            ),
-            tag("\""),
-        ),
-    ))(i)
-}
-
-pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
-    map(
-        pair(
-            map(string_literal, String::from),
-            opt(preceded(
-                sp,
-                alt((
-                    map(
-                        map(language_tag, String::from),
-                        RdfLiteralDescriptor::LangTag,
-                    ),
-                    map(
-                        preceded(terminated(tag("^^"), sp), iri),
-                        RdfLiteralDescriptor::IriRef,
-                    ),
-                )),
-            )),
-        ),
-        |(literal, descriptor)| RdfLiteral {
-            literal,
-            descriptor,
-        },
-    )(i)
-}
-
-// TODO refactor
-pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
-    preceded(
-        char('@'),
-        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
-    )(i)
-}
-
-#[inline]
-pub(crate) fn echar(i: &str) -> IResult<&str, &str> {
-    escaped(none_of("\\"), '\\', one_of(r#""tbnrf'"#))(i)
-}
-
-pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
-    alt((
-        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
-            pn_prefix,
-            pn_local,
-        }),
-        map(pname_ns, PrefixedName::PnameNS),
-    ))(i)
-}
-
-pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
-    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)
-}
-
-pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
-    map(
-        tuple((
-            tag_no_case("prefix"),
-            sp_enc(pname_ns),
-            map(iri_ref, String::from),
-        )),
-        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
-    )(i)
-}
-
-pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
-    map(
-        sp_list0(alt((
-            map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
-            map(prefix_decl, BaseOrPrefixDecl::Prefix),
-        ))),
-        Prologue,
-    )(i)
-}
-
-pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
-    delimited(
-        tag("<"),
-        take_while(|c| {
-            let chrs = "<>\"{}|^\\`";
-            if chrs.contains(c) {
-                false
-            } else {
-                c > '\u{20}'
-            }
-        }),
-        tag(">"),
-    )(i)
-}
-
-pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
-    preceded_tag1(
-        "named",
-        alt((
-            map(iri_ref, |i| Iri::Iri(i.to_string())),
-            map(prefixed_name, Iri::PrefixedName),
-        )),
-    )(i)
-}
-
-pub(crate) fn default_or_named_iri(i: &str) -> IResult<&str, DefaultOrNamedIri> {
-    alt((
-        map(named_iri, DefaultOrNamedIri::Named),
-        map(iri, DefaultOrNamedIri::Default),
-    ))(i)
-}
-
-pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
-    alt((
-        map(iri_ref, |i| Iri::Iri(i.to_string())),
-        map(prefixed_name, Iri::PrefixedName),
-    ))(i)
-}
-
-pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
-    map(
-        pair(iri, opt(preceded(sp, arg_list))),
-        |(iri, arg_list)| IriOrFunction { iri, arg_list },
-    )(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
-    // ((PN_CHARS|'.')* PN_CHARS)?
-    recognize(many0(preceded(take_while(|c| c == '.'), pn_chars1)))(i)
-}
-
-fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
-    u8::from_str_radix(input, 16)
-}
-fn is_hex_digit(c: char) -> bool {
-    c.is_digit(16)
-}
-
-fn hex_primary(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(2, 2, is_hex_digit)(i)
-}
-
-fn plx(i: &str) -> IResult<&str, &str> {
-    recognize(alt((
-        pair(tag("%"), hex_primary),
-        pair(tag("\\"), recognize(one_of("_~.-!$&'()*+,;=/?#@%"))),
-    )))(i)
-}
-
-pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        alt((
-            pn_chars_u_one,
-            tag(":"),
-            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
-            plx,
-        )),
-        recognize(many0(preceded(
-            take_while(|c| c == '.'),
-            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
-        ))),
-    ))(i)
-}
-
-pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
-    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)
-}
-
-pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
-    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
-}
-
-pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
-    pair(pname_ns, map(pn_local, String::from))(i)
-}
-
-#[inline]
-pub(crate) fn is_sp(c: char) -> bool {
-    " \t\n\r".contains(c)
-}
-
-pub(crate) fn is_unicode(c: char) -> bool {
-    match c {
-        '\u{00C0}'..='\u{00D6}' => true,
-        '\u{00D8}'..='\u{00F6}' => true,
-        '\u{00F8}'..='\u{02FF}' => true,
-        '\u{0370}'..='\u{037D}' => true,
-        '\u{037F}'..='\u{1FFF}' => true,
-        '\u{200C}'..='\u{200D}' => true,
-        '\u{2070}'..='\u{218F}' => true,
-        '\u{2C00}'..='\u{2FEF}' => true,
-        '\u{3001}'..='\u{D7FF}' => true,
-        '\u{F900}'..='\u{FDCF}' => true,
-        '\u{FDF0}'..='\u{FFFD}' => true,
-        '\u{10000}'..='\u{EFFFF}' => true,
-        _ => false,
-    }
-}
-
-#[inline]
-pub(crate) fn is_illegal_char_lit_1(c: char) -> bool {
-    match c {
-        '\u{0027}' | '\u{005C}' | '\u{000A}' | '\u{000D}' => true,
-        _ => false,
-    }
-}
-
-#[inline]
-pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
-    if !is_illegal_char_lit_1(c) {
-        c == '\u{0022}'
-    } else {
-        true
-    }
-}
-
-#[inline]
-pub(crate) fn is_pn_chars_base(i: char) -> bool {
-    i.is_ascii_alphabetic() || is_unicode(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_base_one(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(1, 1, is_pn_chars_base)(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_base1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_chars_base)(i)
-}
-
-#[inline]
-pub(crate) fn is_pn_chars_u(i: char) -> bool {
-    is_pn_chars_base(i) || i == '_'
-}
-
-#[inline]
-pub(crate) fn pn_chars_u_one(i: &str) -> IResult<&str, &str> {
-    alt((pn_chars_base_one, tag("_")))(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_chars_u)(i)
-}
-
-/// The characters that may continue, but not start, a name besides digits.
-#[inline]
-pub(crate) fn is_name_extender(i: char) -> bool {
-    match i {
-        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
-        _ => false,
-    }
-}
-
-#[inline]
-pub(crate) fn is_pn_char(i: char) -> bool {
-    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars_one(i: &str) -> IResult<&str, &str> {
-    take_while_m_n(1, 1, is_pn_char)(i)
-}
-
-#[inline]
-pub(crate) fn pn_chars1(i: &str) -> IResult<&str, &str> {
-    take_while1(is_pn_char)(i)
-}
-
-pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
-    preceded(char('['), cut(terminated(sp, char(']'))))(i)
-}
-
-pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
-    delimited(char('('), sp, char(')'))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_anon() {
-        assert_eq!(anon("[]"), Ok(("", "")));
-        assert_eq!(anon("[   ]"), Ok(("", "   ")));
-        assert_eq!(anon("[a]"), Err(Err::Failure(("a]", ErrorKind::Char))));
-    }
-
-    #[test]
-    fn is_pn_chars_base() {
-        assert_eq!(pn_chars_base_one("a "), Ok((" ", "a")));
-        assert_eq!(pn_chars_base_one("\u{00C0} "), Ok((" ", "\u{00C0}")));
-        assert_eq!(pn_chars_base_one("\u{03b1} "), Ok((" ", "\u{03b1}")));
-        assert_eq!(pn_chars_base_one("\u{00D8} "), Ok((" ", "\u{00D8}")));
-        assert_eq!(pn_chars_base_one("\u{FDF0} "), Ok((" ", "\u{FDF0}")));
-        assert_eq!(pn_chars_base_one("\u{F900} "), Ok((" ", "\u{F900}")));
-    }
-
-    #[test]
-    fn is_iri_ref() {
-        assert_eq!(
-            iri("<http://education.data.gov.uk/def/school/>"),
-            Ok((
-                "",
-                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
-            ))
-        );
-    }
-
-    #[test]
-    fn is_iri() {
-        assert_eq!(
-            iri("<http://education.data.gov.uk/def/school/>"),
-            Ok((
-                "",
-                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
-            ))
-        );
-    }
-
-    #[test]
-    fn is_string_literal() {
-        assert_eq!(
-            string_literal(r#""some string lit""#),
-            Ok(("", r#"some string lit"#))
-        );
-        assert_eq!(
-            string_literal("'some string lit'"),
-            Ok(("", "some string lit"))
-        );
-        assert_eq!(
-            string_literal("'some \tstring\n\r\"  lit'"),
-            Ok(("", "some \tstring\n\r\"  lit"))
-        );
-    }
-
-    #[test]
-    fn is_lang_tag() {
-        assert_eq!(language_tag("@en"), Ok(("", "en")));
-        assert_eq!(language_tag("@some-lang-tag1"), Ok(("", "some-lang-tag1")));
-        assert_eq!(
-            language_tag("@some-123lang-tag1"),
-            Ok(("", "some-123lang-tag1"))
-        );
-        assert_eq!(
-            language_tag("@1lang"),
-            Err(Err::Error(("1lang", ErrorKind::Alpha)))
-        );
-    }
-
-    #[test]
-    fn is_rdf_literal() {
-        assert_eq!(rdf_literal("'chat'"), Ok(("", RdfLiteral::literal("chat"))));
-
-        assert_eq!(
-            rdf_literal("'chat'@fr"),
-            Ok((
-                "",
-                RdfLiteral::new("chat", RdfLiteralDescriptor::LangTag("fr".to_string()))
-            ))
-        );
-        assert_eq!(
-            rdf_literal("'xyz'^^<http://example.org/ns/userDatatype>"),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "xyz",
-                    RdfLiteralDescriptor::IriRef(Iri::Iri(
-                        "http://example.org/ns/userDatatype".to_string()
-                    ))
-                )
-            ))
-        );
-        assert_eq!(
-            rdf_literal(r#""abc"^^appNS:1app.Data.Type"#),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "abc",
-                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: Some("appNS".to_string()),
-                        pn_local: "1app.Data.Type".to_string()
-                    }))
-                )
-            ))
-        );
-        assert_eq!(
-            rdf_literal(r#""abc"^^appNS:1...app.Data.Type"#),
-            Ok((
-                "",
-                RdfLiteral::new(
-                    "abc",
-                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
-                        pn_prefix: Some("appNS".to_string()),
-                        pn_local: "1...app.Data.Type".to_string()
-                    }))
-                )
-            ))
-        );
-    }
-}
+use nom::{
+    branch::alt,
+    bytes::complete::take_while,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::{anychar, char, digit1, none_of, one_of},
+    character::{
+        complete::{alpha1, alphanumeric1},
+        is_alphabetic,
+    },
+    character::{is_alphanumeric, is_digit},
+    combinator::recognize,
+    combinator::{complete, cond, cut, map, map_res, not, opt, peek},
+    error::ErrorKind,
+    multi::{fold_many0, separated_list},
+    multi::{many0, many1},
+    sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
+    AsChar, Err, IResult,
+};
+
+use crate::{
+    aggregate::count,
+    call::arg_list,
+    clauses::values_clause,
+    data::datablock,
+    expression::{DefaultOrNamedIri, Iri, IriOrFunction, PrefixedName},
+    graph::graph_term,
+    node::{Collection, ObjectList, PropertyList, RdfLiteral, RdfLiteralDescriptor, TriplesNode},
+    prologue::{BaseOrPrefixDecl, PrefixDecl, Prologue},
+    var::{Var, VarOrIri, VarOrTerm, VerbList},
+};
+
+/// Matches `tag` without regard to ASCII case.
+///
+/// Unlike nom's `tag_no_case` this never folds a non ASCII character onto an
+/// ASCII letter (U+212A, the Kelvin sign, is not a `k`), and a tag that ends
+/// with a letter only matches as a whole word.
+pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    let word = tag.ends_with(|c: char| c.is_ascii_alphabetic());
+    move |i: &'a str| match i.get(..tag.len()) {
+        Some(head) if head.eq_ignore_ascii_case(tag) => {
+            let rest = &i[tag.len()..];
+            if word && rest.starts_with(|c: char| is_pn_chars_u(c) || c == ':') {
+                Err(Err::Error((i, ErrorKind::Tag)))
+            } else {
+                Ok((rest, head))
+            }
+        }
+        _ => Err(Err::Error((i, ErrorKind::Tag))),
+    }
+}
+
+/// The verb `a`, the only keyword that is case sensitive
+pub(crate) fn verb_a(i: &str) -> IResult<&str, &str> {
+    preceded(peek(char('a')), tag_no_case("a"))(i)
+}
+
+#[inline]
+pub(crate) fn preceded_bracketted<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded_tag(tag, bracketted(pat))
+}
+
+/// The `.` that ends triples, in front of a digit it begins a decimal
+pub(crate) fn dot(i: &str) -> IResult<&str, char> {
+    terminated(char('.'), not(digit1))(i)
+}
+
+#[inline]
+pub(crate) fn bracketted<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(char('('), sp_enc(pat), char(')'))
+}
+
+#[inline]
+pub(crate) fn preceded_tag1<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded(terminated(tag_no_case(tag), sp), pat)
+}
+
+#[inline]
+pub(crate) fn preceded_tag<'a, O1, F>(
+    tag: &'a str,
+    pat: F,
+) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    preceded(terminated(tag_no_case(tag), sp), pat)
+}
+
+#[inline]
+pub(crate) fn sp(i: &str) -> IResult<&str, &str> {
+    recognize(many0(alt((recognize(one_of(" \t")), new_line))))(i)
+}
+
+#[inline]
+pub(crate) fn sp1(i: &str) -> IResult<&str, &str> {
+    recognize(many1(alt((recognize(one_of(" \t")), new_line))))(i)
+}
+
+pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
+    alt((
+        recognize(pair(char('#'), take_while(|c| c != '\n' && c != '\r'))),
+        recognize(one_of("\r\n")),
+    ))(i)
+}
+
+#[inline]
+pub(crate) fn sp_enc<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(sp, pat, sp)
+}
+
+#[inline]
+pub(crate) fn sp_enc1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, O1>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    delimited(sp1, pat, sp1)
+}
+
+#[inline]
+pub(crate) fn sp_sep1<'a, O1, O2, F, G>(
+    first: F,
+    second: G,
+) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+    G: Fn(&'a str) -> IResult<&'a str, O2>,
+{
+    separated_pair(first, sp1, second)
+}
+
+#[inline]
+pub(crate) fn sp_sep<'a, O1, O2, F, G>(
+    first: F,
+    second: G,
+) -> impl Fn(&'a str) -> IResult<&'a str, (O1, O2)>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+    G: Fn(&'a str) -> IResult<&'a str, O2>,
+{
+    separated_pair(first, sp, second)
+}
+
+/// `pat`s with optional whitespace between them, at least one
+pub(crate) fn sp_list1<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    move |i: &'a str| {
+        let (i, first) = pat(i)?;
+        let (i, mut list) = many0(preceded(sp, &pat))(i)?;
+        list.insert(0, first);
+        Ok((i, list))
+    }
+}
+
+/// `pat`s with optional whitespace between them, possibly none
+pub(crate) fn sp_list0<'a, O1, F>(pat: F) -> impl Fn(&'a str) -> IResult<&'a str, Vec<O1>>
+where
+    F: Fn(&'a str) -> IResult<&'a str, O1>,
+{
+    map(opt(sp_list1(pat)), Option::unwrap_or_default)
+}
+
+pub(crate) fn string_content(i: &str) -> IResult<&str, &str> {
+    escaped(none_of("'\"\\"), '\\', one_of(r#""tbnrf\'"#))(i)
+}
+
+/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
+pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
+    alt((
+        delimited(
+            tag("'"),
+            map(
+                opt(escaped(none_of("'\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
+            tag("'"),
+        ),
+        delimited(
+            tag("\""),
+            map(
+                opt(escaped(none_of("\"\\"), '\\', one_of(r#""tbnrf\'"#))),
+                Option::unwrap_or_default,
+            ),
+            tag("\""),
+        ),
+    ))(i)
+}
+
+pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
+    map(
+        pair(
+            map(string_literal, String::from),
+            opt(preceded(
+                sp,
+                alt((
+                    map(
+                        map(language_tag, String::from),
+                        RdfLiteralDescriptor::LangTag,
+                    ),
+                    map(
+                        preceded(terminated(tag("^^"), sp), iri),
+                        RdfLiteralDescriptor::IriRef,
+                    ),
+                )),
+            )),
+        ),
+        |(literal, descriptor)| RdfLiteral {
+            literal,
+            descriptor,
+        },
+    )(i)
+}
+
+// TODO refactor
+pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
+    preceded(
+        char('@'),
+        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
+    )(i)
+}
+
+#[inline]
+pub(crate) fn echar(i: &str) -> IResult<&str, &str> {
+    escaped(none_of("\\"), '\\', one_of(r#""tbnrf'"#))(i)
+}
+
+pub(crate) fn prefixed_name(i: &str) -> IResult<&str, PrefixedName> {
+    alt((
+        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
+            pn_prefix,
+            pn_local,
+        }),
+        map(pname_ns, PrefixedName::PnameNS),
+    ))(i)
+}
+
+pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
+    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)
+}
+
+pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
+    map(
+        tuple((
+            tag_no_case("prefix"),
+            sp_enc(pname_ns),
+            map(iri_ref, String::from),
+        )),
+        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
+    )(i)
+}
+
+pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
+    map(
+        sp_list0(alt((
+            map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
+            map(prefix_decl, BaseOrPrefixDecl::Prefix),
+        ))),
+        Prologue,
+    )(i)
+}
+
+pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
+    delimited(
+        tag("<"),
+        take_while(|c| {
+            let chrs = "<>\"{}|^\\`";
+            if chrs.contains(c) {
+                false
+            } else {
+                c > '\u{20}'
+            }
+        }),
+        tag(">"),
+    )(i)
+}
+
+pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
+    preceded_tag1(
+        "named",
+        alt((
+            map(iri_ref, |i| Iri::Iri(i.to_string())),
+            map(prefixed_name, Iri::PrefixedName),
+        )),
+    )(i)
+}
+
+pub(crate) fn default_or_named_iri(i: &str) -> IResult<&str, DefaultOrNamedIri> {
+    alt((
+        map(named_iri, DefaultOrNamedIri::Named),
+        map(iri, DefaultOrNamedIri::Default),
+    ))(i)
+}
+
+pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
+    alt((
+        map(iri_ref, |i| Iri::Iri(i.to_string())),
+        map(prefixed_name, Iri::PrefixedName),
+    ))(i)
+}
+
+pub(crate) fn iri_or_fun(i: &str) -> IResult<&str, IriOrFunction> {
+    map(
+        pair(iri, opt(preceded(sp, arg_list))),
+        |(iri, arg_list)| IriOrFunction { iri, arg_list },
+    )(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_tail(i: &str) -> IResult<&str, &str> {
+    // ((PN_CHARS|'.')* PN_CHARS)?
+    recognize(many0(preceded(take_while(|c| c == '.'), pn_chars1)))(i)
+}
+
+fn from_hex(input: &str) -> Result<u8, std::num::ParseIntError> {
+    u8::from_str_radix(input, 16)
+}
+fn is_hex_digit(c: char) -> bool {
+    c.is_digit(16)
+}
+
+fn hex_primary(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(2, 2, is_hex_digit)(i)
+}
+
+fn plx(i: &str) -> IResult<&str, &str> {
+    recognize(alt((
+        pair(tag("%"), hex_primary),
+        pair(tag("\\"), recognize(one_of("_~.-!$&'()*+,;=/?#@%"))),
+    )))(i)
+}
+
+pub(crate) fn pn_local(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        alt((
+            pn_chars_u_one,
+            tag(":"),
+            take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
+            plx,
+        )),
+        recognize(many0(preceded(
+            take_while(|c| c == '.'),
+            alt((take_while1(|c| is_pn_char(c) || c == ':'), plx)),
+        ))),
+    ))(i)
+}
+
+pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
+    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)
+}
+
+pub(crate) fn pname_ns(i: &str) -> IResult<&str, Option<String>> {
+    terminated(opt(map(pn_prefix, String::from)), char(':'))(i)
+}
+
+pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
+    pair(pname_ns, map(pn_local, String::from))(i)
+}
+
+#[inline]
+pub(crate) fn is_sp(c: char) -> bool {
+    " \t\n\r".contains(c)
+}
+
+pub(crate) fn is_unicode(c: char) -> bool {
+    match c {
+        '\u{00C0}'..='\u{00D6}' => true,
+        '\u{00D8}'..='\u{00F6}' => true,
+        '\u{00F8}'..='\u{02FF}' => true,
+        '\u{0370}'..='\u{037D}' => true,
+        '\u{037F}'..='\u{1FFF}' => true,
+        '\u{200C}'..='\u{200D}' => true,
+        '\u{2070}'..='\u{218F}' => true,
+        '\u{2C00}'..='\u{2FEF}' => true,
+        '\u{3001}'..='\u{D7FF}' => true,
+        '\u{F900}'..='\u{FDCF}' => true,
+        '\u{FDF0}'..='\u{FFFD}' => true,
+        '\u{10000}'..='\u{EFFFF}' => true,
+        _ => false,
+    }
+}
+
+#[inline]
+pub(crate) fn is_illegal_char_lit_1(c: char) -> bool {
+    match c {
+        '\u{0027}' | '\u{005C}' | '\u{000A}' | '\u{000D}' => true,
+        _ => false,
+    }
+}
+
+#[inline]
+pub(crate) fn is_illegal_char_lit_2(c: char) -> bool {
+    if !is_illegal_char_lit_1(c) {
+        c == '\u{0022}'
+    } else {
+        true
+    }
+}
+
+#[inline]
+pub(crate) fn is_pn_chars_base(i: char) -> bool {
+    i.is_ascii_alphabetic() || is_unicode(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_base_one(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(1, 1, is_pn_chars_base)(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_base1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_chars_base)(i)
+}
+
+#[inline]
+pub(crate) fn is_pn_chars_u(i: char) -> bool {
+    is_pn_chars_base(i) || i == '_'
+}
+
+#[inline]
+pub(crate) fn pn_chars_u_one(i: &str) -> IResult<&str, &str> {
+    alt((pn_chars_base_one, tag("_")))(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_u1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_chars_u)(i)
+}
+
+/// The characters that may continue, but not start, a name besides digits.
+#[inline]
+pub(crate) fn is_name_extender(i: char) -> bool {
+    match i {
+        '\u{00B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}' => true,
+        _ => false,
+    }
+}
+
+#[inline]
+pub(crate) fn is_pn_char(i: char) -> bool {
+    is_pn_chars_u(i) || i == '-' || i.is_dec_digit() || is_name_extender(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars_one(i: &str) -> IResult<&str, &str> {
+    take_while_m_n(1, 1, is_pn_char)(i)
+}
+
+#[inline]
+pub(crate) fn pn_chars1(i: &str) -> IResult<&str, &str> {
+    take_while1(is_pn_char)(i)
+}
+
+pub(crate) fn anon(i: &str) -> IResult<&str, &str> {
+    preceded(char('['), cut(terminated(sp, char(']'))))(i)
+}
+
+pub(crate) fn nil(i: &str) -> IResult<&str, &str> {
+    delimited(char('('), sp, char(')'))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_anon() {
+        assert_eq!(anon("[]"), Ok(("", "")));
+        assert_eq!(anon("[   ]"), Ok(("", "   ")));
+        assert_eq!(anon("[a]"), Err(Err::Failure(("a]", ErrorKind::Char))));
+    }
+
+    #[test]
+    fn is_pn_chars_base() {
+        assert_eq!(pn_chars_base_one("a "), Ok((" ", "a")));
+        assert_eq!(pn_chars_base_one("\u{00C0} "), Ok((" ", "\u{00C0}")));
+        assert_eq!(pn_chars_base_one("\u{03b1} "), Ok((" ", "\u{03b1}")));
+        assert_eq!(pn_chars_base_one("\u{00D8} "), Ok((" ", "\u{00D8}")));
+        assert_eq!(pn_chars_base_one("\u{FDF0} "), Ok((" ", "\u{FDF0}")));
+        assert_eq!(pn_chars_base_one("\u{F900} "), Ok((" ", "\u{F900}")));
+    }
+
+    #[test]
+    fn is_iri_ref() {
+        assert_eq!(
+            iri("<http://education.data.gov.uk/def/school/>"),
+            Ok((
+                "",
+                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
+            ))
+        );
+    }
+
+    #[test]
+    fn is_iri() {
+        assert_eq!(
+            iri("<http://education.data.gov.uk/def/school/>"),
+            Ok((
+                "",
+                Iri::Iri("http://education.data.gov.uk/def/school/".to_string())
+            ))
+        );
+    }
+
+    #[test]
+    fn is_string_literal() {
+        assert_eq!(
+            string_literal(r#""some string lit""#),
+            Ok(("", r#"some string lit"#))
+        );
+        assert_eq!(
+            string_literal("'some string lit'"),
+            Ok(("", "some string lit"))
+        );
+        assert_eq!(
+            string_literal("'some \tstring\n\r\"  lit'"),
+            Ok(("", "some \tstring\n\r\"  lit"))
+        );
+    }
+
+    #[test]
+    fn is_lang_tag() {
+        assert_eq!(language_tag("@en"), Ok(("", "en")));
+        assert_eq!(language_tag("@some-lang-tag1"), Ok(("", "some-lang-tag1")));
+        assert_eq!(
+            language_tag("@some-123lang-tag1"),
+            Ok(("", "some-123lang-tag1"))
+        );
+        assert_eq!(
+            language_tag("@1lang"),
+            Err(Err::Error(("1lang", ErrorKind::Alpha)))
+        );
+    }
+
+    #[test]
+    fn is_rdf_literal() {
+        assert_eq!(rdf_literal("'chat'"), Ok(("", RdfLiteral::literal("chat"))));
+
+        assert_eq!(
+            rdf_literal("'chat'@fr"),
+            Ok((
+                "",
+                RdfLiteral::new("chat", RdfLiteralDescriptor::LangTag("fr".to_string()))
+            ))
+        );
+        assert_eq!(
+            rdf_literal("'xyz'^^<http://example.org/ns/userDatatype>"),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "xyz",
+                    RdfLiteralDescriptor::IriRef(Iri::Iri(
+                        "http://example.org/ns/userDatatype".to_string()
+                    ))
+                )
+            ))
+        );
+        assert_eq!(
+            rdf_literal(r#""abc"^^appNS:1app.Data.Type"#),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "abc",
+                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: Some("appNS".to_string()),
+                        pn_local: "1app.Data.Type".to_string()
+                    }))
+                )
+            ))
+        );
+        assert_eq!(
+            rdf_literal(r#""abc"^^appNS:1...app.Data.Type"#),
+            Ok((
+                "",
+                RdfLiteral::new(
+                    "abc",
+                    RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
+                        pn_prefix: Some("appNS".to_string()),
+                        pn_local: "1...app.Data.Type".to_string()
+                    }))
+                )
+            ))
+        );
+    }
+}
diff --git a/src/triple.rs b/src/triple.rs
index 3b7ac15..ef52f33 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -1,269 +1,269 @@
-use nom::{
-    branch::alt,
-    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
-    character::complete::char,
-    character::is_digit,
-    combinator::map_res,
-    combinator::{map, opt},
-    multi::{many0, many1, separated_nonempty_list},
-    sequence::{delimited, pair, separated_pair, tuple},
-    sequence::{preceded, terminated},
-    IResult,
-};
-
-use crate::{
-    expression::ArgList,
-    graph::graph_node,
-    node::{Collection, ObjectList, PropertyList, TriplesNode},
-    path::{triples_same_subject_path, TriplesSameSubjectPath},
-    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
-    var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
-};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum TriplesSameSubject {
-    Term {
-        var_or_term: VarOrTerm,
-        property_list: PropertyList,
-    },
-    Node {
-        triples_node: TriplesNode,
-        property_list: Option<PropertyList>,
-    },
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct ConstructTriples {
-    pub first_triples: TriplesSameSubject,
-    pub further_triples: Vec<TriplesSameSubject>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct TriplesBlock(pub Vec<TriplesSameSubjectPath>);
-
-pub type TriplesTemplate = Vec<TriplesSameSubject>;
-
-pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
-    delimited(
-        terminated(char('['), sp),
-        property_list_not_empty,
-        preceded(sp, char(']')),
-    )(i)
-}
-
-pub(crate) fn collection(i: &str) -> IResult<&str, Collection> {
-    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)
-}
-
-pub(crate) fn object_list(i: &str) -> IResult<&str, ObjectList> {
-    map(
-        separated_nonempty_list(sp_enc(tag(",")), graph_node),
-        ObjectList,
-    )(i)
-}
-
-pub(crate) fn property_list_not_empty(i: &str) -> IResult<&str, PropertyList> {
-    map(
-        terminated(
-            separated_nonempty_list(
-                sp_enc(many1(sp_enc(char(';')))),
-                map(separated_pair(verb, sp, object_list), |(v, l)| {
-                    VerbList::new(v, l)
-                }),
-            ),
-            many0(preceded(sp, char(';'))),
-        ),
-        PropertyList,
-    )(i)
-}
-
-#[inline]
-pub(crate) fn property_list(i: &str) -> IResult<&str, Option<PropertyList>> {
-    opt(property_list_not_empty)(i)
-}
-
-pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
-    alt((
-        map(collection, TriplesNode::Collection),
-        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
-    ))(i)
-}
-
-pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
-    map(
-        terminated(
-            separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject_path),
-            opt(preceded(sp, dot)),
-        ),
-        TriplesBlock,
-    )(i)
-}
-
-pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
-    terminated(
-        separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject),
-        opt(preceded(sp, dot)),
-    )(i)
-}
-
-pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject> {
-    alt((
-        map(
-            sp_sep(triples_node, property_list),
-            |(triples_node, property_list)| TriplesSameSubject::Node {
-                triples_node,
-                property_list,
-            },
-        ),
-        map(
-            sp_sep(var_or_term, property_list_not_empty),
-            |(var_or_term, property_list)| TriplesSameSubject::Term {
-                var_or_term,
-                property_list,
-            },
-        ),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    use crate::graph::{GraphNode, GraphTerm};
-
-    #[test]
-    fn is_triple_same_subject() {
-        assert_eq!(
-            triples_same_subject("() a true,()"),
-            Ok((
-                "",
-                TriplesSameSubject::Term {
-                    var_or_term: VarOrTerm::Term(GraphTerm::Nil),
-                    property_list: PropertyList(vec![VerbList::new(
-                        Verb::A,
-                        ObjectList(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ]),
-                    )])
-                }
-            ))
-        );
-
-        assert_eq!(
-            triples_same_subject("(()())"),
-            Ok((
-                "",
-                TriplesSameSubject::Node {
-                    triples_node: TriplesNode::Collection(Collection(vec![
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
-                    ])),
-                    property_list: None
-                }
-            ))
-        );
-
-        assert_eq!(
-            triples_same_subject("[   a (),()\t] a false,()"),
-            Ok((
-                "",
-                TriplesSameSubject::Node {
-                    triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
-                        VerbList::new(
-                            Verb::A,
-                            ObjectList(vec![
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                            ]),
-                        )
-                    ])),
-                    property_list: Some(PropertyList(vec![VerbList::new(
-                        Verb::A,
-                        ObjectList(vec![
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
-                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                        ]),
-                    )]))
-                }
-            ))
-        );
-    }
-
-    #[test]
-    fn is_triples_node() {
-        assert_eq!(
-            triples_node("(true ())"),
-            Ok((
-                "",
-                TriplesNode::Collection(Collection(vec![
-                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
-                ]))
-            ))
-        );
-
-        assert_eq!(
-            triples_node("[\na false,() \n]"),
-            Ok((
-                "",
-                TriplesNode::BlankNodePropertyList(PropertyList(vec![VerbList::new(
-                    Verb::A,
-                    ObjectList(vec![
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
-                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                    ]),
-                )]))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_triples_template() {
-        let nil = TriplesSameSubject::Node {
-            triples_node: TriplesNode::Collection(Collection(vec![
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
-                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-            ])),
-            property_list: None,
-        };
-
-        assert_eq!(triples_template("(true())."), Ok(("", vec![nil.clone()])));
-
-        assert_eq!(
-            triples_template("(true()).(true())"),
-            Ok(("", vec![nil.clone(), nil.clone()]))
-        );
-
-        assert_eq!(
-            triples_template("(true()).[   a (),()\t] a false,()"),
-            Ok((
-                "",
-                vec![
-                    nil.clone(),
-                    TriplesSameSubject::Node {
-                        triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
-                            VerbList::new(
-                                Verb::A,
-                                ObjectList(vec![
-                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                                ]),
-                            )
-                        ])),
-                        property_list: Some(PropertyList(vec![VerbList::new(
-                            Verb::A,
-                            ObjectList(vec![
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(
-                                    false
-                                ))),
-                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
-                            ]),
-                        )]))
-                    }
-                ]
-            ))
-        );
-    }
-
-}
+use nom::{
+    branch::alt,
+    bytes::complete::{escaped, tag, take_while1, take_while_m_n},
+    character::complete::char,
+    character::is_digit,
+    combinator::map_res,
+    combinator::{map, opt},
+    multi::{many0, many1, separated_nonempty_list},
+    sequence::{delimited, pair, separated_pair, tuple},
+    sequence::{preceded, terminated},
+    IResult,
+};
+
+use crate::{
+    expression::ArgList,
+    graph::graph_node,
+    node::{Collection, ObjectList, PropertyList, TriplesNode},
+    path::{triples_same_subject_path, TriplesSameSubjectPath},
+    terminals::{bracketted, dot, sp, sp_enc, sp_sep, sp_sep1},
+    var::{var_or_iri, var_or_term, verb, VarOrIri, VarOrTerm, Verb, VerbList},
+};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum TriplesSameSubject {
+    Term {
+        var_or_term: VarOrTerm,
+        property_list: PropertyList,
+    },
+    Node {
+        triples_node: TriplesNode,
+        property_list: Option<PropertyList>,
+    },
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct ConstructTriples {
+    pub first_triples: TriplesSameSubject,
+    pub further_triples: Vec<TriplesSameSubject>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct TriplesBlock(pub Vec<TriplesSameSubjectPath>);
+
+pub type TriplesTemplate = Vec<TriplesSameSubject>;
+
+pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
+    delimited(
+        terminated(char('['), sp),
+        property_list_not_empty,
+        preceded(sp, char(']')),
+    )(i)
+}
+
+pub(crate) fn collection(i: &str) -> IResult<&str, Collection> {
+    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)
+}
+
+pub(crate) fn object_list(i: &str) -> IResult<&str, ObjectList> {
+    map(
+        separated_nonempty_list(sp_enc(tag(",")), graph_node),
+        ObjectList,
+    )(i)
+}
+
+pub(crate) fn property_list_not_empty(i: &str) -> IResult<&str, PropertyList> {
+    map(
+        terminated(
+            separated_nonempty_list(
+                sp_enc(many1(sp_enc(char(';')))),
+                map(separated_pair(verb, sp, object_list), |(v, l)| {
+                    VerbList::new(v, l)
+                }),
+            ),
+            many0(preceded(sp, char(';'))),
+        ),
+        PropertyList,
+    )(i)
+}
+
+#[inline]
+pub(crate) fn property_list(i: &str) -> IResult<&str, Option<PropertyList>> {
+    opt(property_list_not_empty)(i)
+}
+
+pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
+    alt((
+        map(collection, TriplesNode::Collection),
+        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
+    ))(i)
+}
+
+pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
+    map(
+        terminated(
+            separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject_path),
+            opt(preceded(sp, dot)),
+        ),
+        TriplesBlock,
+    )(i)
+}
+
+pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
+    terminated(
+        separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject),
+        opt(preceded(sp, dot)),
+    )(i)
+}
+
+pub(crate) fn triples_same_subject(i: &str) -> IResult<&str, TriplesSameSubject> {
+    alt((
+        map(
+            sp_sep(triples_node, property_list),
+            |(triples_node, property_list)| TriplesSameSubject::Node {
+                triples_node,
+                property_list,
+            },
+        ),
+        map(
+            sp_sep(var_or_term, property_list_not_empty),
+            |(var_or_term, property_list)| TriplesSameSubject::Term {
+                var_or_term,
+                property_list,
+            },
+        ),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    use crate::graph::{GraphNode, GraphTerm};
+
+    #[test]
+    fn is_triple_same_subject() {
+        assert_eq!(
+            triples_same_subject("() a true,()"),
+            Ok((
+                "",
+                TriplesSameSubject::Term {
+                    var_or_term: VarOrTerm::Term(GraphTerm::Nil),
+                    property_list: PropertyList(vec![VerbList::new(
+                        Verb::A,
+                        ObjectList(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ]),
+                    )])
+                }
+            ))
+        );
+
+        assert_eq!(
+            triples_same_subject("(()())"),
+            Ok((
+                "",
+                TriplesSameSubject::Node {
+                    triples_node: TriplesNode::Collection(Collection(vec![
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
+                    ])),
+                    property_list: None
+                }
+            ))
+        );
+
+        assert_eq!(
+            triples_same_subject("[   a (),()\t] a false,()"),
+            Ok((
+                "",
+                TriplesSameSubject::Node {
+                    triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
+                        VerbList::new(
+                            Verb::A,
+                            ObjectList(vec![
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                            ]),
+                        )
+                    ])),
+                    property_list: Some(PropertyList(vec![VerbList::new(
+                        Verb::A,
+                        ObjectList(vec![
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
+                            GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                        ]),
+                    )]))
+                }
+            ))
+        );
+    }
+
+    #[test]
+    fn is_triples_node() {
+        assert_eq!(
+            triples_node("(true ())"),
+            Ok((
+                "",
+                TriplesNode::Collection(Collection(vec![
+                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil))
+                ]))
+            ))
+        );
+
+        assert_eq!(
+            triples_node("[\na false,() \n]"),
+            Ok((
+                "",
+                TriplesNode::BlankNodePropertyList(PropertyList(vec![VerbList::new(
+                    Verb::A,
+                    ObjectList(vec![
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(false))),
+                        GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                    ]),
+                )]))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_triples_template() {
+        let nil = TriplesSameSubject::Node {
+            triples_node: TriplesNode::Collection(Collection(vec![
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(true))),
+                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+            ])),
+            property_list: None,
+        };
+
+        assert_eq!(triples_template("(true())."), Ok(("", vec![nil.clone()])));
+
+        assert_eq!(
+            triples_template("(true()).(true())"),
+            Ok(("", vec![nil.clone(), nil.clone()]))
+        );
+
+        assert_eq!(
+            triples_template("(true()).[   a (),()\t] a false,()"),
+            Ok((
+                "",
+                vec![
+                    nil.clone(),
+                    TriplesSameSubject::Node {
+                        triples_node: TriplesNode::BlankNodePropertyList(PropertyList(vec![
+                            VerbList::new(
+                                Verb::A,
+                                ObjectList(vec![
+                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                    GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                                ]),
+                            )
+                        ])),
+                        property_list: Some(PropertyList(vec![VerbList::new(
+                            Verb::A,
+                            ObjectList(vec![
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BooleanLiteral(
+                                    false
+                                ))),
+                                GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::Nil)),
+                            ]),
+                        )]))
+                    }
+                ]
+            ))
+        );
+    }
+
+}
diff --git a/src/update.rs b/src/update.rs
index 5283a71..a4bca4f 100644
--- a/src/update.rs
+++ b/src/update.rs
@@ -1,84 +1,84 @@
-use nom::{
-    branch::alt,
-    character::complete::char,
-    combinator::{map, opt},
-    sequence::preceded,
-    sequence::{pair, tuple},
-    IResult,
-};
-
-use crate::operations::{
-    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
-    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement,
-    CreateStatement, DropStatement, LoadStatement, ModifyStatement, MoveStatement,
-};
-use crate::prologue::Prologue;
-use crate::quads::Quads;
-use crate::terminals::{prologue, sp, sp_enc};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub struct Update {
-    pub prologue: Prologue,
-    pub update_stmt: Option<UpdateStatement>,
-    pub inner_update: Option<Box<Update>>,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum UpdateStatement {
-    Load(LoadStatement),
-    Clear(ClearStatement),
-    Drop(DropStatement),
-    Create(CreateStatement),
-    Add(AddStatement),
-    Move(MoveStatement),
-    Copy(CopyStatement),
-    InsertData(Quads),
-    DeleteData(Quads),
-    DeleteWhere(Quads),
-    Modify(Box<ModifyStatement>),
-}
-
-pub(crate) fn update(i: &str) -> IResult<&str, Update> {
-    map(
-        tuple((
-            preceded(sp, prologue),
-            opt(pair(
-                preceded(sp, update_stmt),
-                opt(preceded(sp_enc(char(';')), map(update, Box::new))),
-            )),
-        )),
-        |(prologue, opts)| {
-            if let Some((update_stmt, inner_update)) = opts {
-                Update {
-                    prologue,
-                    update_stmt: Some(update_stmt),
-                    inner_update,
-                }
-            } else {
-                Update {
-                    prologue,
-                    update_stmt: None,
-                    inner_update: None,
-                }
-            }
-        },
-    )(i)
-}
-
-pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
-    alt((
-        map(load_stmt, UpdateStatement::Load),
-        map(clear_stmt, UpdateStatement::Clear),
-        map(drop_stmt, UpdateStatement::Drop),
-        map(create_stmt, UpdateStatement::Create),
-        map(add_stmt, UpdateStatement::Add),
-        map(move_stmt, UpdateStatement::Move),
-        map(copy_stmt, UpdateStatement::Copy),
-        map(insert_data, UpdateStatement::InsertData),
-        map(delete_data, UpdateStatement::DeleteData),
-        map(delete_where_data, UpdateStatement::DeleteWhere),
-        map(modify_stmt, |modify| {
-            UpdateStatement::Modify(Box::new(modify))
-        }),
-    ))(i)
-}
+use nom::{
+    branch::alt,
+    character::complete::char,
+    combinator::{map, opt},
+    sequence::preceded,
+    sequence::{pair, tuple},
+    IResult,
+};
+
+use crate::operations::{
+    add_stmt, clear_stmt, copy_stmt, create_stmt, delete_data, delete_where_data, drop_stmt,
+    insert_data, load_stmt, modify_stmt, move_stmt, AddStatement, ClearStatement, CopyStatement,
+    CreateStatement, DropStatement, LoadStatement, ModifyStatement, MoveStatement,
+};
+use crate::prologue::Prologue;
+use crate::quads::Quads;
+use crate::terminals::{prologue, sp, sp_enc};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub struct Update {
+    pub prologue: Prologue,
+    pub update_stmt: Option<UpdateStatement>,
+    pub inner_update: Option<Box<Update>>,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum UpdateStatement {
+    Load(LoadStatement),
+    Clear(ClearStatement),
+    Drop(DropStatement),
+    Create(CreateStatement),
+    Add(AddStatement),
+    Move(MoveStatement),
+    Copy(CopyStatement),
+    InsertData(Quads),
+    DeleteData(Quads),
+    DeleteWhere(Quads),
+    Modify(Box<ModifyStatement>),
+}
+
+pub(crate) fn update(i: &str) -> IResult<&str, Update> {
+    map(
+        tuple((
+            preceded(sp, prologue),
+            opt(pair(
+                preceded(sp, update_stmt),
+                opt(preceded(sp_enc(char(';')), map(update, Box::new))),
+            )),
+        )),
+        |(prologue, opts)| {
+            if let Some((update_stmt, inner_update)) = opts {
+                Update {
+                    prologue,
+                    update_stmt: Some(update_stmt),
+                    inner_update,
+                }
+            } else {
+                Update {
+                    prologue,
+                    update_stmt: None,
+                    inner_update: None,
+                }
+            }
+        },
+    )(i)
+}
+
+pub(crate) fn update_stmt(i: &str) -> IResult<&str, UpdateStatement> {
+    alt((
+        map(load_stmt, UpdateStatement::Load),
+        map(clear_stmt, UpdateStatement::Clear),
+        map(drop_stmt, UpdateStatement::Drop),
+        map(create_stmt, UpdateStatement::Create),
+        map(add_stmt, UpdateStatement::Add),
+        map(move_stmt, UpdateStatement::Move),
+        map(copy_stmt, UpdateStatement::Copy),
+        map(insert_data, UpdateStatement::InsertData),
+        map(delete_data, UpdateStatement::DeleteData),
+        map(delete_where_data, UpdateStatement::DeleteWhere),
+        map(modify_stmt, |modify| {
+            UpdateStatement::Modify(Box::new(modify))
+        }),
+    ))(i)
+}
diff --git a/src/var.rs b/src/var.rs
index 3841a18..df0c603 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1,151 +1,151 @@
-use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
-use crate::graph::{graph_term, GraphTerm};
-use crate::node::ObjectList;
-use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, sp_list1, tag_no_case, verb_a};
-use nom::branch::alt;
-use nom::bytes::complete::take_while;
-use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
-use nom::character::complete::{anychar, char, digit1, none_of, one_of};
-use nom::combinator::recognize;
-use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
-use nom::multi::separated_nonempty_list;
-use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
-use nom::{AsChar, IResult};
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrIri {
-    Var(Var),
-    Iri(Iri),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum Var {
-    QMark(String),
-    Dollar(String),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrTerm {
-    Var(Var),
-    Term(GraphTerm),
-}
-
-#[derive(Debug, Clone, Eq, PartialEq, new)]
-pub struct VerbList {
-    pub verb: Verb,
-    pub object_list: ObjectList,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrIrisOrAll {
-    VarIri(Vec<VarOrIri>),
-    All,
-}
-
-#[derive(Clone, Debug, Eq, PartialEq)]
-pub enum Verb {
-    VarOrIri(VarOrIri),
-    /// syntactic shortcut for rdf:type
-    A,
-}
-
-#[derive(Debug, Clone, Eq, PartialEq)]
-pub enum VarOrExpressionAsVar {
-    Var(Var),
-    ExpressionAsVar(ExpressionAsVar),
-}
-
-pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
-    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)
-}
-
-pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
-    alt((
-        map(var_or_iri, Verb::VarOrIri),
-        map(verb_a, |_| Verb::A),
-    ))(i)
-}
-
-pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
-    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)
-}
-
-pub(crate) fn var(i: &str) -> IResult<&str, Var> {
-    alt((
-        map(
-            preceded(char('?'), map(var_name, String::from)),
-            Var::QMark,
-        ),
-        map(
-            preceded(char('$'), map(var_name, String::from)),
-            Var::Dollar,
-        ),
-    ))(i)
-}
-
-pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
-    alt((
-        map(
-            sp_list1(var_or_iri),
-            VarOrIrisOrAll::VarIri,
-        ),
-        map(char('*'), |_| VarOrIrisOrAll::All),
-    ))(i)
-}
-
-pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpressionAsVar> {
-    alt((
-        map(var, VarOrExpressionAsVar::Var),
-        map(expression_as_var, VarOrExpressionAsVar::ExpressionAsVar),
-    ))(i)
-}
-
-pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
-    recognize(pair(
-        take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
-        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
-    ))(i)
-}
-
-#[cfg(test)]
-mod tests {
-    use super::*;
-
-    #[test]
-    fn is_verb() {
-        assert_eq!(verb("a"), Ok(("", Verb::A)));
-
-        assert_eq!(
-            verb("?name"),
-            Ok((
-                "",
-                Verb::VarOrIri(VarOrIri::Var(Var::QMark("name".to_string())))
-            ))
-        );
-
-        assert_eq!(
-            verb("<http://example.org/foaf/aliceFoaf>"),
-            Ok((
-                "",
-                Verb::VarOrIri(VarOrIri::Iri(Iri::Iri(
-                    "http://example.org/foaf/aliceFoaf".to_string()
-                )))
-            ))
-        );
-    }
-
-    #[test]
-    fn is_var_or_iri() {
-        assert_eq!(
-            var_or_iri("?name"),
-            Ok(("", VarOrIri::Var(Var::QMark("name".to_string()))))
-        );
-    }
-
-    #[test]
-    fn is_var() {
-        assert_eq!(var("?name"), Ok(("", Var::QMark("name".to_string()))));
-
-        assert_eq!(var("$name"), Ok(("", Var::Dollar("name".to_string()))));
-    }
-}
+use crate::expression::{expression_as_var, ExpressionAsVar, Iri};
+use crate::graph::{graph_term, GraphTerm};
+use crate::node::ObjectList;
+use crate::terminals::{iri, is_name_extender, is_pn_chars_u, sp, sp_list1, tag_no_case, verb_a};
+use nom::branch::alt;
+use nom::bytes::complete::take_while;
+use nom::bytes::complete::{escaped, tag, take_while1, take_while_m_n};
+use nom::character::complete::{anychar, char, digit1, none_of, one_of};
+use nom::combinator::recognize;
+use nom::combinator::{complete, cond, cut, map, map_res, not, opt, peek};
+use nom::multi::separated_nonempty_list;
+use nom::sequence::{delimited, pair, preceded, separated_pair, terminated, tuple};
+use nom::{AsChar, IResult};
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrIri {
+    Var(Var),
+    Iri(Iri),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum Var {
+    QMark(String),
+    Dollar(String),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrTerm {
+    Var(Var),
+    Term(GraphTerm),
+}
+
+#[derive(Debug, Clone, Eq, PartialEq, new)]
+pub struct VerbList {
+    pub verb: Verb,
+    pub object_list: ObjectList,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrIrisOrAll {
+    VarIri(Vec<VarOrIri>),
+    All,
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum Verb {
+    VarOrIri(VarOrIri),
+    /// syntactic shortcut for rdf:type
+    A,
+}
+
+#[derive(Debug, Clone, Eq, PartialEq)]
+pub enum VarOrExpressionAsVar {
+    Var(Var),
+    ExpressionAsVar(ExpressionAsVar),
+}
+
+pub(crate) fn var_or_iri(i: &str) -> IResult<&str, VarOrIri> {
+    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)
+}
+
+pub(crate) fn verb(i: &str) -> IResult<&str, Verb> {
+    alt((
+        map(var_or_iri, Verb::VarOrIri),
+        map(verb_a, |_| Verb::A),
+    ))(i)
+}
+
+pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
+    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)
+}
+
+pub(crate) fn var(i: &str) -> IResult<&str, Var> {
+    alt((
+        map(
+            preceded(char('?'), map(var_name, String::from)),
+            Var::QMark,
+        ),
+        map(
+            preceded(char('$'), map(var_name, String::from)),
+            Var::Dollar,
+        ),
+    ))(i)
+}
+
+pub(crate) fn var_or_iris_or_all(i: &str) -> IResult<&str, VarOrIrisOrAll> {
+    alt((
+        map(
+            sp_list1(var_or_iri),
+            VarOrIrisOrAll::VarIri,
+        ),
+        map(char('*'), |_| VarOrIrisOrAll::All),
+    ))(i)
+}
+
+pub(crate) fn var_or_expression_as_var(i: &str) -> IResult<&str, VarOrExpressionAsVar> {
+    alt((
+        map(var, VarOrExpressionAsVar::Var),
+        map(expression_as_var, VarOrExpressionAsVar::ExpressionAsVar),
+    ))(i)
+}
+
+pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
+    recognize(pair(
+        take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
+        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
+    ))(i)
+}
+
+#[cfg(test)]
+mod tests {
+    use super::*;
+
+    #[test]
+    fn is_verb() {
+        assert_eq!(verb("a"), Ok(("", Verb::A)));
+
+        assert_eq!(
+            verb("?name"),
+            Ok((
+                "",
+                Verb::VarOrIri(VarOrIri::Var(Var::QMark("name".to_string())))
+            ))
+        );
+
+        assert_eq!(
+            verb("<http://example.org/foaf/aliceFoaf>"),
+            Ok((
+                "",
+                Verb::VarOrIri(VarOrIri::Iri(Iri::Iri(
+                    "http://example.org/foaf/aliceFoaf".to_string()
+                )))
+            ))
+        );
+    }
+
+    #[test]
+    fn is_var_or_iri() {
+        assert_eq!(
+            var_or_iri("?name"),
+            Ok(("", VarOrIri::Var(Var::QMark("name".to_string()))))
+        );
+    }
+
+    #[test]
+    fn is_var() {
+        assert_eq!(var("?name"), Ok(("", Var::QMark("name".to_string()))));
+
+        assert_eq!(var("$name"), Ok(("", Var::Dollar("name".to_string()))));
+    }
+}
-- 
2.43.0


From b5ca128927d1aa3080df2aee7c277a0dfcac1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 26/28] fix: one dot separates two triples

triples_block and triples_template took any number of dots between two
triples; the grammar has exactly one.
---
 src/triple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triple.rs b/src/triple.rs
index ef52f33..1ccac7e 100644
--- a/src/triple.rs
+++ b/src/triple.rs
@@ -92,7 +92,7 @@ pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
 pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
     map(
         terminated(
-            separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject_path),
+            separated_nonempty_list(sp_enc(dot), triples_same_subject_path),
             opt(preceded(sp, dot)),
         ),
         TriplesBlock,
@@ -101,7 +101,7 @@ pub(crate) fn triples_block(i: &str) -> IResult<&str, TriplesBlock> {
 
 pub(crate) fn triples_template(i: &str) -> IResult<&str, TriplesTemplate> {
     terminated(
-        separated_nonempty_list(many1(sp_enc(dot)), triples_same_subject),
+        separated_nonempty_list(sp_enc(dot), triples_same_subject),
         opt(preceded(sp, dot)),
     )(i)
 }
-- 
2.43.0


From 508e82d3e3f8609f50d260d6fc8a7469bff47477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 27/28] fix: a name that begins with an e may follow a number

An e without digits behind it is no exponent; the cut turned it into a hard
failure of every enclosing parser, and the integer in front was refused.
---
 src/literal.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/literal.rs b/src/literal.rs
index f14a03e..243a291 100644
--- a/src/literal.rs
+++ b/src/literal.rs
@@ -1,4 +1,4 @@
-use nom::combinator::{cut, opt, recognize};
+use nom::combinator::{opt, recognize};
 use nom::error::{make_error, ErrorKind};
 use nom::sequence::{pair, tuple};
 use nom::{
@@ -121,7 +121,7 @@ pub(crate) fn exponent(i: &str) -> IResult<&str, i64> {
     preceded(
         alt((char('e'), char('E'))),
         map_res(
-            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),
+            recognize(pair(opt(alt((char('+'), char('-')))), digit1)),
             |s: &str| s.parse::<i64>(),
         ),
     )(i)
@@ -155,10 +155,7 @@ pub(crate) fn sparql_int(i: &str) -> IResult<&str, i64> {
     match recognize(pair(opt(alt((char('+'), char('-')))), digit1))(i) {
         Ok((i, o)) => {
             // validate that no decimal/double is present
-            if i.chars()
-                .next()
-                .map_or_else(|| false, |c| ".eE".contains(c))
-            {
+            if i.starts_with('.') || exponent(i).is_ok() {
                 Err(Err::Error(make_error(i, ErrorKind::Float)))
             } else if let Ok(v) = o.parse() {
                 Ok((i, v))
-- 
2.43.0


From 9a1a2c1bd746c7e3aadad03265c2dc5a15a1ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:59 +0000
Subject: [PATCH 28/28] fix: a keyword may begin a longer prefixed name

---
 src/terminals.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/terminals.rs b/src/terminals.rs
index 528ab81..65d6fae 100644
--- a/src/terminals.rs
+++ b/src/terminals.rs
@@ -39,7 +39,8 @@ pub(crate) fn tag_no_case<'a>(tag: &'a str) -> impl Fn(&'a str) -> IResult<&'a s
     move |i: &'a str| match i.get(..tag.len()) {
         Some(head) if head.eq_ignore_ascii_case(tag) => {
             let rest = &i[tag.len()..];
-            if word && rest.starts_with(|c: char| is_pn_chars_u(c) || c == ':') {
+            // the token is the longest one: `GRAPH-1:` is a prefixed name
+            if word && (rest.starts_with(is_pn_chars_u) || pname_ns(i).is_ok()) {
                 Err(Err::Error((i, ErrorKind::Tag)))
             } else {
                 Ok((rest, head))
-- 
2.43.0

