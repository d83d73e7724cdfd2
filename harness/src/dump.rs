//! AST -> canonical bytes.  Every match is exhaustive and every field is
//! written, in the order in which it appears in the query text, so two parse
//! results have the same dump exactly if they say the same.  Layers of the
//! expression and path grammars that hold a single operand are left out.
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::*;
use nom_sparql::call::*;
use nom_sparql::clauses::*;
use nom_sparql::data::*;
use nom_sparql::expression::functions::*;
use nom_sparql::expression::iri::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::literal::*;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::order::*;
use nom_sparql::path::*;
use nom_sparql::prologue::*;
use nom_sparql::quads::*;
use nom_sparql::query::ask::*;
use nom_sparql::query::construct::*;
use nom_sparql::query::describe::*;
use nom_sparql::query::select::*;
use nom_sparql::query::*;
use nom_sparql::triple::*;
use nom_sparql::update::*;
use nom_sparql::var::*;

pub trait Out {
    fn b(&mut self) -> &mut Vec<u8>;
    fn tag(&mut self, t: &str) {
        self.b().extend_from_slice(t.as_bytes());
    }
    fn open(&mut self, t: &str) {
        self.b().push(b'(');
        self.tag(t);
        self.b().push(b' ');
    }
    fn close(&mut self) {
        self.b().push(b')');
    }
    fn none(&mut self) {
        self.b().push(b'~');
    }
    fn bytes(&mut self, s: &[u8]) {
        let n = s.len() as u16;
        self.b().extend_from_slice(&n.to_le_bytes());
        self.b().extend_from_slice(s);
    }
    fn flag(&mut self, f: bool) {
        // branch free: the flag may be symbolic
        self.b().push(b'0' + f as u8);
    }
    fn u64(&mut self, v: u64) {
        self.b().extend_from_slice(&v.to_le_bytes());
    }
}
impl Out for Vec<u8> {
    fn b(&mut self) -> &mut Vec<u8> {
        self
    }
}

pub trait Dump {
    fn d(&self, o: &mut Vec<u8>);
}

fn list<T: Dump>(tag: &str, l: &[T], o: &mut Vec<u8>) {
    o.open(tag);
    for x in l {
        x.d(o);
    }
    o.close();
}
fn opt<T: Dump>(x: &Option<T>, o: &mut Vec<u8>) {
    match x {
        Some(x) => x.d(o),
        None => o.none(),
    }
}
fn one<T: Dump>(tag: &str, x: &T, o: &mut Vec<u8>) {
    o.open(tag);
    x.d(o);
    o.close();
}
fn two<T: Dump, U: Dump>(tag: &str, x: &T, y: &U, o: &mut Vec<u8>) {
    o.open(tag);
    x.d(o);
    y.d(o);
    o.close();
}
impl<T: Dump> Dump for Box<T> {
    fn d(&self, o: &mut Vec<u8>) {
        (**self).d(o)
    }
}

impl Dump for SparqlQueryStatement {
    fn d(&self, o: &mut Vec<u8>) {
        let SparqlQueryStatement { prologue, query, values } = self;
        o.open("Q");
        prologue.d(o);
        query.d(o);
        opt(values, o);
        o.close();
    }
}
impl Dump for SparqlQuery {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            SparqlQuery::Ask(q) => q.d(o),
            SparqlQuery::Select(q) => q.d(o),
            SparqlQuery::Describe(q) => q.d(o),
            SparqlQuery::Construct(q) => q.d(o),
        }
    }
}
impl Dump for Prologue {
    fn d(&self, o: &mut Vec<u8>) {
        list("pro", &self.0, o)
    }
}
impl Dump for BaseOrPrefixDecl {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            BaseOrPrefixDecl::Base(s) => {
                o.open("base");
                o.bytes(s.as_bytes());
                o.close();
            }
            BaseOrPrefixDecl::Prefix(PrefixDecl { pname_ns, iri_ref }) => {
                o.open("prefix");
                match pname_ns {
                    Some(p) => o.bytes(p.as_bytes()),
                    None => o.none(),
                }
                o.bytes(iri_ref.as_bytes());
                o.close();
            }
        }
    }
}
impl Dump for AskQuery {
    fn d(&self, o: &mut Vec<u8>) {
        let AskQuery { dataset_clauses, where_clause, solution_modifier } = self;
        o.open("ask");
        list("ds", dataset_clauses, o);
        where_clause.d(o);
        solution_modifier.d(o);
        o.close();
    }
}
impl Dump for SelectQuery {
    fn d(&self, o: &mut Vec<u8>) {
        let SelectQuery { select_clause, dataset_clauses, where_clause, solution_modifier } = self;
        o.open("select");
        select_clause.d(o);
        list("ds", dataset_clauses, o);
        where_clause.d(o);
        solution_modifier.d(o);
        o.close();
    }
}
impl Dump for SubSelect {
    fn d(&self, o: &mut Vec<u8>) {
        let SubSelect { select_clause, where_clause, solution_modifier, values_clause } = self;
        o.open("subselect");
        select_clause.d(o);
        where_clause.d(o);
        solution_modifier.d(o);
        opt(values_clause, o);
        o.close();
    }
}
impl Dump for SelectClause {
    fn d(&self, o: &mut Vec<u8>) {
        let SelectClause { modifier, vars } = self;
        match modifier {
            None => o.none(),
            Some(SelectModifier::Distinct) => o.tag("D"),
            Some(SelectModifier::Reduced) => o.tag("R"),
        }
        match vars {
            SelectVars::All => o.tag("*"),
            SelectVars::VarOrExpressionAsVar(v) => list("vars", v, o),
        }
    }
}
impl Dump for VarOrExpressionAsVar {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            VarOrExpressionAsVar::Var(v) => v.d(o),
            VarOrExpressionAsVar::ExpressionAsVar(v) => v.d(o),
        }
    }
}
impl Dump for ExpressionAsVar {
    fn d(&self, o: &mut Vec<u8>) {
        let ExpressionAsVar { expression, var } = self;
        two("as", expression, var, o)
    }
}
impl Dump for ExpressionAsVarOpt {
    fn d(&self, o: &mut Vec<u8>) {
        let ExpressionAsVarOpt { expression, var } = self;
        o.open("asopt");
        expression.d(o);
        opt(var, o);
        o.close();
    }
}
impl Dump for DescribeQuery {
    fn d(&self, o: &mut Vec<u8>) {
        let DescribeQuery { dataset_clauses, var_or_iris_or_all, where_clause, solution_modifier } = self;
        o.open("describe");
        match var_or_iris_or_all {
            VarOrIrisOrAll::All => o.tag("*"),
            VarOrIrisOrAll::VarIri(v) => list("vars", v, o),
        }
        list("ds", dataset_clauses, o);
        opt(where_clause, o);
        solution_modifier.d(o);
        o.close();
    }
}
impl Dump for ConstructQuery {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            ConstructQuery::SubConstruct(c) => c.d(o),
            ConstructQuery::SubTriples(c) => c.d(o),
        }
    }
}
impl Dump for SubConstruct {
    fn d(&self, o: &mut Vec<u8>) {
        let SubConstruct { construct_template, dataset_clauses, where_clause, solution_modifier } = self;
        o.open("construct");
        list("tt", &construct_template.0, o);
        list("ds", dataset_clauses, o);
        where_clause.d(o);
        solution_modifier.d(o);
        o.close();
    }
}
impl Dump for SubTriples {
    fn d(&self, o: &mut Vec<u8>) {
        let SubTriples { dataset_clauses, triples_template, solution_modifier } = self;
        o.open("constructwhere");
        list("ds", dataset_clauses, o);
        tt(triples_template, o);
        solution_modifier.d(o);
        o.close();
    }
}
fn tt(t: &Option<TriplesTemplate>, o: &mut Vec<u8>) {
    match t {
        Some(t) => list("tt", t, o),
        None => list::<TriplesSameSubject>("tt", &[], o),
    }
}
impl Dump for DefaultOrNamedIri {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            DefaultOrNamedIri::Default(i) => one("default", i, o),
            DefaultOrNamedIri::Named(i) => one("named", i, o),
        }
    }
}
impl Dump for SolutionModifier {
    fn d(&self, o: &mut Vec<u8>) {
        let SolutionModifier { order_by, group_by, having, limit_offset } = self;
        o.open("mod");
        match group_by {
            None => o.none(),
            Some(g) => list("group", &g.0, o),
        }
        match having {
            None => o.none(),
            Some(h) => list("having", &h.0, o),
        }
        match order_by {
            None => o.none(),
            Some(x) => list("order", &x.0, o),
        }
        match limit_offset {
            None => o.none(),
            Some(LimitOffsetClause::LimitOffset { limit, offset }) => {
                o.tag("L");
                o.u64(*limit);
                match offset {
                    None => o.none(),
                    Some(x) => {
                        o.tag("O");
                        o.u64(*x)
                    }
                }
            }
            Some(LimitOffsetClause::OffsetLimit { offset, limit }) => {
                o.tag("O");
                o.u64(*offset);
                match limit {
                    None => o.none(),
                    Some(x) => {
                        o.tag("L");
                        o.u64(*x)
                    }
                }
            }
        }
        o.close();
    }
}
impl Dump for GroupCondition {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GroupCondition::BuiltInCall(b) => b.d(o),
            GroupCondition::FunctionCall(f) => f.d(o),
            GroupCondition::ExpressionAsVarOpt(e) => e.d(o),
            GroupCondition::Var(v) => v.d(o),
        }
    }
}
impl Dump for OrderCondition {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            OrderCondition::Order(x) => {
                let OrderExpression { order, expression } = &**x;
                one(
                    match order {
                        Order::Asc => "asc",
                        Order::Desc => "desc",
                    },
                    expression,
                    o,
                )
            }
            OrderCondition::Constraint(c) => c.d(o),
            OrderCondition::Var(v) => v.d(o),
        }
    }
}
impl Dump for Constraint {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            Constraint::Bracketted(e) => one("B", e, o),
            Constraint::BuiltInCall(b) => b.d(o),
            Constraint::FunctionCall(f) => f.d(o),
        }
    }
}
impl Dump for FunctionCall {
    fn d(&self, o: &mut Vec<u8>) {
        let FunctionCall { iri, args } = self;
        two("fn", iri, args, o)
    }
}
impl Dump for ArgList {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            ArgList::Nil => o.tag("nilargs"),
            ArgList::Expression { distinct, expressions } => {
                o.open("args");
                o.flag(*distinct);
                for e in expressions {
                    e.d(o);
                }
                o.close();
            }
        }
    }
}
impl Dump for Expression {
    fn d(&self, o: &mut Vec<u8>) {
        if self.0.len() == 1 {
            self.0[0].d(o)
        } else {
            list("||", &self.0, o)
        }
    }
}
impl Dump for ConditionalAndExpression {
    fn d(&self, o: &mut Vec<u8>) {
        if self.0.len() == 1 {
            self.0[0].d(o)
        } else {
            list("&&", &self.0, o)
        }
    }
}
impl Dump for RelationalExpression {
    fn d(&self, o: &mut Vec<u8>) {
        let RelationalExpression { lhs, rhs } = self;
        match rhs {
            None => lhs.d(o),
            Some(OpExpression::EQ(r)) => two("=", lhs, r, o),
            Some(OpExpression::NE(r)) => two("!=", lhs, r, o),
            Some(OpExpression::LT(r)) => two("<", lhs, r, o),
            Some(OpExpression::GT(r)) => two(">", lhs, r, o),
            Some(OpExpression::LE(r)) => two("<=", lhs, r, o),
            Some(OpExpression::GE(r)) => two(">=", lhs, r, o),
            Some(OpExpression::IN(r)) => two("in", lhs, r, o),
            Some(OpExpression::NIN(r)) => two("notin", lhs, r, o),
        }
    }
}
impl Dump for AdditiveExpression {
    fn d(&self, o: &mut Vec<u8>) {
        let AdditiveExpression { lhs, rhs } = self;
        if rhs.is_empty() {
            lhs.d(o)
        } else {
            o.open("sum");
            lhs.d(o);
            for r in rhs {
                match r {
                    AddExpression::Add(m) => {
                        o.tag("+");
                        m.d(o)
                    }
                    AddExpression::Sub(m) => {
                        o.tag("-");
                        m.d(o)
                    }
                    AddExpression::Numeric { numeric, expressions } => {
                        o.open("signed");
                        numeric.d(o);
                        for e in expressions {
                            e.d(o);
                        }
                        o.close();
                    }
                }
            }
            o.close();
        }
    }
}
impl Dump for MultExpression {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            MultExpression::Mult(u) => {
                o.tag("*");
                u.d(o)
            }
            MultExpression::Div(u) => {
                o.tag("/");
                u.d(o)
            }
        }
    }
}
impl Dump for MultiplicativeExpression {
    fn d(&self, o: &mut Vec<u8>) {
        let MultiplicativeExpression { lhs, rhs } = self;
        if rhs.is_empty() {
            lhs.d(o)
        } else {
            o.open("prod");
            lhs.d(o);
            for r in rhs {
                r.d(o);
            }
            o.close();
        }
    }
}
impl Dump for UnaryExpression {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            UnaryExpression::Not(p) => one("!", p, o),
            UnaryExpression::Add(p) => one("+", p, o),
            UnaryExpression::Sub(p) => one("-", p, o),
            UnaryExpression::Default(p) => p.d(o),
        }
    }
}
impl Dump for PrimaryExpression {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            PrimaryExpression::BrackettedExpression(e) => one("B", e, o),
            PrimaryExpression::BuiltInCall(b) => b.d(o),
            PrimaryExpression::IriOrFunction(IriOrFunction { iri, arg_list }) => match arg_list {
                None => iri.d(o),
                Some(a) => two("fn", iri, a, o),
            },
            PrimaryExpression::RdfLiteral(l) => l.d(o),
            PrimaryExpression::NumericLiteral(n) => n.d(o),
            PrimaryExpression::BooleanLiteral(b) => {
                o.tag("b");
                o.flag(*b)
            }
            PrimaryExpression::Var(v) => v.d(o),
        }
    }
}
impl Dump for ExpressionList {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            ExpressionList::Nil => o.tag("nillist"),
            ExpressionList::List(l) => list("list", l, o),
        }
    }
}
impl Dump for DistinctExpression {
    fn d(&self, o: &mut Vec<u8>) {
        let DistinctExpression { distinct, expression } = self;
        o.flag(*distinct);
        expression.d(o);
    }
}
impl Dump for Aggregate {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            Aggregate::Count(Count { distinct, target }) => {
                o.open("COUNT");
                o.flag(*distinct);
                match target {
                    CountTarget::All => o.tag("*"),
                    CountTarget::Expr(e) => e.d(o),
                }
                o.close();
            }
            Aggregate::Sum(e) => one("SUM", e, o),
            Aggregate::Min(e) => one("MIN", e, o),
            Aggregate::Max(e) => one("MAX", e, o),
            Aggregate::Avg(e) => one("AVG", e, o),
            Aggregate::Sample(e) => one("SAMPLE", e, o),
            Aggregate::GroupConcat(GroupConcat { expression, separator }) => {
                o.open("GROUP_CONCAT");
                expression.d(o);
                match separator {
                    None => o.none(),
                    Some(s) => o.bytes(s.as_bytes()),
                }
                o.close();
            }
        }
    }
}
fn exprs(tag: &str, l: &[&Expression], o: &mut Vec<u8>) {
    o.open(tag);
    for x in l {
        x.d(o);
    }
    o.close();
}
fn expr3(tag: &str, r: &RegexExpression, o: &mut Vec<u8>) {
    let RegexExpression { first, second, third } = r;
    o.open(tag);
    first.d(o);
    second.d(o);
    if let Some(t) = third {
        t.d(o);
    }
    o.close();
}
impl Dump for BuiltInCall {
    fn d(&self, o: &mut Vec<u8>) {
        use BuiltInCall::*;
        match self {
            Aggregate(a) => a.d(o),
            Str(e) => one("STR", e, o),
            Lang(e) => one("LANG", e, o),
            LangMatches((a, b)) => two("LANGMATCHES", a, b, o),
            Datatype(e) => one("DATATYPE", e, o),
            Bound(v) => one("BOUND", v, o),
            Iri(e) => one("IRI", e, o),
            Uri(e) => one("URI", e, o),
            Bnode(None) => exprs("BNODE", &[], o),
            Bnode(Some(e)) => one("BNODE", e, o),
            Rand => exprs("RAND", &[], o),
            Abs(e) => one("ABS", e, o),
            Ceil(e) => one("CEIL", e, o),
            Floor(e) => one("FLOOR", e, o),
            Round(e) => one("ROUND", e, o),
            Concat(ExpressionList::Nil) => exprs("CONCAT", &[], o),
            Concat(ExpressionList::List(l)) => list("CONCAT", l, o),
            SubStr(r) => expr3("SUBSTR", r, o),
            StrLen(e) => one("STRLEN", e, o),
            Replace(StrReplaceExpression { first, second, third, fourth }) => {
                o.open("REPLACE");
                first.d(o);
                second.d(o);
                third.d(o);
                if let Some(f) = fourth {
                    f.d(o);
                }
                o.close();
            }
            UCase(e) => one("UCASE", e, o),
            LCase(e) => one("LCASE", e, o),
            EncodeForUri(e) => one("ENCODE_FOR_URI", e, o),
            Contains((a, b)) => two("CONTAINS", a, b, o),
            StrStarts((a, b)) => two("STRSTARTS", a, b, o),
            StrEnds((a, b)) => two("STRENDS", a, b, o),
            StrBefore((a, b)) => two("STRBEFORE", a, b, o),
            StrAfter((a, b)) => two("STRAFTER", a, b, o),
            Year(e) => one("YEAR", e, o),
            Month(e) => one("MONTH", e, o),
            Day(e) => one("DAY", e, o),
            Hours(e) => one("HOURS", e, o),
            Minutes(e) => one("MINUTES", e, o),
            Seconds(e) => one("SECONDS", e, o),
            Timezone(e) => one("TIMEZONE", e, o),
            Tz(e) => one("TZ", e, o),
            Now => exprs("NOW", &[], o),
            UUID => exprs("UUID", &[], o),
            StrUUID => exprs("STRUUID", &[], o),
            MD5(e) => one("MD5", e, o),
            SHA1(e) => one("SHA1", e, o),
            SHA256(e) => one("SHA256", e, o),
            SHA384(e) => one("SHA384", e, o),
            SHA512(e) => one("SHA512", e, o),
            Coalesce(ExpressionList::Nil) => exprs("COALESCE", &[], o),
            Coalesce(ExpressionList::List(l)) => list("COALESCE", l, o),
            If((a, b, c)) => exprs("IF", &[a, b, c], o),
            StrLang((a, b)) => two("STRLANG", a, b, o),
            StrDt((a, b)) => two("STRDT", a, b, o),
            SameTerm((a, b)) => two("SAMETERM", a, b, o),
            IsIri(e) => one("ISIRI", e, o),
            IsUri(e) => one("ISURI", e, o),
            IsBlank(e) => one("ISBLANK", e, o),
            IsLiteral(e) => one("ISLITERAL", e, o),
            IsNumeric(e) => one("ISNUMERIC", e, o),
            Regex(r) => expr3("REGEX", r, o),
            ExistsFunc(g) => one("EXISTS", g, o),
            NotExistsFunc(g) => one("NOTEXISTS", g, o),
        }
    }
}
impl Dump for nom_sparql::expression::Iri {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            nom_sparql::expression::Iri::Iri(s) => {
                o.tag("<");
                o.bytes(s.as_bytes())
            }
            nom_sparql::expression::Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
                o.tag(":");
                match pn_prefix {
                    None => o.none(),
                    Some(p) => o.bytes(p.as_bytes()),
                }
                o.bytes(pn_local.as_bytes())
            }
            nom_sparql::expression::Iri::PrefixedName(PrefixedName::PnameNS(p)) => {
                o.tag("ns");
                match p {
                    None => o.none(),
                    Some(p) => o.bytes(p.as_bytes()),
                }
            }
        }
    }
}
impl Dump for Var {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            Var::QMark(s) => {
                o.tag("?");
                o.bytes(s.as_bytes())
            }
            Var::Dollar(s) => {
                o.tag("$");
                o.bytes(s.as_bytes())
            }
        }
    }
}
impl Dump for RdfLiteral {
    fn d(&self, o: &mut Vec<u8>) {
        let RdfLiteral { literal, descriptor } = self;
        o.tag("'");
        o.bytes(literal.as_bytes());
        match descriptor {
            None => o.none(),
            Some(RdfLiteralDescriptor::LangTag(l)) => {
                o.tag("@");
                o.bytes(l.as_bytes())
            }
            Some(RdfLiteralDescriptor::IriRef(i)) => {
                o.tag("^");
                i.d(o)
            }
        }
    }
}
impl Dump for NumericLiteral {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            NumericLiteral::Int(i) => {
                o.tag("i");
                o.u64(*i as u64)
            }
            NumericLiteral::Double((f, e)) => {
                o.tag("f");
                o.u64(f.to_bits());
                match e {
                    None => o.none(),
                    Some(e) => {
                        o.tag("e");
                        o.u64(*e as u64)
                    }
                }
            }
        }
    }
}
impl Dump for VarOrIri {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            VarOrIri::Var(v) => v.d(o),
            VarOrIri::Iri(i) => i.d(o),
        }
    }
}
impl Dump for VarOrTerm {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            VarOrTerm::Var(v) => v.d(o),
            VarOrTerm::Term(t) => t.d(o),
        }
    }
}
impl Dump for GraphTerm {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GraphTerm::Iri(i) => i.d(o),
            GraphTerm::RdfLiteral(l) => l.d(o),
            GraphTerm::NumericLiteral(n) => n.d(o),
            GraphTerm::BooleanLiteral(b) => {
                o.tag("b");
                o.flag(*b)
            }
            GraphTerm::BlankNode(BlankNode::Anon) => o.tag("[]"),
            GraphTerm::BlankNode(BlankNode::Label(l)) => {
                o.tag("_");
                o.bytes(l.as_bytes())
            }
            GraphTerm::Nil => o.tag("nil"),
        }
    }
}
impl Dump for DataBlock {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            DataBlock::InlineDataOneVar(InlineDataOneVar { var, values }) => {
                o.open("values1");
                var.d(o);
                for v in values {
                    v.d(o);
                }
                o.close();
            }
            DataBlock::InlineDataFull(InlineDataFull { vars, data_block_values }) => {
                o.open("values");
                list("vars", vars, o);
                for row in data_block_values {
                    list("row", row, o);
                }
                o.close();
            }
        }
    }
}
impl Dump for DataBlockValue {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            DataBlockValue::Iri(i) => i.d(o),
            DataBlockValue::RdfLiteral(l) => l.d(o),
            DataBlockValue::NumericLiteral(n) => n.d(o),
            DataBlockValue::BooleanLiteral(b) => {
                o.tag("b");
                o.flag(*b)
            }
            DataBlockValue::UnDef => o.tag("UNDEF"),
        }
    }
}
impl Dump for GroupGraphPattern {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GroupGraphPattern::SubSelect(s) => one("{", s, o),
            GroupGraphPattern::GroupGraphPatternSub(s) => one("{", s, o),
        }
    }
}
impl Dump for GroupGraphPatternSub {
    fn d(&self, o: &mut Vec<u8>) {
        let GroupGraphPatternSub { triples_block, graph_pattern_and_triples } = self;
        opt(triples_block, o);
        for g in graph_pattern_and_triples {
            let GraphPatternAndTriples { graph_pattern, triples } = g;
            o.open("gp");
            graph_pattern.d(o);
            opt(triples, o);
            o.close();
        }
    }
}
impl Dump for GraphPatternNotTriples {
    fn d(&self, o: &mut Vec<u8>) {
        use GraphPatternNotTriples::*;
        match self {
            Optional(g) => one("optional", g, o),
            GroupOrUnion(GroupOrUnionGraphPattern(v)) => list("union", v, o),
            Minus(g) => one("minus", g, o),
            Graph(GraphGraphPattern { var_or_iri, graph_pattern }) => two("graph", var_or_iri, graph_pattern, o),
            Service(ServiceGraphPattern { var_or_iri, silent, graph_pattern }) => {
                o.open("service");
                o.flag(*silent);
                var_or_iri.d(o);
                graph_pattern.d(o);
                o.close();
            }
            Filter(c) => one("filter", c, o),
            Bind(e) => one("bind", e, o),
            InlineData(d) => d.d(o),
        }
    }
}
impl Dump for TriplesBlock {
    fn d(&self, o: &mut Vec<u8>) {
        list("tb", &self.0, o)
    }
}
impl Dump for TriplesSameSubjectPath {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            TriplesSameSubjectPath::Term { var_or_term, property_list } => two("s", var_or_term, property_list, o),
            TriplesSameSubjectPath::Node { triples_node, property_list } => {
                o.open("s");
                triples_node.d(o);
                opt(property_list, o);
                o.close();
            }
        }
    }
}
impl Dump for TriplesNodePath {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            TriplesNodePath::CollectionPath(v) => list("coll", v, o),
            TriplesNodePath::BlankNodePropertyListPath(p) => one("bnpl", p, o),
        }
    }
}
impl Dump for GraphNodePath {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GraphNodePath::VarOrTerm(v) => v.d(o),
            GraphNodePath::TriplesNodePath(t) => t.d(o),
        }
    }
}
impl Dump for PropertyListPath {
    fn d(&self, o: &mut Vec<u8>) {
        let PropertyListPath { verb_path_or_simple, object_list_path, entries } = self;
        o.open("pl");
        o.open("po");
        verb_path_or_simple.d(o);
        for x in &object_list_path.0 {
            x.d(o);
        }
        o.close();
        for e in entries {
            let PropertyListPathEntry { verb_path_or_simple, object_list } = e;
            o.open("po");
            verb_path_or_simple.d(o);
            for x in &object_list.0 {
                x.d(o);
            }
            o.close();
        }
        o.close();
    }
}
impl Dump for VerbPathOrSimple {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            VerbPathOrSimple::Path(p) => p.d(o),
            VerbPathOrSimple::Simple(v) => v.d(o),
        }
    }
}
impl Dump for PathAlternative {
    fn d(&self, o: &mut Vec<u8>) {
        if self.0.len() == 1 {
            self.0[0].d(o)
        } else {
            list("|", &self.0, o)
        }
    }
}
impl Dump for PathSequence {
    fn d(&self, o: &mut Vec<u8>) {
        if self.0.len() == 1 {
            self.0[0].d(o)
        } else {
            list("/", &self.0, o)
        }
    }
}
impl Dump for PathEltOrInverse {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            PathEltOrInverse::PathElt(e) => e.d(o),
            PathEltOrInverse::Inverse(e) => one("^", e, o),
        }
    }
}
impl Dump for PathElt {
    fn d(&self, o: &mut Vec<u8>) {
        let PathElt { path_primary, path_mod } = self;
        path_primary.d(o);
        match path_mod {
            None => {}
            Some(PathMod::QuestionMark) => o.tag("%?"),
            Some(PathMod::Asterisk) => o.tag("%*"),
            Some(PathMod::Plus) => o.tag("%+"),
        }
    }
}
impl Dump for PathPrimary {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            PathPrimary::Iri(i) => i.d(o),
            PathPrimary::A => o.tag("a"),
            PathPrimary::PathNegatedPropertySet(s) => list("!", &s.0, o),
            PathPrimary::Path(p) => one("P", p, o),
        }
    }
}
impl Dump for PathOneInPropertySet {
    fn d(&self, o: &mut Vec<u8>) {
        match &self.0 {
            IriOrAOrCaret::IriOrA(i) => i.d(o),
            IriOrAOrCaret::Caret(i) => one("^", i, o),
        }
    }
}
impl Dump for IriOrA {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            IriOrA::Iri(i) => i.d(o),
            IriOrA::A => o.tag("a"),
        }
    }
}
impl Dump for TriplesSameSubject {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            TriplesSameSubject::Term { var_or_term, property_list } => two("s", var_or_term, property_list, o),
            TriplesSameSubject::Node { triples_node, property_list } => {
                o.open("s");
                triples_node.d(o);
                opt(property_list, o);
                o.close();
            }
        }
    }
}
impl Dump for TriplesNode {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            TriplesNode::Collection(c) => list("coll", &c.0, o),
            TriplesNode::BlankNodePropertyList(p) => one("bnpl", p, o),
        }
    }
}
impl Dump for PropertyList {
    fn d(&self, o: &mut Vec<u8>) {
        o.open("pl");
        for VerbList { verb, object_list } in &self.0 {
            o.open("po");
            match verb {
                Verb::A => o.tag("a"),
                Verb::VarOrIri(v) => v.d(o),
            }
            for x in &object_list.0 {
                x.d(o);
            }
            o.close();
        }
        o.close();
    }
}
impl Dump for GraphNode {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GraphNode::VarOrTerm(v) => v.d(o),
            GraphNode::TriplesNode(t) => t.d(o),
        }
    }
}
impl Dump for Quads {
    fn d(&self, o: &mut Vec<u8>) {
        let Quads { first_triple, entries } = self;
        o.open("quads");
        tt(first_triple, o);
        for QuadsEntry { quads_not_triples, triples_template } in entries {
            let QuadsNotTriples { var_or_iri, triples_template: inner } = quads_not_triples;
            o.open("graph");
            var_or_iri.d(o);
            tt(inner, o);
            o.close();
            tt(triples_template, o);
        }
        o.close();
    }
}
impl Dump for GraphOrDefault {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GraphOrDefault::Default => o.tag("DEFAULT"),
            GraphOrDefault::Graph(i) => one("graph", i, o),
        }
    }
}
impl Dump for GraphRefAll {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            GraphRefAll::GraphRef(i) => one("graph", i, o),
            GraphRefAll::Default => o.tag("DEFAULT"),
            GraphRefAll::Named => o.tag("NAMED"),
            GraphRefAll::All => o.tag("ALL"),
        }
    }
}
impl Dump for Update {
    fn d(&self, o: &mut Vec<u8>) {
        let Update { prologue, update_stmt, inner_update } = self;
        o.open("update");
        prologue.d(o);
        opt(update_stmt, o);
        opt(inner_update, o);
        o.close();
    }
}
fn from_to(tag: &str, silent: bool, from: &GraphOrDefault, to: &GraphOrDefault, o: &mut Vec<u8>) {
    o.open(tag);
    o.flag(silent);
    from.d(o);
    to.d(o);
    o.close();
}
impl Dump for UpdateStatement {
    fn d(&self, o: &mut Vec<u8>) {
        match self {
            UpdateStatement::Load(LoadStatement { iri, silent, graph_ref }) => {
                o.open("LOAD");
                o.flag(*silent);
                iri.d(o);
                opt(graph_ref, o);
                o.close();
            }
            UpdateStatement::Clear(ClearStatement { silent, graph_ref_all }) => {
                o.open("CLEAR");
                o.flag(*silent);
                graph_ref_all.d(o);
                o.close();
            }
            UpdateStatement::Drop(DropStatement { silent, graph_ref_all }) => {
                o.open("DROP");
                o.flag(*silent);
                graph_ref_all.d(o);
                o.close();
            }
            UpdateStatement::Create(CreateStatement { silent, graph_ref }) => {
                o.open("CREATE");
                o.flag(*silent);
                graph_ref.d(o);
                o.close();
            }
            UpdateStatement::Add(AddStatement { silent, from, to }) => from_to("ADD", *silent, from, to, o),
            UpdateStatement::Move(MoveStatement { silent, from, to }) => from_to("MOVE", *silent, from, to, o),
            UpdateStatement::Copy(CopyStatement { silent, from, to }) => from_to("COPY", *silent, from, to, o),
            UpdateStatement::InsertData(q) => one("INSERTDATA", q, o),
            UpdateStatement::DeleteData(q) => one("DELETEDATA", q, o),
            UpdateStatement::DeleteWhere(q) => one("DELETEWHERE", q, o),
            UpdateStatement::Modify(m) => {
                let ModifyStatement { iri, delete_insert, using_clauses, where_group_graph } = &**m;
                o.open("MODIFY");
                opt(iri, o);
                match delete_insert {
                    DeleteInsert::DeleteInsert { delete, insert } => {
                        delete.d(o);
                        opt(insert, o);
                    }
                    DeleteInsert::Insert(q) => {
                        o.none();
                        q.d(o);
                    }
                }
                list("using", using_clauses, o);
                where_group_graph.d(o);
                o.close();
            }
        }
    }
}
