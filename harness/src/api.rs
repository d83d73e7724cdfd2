//! Scenarios about the values of the public interface, and about texts that
//! are not well-formed.
use crate::dump::{Dump, Out};
use crate::gen::*;
use crate::props::*;
use crate::spec::{alpha, digit};
use crate::sym::*;
use nom_sparql::aggregate::{Aggregate, Count, CountTarget, GroupConcat};
use nom_sparql::arithmetic::Sign;
use nom_sparql::clauses::LimitOffsetClause;
use nom_sparql::expression::{DistinctExpression, Expression, Iri, PrefixedName};
use nom_sparql::literal::StringLiteral;
use nom_sparql::node::{RdfLiteral, RdfLiteralDescriptor};
use nom_sparql::parser::sparql_query_stmt;
use nom_sparql::path::PathMod;
use nom_sparql::query::SparqlQueryStatement;
use nom_sparql::verif_hooks::update;
use std::str::FromStr;

// ------------------------------------------------------------- A01 helpers
/// up to n arbitrary ASCII characters
fn short(n: u8) -> Vec<u8> {
    let k = choice(n + 1);
    let mut v = Vec::with_capacity(8);
    for _ in 0..k {
        let b = byte(b'+');
        assume(b < 0x80);
        v.push(b);
    }
    v
}
/// text forms of signs
pub fn a01_sign() {
    let s = short(3);
    input(&s);
    let pos = s.is_empty() || (s.len() == 1 && s[0] == b'+');
    let neg = s.len() == 1 && s[0] == b'-';
    match Sign::from_str(as_str(&s)) {
        Ok(Sign::POS) => check(pos, 20),
        Ok(Sign::NEG) => check(neg, 20),
        Err(()) => check(!pos & !neg, 20),
    }
    // there and back again
    let v = [Sign::POS, Sign::NEG][choice(2) as usize];
    check(Sign::from_str(v.as_ref()) == Ok(v), 20);
    check_eq(v.to_string().as_bytes(), v.as_ref().as_bytes(), 20);
    check(Sign::default() == Sign::POS, 20);
}
/// text forms of path modifiers
pub fn a01_path_mod() {
    let s = short(3);
    input(&s);
    let one = |c: u8| s.len() == 1 && s[0] == c;
    match PathMod::from_str(as_str(&s)) {
        Ok(PathMod::QuestionMark) => check(one(b'?'), 20),
        Ok(PathMod::Asterisk) => check(one(b'*'), 20),
        Ok(PathMod::Plus) => check(one(b'+'), 20),
        Err(()) => check(!one(b'?') & !one(b'*') & !one(b'+'), 20),
    }
}
fn string_of(n: u8) -> String {
    let mut v = Vec::with_capacity(8);
    for _ in 0..n {
        let b = byte(b'e');
        assume((b >= b'a') & (b <= b'z'));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn arg(kind: u8, n: u8) -> StringLiteral {
    match kind {
        0 => StringLiteral::Simple(string_of(n)),
        1 => StringLiteral::Typed(string_of(n)),
        _ => {
            let s = string_of(n);
            let l = 1 + choice(3);
            let mut tag = Vec::with_capacity(8);
            for _ in 0..l {
                let b = byte(b'n');
                assume(alpha(b as u32) | digit(b as u32) | (b == b'-'));
                tag.push(b);
            }
            StringLiteral::Language((s, unsafe { String::from_utf8_unchecked(tag) }))
        }
    }
}
/// argument compatibility of SPARQL 1.1, 17.4.3.1.2
pub fn a01_compatible() {
    let (j, k) = (choice(3), choice(3));
    let (n, m) = (choice(2), choice(3));
    let (a, b) = (arg(j, n), arg(k, m));
    let expected = match (&a, &b) {
        (StringLiteral::Language((_, l)), StringLiteral::Language((_, m))) => split(l == m),
        (StringLiteral::Language(_), _) => true,
        (_, StringLiteral::Language(_)) => false,
        _ => true,
    };
    check(a.compatible_arg(&b) == expected, 21);
    check(a.compatible_arg(&a), 21);
}
fn some_expression() -> Expression {
    match sparql_query_stmt("SELECT * { } GROUP BY (?x)") {
        Ok((_, s)) => match s.query {
            nom_sparql::query::SparqlQuery::Select(q) => match q.solution_modifier.group_by {
                Some(g) => match g.0.into_iter().next() {
                    Some(nom_sparql::group::GroupCondition::ExpressionAsVarOpt(e)) => *e.expression,
                    _ => std::process::abort(),
                },
                _ => std::process::abort(),
            },
            _ => std::process::abort(),
        },
        _ => std::process::abort(),
    }
}
/// the distinct flag of every aggregate
pub fn a01_distinct() {
    let b = byte(1);
    assume(b < 2);
    let distinct = b == 1;
    let k = choice(8);
    let e = some_expression();
    let d = |e| DistinctExpression { distinct, expression: e };
    let v = match k {
        0 => Aggregate::Sum(d(e)),
        1 => Aggregate::Min(d(e)),
        2 => Aggregate::Max(d(e)),
        3 => Aggregate::Avg(d(e)),
        4 => Aggregate::Sample(d(e)),
        5 => Aggregate::Count(Count { distinct, target: CountTarget::All }),
        6 => Aggregate::Count(Count { distinct, target: CountTarget::Expr(Box::new(e)) }),
        _ => {
            let n = choice(3);
            let separator = if n == 0 { None } else { Some(string_of(n)) };
            Aggregate::GroupConcat(GroupConcat { expression: d(e), separator })
        }
    };
    check(v.is_distinct() == distinct, 22);
}
/// constructors keep what they are given
pub fn a01_constructors() {
    let n = choice(4);
    let mut s = String::with_capacity(16);
    for _ in 0..n {
        let c = sym_char(1 + choice(2));
        s.push_str(as_str(c.bytes()));
    }
    input(s.as_bytes());
    let num = |h: u8| {
        let mut v = 0u64;
        for _ in 0..8 {
            v = (v << 8) | byte(h) as u64;
        }
        v
    };
    match choice(6) {
        0 => {
            let (a, b) = (num(1), num(2));
            let o = if choice(2) == 0 { None } else { Some(b) };
            check(LimitOffsetClause::limit_offset(a, o) == LimitOffsetClause::LimitOffset { limit: a, offset: o }, 23);
            check(LimitOffsetClause::offset_limit(a, o) == LimitOffsetClause::OffsetLimit { offset: a, limit: o }, 23);
            check(LimitOffsetClause::offset_limit(a, o) != LimitOffsetClause::limit_offset(a, o), 23);
        }
        1 => match RdfLiteral::literal(&s) {
            RdfLiteral { literal, descriptor: None } => check_eq(literal.as_bytes(), s.as_bytes(), 23),
            _ => check(false, 23),
        },
        2 => match RdfLiteral::new(s.clone(), RdfLiteralDescriptor::LangTag(s.clone())) {
            RdfLiteral { literal, descriptor: Some(RdfLiteralDescriptor::LangTag(t)) } => {
                check_eq(literal.as_bytes(), s.as_bytes(), 23);
                check_eq(t.as_bytes(), s.as_bytes(), 23)
            }
            _ => check(false, 23),
        },
        3 => match RdfLiteral::new("", RdfLiteralDescriptor::IriRef(Iri::iri_ref(&s))) {
            RdfLiteral { literal, descriptor: Some(RdfLiteralDescriptor::IriRef(Iri::Iri(t))) } => {
                check(literal.is_empty(), 23);
                check_eq(t.as_bytes(), s.as_bytes(), 23)
            }
            _ => check(false, 23),
        },
        4 => match Iri::iri_ref(s.as_str()) {
            Iri::Iri(t) => check_eq(t.as_bytes(), s.as_bytes(), 23),
            _ => check(false, 23),
        },
        _ => {
            let l = string_of(2);
            let p = if choice(2) == 0 { None } else { Some(s.clone()) };
            let x = PrefixedName::PnameLN { pn_prefix: p.clone(), pn_local: l.clone() };
            match Iri::prefixed_name(x) {
                Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
                    check(pn_prefix == p, 23);
                    check_eq(pn_local.as_bytes(), l.as_bytes(), 23)
                }
                _ => check(false, 23),
            }
        }
    }
}
/// what is built by hand equals what is parsed
pub fn a01_parsed() {
    let mut g = G::new();
    g.in_modifier(3, |g| {
        g.script = &[2];
        g.limit_offset()
    });
    let _ = g;
    let (a, b) = (byte(b'1'), byte(b'2'));
    assume((a >= b'0') & (a <= b'9') & (b >= b'0') & (b <= b'9'));
    let (x, y) = ((a - b'0') as u64, (b - b'0') as u64);
    let swap = choice(2) == 1;
    let both = choice(2) == 1;
    let mut t = b"ASK { } ".to_vec();
    let words = if swap { ["OFFSET ", " LIMIT "] } else { ["LIMIT ", " OFFSET "] };
    t.extend_from_slice(words[0].as_bytes());
    t.push(a);
    if both {
        t.extend_from_slice(words[1].as_bytes());
        t.push(b);
    }
    input(&t);
    let o = if both { Some(y) } else { None };
    let e = if swap { LimitOffsetClause::offset_limit(x, o) } else { LimitOffsetClause::limit_offset(x, o) };
    match sparql_query_stmt(as_str(&t)) {
        Ok((_, s)) => match s.query {
            nom_sparql::query::SparqlQuery::Ask(q) => check(q.solution_modifier.limit_offset == Some(e), 23),
            _ => check(false, 3),
        },
        _ => check(false, 1),
    }
}
fn dumped(v: &SparqlQueryStatement) -> Vec<u8> {
    let mut o = Vec::with_capacity(512);
    v.d(&mut o);
    o
}
fn parsed(g: &G) -> SparqlQueryStatement {
    match sparql_query_stmt(as_str(&g.t)) {
        Ok((_, v)) => v,
        Err(e) => {
            std::mem::forget(e);
            check(false, 1);
            std::process::abort()
        }
    }
}
/// two statements are equal if and only if they mean the same tree
fn equal(a: G, b: G) {
    input(&a.t);
    input(&b.t);
    let (x, y) = (parsed(&a), parsed(&b));
    let same = a.e.len() == b.e.len() && split(a.e == b.e);
    check((x == y) == same, 24);
    check((y != x) != same, 24);
    for v in [x, y, ] {
        std::mem::forget(v);
    }
    std::mem::forget((a, b));
}
pub fn a01_equality() {
    let mk = || {
        let mut g = G::new().dev(1);
        let k = choice(4);
        g.statement(k);
        g
    };
    let a = mk();
    let b = mk();
    equal(a, b)
}
pub fn a01_equality_expr() {
    let mk = || {
        let mut g = G::new().dev(1);
        g.in_expr(0, |g| g.expr());
        g
    };
    let a = mk();
    let b = mk();
    equal(a, b)
}
/// a term, numbers in every notation
fn term(g: &mut G) {
    const N: [(&str, char, u64, Option<i64>); 10] = [
        ("", 'i', 0, None),
        ("-", 'i', 1, None),
        (".5", 'f', 0, None),
        (".50", 'f', 0, None),
        (".5e0", 'f', 0, Some(0)),
        (".5E1", 'f', 0, Some(1)),
        (".5e-1", 'f', 0, Some(-1)),
        ("e0", 'x', 0, Some(0)),
        ("e1", 'x', 0, Some(1)),
        ("e00", 'x', 0, Some(0)),
    ];
    let k = choice(20);
    if k < 10 {
        let (s, t, neg, x) = N[k as usize];
        let d = 1 + choice(3);
        g.t.push(b' ');
        if neg == 1 {
            g.t.push(b'-');
        }
        g.t.push(b'0' + d);
        if neg == 0 {
            g.t.extend_from_slice(s.as_bytes());
        }
        if t == 'i' {
            g.e.tag("i");
            g.e.u64(if neg == 1 { (d as u64).wrapping_neg() } else { d as u64 });
        } else {
            g.e.tag("f");
            g.e.u64((d as f64 + if t == 'f' { 0.5 } else { 0.0 }).to_bits());
            match x {
                None => g.e.none(),
                Some(x) => {
                    g.e.tag("e");
                    g.e.u64(x as u64);
                }
            }
        }
        return;
    }
    if k == 10 {
        g.var()
    } else if k == 11 {
        g.dev = 1;
        g.iri();
        g.dev = 0;
    } else {
        g.graph_term([1, 2, 3, 4, 6, 7, 8, 9][k as usize - 12])
    }
}
pub fn a01_equality_terms() {
    let c = choice(2);
    let mk = || {
        let mut g = G::new();
        if c == 0 {
            g.in_group(|g| {
                g.e.open("tb");
                g.e.open("s");
                g.var();
                g.e.open("pl");
                g.e.open("po");
                g.var();
                term(g);
                g.e.close();
                g.e.close();
                g.e.close();
                g.e.close();
            });
        } else {
            g.in_pattern(|g| {
                g.kw("VALUES");
                g.e.open("values1");
                g.var();
                g.p("{");
                let k = choice(5);
                if k < 4 {
                    g.graph_term([0, 1, 4, 6][k as usize]);
                } else {
                    g.kw("UNDEF");
                    g.e.tag("UNDEF");
                }
                g.p("}");
                g.e.close();
            });
        }
        g
    };
    let a = mk();
    let b = mk();
    equal(a, b)
}
pub fn a01_equality_patterns() {
    let mk = || {
        let mut g = G::new().dev(1);
        g.plain = true;
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        });
        g
    };
    let a = mk();
    let b = mk();
    equal(a, b)
}
/// a text and the same with a token or a character changed: equal if and only
/// if the trees are
const SOME: &[&str] = &["", "?v", "<i>", "'s'", "1", ";", ",", "*", "+", "||", "DISTINCT", "NOT", "LIMIT 1"];
fn similar(k: u8, tok: bool, how: u8) {
    let mut g = G::new().dev(1);
    g.toks = tok;
    g.symleaf = false;
    match k {
        0 => {
            let k = choice(4);
            g.statement(k)
        }
        1 => g.in_expr(0, |g| g.expr()),
        2 => {
            g.plain = true;
            g.in_pattern(|g| {
                let k = choice(8);
                g.graph_pattern(k)
            })
        }
        3 => g.in_group(|g| g.triples_block()),
        4 => path_stmt(&mut g, |g| g.path(0)),
        5 => {
            let k = choice(4);
            g.in_modifier(k, |g| match k {
                0 => g.group_by(),
                1 => g.having(),
                2 => g.order_by(),
                _ => g.limit_offset(),
            })
        }
        6 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        }),
        _ => {
            g.plain = true;
            g.in_expr(2, |g| g.aggregate())
        }
    }
    let t = if tok { tok_mutant(&mut g, SOME) } else { chr_mutate(&mut g, how) };
    input(&g.t);
    input(&t);
    let v = parsed(&g);
    match sparql_query_stmt(as_str(&t)) {
        Ok((_, w)) => {
            let (a, b) = (dumped(&v), dumped(&w));
            let same = a.len() == b.len() && split(a == b);
            check((v == w) == same, 24);
            check((w != v) != same, 24);
            std::mem::forget((w, a, b));
        }
        Err(e) => std::mem::forget(e),
    }
    std::mem::forget((v, g, t));
}
pub fn a01_similar_tokens() {
    similar(choice(8), true, 0)
}
pub fn a01_similar_chars_t() {
    similar(choice(8), false, 1 + choice(2))
}
pub fn a01_similar_chars() {
    similar(choice(8), false, 0)
}
fn similar_update(tok: bool) {
    let how = choice(3);
    let k = choice(11);
    let mut g = G::new().dev(1);
    g.toks = tok;
    g.symleaf = false;
    u_single(&mut g, k);
    let t = if tok { tok_mutant(&mut g, SOME) } else { chr_mutate(&mut g, how) };
    input(&g.t);
    input(&t);
    match (update(as_str(&g.t)), update(as_str(&t))) {
        (Ok((_, v)), Ok((_, w))) => {
            let (mut a, mut b) = (Vec::with_capacity(512), Vec::with_capacity(512));
            v.d(&mut a);
            w.d(&mut b);
            let same = a.len() == b.len() && split(a == b);
            check((v == w) == same, 24);
            check((w != v) != same, 24);
            std::mem::forget((v, w, a, b));
        }
        (Ok(_), Err(_)) => {}
        _ => check(false, 1),
    }
    std::mem::forget((g, t));
}
pub fn a01_similar_update() {
    similar_update(choice(2) == 0)
}
/// a copy is equal to the original and does not depend on it
pub fn a01_clone() {
    let mut g = G::new().dev(2);
    match choice(3) {
        0 => {
            let k = choice(4);
            g.statement(k);
        }
        1 => g.in_expr(0, |g| g.expr()),
        _ => g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        }),
    }
    input(&g.t);
    let v = parsed(&g);
    let w = v.clone();
    check(v == w, 24);
    drop(v);
    check_eq(&dumped(&w), &g.e, 24);
    drop(w);
}
/// every public operation on a query returns
pub fn a01_display() {
    let mut g = G::new();
    let k = choice(4);
    g.statement(k);
    input(&g.t);
    let v = parsed(&g);
    let s = v.query.to_string();
    check(!s.is_empty(), 20);
}

// --------------------------------------------- M01 unbalanced delimiters
fn base(k: u8, d: u8) -> (G, bool) {
    let mut g = G::new().dev(d);
    g.marking = true;
    match k {
        0 => {
            let k = choice(4);
            g.statement(k);
        }
        1 => g.in_expr(0, |g| match choice(4) {
            0 => {
                if g.dev == 1 {
                    g.dev = 0
                }
                let k = choice(FUNS.len() as u8);
                g.fun(k)
            }
            1 => g.aggregate(),
            2 => g.fn_call(),
            _ => g.expr(),
        }),
        2 => g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        }),
        3 => g.in_group(|g| g.triples_block()),
        4 => path_stmt(&mut g, |g| g.path(0)),
        5 => {
            let k = choice(4);
            g.in_modifier(k, |g| match k {
                0 => g.group_by(),
                1 => g.having(),
                2 => g.order_by(),
                _ => g.limit_offset(),
            })
        }
        6 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        }),
        _ => {
            let k = 7 + choice(4);
            g.e.open("update");
            g.update_stmt(k);
            g.e.close();
        }
    }
    (g, k == 7)
}
fn refuse(t: &[u8], u: bool) {
    input(t);
    if u {
        reject(update(as_str(t)), 11)
    } else {
        reject(sparql_query_stmt(as_str(t)), 11)
    }
}
fn is_open(c: u8) -> bool {
    c == b'{' || c == b'(' || c == b'['
}
/// a text that ends inside of brackets
pub fn cut(d: u8) {
    let k = choice(8);
    let (g, u) = base(k, d);
    if g.marks.is_empty() {
        return;
    }
    let last = g.marks[g.marks.len() - 1] as usize;
    let first = g.marks[0] as usize + 1;
    if first > last {
        return;
    }
    let at = first + below(last - first + 1);
    let mut depth = 0;
    for m in &g.marks {
        if (*m as usize) < at {
            if is_open(g.t[*m as usize]) {
                depth += 1
            } else {
                depth -= 1
            }
        }
    }
    assume(depth > 0);
    refuse(&g.t[..at], u);
    std::mem::forget(g);
}
pub fn m01_cut() {
    cut(1)
}
pub fn m01_cut_t() {
    cut(2)
}
/// one bracket is left out or replaced
pub fn change(d: u8) {
    let k = choice(8);
    let (mut g, u) = base(k, d);
    if g.marks.is_empty() {
        return;
    }
    let m = g.marks[choice(g.marks.len() as u8) as usize] as usize;
    let was = g.t[m];
    let b = byte(b' ');
    assume(
        (b != was)
            & ((b == b' ') | (b == b'{') | (b == b'}') | (b == b'(') | (b == b')') | (b == b'[') | (b == b']')),
    );
    g.t[m] = b;
    refuse(&g.t, u);
    std::mem::forget(g);
}
pub fn m01_change() {
    change(1)
}
pub fn m01_change_t() {
    change(2)
}
/// one bracket too many
pub fn extra(d: u8) {
    let k = choice(8);
    let (g, u) = base(k, d);
    let b = byte(b'}');
    assume((b == b'{') | (b == b'}') | (b == b'(') | (b == b')') | (b == b'[') | (b == b']'));
    let n = g.t.iter().filter(|c| **c == b' ').count();
    let at = choice(n as u8 + 2) as usize;
    let mut t = Vec::with_capacity(g.t.len() + 2);
    if at == n {
        t.push(b);
    }
    let mut i = 0;
    for c in &g.t {
        if *c == b' ' {
            if i == at {
                t.push(b' ');
                t.push(b);
            }
            i += 1;
        }
        t.push(*c);
    }
    if at == n + 1 {
        t.push(b);
    }
    refuse(&t, u);
    std::mem::forget(g);
}
pub fn m01_extra() {
    extra(1)
}
pub fn m01_extra_t() {
    extra(2)
}
