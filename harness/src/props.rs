//! The scenarios: each is a program over symbolic bytes whose assertions are
//! one property of the parser within the stated bounds.
use crate::dump::{Dump, Out};
use crate::gen::*;
use crate::api::*;
use crate::lex::*;
use crate::places::*;
use crate::sizes::*;
use crate::wild::*;
use crate::reference;
use crate::spec::*;
use crate::sym::*;
use crate::Scenario;
use nom::IResult;
use nom_sparql::parser::{sparql_query, sparql_query_stmt};
use nom_sparql::query::ask::ask_query;
use nom_sparql::query::construct::construct_query;
use nom_sparql::query::describe::describe_query;
use nom_sparql::verif_hooks::update;

#[inline(always)]
pub fn as_str(t: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(t) }
}

/// The text is accepted to its end and gives the expected tree.
pub fn accept<T: Dump>(r: IResult<&str, T>, e: &[u8]) {
    match r {
        Ok((rest, v)) => {
            check(rest.is_empty(), CONSUME);
            let mut o = Vec::with_capacity(512);
            v.d(&mut o);
            std::mem::forget(v);
            check_eq(&o, e, TREE);
            std::mem::forget(o);
        }
        Err(e) => {
            std::mem::forget(e);
            check(false, ACCEPT)
        }
    }
}
/// The text is not accepted up to its end.
pub fn reject<T: Dump>(r: IResult<&str, T>, label: u32) {
    let ok = match &r {
        Ok((rest, _)) => rest.is_empty(),
        Err(_) => false,
    };
    std::mem::forget(r);
    check(!ok, label)
}
pub fn stmt(g: G) {
    input(&g.t);
    accept(sparql_query_stmt(as_str(&g.t)), &g.e);
    std::mem::forget(g);
}
pub fn upd(g: G) {
    input(&g.t);
    accept(update(as_str(&g.t)), &g.e);
    std::mem::forget(g);
}
/// Three ways to write the same tokens.
pub fn styles(mut g: G) -> G {
    let s = choice(3) as usize;
    if s > 0 {
        g.dev = g.dev.saturating_sub(1).min(1)
    }
    let (gap, case) = [
        (Gap::One, Case::Upper),
        (Gap::Tight, Case::Lower),
        (Gap::Loose, Case::Mixed),
    ][s];
    g.gap = gap;
    g.case = case;
    g
}
pub fn g(d: u8) -> G {
    styles(G::new().dev(d))
}

/// a length below n, 17, 64 or 250, which stands for 300
fn len(n: u8) -> u8 {
    let k = choice(n + 3);
    if k < n {
        k
    } else {
        [17, 64, 250][(k - n) as usize]
    }
}
/// a depth below n, or 20
fn depth(n: u8) -> u8 {
    let k = choice(n + 1);
    if k < n {
        k
    } else {
        20
    }
}
/// for lists of n: the leaves of long ones are concrete
fn gl(d: u8, n: u8) -> G {
    if n < 16 {
        return g(d);
    }
    let mut g = styles(G::new());
    g.symleaf = false;
    g
}

// ------------------------------------------------------------ Q: queries
fn q_stmt(d: u8, st: bool) {
    let mut g = G::new().dev(d);
    if st {
        g = styles(g)
    }
    let k = choice(4);
    g.statement(k);
    stmt(g)
}
fn q01_d2() {
    q_stmt(2, true)
}
fn q01_d3() {
    q_stmt(3, false)
}
fn q01_prologue() {
    let n = len(6);
    let mut g = gl(1, n).repeat(R_PRO, n);
    g.e.open("Q");
    g.prologue();
    g.dev = 0;
    let k = choice(4);
    g.query(k);
    g.tail();
    stmt(g)
}
fn q01_datasets() {
    let n = len(6);
    let k = choice(4);
    let mut g = gl(1, n).repeat(R_DS, n);
    g.head();
    if k == 3 {
        g.e.open("describe");
        g.kw("DESCRIBE");
        g.e.open("vars");
        let d = g.dev;
        g.dev = 0;
        g.var_or_iri();
        g.dev = d;
        g.e.close();
        g.datasets();
        g.dev = 0;
        g.script = &[1];
        if g.pick(2) == 1 {
            g.e.none()
        }
        g.e.open("mod");
        for _ in 0..4 {
            g.e.none()
        }
        g.e.close();
        g.e.close();
    } else {
        g.query(k);
    }
    g.tail();
    stmt(g)
}
/// the public parsers of the single query forms
fn q01_forms() {
    let mut g = g(1);
    let k = choice(4);
    let whole = choice(2) == 0;
    g.query(k);
    // these parsers begin at the keyword
    let mut from = 0;
    while !g.t[from].is_ascii_alphabetic() {
        from += 1;
    }
    let text = &g.t[from..];
    input(text);
    let s = as_str(text);
    if whole || k == 0 {
        accept(sparql_query(s), &g.e)
    } else if k == 1 {
        accept(ask_query(s), &g.e)
    } else if k == 2 {
        accept(construct_query(s), &g.e)
    } else {
        accept(describe_query(s), &g.e)
    }
    std::mem::forget(g);
}
fn q02(d: u8) {
    let mut g = g(d);
    g.head();
    g.e.open("select");
    g.select_clause();
    g.dev = 0;
    g.no_datasets();
    g.where_clause();
    g.no_mods();
    g.e.close();
    g.tail();
    stmt(g)
}
fn q02_clause() {
    q02(3)
}
fn q02_clause_t() {
    q02(4)
}
fn q02_vars() {
    let n = len(7);
    let mut g = gl(1, n).repeat(R_SELVARS, n);
    g.head();
    g.e.open("select");
    g.script = [&[0, 1][..], &[1, 1], &[2, 2]][choice(3) as usize];
    g.select_clause();
    g.dev = 0;
    g.no_datasets();
    g.where_clause();
    g.no_mods();
    g.e.close();
    g.tail();
    stmt(g)
}
fn q02_describe() {
    let n = len(6);
    let mut g = gl(1, n).repeat(R_DESCRIBE, n);
    g.head();
    g.describe();
    g.tail();
    stmt(g)
}
fn q03(d: u8, k: u8) {
    let mut g = g(d);
    g.head();
    let f = choice(4);
    match f {
        0 => {
            g.e.open("select");
            g.kw("SELECT");
            g.e.none();
            g.p("*");
            g.e.tag("*");
            g.no_datasets();
            g.empty_group();
        }
        1 => {
            g.e.open("ask");
            g.kw("ASK");
            g.no_datasets();
            g.empty_group();
        }
        2 => {
            g.e.open("construct");
            g.kw("CONSTRUCT");
            g.p("{");
            g.e.open("tt");
            g.e.close();
            g.p("}");
            g.no_datasets();
            g.empty_group();
        }
        _ => {
            g.e.open("describe");
            g.kw("DESCRIBE");
            g.p("*");
            g.e.tag("*");
            g.no_datasets();
            g.e.none();
        }
    }
    let _ = k;
    g.modifiers();
    g.e.close();
    g.tail();
    stmt(g)
}
fn q03_all() {
    q03(3, 0)
}
fn q03_all_t() {
    q03(4, 0)
}
fn q03_lists() {
    let k = choice(3);
    let n = len(6);
    let mut g = gl(1, n).repeat([R_GROUP, R_HAVING, R_ORDER][k as usize], n);
    g.in_modifier(k, |g| match k {
        0 => g.group_by(),
        1 => g.having(),
        _ => g.order_by(),
    });
    stmt(g)
}
fn q03_limits() {
    // every order of LIMIT and OFFSET with up to four symbolic digits
    let mut g = g(0);
    g.in_modifier(3, |g| {
        let k = choice(4);
        let (a, b) = if k < 2 { (("LIMIT", "L"), ("OFFSET", "O")) } else { (("OFFSET", "O"), ("LIMIT", "L")) };
        for (n, w) in [a, b].iter().enumerate() {
            if n == 1 && k % 2 == 0 {
                g.e.none();
                break;
            }
            g.kw(w.0);
            g.e.tag(w.1);
            let len = 1 + choice(4);
            g.int_digits(len);
        }
    });
    stmt(g)
}
fn q04(d: u8) {
    let mut g = g(d);
    if choice(2) == 0 {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock();
        });
    } else {
        g.head();
        g.e.open("ask");
        g.kw("ASK");
        g.no_datasets();
        g.empty_group();
        g.no_mods();
        g.e.close();
        g.kw("VALUES");
        g.datablock();
        g.e.close();
        g.end_gap();
    }
    stmt(g)
}
fn q04_block() {
    q04(3)
}
fn q04_block_t() {
    q04(4)
}
fn q04_lists() {
    let kind = choice(3);
    let n = len(7);
    let mut g = gl(1, n).repeat([R_VALS, R_ROWS, R_COLS][kind as usize], n);
    g.in_pattern(|g| {
        g.kw("VALUES");
        g.script = if kind == 0 { &[0] } else { &[1] };
        g.datablock();
    });
    stmt(g)
}

// ------------------------------------------------------------ G: patterns
fn g01(d: u8) {
    let mut g = g(d);
    g.in_group(|g| g.ggp_sub());
    stmt(g)
}
fn g01_group() {
    g01(3)
}
fn g01_group_t() {
    g01(4)
}
fn g01_each() {
    let mut g = g(2);
    g.in_pattern(|g| {
        let k = choice(8);
        g.graph_pattern(k)
    });
    stmt(g)
}
fn g01_lists() {
    let n = len(5);
    let u = choice(2) == 0;
    let mut g = gl((n < 3) as u8, n).repeat(if u { R_UNION } else { R_GP }, n + u as u8);
    if u {
        g.in_pattern(|g| g.graph_pattern(2));
    } else {
        g.in_group(|g| g.ggp_sub());
    }
    stmt(g)
}
fn nest(g: &mut G, n: u8, kind: u8) {
    if n == 0 {
        g.e.none();
        if choice(2) == 1 {
            g.e.open("gp");
            g.graph_pattern(0);
            g.e.none();
            g.e.close();
        }
        return;
    }
    g.e.none();
    g.e.open("gp");
    let (tag, kw) = [("union", ""), ("optional", "OPTIONAL"), ("minus", "MINUS"), ("graph", "GRAPH"), ("service", "SERVICE"), ("union", "UNION")]
        [kind as usize];
    g.e.open(tag);
    if kind == 5 {
        g.empty_group();
    }
    if kind != 0 {
        g.kw(kw);
    }
    if kind == 4 {
        g.e.flag(false);
    }
    if kind == 3 || kind == 4 {
        g.var_or_iri();
    }
    g.e.open("{");
    g.p("{");
    nest(g, n - 1, kind);
    g.p("}");
    g.e.close();
    g.e.close();
    g.e.none();
    g.e.close();
}
fn g01_nesting() {
    let n = depth(7);
    let kind = choice(6);
    let mut g = g(0);
    g.in_group(|g| nest(g, n, kind));
    stmt(g)
}
fn g02(d: u8) {
    let mut g = g(d);
    g.in_group(|g| g.triples_block());
    stmt(g)
}
fn g02_block() {
    g02(3)
}
fn g02_block_t() {
    g02(4)
}
fn g02_lists() {
    let kind = choice(3);
    let n = len(6);
    let mut g = gl(1, n).repeat([R_TRIPLES, R_PO, R_OBJ][kind as usize], n);
    if choice(2) == 0 {
        g.in_group(|g| g.triples_block());
    } else {
        g.head();
        g.e.open("construct");
        g.kw("CONSTRUCT");
        g.p("{");
        g.template1();
        g.p("}");
        g.no_datasets();
        g.empty_group();
        g.no_mods();
        g.e.close();
        g.tail();
    }
    stmt(g)
}
fn g02_terms() {
    // every kind of term as subject and as object
    let mut g = g(2);
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        let s = choice(11);
        if s == 0 {
            g.var()
        } else {
            g.graph_term(s - 1)
        }
        g.e.open("pl");
        g.e.open("po");
        g.var();
        let o = choice(11);
        if o == 0 {
            g.var()
        } else {
            g.graph_term(o - 1)
        }
        g.e.close();
        g.e.close();
        g.e.close();
        g.e.close();
    });
    stmt(g)
}
fn g03(d: u8) {
    let mut g = g(d);
    let paths = choice(2) == 0;
    let k = choice(3);
    let f = |g: &mut G| {
        g.e.open(if paths { "tb" } else { "tt" });
        g.e.open("s");
        if k == 2 {
            g.var();
            g.e.open("pl");
            g.e.open("po");
            g.var();
            if choice(2) == 0 {
                g.collection(paths)
            } else {
                g.bnpl(paths)
            }
            g.e.close();
            g.e.close();
        } else {
            if k == 0 {
                g.collection(paths)
            } else {
                g.bnpl(paths)
            }
            g.e.none();
        }
        g.e.close();
        g.e.close();
    };
    if paths {
        g.in_group(f)
    } else {
        g.head();
        g.e.open("construct");
        g.kw("CONSTRUCT");
        g.p("{");
        f(&mut g);
        g.p("}");
        g.no_datasets();
        g.empty_group();
        g.no_mods();
        g.e.close();
        g.tail();
    }
    stmt(g)
}
fn g03_nodes() {
    g03(2)
}
fn g03_nodes_t() {
    g03(3)
}
fn g03_lists() {
    let n = len(6);
    let mut g = gl(1, n).repeat(R_COLL, n);
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        g.collection(true);
        g.e.none();
        g.e.close();
        g.e.close();
    });
    stmt(g)
}
fn nest_node(g: &mut G, n: u8) {
    if n == 0 {
        let k = choice(3);
        return match k {
            0 => g.var(),
            1 => g.graph_term(8),
            _ => g.graph_term(9),
        };
    }
    if g.coin() == 0 {
        g.e.open("coll");
        g.p("(");
        nest_node(g, n - 1);
        g.p(")");
        g.e.close();
    } else {
        g.e.open("bnpl");
        g.p("[");
        g.e.open("pl");
        g.e.open("po");
        g.var();
        nest_node(g, n - 1);
        g.e.close();
        g.e.close();
        g.p("]");
        g.e.close();
    }
}
fn g03_nesting() {
    let n = 1 + depth(5);
    let mut g = gl(0, n);
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        nest_node(g, n);
        g.e.none();
        g.e.close();
        g.e.close();
    });
    stmt(g)
}
pub fn path_stmt(g: &mut G, f: impl FnOnce(&mut G)) {
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        g.var();
        g.e.open("pl");
        g.e.open("po");
        f(g);
        g.graph_node(true);
        g.e.close();
        g.e.close();
        g.e.close();
        g.e.close();
    });
}
fn g04(d: u8) {
    let mut g = g(d);
    path_stmt(&mut g, |g| g.path(0));
    stmt(g)
}
fn g04_path() {
    g04(3)
}
fn g04_path_t() {
    g04(5)
}
fn g04_lists() {
    let k = choice(3);
    let n = len(6);
    let mut g = gl(1, n).repeat(if k == 2 { R_NEG } else { R_PATH }, n);
    path_stmt(&mut g, |g| match k {
        0 => g.path_list("|", 1),
        1 => g.path_list("/", 2),
        _ => g.path_primary(4),
    });
    stmt(g)
}
/// flat sequences of path operators: `|` binds weaker than `/` binds weaker
/// than `^` binds weaker than `? * +`
fn g04_operators() {
    let n = 1 + choice(4);
    let mut g = g(0);
    path_stmt(&mut g, |g| {
        // the elements: a prefix and a modifier each
        let mut ops = [0u8; 4];
        let mut el: Vec<Vec<u8>> = Vec::new();
        for i in 0..n {
            if i > 0 {
                ops[i as usize] = choice(2);
                g.p(["|", "/"][ops[i as usize] as usize]);
            }
            let keep = std::mem::take(&mut g.e);
            let inv = n <= 3 && choice(2) == 1;
            if inv {
                g.e.open("^");
                g.p("^");
            }
            let neg = n <= 2 && choice(2) == 1;
            if neg {
                g.path_primary(3);
            } else {
                g.iri();
            }
            let m = choice(4);
            if m > 0 {
                g.path_mod_n(m);
            }
            if inv {
                g.e.close();
            }
            el.push(std::mem::replace(&mut g.e, keep));
        }
        // alternatives of sequences
        let mut alts: Vec<Vec<Vec<u8>>> = Vec::new();
        for (i, e) in el.into_iter().enumerate() {
            if i > 0 && ops[i] == 1 {
                alts.last_mut().unwrap().push(e);
            } else {
                alts.push(vec![e]);
            }
        }
        let many = alts.len() > 1;
        if many {
            g.e.open("|");
        }
        for s in alts {
            let seq = s.len() > 1;
            if seq {
                g.e.open("/");
            }
            for x in s {
                g.e.extend_from_slice(&x);
            }
            if seq {
                g.e.close();
            }
        }
        if many {
            g.e.close();
        }
    });
    stmt(g)
}
fn g05(d: u8) {
    let mut g = g(d);
    g.head();
    g.construct();
    g.tail();
    stmt(g)
}
fn g05_construct() {
    g05(3)
}
fn g05_construct_t() {
    g05(4)
}
fn g05_template() {
    let mut g = g(2);
    g.head();
    let w = choice(2) == 1;
    g.e.open(if w { "constructwhere" } else { "construct" });
    g.kw("CONSTRUCT");
    if w {
        g.no_datasets();
        g.kw("WHERE");
    }
    g.p("{");
    g.template1();
    g.p("}");
    if !w {
        g.no_datasets();
        g.empty_group();
    }
    g.no_mods();
    g.e.close();
    g.tail();
    stmt(g)
}
fn g05_subselect() {
    let mut g = g(2);
    g.in_group(|g| {
        // the group is a subselect
        let n = g.e.len() - 0;
        let _ = n;
        g.sub_select()
    });
    stmt(g)
}

// --------------------------------------------------------- E: expressions
fn e01(d: u8) {
    let c = choice(6);
    let mut g = g(d);
    g.in_expr(c, |g| g.expr());
    stmt(g)
}
fn e01_expr() {
    e01(2)
}
fn e01_expr_t() {
    e01(3)
}
const OPS: [&str; 12] = ["||", "&&", "=", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/"];
fn prec(op: u8) -> u8 {
    match op {
        0 => 0,
        1 => 1,
        2..=7 => 2,
        8 | 9 => 3,
        _ => 4,
    }
}
/// Writes the tree of v0 op1 v1 … by precedence; false if there is none.
fn climb(o: &mut Vec<u8>, el: &[Vec<u8>], ops: &[u8]) -> bool {
    // ops[i] is in front of el[i], ops[0] is not used
    let Some(p) = ops[1..].iter().map(|x| prec(*x)).min() else {
        o.extend_from_slice(&el[0]);
        return true;
    };
    let at: Vec<usize> = (1..ops.len()).filter(|i| prec(ops[*i]) == p).collect();
    match p {
        0 | 1 => o.open(OPS[p as usize]),
        2 => {
            if at.len() > 1 {
                return false;
            }
            o.open(OPS[ops[at[0]] as usize])
        }
        3 => o.open("sum"),
        _ => o.open("prod"),
    }
    let mut from = 0;
    let mut ok = true;
    for k in 0..=at.len() {
        let to = if k < at.len() { at[k] } else { el.len() };
        ok &= climb(o, &el[from..to], &ops[from..to]);
        if k < at.len() && p >= 3 {
            o.tag(OPS[ops[to] as usize]);
        }
        from = to;
    }
    o.close();
    ok
}
fn operators(n: u8, unary: bool) {
    let mut g = g(0);
    let mut good = true;
    g.in_expr(0, |g| {
        let mut ops = vec![0u8];
        let mut el = Vec::new();
        for i in 0..=n {
            if i > 0 {
                let op = choice(12);
                ops.push(op);
                g.p(OPS[op as usize]);
            }
            let keep = std::mem::take(&mut g.e);
            let u = if unary { choice(4) } else { 0 };
            if u > 0 {
                let op = ["!", "+", "-"][u as usize - 1];
                g.p(op);
                g.e.open(op);
            }
            g.var();
            if u > 0 {
                g.e.close();
            }
            el.push(std::mem::replace(&mut g.e, keep));
        }
        good = climb(&mut g.e, &el, &ops);
    });
    if good {
        stmt(g)
    } else {
        input(&g.t);
        reject(sparql_query_stmt(as_str(&g.t)), 11);
        std::mem::forget(g);
    }
}
fn e01_operators() {
    let n = 1 + choice(3);
    operators(n, false)
}
fn e01_operators_t() {
    operators(4, false)
}
fn e01_unary() {
    operators(2, true)
}
fn e01_chains() {
    let n = len(6);
    let k = choice(4);
    let mut g = gl(1, n).repeat(if k < 2 { R_ASSOC } else { R_CHAIN }, n);
    g.in_expr(0, |g| match k {
        0 => g.assoc("||", 1),
        1 => g.assoc("&&", 2),
        2 => g.chain("sum", ["+", "-"], 4),
        _ => g.chain("prod", ["*", "/"], 5),
    });
    stmt(g)
}
fn nest_expr(g: &mut G, n: u8) {
    if n == 0 {
        return g.var();
    }
    let k = if g.symleaf { choice(3) } else { g.next_leaf() % 3 };
    match k {
        0 => {
            g.e.open("B");
            g.p("(");
            nest_expr(g, n - 1);
            g.p(")");
            g.e.close();
        }
        1 => {
            g.e.open("!");
            g.p("!");
            g.e.open("B");
            g.p("(");
            nest_expr(g, n - 1);
            g.p(")");
            g.e.close();
            g.e.close();
        }
        _ => {
            g.e.open("STR");
            g.kw("STR");
            g.p("(");
            nest_expr(g, n - 1);
            g.p(")");
            g.e.close();
        }
    }
}
fn e01_nesting() {
    let n = depth(6);
    let mut g = gl(0, n);
    g.in_expr(0, |g| nest_expr(g, n));
    stmt(g)
}
fn e02_functions() {
    let c = choice(6);
    let k = choice(FUNS.len() as u8);
    let mut g = g(1);
    g.in_expr(c, |g| g.fun(k));
    stmt(g)
}
fn e02_nested() {
    let k = choice(FUNS.len() as u8);
    let mut g = G::new().dev(2);
    g.in_expr(0, |g| g.fun(k));
    stmt(g)
}
fn e02_lists() {
    let k = choice(2);
    let n = len(7);
    let mut g = gl(1, n).repeat(R_CONCAT, n);
    g.in_expr(0, |g| g.fun([13, 41][k as usize]));
    stmt(g)
}
/// the number of arguments is checked
fn e02_arity() {
    let k = choice(FUNS.len() as u8);
    let n = choice(6);
    let f = &FUNS[k as usize];
    let ok = match f.kind {
        NONE => n == 0,
        E1 | VAR => n == 1,
        E2 => n == 2,
        E3 => n == 3,
        E01 => n <= 1,
        E23 => n == 2 || n == 3,
        E34 => n == 3 || n == 4,
        _ => true,
    };
    assume(!ok);
    let mut g = g(0);
    g.in_expr(0, |g| {
        g.kw(f.name);
        g.p("(");
        for i in 0..n {
            if i > 0 {
                g.p(",");
            }
            g.var();
        }
        g.p(")");
    });
    input(&g.t);
    reject(sparql_query_stmt(as_str(&g.t)), 11);
    std::mem::forget(g);
}
fn e03(d: u8) {
    let c = [2, 3, 4, 0][choice(4) as usize];
    let mut g = g(d);
    g.in_expr(c, |g| g.aggregate());
    stmt(g)
}
fn e03_aggregates() {
    e03(2)
}
fn e03_aggregates_t() {
    e03(4)
}
fn e04(d: u8) {
    let c = choice(6);
    let mut g = g(d);
    g.in_expr(c, |g| match choice(3) {
        0 => g.fn_call(),
        1 => {
            g.e.open("in");
            g.var();
            g.kw("IN");
            g.expr_list("nillist", "list");
            g.e.close();
        }
        _ => {
            g.e.open("notin");
            g.var();
            g.kw("NOT IN");
            g.expr_list("nillist", "list");
            g.e.close();
        }
    });
    stmt(g)
}
fn e04_calls() {
    e04(2)
}
fn e04_calls_t() {
    e04(3)
}
fn e04_lists() {
    let n = len(6);
    let k = choice(2);
    let mut g = gl(1, n).repeat([R_ARGS, R_IN][k as usize], n);
    g.in_expr(0, |g| {
        if k == 0 {
            g.e.open("fn");
            g.iri();
            g.script = [&[0][..], &[2], &[3]][choice(3) as usize];
            g.arg_list();
            g.e.close();
        } else {
            g.e.open("notin");
            g.var();
            g.kw("NOT IN");
            g.script = &[2];
            g.expr_list("nillist", "list");
            g.e.close();
        }
    });
    stmt(g)
}
fn e04_exists() {
    let c = choice(7);
    let mut g = g(2);
    let f = |g: &mut G| {
        let k = choice(2);
        g.e.open(if k == 0 { "EXISTS" } else { "NOTEXISTS" });
        g.kw(if k == 0 { "EXISTS" } else { "NOT EXISTS" });
        g.ggp();
        g.e.close();
    };
    if c == 6 {
        g.in_pattern(|g| {
            g.e.open("filter");
            g.kw("FILTER");
            f(g);
            g.e.close();
        });
    } else {
        g.in_expr(c, f);
    }
    stmt(g)
}
fn e04_constraints() {
    let k = choice(3);
    let mut g = g(2);
    match k {
        0 => g.in_pattern(|g| g.graph_pattern(0)),
        1 => g.in_modifier(1, |g| g.having()),
        _ => g.in_modifier(2, |g| {
            g.script = &[3];
            g.order_by()
        }),
    }
    stmt(g)
}

// ------------------------------------------------------------- U: updates
pub fn u_single(g: &mut G, k: u8) {
    g.e.open("update");
    g.e.open("pro");
    g.e.close();
    g.update_stmt(k);
    g.e.none();
    g.e.close();
}
fn u01(d: u8) {
    let k = choice(7);
    let mut g = g(d);
    u_single(&mut g, k);
    upd(g)
}
fn u01_graphs() {
    u01(3)
}
fn u01_request() {
    let mut g = g(2);
    g.update();
    upd(g)
}
fn u01_request_t() {
    let mut g = g(3);
    g.update();
    upd(g)
}
fn u01_lists() {
    let n = len(5);
    let mut g = gl(1, n).repeat(R_UPD, n);
    g.update();
    upd(g)
}
fn u02(d: u8) {
    let k = 7 + choice(4);
    let mut g = g(d);
    u_single(&mut g, k);
    upd(g)
}
fn u02_data() {
    u02(2)
}
fn u02_data3() {
    u02(3)
}
fn u02_data4() {
    u02(4)
}
fn u02_lists() {
    let k = choice(2);
    let n = len(6);
    let mut g = gl(1, n).repeat([R_QUADS, R_USING][k as usize], n);
    u_single(&mut g, if k == 0 { 7 } else { 10 });
    upd(g)
}

// -------------------------------------------------- richer leaves, long lists
fn rich(d: u8) -> G {
    let mut g = G::new().dev(d);
    g.rich = 1;
    if choice(2) == 1 {
        g.gap = Gap::Tight;
    }
    g
}
fn q01_leaves() {
    let mut g = rich(1);
    let k = choice(4);
    g.statement(k);
    stmt(g)
}
fn q02_leaves() {
    let mut g = rich(1);
    g.head();
    if choice(2) == 0 {
        g.e.open("select");
        g.script = [&[0, 1][..], &[1, 1], &[2, 2]][choice(3) as usize];
        g.select_clause();
        g.dev = 0;
        g.no_datasets();
        g.where_clause();
        g.no_mods();
        g.e.close();
    } else {
        g.describe();
    }
    g.tail();
    stmt(g)
}
fn q03_leaves() {
    let k = choice(3);
    let mut g = rich(1);
    g.in_modifier(k, |g| match k {
        0 => g.group_by(),
        1 => g.having(),
        _ => g.order_by(),
    });
    stmt(g)
}
fn q04_leaves() {
    let kind = choice(3);
    let mut g = rich(1).repeat([R_VALS, R_ROWS, R_COLS][kind as usize], 1);
    g.in_pattern(|g| {
        g.kw("VALUES");
        g.script = if kind == 0 { &[0] } else { &[1] };
        g.datablock();
    });
    stmt(g)
}
fn g01_leaves() {
    let mut g = rich(1);
    g.in_pattern(|g| {
        let k = choice(8);
        g.graph_pattern(k)
    });
    stmt(g)
}
fn g02_leaves() {
    let mut g = rich(1);
    g.in_group(|g| g.triples_block());
    stmt(g)
}
fn g03_leaves() {
    let k = choice(2) == 0;
    let mut g = rich(1).repeat(R_COLL, 1);
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        if k {
            g.collection(true)
        } else {
            g.bnpl(true)
        }
        g.e.none();
        g.e.close();
        g.e.close();
    });
    stmt(g)
}
fn g04_leaves() {
    let mut g = rich(1);
    path_stmt(&mut g, |g| g.path(0));
    stmt(g)
}
fn g05_leaves() {
    let mut g = rich(1);
    if choice(2) == 0 {
        g.head();
        g.construct();
        g.tail();
    } else {
        g.in_group(|g| g.sub_select());
    }
    stmt(g)
}
fn e01_leaves() {
    let mut g = rich(1);
    g.in_expr(0, |g| g.expr());
    stmt(g)
}
fn e02_leaves() {
    let k = choice(FUNS.len() as u8);
    let mut g = G::new();
    g.rich = 1;
    g.in_expr(0, |g| {
        // the first argument a literal or a name
        let f = &FUNS[k as usize];
        g.script = match (f.kind, choice(2)) {
            (NONE, _) | (VAR, _) | (E01, _) => &[],
            (_, 0) => &[10],
            _ => &[11],
        };
        g.fun(k)
    });
    stmt(g)
}
fn e03_leaves() {
    let mut g = rich(1);
    g.in_expr(2, |g| g.aggregate());
    stmt(g)
}
fn e03_separator() {
    let mut g = rich(0);
    g.in_expr(2, |g| {
        g.e.open("GROUP_CONCAT");
        g.kw("GROUP_CONCAT");
        g.p("(");
        g.dev = 1;
        g.distinct();
        g.dev = 0;
        g.var();
        g.p(";");
        g.kw("SEPARATOR");
        g.p("=");
        g.dev = 1;
        g.string();
        g.p(")");
        g.e.close();
    });
    stmt(g)
}
fn e04_leaves() {
    let mut g = rich(1);
    g.in_expr(0, |g| match choice(3) {
        0 => g.fn_call(),
        1 => {
            g.e.open("EXISTS");
            g.kw("EXISTS");
            g.ggp();
            g.e.close();
        }
        _ => {
            g.e.open("notin");
            g.var();
            g.kw("NOT IN");
            g.expr_list("nillist", "list");
            g.e.close();
        }
    });
    stmt(g)
}
fn u01_leaves() {
    let k = choice(7);
    let mut g = rich(1);
    u_single(&mut g, k);
    upd(g)
}
fn u02_leaves() {
    let k = 7 + choice(4);
    let mut g = rich(1);
    u_single(&mut g, k);
    upd(g)
}

// ------------------------------------------------------ S03: effort of nesting
/// constructs that nest: head, opening, innermost, closing, tail
const NESTS: &[(&str, &str, &str, &str, &str)] = &[
    ("ASK {", "{", "", "}", "}"),
    ("ASK {", "OPTIONAL {", "", "}", "}"),
    ("ASK {", "{} UNION {", "", "}", "}"),
    ("ASK {", "{ SELECT * {", "", "} }", "}"),
    ("ASK {", "?s ?p ?o . GRAPH ?g {", "", "}", "}"),
    ("ASK {", "FILTER EXISTS {", "", "}", "}"),
    ("ASK {FILTER(", "(", "?a", ")", ")}"),
    ("ASK {FILTER(", "?a = (", "?a", ")", ")}"),
    ("ASK {FILTER(", "1 + (", "?a", ")", ")}"),
    ("ASK {FILTER(", "STR(", "?a", ")", ")}"),
    ("ASK {FILTER(", "IF(?a,?b,", "?a", ")", ")}"),
    ("ASK {FILTER(", "SUM(", "?a", ")", ")}"),
    ("ASK {FILTER(", "<f>(", "?a", ")", ")}"),
    ("ASK {FILTER(?x IN ", "(?x IN ", "(1)", ")", ")}"),
    ("ASK {", "(", "?a", ")", " ?p ?o}"),
    ("ASK {?s ?p ", "[?p ", "?a", "]", "}"),
    ("ASK {?s ", "(", ":p", ")", " ?o}"),
    ("ASK {?s ", "(!(^a|:b)/", ":p", ")*", " ?o}"),
    ("ASK {", "MINUS {", "", "}", "}"),
    ("ASK {", "SERVICE SILENT <s> {", "", "}", "}"),
    ("ASK {", "FILTER(NOT EXISTS {", "", "})", "}"),
    ("ASK {", "?a ?b ?c . {", "", "} UNION {}", "}"),
    ("ASK {", "{ SELECT ?a { {", "", "} } LIMIT 1 }", "}"),
    ("ASK {BIND(", "!(", "?a", ")", " AS ?x)}"),
    ("ASK {BIND(", "-(", "?a", ")", " AS ?x)}"),
    ("ASK {} HAVING(", "?a * (", "?a", ") - 1", ")"),
    ("ASK {} ORDER BY(", "?a || (", "?a", ") && 1", ")"),
    ("ASK {} GROUP BY(", "?a && (", "?a", ") || 1", ")"),
    ("SELECT(", "?a NOT IN (1,(", "?a", "))", " AS ?x){}"),
    ("SELECT(", "COALESCE(1,", "?a", ",2)", " AS ?x){}"),
    ("ASK {FILTER(", "CONCAT(", "?a", ")", ")}"),
    ("ASK {FILTER(", "REGEX(?a,", "?a", ",'i')", ")}"),
    ("ASK {FILTER(", "SUBSTR(", "?a", ",1)", ")}"),
    ("ASK {FILTER(", "COUNT(DISTINCT ", "?a", ")", ")}"),
    ("ASK {FILTER(", "GROUP_CONCAT(", "?a", ";SEPARATOR='')", ")}"),
    ("ASK {FILTER(", "p:f(DISTINCT 1,", "?a", ")", ")}"),
    ("ASK {FILTER ", "<f>(", "?a", ")", "}"),
    ("ASK {FILTER(", "BOUND(?a)=(", "?a", ")", ")}"),
    ("ASK {FILTER(", "IRI(BNODE(", "?a", "))", ")}"),
    ("ASK {?s ", "^(", ":p", ")", " ?o}"),
    ("ASK {?s ", "(a|", ":p", ")", " ?o}"),
    ("ASK {?s ", "(a/b:c/", ":p", ")+", " ?o}"),
    ("ASK {?s ?p ", "[?p (", "?a", ")]", "}"),
    ("ASK {", "[?p ", "?a", "]", " ?p ?o}"),
    ("ASK {", "([?p ", "?a", "; a 1] 2)", " ?p ?o}"),
    ("CONSTRUCT {?s ?p ", "(", "?a", ")", "} {}"),
    ("CONSTRUCT {", "[?p ", "?a", "]", "} {}"),
    ("CONSTRUCT WHERE {?s ?p ", "[?p (", "?a", ")]", "}"),
    ("DESCRIBE ?x {", "OPTIONAL {?a ?b ?c FILTER(1) ", "", "}", "}"),
];
pub fn nested(f: &(&str, &str, &str, &str, &str), n: u8) -> (Vec<u8>, usize, usize) {
    let mut t = Vec::with_capacity(1024);
    t.extend_from_slice(f.0.as_bytes());
    for _ in 0..n {
        t.extend_from_slice(f.1.as_bytes());
    }
    t.extend_from_slice(f.2.as_bytes());
    let mid = t.len();
    for _ in 0..n {
        t.extend_from_slice(f.3.as_bytes());
    }
    let end = t.len();
    t.extend_from_slice(f.4.as_bytes());
    (t, mid, end)
}
fn s03(n: u8) {
    let f = &NESTS[choice(NESTS.len() as u8) as usize];
    let (mut t, mid, end) = nested(f, n);
    let place = choice(4);
    if place < 3 {
        let at = [mid, end, t.len()][place as usize];
        let c = any_char();
        let rest = t.split_off(at);
        t.extend_from_slice(c.bytes());
        t.extend_from_slice(&rest);
    }
    agree(&t, false);
    std::mem::forget(t);
}
fn s03_deep() {
    s03(40)
}
fn s03_deep_t() {
    s03(80)
}
fn s03_deepest_t() {
    s03(200)
}
/// the innermost part is missing, its bracket is another one
fn s03_broken() {
    let f = &NESTS[choice(NESTS.len() as u8) as usize];
    let (mut t, mid, _) = nested(f, 40);
    match choice(3) {
        0 => t.truncate(mid),
        1 => {
            t.remove(mid);
        }
        _ => {
            let b = byte(b'>');
            assume(b < 0x80);
            t[mid] = b;
        }
    }
    agree(&t, false);
    std::mem::forget(t);
}
fn s03_update() {
    const N: [(&str, &str, &str, &str, &str); 10] = [
        ("INSERT DATA {", "?s ?p [", "?a ?b", "]", "}"),
        ("DELETE WHERE {?s ?p ", "(", "?a", ")", "}"),
        ("DELETE {} WHERE {", "MINUS {", "", "}", "}"),
        ("CLEAR ALL", "; CLEAR ALL", "", "", ""),
        ("DELETE DATA {GRAPH <g> {?s ?p ", "[?p ", "?a", "]", "}}"),
        ("DELETE {?s ?p ", "(", "?a", ")", "} WHERE {}"),
        ("INSERT {GRAPH ?g {", "[?p ", "?a", "]", "}} WHERE {}"),
        ("INSERT {} WHERE {", "{SELECT * {", "", "}}", "}"),
        ("DELETE {} INSERT {} USING <i> WHERE {FILTER(", "(", "?a", ")", ")}"),
        ("INSERT {} WHERE {?s ", "(", ":p", ")", " ?o}"),
    ];
    let k = choice(10) as usize;
    let mut f = N[k];
    if k == 0 {
        f.0 = "INSERT DATA {?s ?p ";
        f.1 = "[?p ";
        f.2 = "?a";
    }
    let (mut t, mid, end) = nested(&f, 40);
    let at = [mid, end, t.len()][choice(3) as usize];
    let c = any_char();
    let rest = t.split_off(at);
    t.extend_from_slice(c.bytes());
    t.extend_from_slice(&rest);
    agree(&t, true);
    std::mem::forget(t);
}

// --------------------------------------- M02: exactly the language is accepted
/// The parser agrees with the recogniser of the grammar on the text.
pub fn agree(t: &[u8], upd: bool) {
    input(t);
    let s = as_str(t);
    let want = if upd { reference::update(t) } else { reference::query(t) };
    match want {
        Ok(e) => {
            if upd {
                match update(s) {
                    Ok((rest, v)) => {
                        // the parser leaves the whitespace behind the request
                        check(reference::blank_text(rest.as_bytes()), CONSUME);
                        let mut o = Vec::with_capacity(512);
                        v.d(&mut o);
                        std::mem::forget(v);
                        check_eq(&o, &e, TREE);
                    }
                    Err(_) => check(false, ACCEPT),
                }
            } else {
                accept(sparql_query_stmt(s), &e)
            }
            std::mem::forget(e);
        }
        Err(reference::E::No) => {
            if upd {
                let r = update(s);
                let ok = match &r {
                    Ok((rest, _)) => reference::blank_text(rest.as_bytes()),
                    Err(_) => false,
                };
                std::mem::forget(r);
                check(!ok, 11)
            } else {
                reject(sparql_query_stmt(s), 11)
            }
        }
        Err(reference::E::Unk) => reach(90),
    }
}
fn m02_ctx(c: &(&str, &str), h: &Hole, upd: bool) {
    let mut t = Vec::with_capacity(128);
    t.extend_from_slice(c.0.as_bytes());
    t.extend_from_slice(&h.b);
    t.extend_from_slice(c.1.as_bytes());
    agree(&t, upd);
    std::mem::forget(t);
}
fn m02_query() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    m02_ctx(c, &hole(1, 1), false)
}
fn m02_query2() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    m02_ctx(c, &hole(2, 0), false)
}
fn m02_query3() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    m02_ctx(c, &hole(3, 1), false)
}
fn m02_update() {
    let c = &U_CTX[choice(U_CTX.len() as u8) as usize];
    let n = 1 + choice(2);
    m02_ctx(c, &hole(n, 1), true)
}
fn m02_update3() {
    let c = &U_CTX[choice(U_CTX.len() as u8) as usize];
    m02_ctx(c, &hole(3, 1), true)
}
/// what may stand in the place of a token
const TOKENS: &[&str] = &[
    "", "?v", "<i>", "p:l", ":", "_:b", "'s'", "1", "-1", "true", "a", "(", ")", "{", "}", "[", "]", "()", "[]", ".", ",",
    ";", "*", "/", "|", "^", "^^", "!", "=", "<", ">=", "+", "-", "&&", "||", "?", "@en", "AS", "BY", "IN", "NOT",
    "WHERE", "DISTINCT", "FROM", "NAMED", "LIMIT 1", "UNDEF", "UNION", "VALUES", "FILTER", "GRAPH", "SILENT", "SELECT",
    "STR", "COUNT", "EXISTS", "TO", "ALL", "DEFAULT", "DATA", "INSERT", "USING",
    // whole clauses
    "FROM <i>", "FROM NAMED <i>", "{ }", "WHERE { }", "GROUP BY ?v", "HAVING (1)", "ORDER BY ?v", "OFFSET 1", "ASC ( ?v )",
    "GRAPH <i> { }", "OPTIONAL { }", "UNION { }", "BIND ( 1 AS ?v )", "FILTER ( 1 )", "VALUES ?v { 1 }", "?s ?p ?o",
    "?p ?o", "; ?p ?o", ", ?o", "PREFIX p: <i>", "BASE <i>", "( ?v AS ?w )", "*", "?v ?w", "SELECT * { }", "ASK { }",
    "USING <i>", "WITH <i>", "INSERT { }", "DELETE { }", "INTO GRAPH <i>", "; CLEAR ALL", "IN ( 1 )", "&& 1", "* 2", "= 1",
    "/ <i>", "| ^ a", "; SEPARATOR = 's'",
];
fn tokens(mut g: G, upd: bool, f: impl FnOnce(&mut G)) {
    g.toks = true;
    f(&mut g);
    let t = tok_mutant(&mut g, TOKENS);
    agree(&t, upd);
    std::mem::forget((g, t));
}
/// the same token two or three times in front of, or instead of, a token
const RUNS: &[&str] = &[
    "!", "+", "-", "^", ".", ";", ",", "|", "/", "*", "?", "(", ")", "()", "[]", "{", "{}", "?v", "<i>", "p:x", "1", "'s'", "@en", "a",
    "DISTINCT", "SILENT", "UNION", "NOT", "ALL", "ASC", "UNDEF",
];
fn runs(mut g: G, upd: bool, f: impl FnOnce(&mut G)) {
    g.toks = true;
    f(&mut g);
    g.end_gap();
    let n = g.starts.len();
    let k = choice(n as u8) as usize;
    let a = g.starts[k] as usize;
    let b = if k + 1 < n { g.starts[k + 1] as usize } else { g.t.len() };
    let mut t = Vec::with_capacity(g.t.len() + 48);
    t.extend_from_slice(&g.t[..a]);
    let how = choice(3);
    // 2: the token itself
    let (w, keep) = if how == 2 {
        let w = g.t[a..b].to_vec();
        (w, true)
    } else {
        (RUNS[choice(RUNS.len() as u8) as usize].as_bytes().to_vec(), how == 0)
    };
    let joined = choice(2) == 1;
    for _ in 0..2 + choice(2) {
        t.extend_from_slice(&w);
        if !joined {
            t.push(b' ');
        }
    }
    t.push(b' ');
    t.extend_from_slice(&g.t[if keep { a } else { b }..]);
    agree(&t, upd);
    std::mem::forget((g, t, w));
}
fn plain(d: u8) -> G {
    let mut g = G::new().dev(d);
    g.plain = true;
    g
}
fn runs_statements() {
    let k = choice(4);
    runs(plain(1), false, |g| g.statement(k))
}
fn runs_patterns() {
    runs(plain(1), false, |g| {
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        })
    })
}
fn runs_triples() {
    runs(plain(1), false, |g| g.in_group(|g| g.triples_block()))
}
fn runs_expressions() {
    runs(G::new().dev(1), false, |g| g.in_expr(0, |g| g.expr()))
}
fn runs_aggregates() {
    runs(plain(1), false, |g| g.in_expr(2, |g| g.aggregate()))
}
fn runs_paths() {
    runs(plain(1), false, |g| path_stmt(g, |g| g.path(0)))
}
fn runs_updates() {
    let k = choice(11);
    runs(plain(1), true, |g| u_single(g, k))
}
fn runs_modifiers() {
    let k = choice(4);
    runs(plain(1), false, |g| {
        g.in_modifier(k, |g| match k {
            0 => g.group_by(),
            1 => g.having(),
            2 => g.order_by(),
            _ => g.limit_offset(),
        })
    })
}
fn runs_values() {
    runs(plain(1).repeat(R_ROWS, 1), false, |g| {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        })
    })
}
/// any character outside of ASCII in the place of, or in front of, every character
fn wide(mut g: G, upd: bool, f: impl FnOnce(&mut G)) {
    g.symleaf = false;
    f(&mut g);
    g.end_gap();
    let n = g.t.len();
    let k = g.place(n);
    let mut t = Vec::with_capacity(n + 8);
    t.extend_from_slice(&g.t[..k]);
    let keep = choice(2) as usize;
    t.extend_from_slice(sym_char(2 + choice(3)).bytes());
    t.extend_from_slice(&g.t[k + keep..]);
    agree(&t, upd);
    std::mem::forget((g, t));
}
fn wide_statements() {
    let k = choice(4);
    wide(plain(1), false, |g| g.statement(k))
}
fn wide_patterns() {
    wide(plain(1), false, |g| {
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        })
    })
}
fn wide_triples() {
    wide(plain(1), false, |g| g.in_group(|g| g.triples_block()))
}
fn wide_expressions() {
    wide(G::new().dev(1), false, |g| g.in_expr(0, |g| g.expr()))
}
fn wide_aggregates() {
    wide(plain(1), false, |g| g.in_expr(2, |g| g.aggregate()))
}
fn wide_paths() {
    wide(plain(1), false, |g| path_stmt(g, |g| g.path(0)))
}
fn wide_updates() {
    let k = choice(11);
    wide(plain(1), true, |g| u_single(g, k))
}
fn wide_modifiers() {
    let k = choice(4);
    wide(plain(1), false, |g| {
        g.in_modifier(k, |g| match k {
            0 => g.group_by(),
            1 => g.having(),
            2 => g.order_by(),
            _ => g.limit_offset(),
        })
    })
}
fn wide_values() {
    wide(plain(1).repeat(R_ROWS, 1), false, |g| {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        })
    })
}
const BOTH: &[&str] = &["", "?v", "<i>", "1", ";", ",", ".", "*", "-", "!", "(", ")", "{", "}", "DISTINCT"];
/// two of the changes of tok_mutant at different tokens
fn twice(mut g: G, upd: bool, f: impl FnOnce(&mut G)) {
    g.toks = true;
    g.plain = true;
    f(&mut g);
    g.end_gap();
    let n = g.starts.len();
    let j = choice(n as u8) as usize;
    let k = choice(j as u8 + 1) as usize;
    let t = tok_change(&g.t, &g.starts, j, BOTH);
    let t2 = tok_change(&t, &g.starts, k, BOTH);
    agree(&t2, upd);
    std::mem::forget((g, t, t2));
}
pub fn twice_statements() {
    let k = choice(4);
    twice(G::new(), false, |g| g.statement(k))
}
pub fn twice_patterns() {
    twice(G::new(), false, |g| {
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        })
    })
}
pub fn twice_triples() {
    twice(G::new(), false, |g| g.in_group(|g| g.triples_block()))
}
pub fn twice_expressions() {
    twice(G::new(), false, |g| g.in_expr(0, |g| g.expr()))
}
pub fn twice_aggregates() {
    twice(G::new(), false, |g| g.in_expr(2, |g| g.aggregate()))
}
pub fn twice_paths() {
    twice(G::new(), false, |g| path_stmt(g, |g| g.path(0)))
}
pub fn twice_updates() {
    let k = choice(11);
    twice(G::new(), true, |g| u_single(g, k))
}
pub fn twice_modifiers() {
    let k = choice(4);
    twice(G::new(), false, |g| {
        g.in_modifier(k, |g| match k {
            0 => g.group_by(),
            1 => g.having(),
            2 => g.order_by(),
            _ => g.limit_offset(),
        })
    })
}
pub fn twice_values() {
    twice(G::new(), false, |g| {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        })
    })
}
pub fn tok_mutant(g: &mut G, toks: &[&str]) -> Vec<u8> {
    g.end_gap();
    let k = g.place(g.starts.len());
    tok_change(&g.t, &g.starts, k, toks)
}
fn tok_change(s: &[u8], starts: &[u16], k: usize, toks: &[&str]) -> Vec<u8> {
    let n = starts.len();
    let a = (starts[k] as usize).min(s.len());
    let b = if k + 1 < n { (starts[k + 1] as usize).min(s.len()) } else { s.len() };
    let mut t = Vec::with_capacity(s.len() + 32);
    match choice(5) {
        // another token
        0 => {
            t.extend_from_slice(&s[..a]);
            t.extend_from_slice(toks[choice(toks.len() as u8) as usize].as_bytes());
            t.push(b' ');
            t.extend_from_slice(&s[b..]);
        }
        // one more
        1 => {
            t.extend_from_slice(&s[..a]);
            t.extend_from_slice(toks[1 + choice(toks.len() as u8 - 1) as usize].as_bytes());
            t.push(b' ');
            t.extend_from_slice(&s[a..]);
        }
        // twice
        2 => {
            t.extend_from_slice(&s[..b]);
            t.push(b' ');
            t.extend_from_slice(&s[a..]);
        }
        // without whitespace in front of the next
        3 => {
            let mut e = b;
            while e > a && ws(s[e - 1] as u32) {
                e -= 1;
            }
            t.extend_from_slice(&s[..e]);
            t.extend_from_slice(&s[b..]);
        }
        // exchanged with the next
        _ => {
            let c = if k + 2 < n { (starts[k + 2] as usize).min(s.len()) } else { s.len() };
            t.extend_from_slice(&s[..a]);
            t.extend_from_slice(&s[b..c]);
            t.push(b' ');
            t.extend_from_slice(&s[a..b]);
            t.push(b' ');
            t.extend_from_slice(&s[c..]);
        }
    }
    t
}
fn tok_statements(d: u8) {
    let k = choice(4);
    tokens(G::new().dev(d), false, |g| g.statement(k))
}
fn tok_patterns(d: u8) {
    tokens(G::new().dev(d), false, |g| {
        g.plain = d < 2;
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        })
    })
}
fn tok_expressions(d: u8) {
    tokens(G::new().dev(d), false, |g| g.in_expr(0, |g| g.expr()))
}
fn tok_aggregates(d: u8) {
    tokens(G::new().dev(d), false, |g| {
        g.plain = d < 2;
        g.in_expr(2, |g| g.aggregate())
    })
}
fn tok_triples(d: u8) {
    tokens(G::new().dev(d), false, |g| g.in_group(|g| g.triples_block()))
}
fn tok_paths(d: u8) {
    tokens(G::new().dev(d), false, |g| path_stmt(g, |g| g.path(0)))
}
fn tok_modifiers(d: u8) {
    let k = choice(4);
    tokens(G::new().dev(d), false, |g| {
        g.in_modifier(k, |g| match k {
            0 => g.group_by(),
            1 => g.having(),
            2 => g.order_by(),
            _ => g.limit_offset(),
        })
    })
}
fn tok_values(d: u8) {
    tokens(G::new().dev(d).repeat(R_ROWS, 1), false, |g| {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        })
    })
}
fn tok_updates(d: u8) {
    let k = choice(11);
    tokens(G::new().dev(d), true, |g| u_single(g, k))
}

// ------------------------------------------- texts of many productions
fn wild_request(d: u8) {
    let mut g = g(d);
    g.update();
    upd(g)
}
fn q01_wild_t() {
    q_stmt(WILD + 9, false)
}
fn q01_wild() {
    q_stmt(WILD + 8, false)
}
fn q02_wild_t() {
    q02(WILD + 9)
}
fn q02_wild() {
    q02(WILD + 7)
}
fn q03_wild_t() {
    q03(WILD + 9, choice(4))
}
fn q03_wild() {
    q03(WILD + 6, choice(4))
}
fn q04_wild_t() {
    q04(WILD + 9)
}
fn q04_wild() {
    q04(WILD + 7)
}
fn g01_wild_t() {
    g01(WILD + 9)
}
fn g01_wild() {
    g01(WILD + 8)
}
fn g02_wild_t() {
    g02(WILD + 9)
}
fn g02_wild() {
    g02(WILD + 8)
}
fn g03_wild_t() {
    g03(WILD + 9)
}
fn g03_wild() {
    g03(WILD + 7)
}
fn g04_wild_t() {
    g04(WILD + 9)
}
fn g04_wild() {
    g04(WILD + 8)
}
fn g05_wild_t() {
    g05(WILD + 9)
}
fn g05_wild() {
    g05(WILD + 8)
}
fn e01_wild_t() {
    e01(WILD + 9)
}
fn e01_wild() {
    e01(WILD + 7)
}
fn e03_wild_t() {
    e03(WILD + 9)
}
fn e03_wild() {
    e03(WILD + 7)
}
fn e04_wild_t() {
    e04(WILD + 9)
}
fn e04_wild() {
    e04(WILD + 6)
}
fn u01_wild_t() {
    wild_request(WILD + 9)
}
fn u01_wild() {
    wild_request(WILD + 8)
}
fn u02_wild_t() {
    u02(WILD + 9)
}
fn u02_wild() {
    u02(WILD + 7)
}
fn m03_statements_wild() {
    tok_statements(WILD)
}
fn m03_statements_wild_t() {
    tok_statements(WILD + 4)
}
fn m03_statements_chars_wild() {
    chr_statements(WILD)
}
fn m03_statements_chars_wild_t() {
    chr_statements(WILD + 4)
}
fn m04_patterns_wild() {
    tok_patterns(WILD + 10)
}
fn m04_patterns_wild_t() {
    tok_patterns(WILD + 4)
}
fn m04_patterns_chars_wild() {
    chr_patterns(WILD)
}
fn m04_patterns_chars_wild_t() {
    chr_patterns(WILD + 4)
}
fn m04_triples_wild() {
    tok_triples(WILD + 1)
}
fn m04_triples_wild_t() {
    tok_triples(WILD + 4)
}
fn m04_triples_chars_wild() {
    chr_triples(WILD + 1)
}
fn m04_triples_chars_wild_t() {
    chr_triples(WILD + 4)
}
fn m05_expressions_wild() {
    tok_expressions(WILD + 1)
}
fn m05_expressions_wild_t() {
    tok_expressions(WILD + 4)
}
fn m05_expressions_chars_wild() {
    chr_expressions(WILD + 1)
}
fn m05_expressions_chars_wild_t() {
    chr_expressions(WILD + 4)
}
fn m05_aggregates_wild() {
    tok_aggregates(WILD)
}
fn m05_aggregates_wild_t() {
    tok_aggregates(WILD + 4)
}
fn m05_aggregates_chars_wild() {
    chr_aggregates(WILD + 1)
}
fn m05_aggregates_chars_wild_t() {
    chr_aggregates(WILD + 4)
}
fn m05_paths_wild() {
    tok_paths(WILD + 1)
}
fn m05_paths_wild_t() {
    tok_paths(WILD + 4)
}
fn m05_paths_chars_wild() {
    chr_paths(WILD + 1)
}
fn m05_paths_chars_wild_t() {
    chr_paths(WILD + 4)
}
fn m06_updates_wild() {
    tok_updates(WILD)
}
fn m06_updates_wild_t() {
    tok_updates(WILD + 4)
}
fn m06_updates_chars_wild() {
    chr_updates(WILD + 1)
}
fn m06_updates_chars_wild_t() {
    chr_updates(WILD + 4)
}
fn m07_modifiers_wild() {
    tok_modifiers(WILD)
}
fn m07_modifiers_wild_t() {
    tok_modifiers(WILD + 4)
}
fn m07_modifiers_chars_wild() {
    chr_modifiers(WILD + 1)
}
fn m07_modifiers_chars_wild_t() {
    chr_modifiers(WILD + 4)
}
fn m07_values_wild() {
    tok_values(WILD)
}
fn m07_values_wild_t() {
    tok_values(WILD + 4)
}
fn m07_values_chars_wild() {
    chr_values(WILD + 1)
}
fn m07_values_chars_wild_t() {
    chr_values(WILD + 4)
}

fn tok_statements1() {
    tok_statements(1)
}
fn tok_statements2() {
    tok_statements(2)
}
fn tok_patterns1() {
    tok_patterns(1)
}
fn tok_patterns2() {
    tok_patterns(2)
}
fn tok_expressions1() {
    tok_expressions(1)
}
fn tok_expressions2() {
    tok_expressions(2)
}
fn tok_aggregates1() {
    tok_aggregates(1)
}
fn tok_aggregates2() {
    tok_aggregates(2)
}
fn tok_triples1() {
    tok_triples(1)
}
fn tok_triples2() {
    tok_triples(2)
}
fn tok_paths1() {
    tok_paths(1)
}
fn tok_paths2() {
    tok_paths(2)
}
fn tok_modifiers1() {
    tok_modifiers(1)
}
fn tok_modifiers2() {
    tok_modifiers(2)
}
fn tok_values1() {
    tok_values(1)
}
fn tok_values2() {
    tok_values(2)
}
fn tok_updates1() {
    tok_updates(1)
}
fn tok_updates2() {
    tok_updates(2)
}

/// one character changed, added or left out at every place
fn chars(mut g: G, upd: bool, f: impl FnOnce(&mut G)) {
    f(&mut g);
    let t = chr_mutant(&mut g);
    agree(&t, upd);
    std::mem::forget((g, t));
}
pub fn chr_mutant(g: &mut G) -> Vec<u8> {
    g.end_gap();
    chr_mutate(g, choice(3))
}
/// 0: another character, 1: one more, 2: one less
pub fn chr_mutate(g: &mut G, how: u8) -> Vec<u8> {
    let n = g.t.len();
    let k = g.place(n);
    let mut t = Vec::with_capacity(n + 8);
    t.extend_from_slice(&g.t[..k]);
    match how {
        0 => {
            t.push(sym_char(1).b[0]);
            t.extend_from_slice(&g.t[k + 1..]);
        }
        1 => {
            t.push(sym_char(1).b[0]);
            t.extend_from_slice(&g.t[k..]);
        }
        _ => t.extend_from_slice(&g.t[k + 1..]),
    }
    t
}
fn chr(d: u8) -> G {
    let mut g = G::new().dev(d);
    g.symleaf = false;
    g.plain = d < 2;
    g
}
fn chr_statements(d: u8) {
    let k = choice(4);
    chars(chr(d), false, |g| g.statement(k))
}
fn chr_patterns(d: u8) {
    chars(chr(d), false, |g| {
        g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        })
    })
}
fn chr_expressions(d: u8) {
    {
        let mut g = chr(d);
        g.plain = false;
        chars(g, false, |g| g.in_expr(0, |g| g.expr()))
    }
}
fn chr_aggregates(d: u8) {
    chars(chr(d), false, |g| {
        g.in_expr(2, |g| g.aggregate())
    })
}
fn chr_triples(d: u8) {
    chars(chr(d), false, |g| g.in_group(|g| g.triples_block()))
}
fn chr_paths(d: u8) {
    chars(chr(d), false, |g| path_stmt(g, |g| g.path(0)))
}
fn chr_modifiers(d: u8) {
    let k = choice(4);
    chars(chr(d), false, |g| {
        g.in_modifier(k, |g| match k {
            0 => g.group_by(),
            1 => g.having(),
            2 => g.order_by(),
            _ => g.limit_offset(),
        })
    })
}
fn chr_values(d: u8) {
    chars(chr(d).repeat(R_ROWS, 1), false, |g| {
        g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        })
    })
}
fn chr_updates(d: u8) {
    let k = choice(11);
    chars(chr(d), true, |g| u_single(g, k))
}

fn chr_statements1() {
    chr_statements(1)
}
fn chr_statements2() {
    chr_statements(2)
}
fn chr_modifiers1() {
    chr_modifiers(1)
}
fn chr_modifiers2() {
    chr_modifiers(2)
}
fn chr_values1() {
    chr_values(1)
}
fn chr_values2() {
    chr_values(2)
}
fn chr_patterns1() {
    chr_patterns(1)
}
fn chr_patterns2() {
    chr_patterns(2)
}
fn chr_triples1() {
    chr_triples(1)
}
fn chr_triples2() {
    chr_triples(2)
}
fn chr_expressions1() {
    chr_expressions(1)
}
fn chr_expressions2() {
    chr_expressions(2)
}
fn chr_aggregates1() {
    chr_aggregates(1)
}
fn chr_aggregates2() {
    chr_aggregates(2)
}
fn chr_paths1() {
    chr_paths(1)
}
fn chr_paths2() {
    chr_paths(2)
}
fn chr_updates1() {
    chr_updates(1)
}
fn chr_updates2() {
    chr_updates(2)
}
macro_rules! scn {
    ($($p:literal $n:literal $t:literal $f:ident $b:literal;)*) => {
        pub static SCENARIOS: &[Scenario] = &[$(Scenario { prop: $p, name: $n, tier: $t, bounds: $b, f: $f }),*];
    };
}
scn! {
    "Q01" "statements" 'q' q01_d2 "query statements with up to 2 productions other than the simplest, 3 styles of whitespace and case, every leaf symbolic";
    "Q01" "statements3" 't' q01_d3 "query statements with up to 3 productions other than the simplest, every leaf symbolic";
    "Q01" "prologue" 'q' q01_prologue "up to 7 declarations, and lists of 17, 64 and 300 more";
    "Q01" "datasets" 'q' q01_datasets "up to 7 dataset clauses, and lists of 17, 64 and 300 more";
    "Q01" "forms" 'q' q01_forms "single query forms, 1 production other than the simplest";
    "Q01" "leaves" 'q' q01_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "Q01" "wild" 'q' q01_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q01" "wild_t" 't' q01_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q02" "clause" 'q' q02_clause "3 productions";
    "Q02" "clause4" 't' q02_clause_t "4 productions";
    "Q02" "vars" 'q' q02_vars "up to 9 projections, and lists of 17, 64 and 300 more";
    "Q02" "describe" 'q' q02_describe "up to 8 resources, and lists of 17, 64 and 300 more";
    "Q02" "leaves" 'q' q02_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "Q02" "wild" 'q' q02_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q02" "wild_t" 't' q02_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q03" "modifiers" 'q' q03_all "3 productions";
    "Q03" "modifiers4" 't' q03_all_t "4 productions";
    "Q03" "lists" 'q' q03_lists "up to 8 conditions, and lists of 17, 64 and 300 more";
    "Q03" "limits" 'q' q03_limits "up to 4 symbolic digits each";
    "Q03" "leaves" 'q' q03_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "Q03" "places" 'q' q03_places "every modifier of 1 production after every form";
    "Q03" "places2" 'q' q03_places2 "2 productions after every form";
    "Q03" "places3" 't' q03_places_t "3 productions after every form";
    "Q03" "wild" 'q' q03_wild "2000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q03" "wild_t" 't' q03_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q04" "block" 'q' q04_block "3 productions";
    "Q04" "block4" 't' q04_block_t "4 productions";
    "Q04" "lists" 'q' q04_lists "up to 6 rows, columns or values and two more, and lists of 17, 64 and 300 more";
    "Q04" "leaves" 'q' q04_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "Q04" "places" 'q' q04_places "2 productions at every place of a data block";
    "Q04" "wild" 'q' q04_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "Q04" "wild_t" 't' q04_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G01" "group" 'q' g01_group "3 productions";
    "G01" "group4" 't' g01_group_t "4 productions";
    "G01" "each" 'q' g01_each "every graph pattern and 2 productions";
    "G01" "lists" 'q' g01_lists "up to 6 patterns or branches of a union, and lists of 17, 64 and 300 more";
    "G01" "nesting" 'q' g01_nesting "up to 6 levels, and 20 levels";
    "G01" "leaves" 'q' g01_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "G01" "places" 'q' g01_places "one pattern, or one other production in a group, at every place of a group";
    "G01" "places1" 't' g01_places_t "every pattern and one production at every place of a group";
    "G01" "wild" 'q' g01_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G01" "wild_t" 't' g01_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G02" "block" 'q' g02_block "3 productions";
    "G02" "block4" 't' g02_block_t "4 productions";
    "G02" "lists" 'q' g02_lists "up to 8 triples, predicates or objects, and lists of 17, 64 and 300 more";
    "G02" "terms" 'q' g02_terms "every pair of terms and 2 productions";
    "G02" "leaves" 'q' g02_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "G02" "places" 'q' g02_places "1 production at every place of triples";
    "G02" "places2" 't' g02_places_t "2 productions at every place of triples";
    "G02" "wild" 'q' g02_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G02" "wild_t" 't' g02_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G03" "nodes" 'q' g03_nodes "2 productions";
    "G03" "nodes3" 't' g03_nodes_t "3 productions";
    "G03" "lists" 'q' g03_lists "up to 8 nodes, and lists of 17, 64 and 300 more";
    "G03" "nesting" 'q' g03_nesting "up to 5 levels, and 20 levels";
    "G03" "leaves" 'q' g03_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "G03" "places" 'q' g03_places "2 productions at every place of triples";
    "G03" "wild" 'q' g03_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G03" "wild_t" 't' g03_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G04" "path" 'q' g04_path "3 productions";
    "G04" "path5" 't' g04_path_t "5 productions";
    "G04" "lists" 'q' g04_lists "up to 8 elements, and lists of 17, 64 and 300 more";
    "G04" "operators" 'q' g04_operators "every sequence of up to 4 elements";
    "G04" "leaves" 'q' g04_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "G04" "places" 'q' g04_places "2 productions at every place of a pattern";
    "G04" "templates" 'q' g04_templates "1 production at every place of triples without paths";
    "G04" "wild" 'q' g04_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G04" "wild_t" 't' g04_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G05" "construct" 'q' g05_construct "3 productions";
    "G05" "construct4" 't' g05_construct_t "4 productions";
    "G05" "template" 'q' g05_template "2 productions";
    "G05" "subselect" 'q' g05_subselect "2 productions";
    "G05" "leaves" 'q' g05_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "G05" "places" 'q' g05_places "a subselect of 1 production at every place of a group";
    "G05" "places2" 't' g05_places_t "a subselect of 2 productions at every place of a group";
    "G05" "wild" 'q' g05_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "G05" "wild_t" 't' g05_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E01" "expressions" 'q' e01_expr "2 productions in 6 contexts";
    "E01" "expressions3" 't' e01_expr_t "3 productions in 6 contexts";
    "E01" "operators" 'q' e01_operators "every sequence of up to 3 binary operators";
    "E01" "operators4" 't' e01_operators_t "every sequence of 4 binary operators";
    "E01" "unary" 'q' e01_unary "every sequence of 2 binary operators with unary operators";
    "E01" "chains" 'q' e01_chains "up to 7 operands, and lists of 17, 64 and 300 more";
    "E01" "nesting" 'q' e01_nesting "up to 5 levels, and 20 levels";
    "E01" "leaves" 'q' e01_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "E01" "places" 'q' e01_places "1 production at every place of an expression";
    "E01" "places2" 't' e01_places_t "2 productions at every place of an expression";
    "E01" "wild" 'q' e01_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E01" "wild_t" 't' e01_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E02" "functions" 'q' e02_functions "every function in 6 contexts, 1 production";
    "E02" "nested" 't' e02_nested "every function, 2 productions";
    "E02" "lists" 'q' e02_lists "up to 6 arguments, and lists of 17, 64 and 300 more";
    "E02" "arity" 'q' e02_arity "every function with up to 5 arguments";
    "E02" "leaves" 'q' e02_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, every function";
    "E02" "places" 'q' e02_places "every function at every place of an expression";
    "E02" "places1" 't' e02_places_t "every function and one production at every place of an expression";
    "E03" "aggregates" 'q' e03_aggregates "2 productions in 4 contexts";
    "E03" "aggregates4" 't' e03_aggregates_t "4 productions in 4 contexts";
    "E03" "leaves" 'q' e03_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "E03" "separator" 'q' e03_separator "separators of up to 3 arbitrary characters";
    "E03" "places" 'q' e03_places "aggregates of 2 productions at every place of an expression";
    "E03" "wild" 'q' e03_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E03" "wild_t" 't' e03_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E04" "calls" 'q' e04_calls "2 productions in 6 contexts";
    "E04" "calls3" 't' e04_calls_t "3 productions in 6 contexts";
    "E04" "lists" 'q' e04_lists "up to 8 arguments, and lists of 17, 64 and 300 more";
    "E04" "exists" 'q' e04_exists "2 productions";
    "E04" "constraints" 'q' e04_constraints "2 productions";
    "E04" "leaves" 'q' e04_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "E04" "places" 'q' e04_places "calls, memberships and EXISTS of 2 productions at every place of an expression";
    "E04" "wild" 'q' e04_wild "2000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "E04" "wild_t" 't' e04_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "U01" "graphs" 'q' u01_graphs "3 productions";
    "U01" "request" 'q' u01_request "2 productions";
    "U01" "request3" 't' u01_request_t "3 productions";
    "U01" "lists" 'q' u01_lists "up to 6 operations, and lists of 17, 64 and 300 more";
    "U01" "leaves" 'q' u01_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "U01" "wild" 'q' u01_wild "10000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "U01" "wild_t" 't' u01_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "U02" "data" 'q' u02_data "2 productions";
    "U02" "data3" 't' u02_data3 "3 productions";
    "U02" "data4" 't' u02_data4 "4 productions";
    "U02" "lists" 'q' u02_lists "up to 8 graphs or USING clauses, and lists of 17, 64 and 300 more";
    "U02" "leaves" 'q' u02_leaves "one leaf of up to 4 characters of any length or spelled like a keyword, 1 production";
    "U02" "wild" 'q' u02_wild "5000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "U02" "wild_t" 't' u02_wild_t "20000 texts of 4 to 12 productions other than the simplest, all leaves symbolic";
    "L01" "content" 'q' l01_content "up to 2 arbitrary characters, one of any length, at 12 places";
    "L01" "content3" 'q' l01_content3 "3 arbitrary characters of any length";
    "L01" "content4" 't' l01_content4 "4 arbitrary characters, one of any length, at 3 places";
    "L01" "long" 'q' l01_long "up to 70 characters, one of them arbitrary at every position";
    "L01" "end" 'q' l01_end "up to 2 arbitrary characters after the token";
    "L02" "longest" 'q' l02_longest "up to 2 arbitrary characters";
    "L02" "longest3" 'q' l02_longest3 "3 arbitrary characters, one of any length";
    "L02" "longest4" 't' l02_longest4 "4 arbitrary characters, two of any length";
    "L02" "long" 'q' l02_long "up to 70 characters, one of them arbitrary at every position";
    "L02" "places" 'q' l02_places "names of up to 2 characters at 13 places";
    "L03" "local" 'q' l03_local "local names of up to 2 arbitrary characters of any length";
    "L03" "local3" 'q' l03_local3 "3 arbitrary characters";
    "L03" "local4" 't' l03_local4 "4 arbitrary characters";
    "L03" "long" 'q' l03_long "long names, one arbitrary character at every position";
    "L03" "prefix" 'q' l03_prefix "prefixes of up to 2 arbitrary characters";
    "L03" "prefix3" 't' l03_prefix3 "prefixes of 3 arbitrary characters";
    "L03" "places" 'q' l03_places "names at every place";
    "L03" "blank" 'q' l03_blank "labels of up to 2 arbitrary characters";
    "L03" "blank3" 't' l03_blank3 "labels of 3 arbitrary characters";
    "L04" "content" 'q' l04_content "up to 2 arbitrary characters";
    "L04" "content3" 'q' l04_content3 "3 arbitrary characters";
    "L04" "content4" 't' l04_content4 "4 arbitrary characters";
    "L04" "long" 'q' l04_long "long strings, one arbitrary character at every position";
    "L04" "lang" 'q' l04_lang "language tags of arbitrary characters";
    "L04" "lang5" 't' l04_lang5 "language tags of up to 5 arbitrary characters";
    "L04" "parts" 'q' l04_parts "text, language tag and datatype together";
    "L05" "int" 'q' l05_int "integers of arbitrary digits with a sign";
    "L05" "int_t" 't' l05_int_t "longer integers";
    "L05" "int_bounds" 'q' l05_int_bounds "integers near the limits of 64 bits";
    "L05" "limits" 'q' l05_limits "limits and offsets";
    "L05" "decimal" 'q' l05_decimal "decimals";
    "L05" "exponent" 'q' l05_exponent "exponents";
    "L05" "exponent_bounds" 'q' l05_exponent_bounds "exponents near the limits of 16, 32 and 64 bits, up to 22 digits";
    "L05" "boolean" 'q' l05_boolean "booleans";
    "L06" "statements" 'q' l06_stmt "letters of every keyword in either case, 1 production";
    "L06" "functions" 'q' l06_functions "letters of every function name in either case";
    "L06" "aggregates" 'q' l06_aggregates "letters of aggregates in either case";
    "L06" "patterns" 'q' l06_patterns "letters of graph pattern keywords in either case";
    "L06" "expressions" 'q' l06_expr "letters of operators in either case";
    "L06" "modifiers" 'q' l06_modifiers "letters of modifiers in either case";
    "L06" "updates" 'q' l06_updates "letters of updates in either case";
    "L06" "look_alikes" 'q' l06_look_alikes "characters and ligatures whose case folding is a letter of ASCII, in the place of that letter of a keyword";
    "L06" "foreign" 'q' l06_foreign "any character outside of ASCII in the place of every letter of a keyword, 1 production";
    "L06" "foreign_expr" 'q' l06_foreign_expr "any character outside of ASCII in the place of every letter of functions, aggregates and operators";
    "L06" "foreign_pattern" 'q' l06_foreign_pattern "any character outside of ASCII in the place of every letter of graph pattern keywords";
    "L06" "foreign_modifiers" 'q' l06_foreign_modifiers "any character outside of ASCII in the place of every letter of modifiers";
    "L06" "foreign_update" 'q' l06_foreign_update "any character outside of ASCII in the place of every letter of updates, 1 production";
    "L06" "words" 'q' l06_words "a keyword followed by a name character, 1 production";
    "L06" "words2" 't' l06_words2 "a keyword followed by a name character, 2 productions";
    "L06" "words_expr" 'q' l06_words_expr "a keyword in an expression followed by a name character";
    "L06" "words_pattern" 'q' l06_words_pattern "a keyword in a pattern followed by a name character";
    "L06" "words_update" 'q' l06_words_update "a keyword in an update followed by a name character";
    "L06" "wild" 'q' l06_wild "1000 texts of 4 to 12 productions other than the simplest of every kind, every letter of every keyword in either case";
    "L06" "wild_t" 't' l06_wild_t "10000 texts of 4 to 12 productions other than the simplest of every kind, every letter of every keyword in either case";
    "L06" "words_wild" 'q' l06_words_wild "200 texts of 4 to 12 productions other than the simplest of every kind, one keyword followed by a name character";
    "L06" "words_wild_t" 't' l06_words_wild_t "2000 texts of 4 to 12 productions other than the simplest of every kind, one keyword followed by a name character";
    "L07" "statements" 'q' l07_stmt "one arbitrary gap, 1 production";
    "L07" "statements2" 't' l07_stmt2 "one arbitrary gap, 2 productions";
    "L07" "expressions" 'q' l07_expr "one arbitrary gap in an expression";
    "L07" "patterns" 'q' l07_pattern "one arbitrary gap in a graph pattern";
    "L07" "triples" 'q' l07_triples "one arbitrary gap in triples, 1 production";
    "L07" "paths" 'q' l07_path "one arbitrary gap in a path, 1 production";
    "L07" "modifiers" 'q' l07_modifiers "one arbitrary gap in solution modifiers";
    "L07" "updates" 'q' l07_updates "one arbitrary gap in updates";
    "L07" "expressions_t" 't' l07_expr_t "one arbitrary gap of up to 5 characters in an expression";
    "L07" "patterns_t" 't' l07_pattern_t "one arbitrary gap of up to 5 characters in a graph pattern";
    "L07" "triples_t" 't' l07_triples_t "one arbitrary gap of up to 5 characters in triples, 2 productions";
    "L07" "paths_t" 't' l07_path_t "one arbitrary gap of up to 5 characters in a path, 2 productions";
    "L07" "modifiers_t" 't' l07_modifiers_t "one arbitrary gap of up to 5 characters in solution modifiers";
    "L07" "styles" 'q' l07_styles "all gaps empty or long";
    "L07" "long" 'q' l07_long "gaps of up to 300 arbitrary characters";
    "L07" "other" 'q' l07_other "one character that is neither whitespace nor part of a token in a gap: nothing behind it is consumed";
    "L07" "inside" 'q' l07_inside "whitespace inside of 14 tokens";
    "L07" "wild" 'q' l07_wild "20 texts of 4 to 12 productions other than the simplest of every kind, one arbitrary gap";
    "L07" "wild_t" 't' l07_wild_t "2000 texts of 4 to 12 productions other than the simplest of every kind, one arbitrary gap";
    "L07" "other_wild" 'q' l07_other_wild "20 texts of 4 to 12 productions other than the simplest of every kind, one character that is neither whitespace nor part of a token in a gap";
    "L07" "other_wild_t" 't' l07_other_wild_t "2000 texts of 4 to 12 productions other than the simplest of every kind, one character that is neither whitespace nor part of a token in a gap";
    "S01" "query" 'q' s01_query "one arbitrary character at 85 places";
    "S01" "query2" 'q' s01_query2 "two arbitrary ASCII characters at 85 places";
    "S01" "query3" 't' s01_query3 "three arbitrary characters at 85 places";
    "S01" "update" 'q' s01_update "two arbitrary characters at 29 places of updates";
    "S01" "long" 'q' s01_long "40 long tokens or repetitions of up to 400, an arbitrary character at 5 places of each";
    "S01" "start" 'q' s01_start "every text of up to 3 characters for 8 parsers";
    "S02" "query" 'q' s02_query "one arbitrary character at 85 places";
    "S02" "query2" 'q' s02_query2 "two arbitrary ASCII characters at 85 places";
    "S02" "update" 'q' s02_update "one arbitrary character at 29 places of updates";
    "S02" "long" 'q' s02_long "40 long tokens or repetitions of up to 400, an arbitrary character at 5 places of each";
    "S02" "after" 'q' s02_after "one arbitrary character after statements with 2 productions, for the parsers of statements and of each form";
    "S02" "after2_t" 't' s02_after2_t "two arbitrary ASCII characters after statements with 2 productions, for the parsers of statements and of each form";
    "S02" "after2" 'q' s02_after2 "two arbitrary ASCII characters after statements with 1 production, for the parsers of statements and of each form";
    "S02" "after_update" 'q' s02_after_update "up to two arbitrary characters after updates with 1 production";
    "S02" "prefix" 'q' s02_prefix "up to two arbitrary characters after 10 statements";
    "S02" "same" 'q' s02_same "statements with 1 production and an arbitrary character after them";
    "S02" "history" 'q' history "1, 2, 35, 70, 140 and 300 earlier parses of 23 texts (each, and in turn) before 15 statements";
    "S02" "wild" 'q' s02_wild "500 texts of 4 to 12 productions other than the simplest of every kind, an arbitrary ASCII character after them";
    "S02" "wild_t" 't' s02_wild_t "5000 texts of 4 to 12 productions other than the simplest of every kind, an arbitrary ASCII character after them";
    "S03" "deep" 'q' s03_deep "40 levels of 49 constructs, an arbitrary character at 3 places";
    "S03" "broken" 'q' s03_broken "40 levels of 49 constructs, cut or with another byte in the innermost";
    "S03" "update" 'q' s03_update "40 levels or repetitions of 10 constructs of updates, an arbitrary character at 3 places";
    "S03" "deep80" 'q' s03_deep_t "80 levels of 49 constructs, an arbitrary character at 3 places";
    "S03" "deep200" 'q' s03_deepest_t "200 levels of 49 constructs, an arbitrary character at 3 places";
    "A01" "sign" 'q' a01_sign "texts of up to 3 characters";
    "A01" "path_mod" 'q' a01_path_mod "texts of up to 3 characters";
    "A01" "compatible" 'q' a01_compatible "contents of up to 2 and tags of up to 3 letters";
    "A01" "distinct" 'q' a01_distinct "every aggregate";
    "A01" "constructors" 'q' a01_constructors "texts of up to 3 characters, all numbers of 64 bits";
    "A01" "parsed" 'q' a01_parsed "one symbolic digit each";
    "A01" "equality" 'q' a01_equality "two independent statements with 1 production each";
    "A01" "equality_expr" 'q' a01_equality_expr "two independent expressions with 1 production each";
    "A01" "equality_terms" 'q' a01_equality_terms "two independent terms of every kind, numbers of every notation";
    "A01" "equality_patterns" 't' a01_equality_patterns "two independent patterns with 1 production each";
    "A01" "similar_tokens" 'q' a01_similar_tokens "texts with 1 production, and the same with one token replaced, added, repeated, exchanged or joined with the next";
    "A01" "similar_chars" 'q' a01_similar_chars "texts with 1 production, and the same with one ASCII character changed";
    "A01" "similar_chars_t" 't' a01_similar_chars_t "texts with 1 production, and the same with one ASCII character added or left out";
    "A01" "similar_update" 'q' a01_similar_update "updates with 1 production, and the same with one token or character changed";
    "A01" "clone" 'q' a01_clone "2 productions";
    "A01" "display" 'q' a01_display "every form of query";
    "A01" "similar_wild" 'q' a01_similar_wild "20 texts of 4 to 12 productions other than the simplest of every kind, and the same with one token or character changed";
    "A01" "similar_wild_t" 't' a01_similar_wild_t "500 texts of 4 to 12 productions other than the simplest of every kind, and the same with one token or character changed";
    "M01" "cut" 'q' m01_cut "texts with 1 production cut at every place inside of brackets";
    "M01" "change" 'q' m01_change "texts with 1 production, every bracket replaced";
    "M01" "extra" 'q' m01_extra "texts with 1 production, a bracket between any two tokens";
    "M01" "cut2" 't' m01_cut_t "texts with 2 productions cut at every place inside of brackets";
    "M01" "change2" 't' m01_change_t "texts with 2 productions, every bracket replaced";
    "M01" "extra2" 't' m01_extra_t "texts with 2 productions, a bracket between any two tokens";
    "M01" "cut_wild" 'q' m01_cut_wild "20 texts of 4 to 12 productions other than the simplest of every kind, cut at every place";
    "M01" "cut_wild_t" 't' m01_cut_wild_t "200 texts of 4 to 12 productions other than the simplest of every kind, cut at every place";
    "M01" "change_wild" 'q' m01_change_wild "20 texts of 4 to 12 productions other than the simplest of every kind, every bracket replaced";
    "M01" "change_wild_t" 't' m01_change_wild_t "200 texts of 4 to 12 productions other than the simplest of every kind, every bracket replaced";
    "M01" "extra_wild" 'q' m01_extra_wild "20 texts of 4 to 12 productions other than the simplest of every kind, a bracket between any two tokens";
    "M01" "extra_wild_t" 't' m01_extra_wild_t "200 texts of 4 to 12 productions other than the simplest of every kind, a bracket between any two tokens";
    "M02" "query" 'q' m02_query "one arbitrary character at 85 places";
    "M02" "query2" 'q' m02_query2 "two arbitrary ASCII characters at 85 places";
    "M02" "query3" 't' m02_query3 "three arbitrary characters, one of any length, at 85 places";
    "M02" "long" 'q' m02_long "40 long tokens or repetitions of up to 400, an arbitrary character at 5 places of each";
    "M02" "sizes" 'q' sizes "87 tokens and lists of 31 to 33, 63 to 65, 127 to 129 and 255 to 257 repetitions, with any ASCII character behind";
    "M02" "sizes_large" 'q' sizes_large "87 tokens and lists of 511, 513, 1001 and 1025 repetitions, with any ASCII character behind";
    "M02" "sizes_t" 't' sizes_t "87 tokens and lists of 2049 and 4097 repetitions, with any ASCII character behind";
    "M02" "update" 'q' m02_update "up to two arbitrary characters at 29 places of updates";
    "M02" "update3" 't' m02_update3 "three arbitrary characters, one of any length, at 29 places of updates";
    "M03" "statements" 'q' tok_statements1 "one token replaced, added, repeated, exchanged or joined with the next in statements with 1 production";
    "M03" "statements_runs" 'q' runs_statements "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M03" "statements_twice" 'q' twice_statements "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M03" "statements_wide" 'q' wide_statements "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M04" "patterns_runs" 'q' runs_patterns "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M04" "patterns_twice" 'q' twice_patterns "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M04" "patterns_wide" 'q' wide_patterns "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M04" "triples_runs" 'q' runs_triples "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M04" "triples_twice" 'q' twice_triples "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M04" "triples_wide" 'q' wide_triples "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M05" "expressions_runs" 'q' runs_expressions "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production";
    "M05" "expressions_twice" 'q' twice_expressions "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M05" "expressions_wide" 'q' wide_expressions "any character outside of ASCII in the place of or in front of every character, 1 production";
    "M05" "aggregates_runs" 'q' runs_aggregates "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M05" "aggregates_twice" 'q' twice_aggregates "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M05" "aggregates_wide" 'q' wide_aggregates "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M05" "paths_runs" 'q' runs_paths "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M05" "paths_twice" 'q' twice_paths "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M05" "paths_wide" 'q' wide_paths "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M06" "updates_runs" 'q' runs_updates "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M06" "updates_twice" 'q' twice_updates "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M06" "updates_wide" 'q' wide_updates "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M07" "modifiers_runs" 'q' runs_modifiers "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M07" "modifiers_twice" 'q' twice_modifiers "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M07" "modifiers_wide" 'q' wide_modifiers "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M07" "values_runs" 'q' runs_values "one token two to four times, or one of 31 tokens two or three times in front of or instead of a token, 1 production, expressions of a variable";
    "M07" "values_twice" 'q' twice_values "two tokens of the simplest texts replaced, added, repeated, exchanged or joined with the next";
    "M07" "values_wide" 'q' wide_values "any character outside of ASCII in the place of or in front of every character, 1 production, expressions of a variable";
    "M03" "statements2" 't' tok_statements2 "one token replaced, added, repeated, exchanged or joined with the next in statements with 2 productions";
    "M03" "statements_chars" 'q' chr_statements1 "one arbitrary ASCII character in the place of or in front of every character of statements with 1 production and expressions of a variable, or one left out";
    "M03" "statements_chars2" 't' chr_statements2 "one arbitrary ASCII character in the place of or in front of every character of statements with 2 productions, or one left out";
    "M03" "statements_wild" 'q' m03_statements_wild "20 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M03" "statements_wild_t" 't' m03_statements_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M03" "statements_chars_wild" 'q' m03_statements_chars_wild "20 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M03" "statements_chars_wild_t" 't' m03_statements_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M04" "patterns" 'q' tok_patterns1 "one token replaced, added, repeated, exchanged or joined with the next in patterns with 1 production and expressions of a variable";
    "M04" "patterns2" 't' tok_patterns2 "one token replaced, added, repeated, exchanged or joined with the next in patterns with 2 productions";
    "M04" "triples" 'q' tok_triples1 "one token replaced, added, repeated, exchanged or joined with the next in triples with 1 production";
    "M04" "triples2" 't' tok_triples2 "one token replaced, added, repeated, exchanged or joined with the next in triples with 2 productions";
    "M04" "patterns_chars" 'q' chr_patterns1 "one arbitrary ASCII character in the place of or in front of every character of patterns with 1 production and expressions of a variable, or one left out";
    "M04" "patterns_chars2" 't' chr_patterns2 "one arbitrary ASCII character in the place of or in front of every character of patterns with 2 productions, or one left out";
    "M04" "triples_chars" 'q' chr_triples1 "one arbitrary ASCII character in the place of or in front of every character of triples with 1 production, or one left out";
    "M04" "triples_chars2" 't' chr_triples2 "one arbitrary ASCII character in the place of or in front of every character of triples with 2 productions, or one left out";
    "M04" "patterns_wild" 'q' m04_patterns_wild "20 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M04" "patterns_wild_t" 't' m04_patterns_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M04" "patterns_chars_wild" 'q' m04_patterns_chars_wild "20 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M04" "patterns_chars_wild_t" 't' m04_patterns_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M04" "triples_wild" 'q' m04_triples_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M04" "triples_wild_t" 't' m04_triples_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M04" "triples_chars_wild" 'q' m04_triples_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M04" "triples_chars_wild_t" 't' m04_triples_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "expressions" 'q' tok_expressions1 "one token replaced, added, repeated, exchanged or joined with the next in expressions with 1 production";
    "M05" "expressions2" 't' tok_expressions2 "one token replaced, added, repeated, exchanged or joined with the next in expressions with 2 productions";
    "M05" "aggregates" 'q' tok_aggregates1 "one token replaced, added, repeated, exchanged or joined with the next in aggregates of a variable with 1 production";
    "M05" "aggregates2" 't' tok_aggregates2 "one token replaced, added, repeated, exchanged or joined with the next in aggregates with 2 productions";
    "M05" "paths" 'q' tok_paths1 "one token replaced, added, repeated, exchanged or joined with the next in paths with 1 production";
    "M05" "paths2" 't' tok_paths2 "one token replaced, added, repeated, exchanged or joined with the next in paths with 2 productions";
    "M05" "expressions_chars" 'q' chr_expressions1 "one arbitrary ASCII character in the place of or in front of every character of expressions with 1 production, or one left out";
    "M05" "expressions_chars2" 't' chr_expressions2 "one arbitrary ASCII character in the place of or in front of every character of expressions with 2 productions, or one left out";
    "M05" "aggregates_chars" 'q' chr_aggregates1 "one arbitrary ASCII character in the place of or in front of every character of aggregates of a variable with 1 production, or one left out";
    "M05" "aggregates_chars2" 't' chr_aggregates2 "one arbitrary ASCII character in the place of or in front of every character of aggregates with 2 productions, or one left out";
    "M05" "paths_chars" 'q' chr_paths1 "one arbitrary ASCII character in the place of or in front of every character of paths with 1 production, or one left out";
    "M05" "paths_chars2" 't' chr_paths2 "one arbitrary ASCII character in the place of or in front of every character of paths with 2 productions, or one left out";
    "M05" "expressions_wild" 'q' m05_expressions_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "expressions_wild_t" 't' m05_expressions_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "expressions_chars_wild" 'q' m05_expressions_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "expressions_chars_wild_t" 't' m05_expressions_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "aggregates_wild" 'q' m05_aggregates_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "aggregates_wild_t" 't' m05_aggregates_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "aggregates_chars_wild" 'q' m05_aggregates_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "aggregates_chars_wild_t" 't' m05_aggregates_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "paths_wild" 'q' m05_paths_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "paths_wild_t" 't' m05_paths_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M05" "paths_chars_wild" 'q' m05_paths_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M05" "paths_chars_wild_t" 't' m05_paths_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M06" "updates" 'q' tok_updates1 "one token replaced, added, repeated, exchanged or joined with the next in updates with 1 production";
    "M06" "updates2" 't' tok_updates2 "one token replaced, added, repeated, exchanged or joined with the next in updates with 2 productions";
    "M06" "updates_chars" 'q' chr_updates1 "one arbitrary ASCII character in the place of or in front of every character of updates with 1 production, or one left out";
    "M06" "updates_chars2" 't' chr_updates2 "one arbitrary ASCII character in the place of or in front of every character of updates with 2 productions, or one left out";
    "M06" "updates_wild" 'q' m06_updates_wild "20 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M06" "updates_wild_t" 't' m06_updates_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M06" "updates_chars_wild" 'q' m06_updates_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M06" "updates_chars_wild_t" 't' m06_updates_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M07" "modifiers" 'q' tok_modifiers1 "one token replaced, added, repeated, exchanged or joined with the next in modifiers with 1 production";
    "M07" "modifiers2" 't' tok_modifiers2 "one token replaced, added, repeated, exchanged or joined with the next in modifiers with 2 productions";
    "M07" "values" 'q' tok_values1 "one token replaced, added, repeated, exchanged or joined with the next in data blocks with 1 production";
    "M07" "values2" 't' tok_values2 "one token replaced, added, repeated, exchanged or joined with the next in data blocks with 2 productions";
    "M07" "modifiers_chars" 'q' chr_modifiers1 "one arbitrary ASCII character in the place of or in front of every character of modifiers with 1 production and expressions of a variable, or one left out";
    "M07" "modifiers_chars2" 't' chr_modifiers2 "one arbitrary ASCII character in the place of or in front of every character of modifiers with 2 productions, or one left out";
    "M07" "values_chars" 'q' chr_values1 "one arbitrary ASCII character in the place of or in front of every character of data blocks with 1 production, or one left out";
    "M07" "values_chars2" 't' chr_values2 "one arbitrary ASCII character in the place of or in front of every character of data blocks with 2 productions, or one left out";
    "M07" "modifiers_wild" 'q' m07_modifiers_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M07" "modifiers_wild_t" 't' m07_modifiers_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M07" "modifiers_chars_wild" 'q' m07_modifiers_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M07" "modifiers_chars_wild_t" 't' m07_modifiers_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M07" "values_wild" 'q' m07_values_wild "40 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M07" "values_wild_t" 't' m07_values_wild_t "500 texts of 4 to 12 productions other than the simplest, one token at 16 places replaced, added, repeated, exchanged or joined with the next";
    "M07" "values_chars_wild" 'q' m07_values_chars_wild "40 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
    "M07" "values_chars_wild_t" 't' m07_values_chars_wild_t "500 texts of 4 to 12 productions other than the simplest, one arbitrary ASCII character in the place of or in front of 16 characters, or one left out";
}
