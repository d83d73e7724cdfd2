//! The same content at every place where the grammar has it.  The text is a
//! frame around generated content; the recogniser of the grammar says what
//! tree it denotes.
use crate::gen::*;
use crate::props::agree;
use crate::sym::*;

type Frame = (&'static str, &'static str);

/// what a group holds
const GROUPS: &[Frame] = &[
    ("SELECT*{", "}"),
    ("SELECT ?x WHERE {", "}LIMIT 1"),
    ("SELECT DISTINCT ?x FROM <i>{", "}ORDER BY ?x VALUES ?x{1}"),
    ("CONSTRUCT{}{", "}"),
    ("CONSTRUCT {?x ?y ?z.} WHERE{", "} OFFSET 2"),
    ("DESCRIBE ?x {", "}"),
    ("DESCRIBE * WHERE{", "}GROUP BY ?x"),
    ("ASK{{", "}}"),
    ("ASK{OPTIONAL{", "}}"),
    ("ASK{?x ?y ?z OPTIONAL{", "}?x ?y ?z}"),
    ("ASK{MINUS{", "}}"),
    ("ASK{{}UNION{", "}}"),
    ("ASK{{", "}UNION{}}"),
    ("ASK{{}UNION{", "}UNION{}.?x ?y ?z}"),
    ("ASK{GRAPH ?g{", "}}"),
    ("ASK{GRAPH <g>{", "}.}"),
    ("ASK{SERVICE <s>{", "}}"),
    ("ASK{SERVICE SILENT ?s{", "}FILTER(1)}"),
    ("ASK{FILTER EXISTS{", "}}"),
    ("ASK{FILTER(NOT EXISTS{", "})}"),
    ("ASK{FILTER(?x||EXISTS{", "}&&?y)}"),
    ("ASK{BIND(EXISTS{", "}AS ?x)}"),
    ("SELECT(EXISTS{", "}AS ?x){}"),
    ("ASK{}HAVING(EXISTS{", "})"),
    ("ASK{}ORDER BY EXISTS{", "}"),
    ("ASK{{SELECT*{", "}}}"),
    ("ASK{{SELECT ?x(1 AS ?y)WHERE{", "}GROUP BY ?x HAVING(1)ORDER BY ?x LIMIT 1 VALUES ?x{}}}"),
    ("ASK{OPTIONAL{SELECT*{", "}}}"),
    ("ASK{{{{", "}}}}"),
];
const GROUPS_UPDATE: &[Frame] = &[
    ("DELETE{}WHERE{", "}"),
    ("INSERT{?x ?y ?z}WHERE{", "}"),
    ("WITH <i> DELETE{}INSERT{}USING <i> WHERE{", "}"),
    ("DELETE{}WHERE{OPTIONAL{", "}}"),
    ("DELETE{}WHERE{{SELECT*{", "}}}"),
    ("INSERT{}WHERE{FILTER NOT EXISTS{", "}};CLEAR ALL"),
];
/// where an expression stands
const EXPRS: &[Frame] = &[
    ("SELECT(", " AS ?x){}"),
    ("SELECT ?w(1 AS ?y)(", " AS ?x)(2 AS ?z){}"),
    ("SELECT DISTINCT (", " AS ?x){}"),
    ("ASK{FILTER(", ")}"),
    ("ASK{?x ?y ?z.FILTER(", ").?x ?y ?z}"),
    ("ASK{BIND(", " AS ?x)}"),
    ("ASK{}GROUP BY(", ")"),
    ("ASK{}GROUP BY ?x(", " AS ?x)?y"),
    ("ASK{}HAVING(", ")"),
    ("ASK{}HAVING(1)(", ")(2)"),
    ("ASK{}ORDER BY(", ")"),
    ("ASK{}ORDER BY ?x DESC(", ")ASC(1)"),
    ("ASK{FILTER STR(", ")}"),
    ("ASK{FILTER(?a IN(", "))}"),
    ("ASK{FILTER(?a NOT IN(1,", ",2))}"),
    ("ASK{FILTER(COALESCE(?a,", "))}"),
    ("ASK{FILTER(IF(", ",1,2))}"),
    ("ASK{FILTER(IF(1,2,", "))}"),
    ("ASK{FILTER REGEX(?a,", ",'i')}"),
    ("ASK{FILTER(SUBSTR(?a,1,", "))}"),
    ("ASK{FILTER(REPLACE(", ",?a,?b))}"),
    ("ASK{FILTER(LANGMATCHES(?a,", "))}"),
    ("ASK{FILTER(BNODE(", "))}"),
    ("SELECT(COUNT(", ")AS ?x){}"),
    ("SELECT(SUM(DISTINCT ", ")AS ?x){}"),
    ("SELECT(GROUP_CONCAT(", ";SEPARATOR=',')AS ?x){}"),
    ("ASK{FILTER <f>(", ")}"),
    ("ASK{FILTER p:f(DISTINCT 1,", ",2)}"),
    ("ASK{FILTER(!(", "))}"),
    ("ASK{FILTER(-(", ")+1)}"),
    ("ASK{FILTER(1+(", ")*2)}"),
    ("ASK{FILTER(?a=(", "))}"),
    ("ASK{FILTER(?a&&(", ")||?b)}"),
    ("ASK{{SELECT(", " AS ?x){}}}"),
    ("ASK{{SELECT*{}HAVING(", ")}}"),
    ("ASK{FILTER EXISTS{FILTER(", ")}}"),
    ("CONSTRUCT{}{FILTER(", ")}"),
    ("DESCRIBE ?x{FILTER(", ")}"),
];
/// where triples stand that have no paths
const TEMPLATES: &[Frame] = &[
    ("CONSTRUCT{", "}{}"),
    ("CONSTRUCT {?a ?b ?c.", "}{?a ?b ?c}"),
    ("CONSTRUCT WHERE{", "}"),
    ("CONSTRUCT FROM <i> WHERE{", "}LIMIT 1"),
];
const TEMPLATES_UPDATE: &[Frame] = &[
    ("INSERT DATA{", "}"),
    ("DELETE DATA{", "}"),
    ("DELETE WHERE{", "}"),
    ("INSERT DATA{?a ?b ?c.GRAPH <g>{", "}}"),
    ("DELETE DATA{GRAPH ?g{", "}.?a ?b ?c}"),
    ("DELETE{", "}WHERE{}"),
    ("INSERT{", "}WHERE{}"),
    ("DELETE{}INSERT{", "}WHERE{}"),
    ("WITH <i> DELETE{GRAPH <g>{", "}}INSERT{}WHERE{}"),
    ("PREFIX p:<i> INSERT{GRAPH p:{", "}}USING NAMED <i> WHERE{}"),
];
/// what solution modifiers follow
const MODIFIERS: &[Frame] = &[
    ("SELECT*{}", ""),
    ("SELECT ?x FROM <i> WHERE{}", ""),
    ("CONSTRUCT{}{}", ""),
    ("CONSTRUCT WHERE{}", ""),
    ("DESCRIBE ?x", ""),
    ("DESCRIBE <i>{}", ""),
    ("DESCRIBE* FROM NAMED <i>", ""),
    ("ASK{}", "VALUES ?x{}"),
    ("SELECT*{{SELECT*{}", "}}"),
    ("SELECT*{OPTIONAL{SELECT ?x{}", "VALUES ?x{}}}"),
];
/// what goes in front of a data block
const VALUES: &[Frame] = &[
    ("SELECT*{}VALUES", ""),
    ("ASK{}VALUES", ""),
    ("CONSTRUCT WHERE{}LIMIT 1 VALUES", ""),
    ("DESCRIBE ?x VALUES", ""),
    ("ASK{?x ?y ?z.VALUES", "?x ?y ?z}"),
    ("ASK{{}VALUES", "FILTER(1)}"),
    ("ASK{{SELECT*{}VALUES", "}}"),
    ("ASK{{SELECT*{}LIMIT 1 VALUES", "}UNION{}}"),
    ("ASK{OPTIONAL{VALUES", "}}"),
];

fn framed(f: &[Frame], upd: bool, g: G) {
    let (a, b) = f[choice(f.len() as u8) as usize];
    let mut t = Vec::with_capacity(256);
    t.extend_from_slice(a.as_bytes());
    let s = choice(2) == 1;
    if s {
        t.push(b' ');
    } else if a.ends_with(|c: char| c.is_ascii_alphanumeric()) {
        // words do not join
        let c = g.t.iter().find(|c| **c != b' ').map_or(b' ', |c| *c);
        assume(!(c.is_ascii_alphanumeric() | (c == b'_') | (c == b':') | (c >= 0x80)));
    }
    // the generator may begin with a space
    let from = if !s && !g.t.is_empty() && g.t[0] == b' ' { 1 } else { 0 };
    t.extend_from_slice(&g.t[from..]);
    if s {
        t.push(b' ');
    }
    t.extend_from_slice(b.as_bytes());
    agree(&t, upd);
    std::mem::forget((g, t));
}
fn new(d: u8) -> G {
    let mut g = G::new().dev(d);
    if choice(2) == 1 {
        g.gap = Gap::Tight;
    }
    g
}
fn one_pattern(g: &mut G) {
    let k = choice(8);
    g.graph_pattern(k)
}
pub fn g01_places() {
    let mut g = new(1);
    g.plain = true;
    if choice(2) == 0 {
        g.ggp_sub();
    } else {
        g.dev = 0;
        one_pattern(&mut g);
    }
    if choice(5) == 0 {
        framed(GROUPS_UPDATE, true, g)
    } else {
        framed(GROUPS, false, g)
    }
}
pub fn g01_places_t() {
    let mut g = new(1);
    one_pattern(&mut g);
    if choice(5) == 0 {
        framed(GROUPS_UPDATE, true, g)
    } else {
        framed(GROUPS, false, g)
    }
}
fn g02_places_of(d: u8) {
    let mut g = new(d);
    match choice(4) {
        0 => {
            g.triples_block();
            framed(GROUPS, false, g)
        }
        1 => {
            g.triples_block();
            framed(GROUPS_UPDATE, true, g)
        }
        2 => {
            g.template1();
            framed(TEMPLATES, false, g)
        }
        _ => {
            g.template1();
            framed(TEMPLATES_UPDATE, true, g)
        }
    }
}
pub fn g02_places() {
    g02_places_of(1)
}
pub fn g02_places_t() {
    g02_places_of(2)
}
pub fn g03_places() {
    let mut g = new(2);
    let paths = choice(2) == 0;
    let upd = choice(2) == 0;
    match choice(3) {
        0 => g.collection(paths),
        1 => {
            g.var();
            g.var();
            g.collection(paths)
        }
        _ => g.bnpl(paths),
    }
    match (paths, upd) {
        (true, false) => framed(GROUPS, false, g),
        (true, true) => framed(GROUPS_UPDATE, true, g),
        (false, false) => framed(TEMPLATES, false, g),
        (false, true) => framed(TEMPLATES_UPDATE, true, g),
    }
}
pub fn g04_places() {
    let mut g = new(2);
    g.var();
    match choice(3) {
        0 => {
            g.path(0);
            g.var();
        }
        1 => {
            // in a property list, behind another
            g.var();
            g.var();
            g.p(";");
            g.path(0);
            g.var();
        }
        _ => {
            g.var();
            g.p("[");
            g.path(0);
            g.var();
            g.p("]");
        }
    }
    if choice(4) == 0 {
        framed(GROUPS_UPDATE, true, g)
    } else {
        framed(GROUPS, false, g)
    }
}
/// a path where triples have none
pub fn g04_templates() {
    let mut g = new(1);
    g.var();
    g.path(0);
    g.var();
    if choice(2) == 0 {
        framed(TEMPLATES, false, g)
    } else {
        framed(TEMPLATES_UPDATE, true, g)
    }
}
fn g05_places_of(d: u8) {
    let mut g = new(d);
    g.p("{");
    g.sub_select();
    g.p("}");
    if choice(4) == 0 {
        framed(GROUPS_UPDATE, true, g)
    } else {
        framed(GROUPS, false, g)
    }
}
pub fn g05_places() {
    g05_places_of(1)
}
pub fn g05_places_t() {
    g05_places_of(2)
}
pub fn q03_places() {
    let mut g = new(1);
    g.plain = true;
    match choice(4) {
        0 => g.group_by(),
        1 => g.having(),
        2 => g.order_by(),
        _ => {
            g.script = &[2];
            g.limit_offset()
        }
    }
    framed(MODIFIERS, false, g)
}
fn q03_places_of(d: u8) {
    let mut g = new(d);
    g.modifiers();
    framed(MODIFIERS, false, g)
}
pub fn q03_places2() {
    q03_places_of(2)
}
pub fn q03_places_t() {
    q03_places_of(3)
}
pub fn q04_places() {
    let mut g = new(2);
    g.datablock();
    framed(VALUES, false, g)
}
pub fn e01_places() {
    let mut g = new(1);
    g.expr();
    framed(EXPRS, false, g)
}
pub fn e01_places_t() {
    let mut g = new(2);
    g.expr();
    framed(EXPRS, false, g)
}
fn e02_places_of(d: u8) {
    let mut g = new(d);
    let k = choice(FUNS.len() as u8);
    g.fun(k);
    framed(EXPRS, false, g)
}
pub fn e02_places() {
    e02_places_of(0)
}
pub fn e02_places_t() {
    e02_places_of(1)
}
pub fn e03_places() {
    let mut g = new(2);
    g.plain = true;
    g.aggregate();
    framed(EXPRS, false, g)
}
pub fn e04_places() {
    let mut g = new(2);
    g.plain = true;
    match choice(4) {
        0 => g.fn_call(),
        1 => {
            g.kw("NOT EXISTS");
            g.ggp();
        }
        2 => {
            g.var();
            g.kw("IN");
            g.expr_list("nillist", "list");
        }
        _ => {
            g.var();
            g.kw("NOT IN");
            g.expr_list("nillist", "list");
        }
    }
    framed(EXPRS, false, g)
}
