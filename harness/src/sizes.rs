//! Long texts and long histories.
use crate::props::agree;
use crate::sym::*;
use nom_sparql::parser::sparql_query_stmt;
use nom_sparql::verif_hooks::update;

type Rep = (&'static str, &'static str, &'static str, bool);
/// in front, repeated, behind, whether it is an update
const REPS: &[Rep] = &[
    // tokens
    ("SELECT ?v", "x", " { }", false),
    ("SELECT $", "7", " { }", false),
    ("DESCRIBE <", "i", ">", false),
    ("DESCRIBE <", "\u{e9}", ">", false),
    ("DESCRIBE p:", "l", "", false),
    ("DESCRIBE p", "p", ":l", false),
    ("DESCRIBE p:", "%4f", "x", false),
    ("DESCRIBE p:", "\\-", "", false),
    ("DESCRIBE p:", ":", "", false),
    ("DESCRIBE p:x", ".x", "", false),
    ("PREFIX p", "q", ": <i> ASK { }", false),
    ("PREFIX p", "-.q", ": <i> ASK { }", false),
    ("BASE <", "i", "> ASK { }", false),
    ("ASK { ?s ?p \"", "x", "\" }", false),
    ("ASK { ?s ?p '", "\u{4e00}", "' }", false),
    ("ASK { ?s ?p \"", "\\n", "\" }", false),
    ("ASK { ?s ?p 'x'@e", "n", " }", false),
    ("ASK { ?s ?p 'x'@en", "-u5", " }", false),
    ("ASK { ?s ?p 'x'^^<", "i", "> }", false),
    ("ASK { ?s ?p _:b", "b", " }", false),
    ("ASK { ?s ?p _:b", "-.b", " }", false),
    ("ASK { ?s ?p (", " ", ") }", false),
    ("ASK { ?s ?p [", "\t\r\n", "] }", false),
    ("ASK { ?s ?p 00", "0", "7 }", false),
    ("ASK { ?s ?p 0.", "0", "7 }", false),
    ("ASK { } LIMIT 1 OFFSET 0", "0", "1", false),
    ("#", "c", "\nASK { }", false),
    ("", "#\n", "ASK { }", false),
    ("ASK ", "#\u{e9}}\r", "{ }", false),
    ("ASK", " ", "{ }", false),
    ("ASK { }", "\n", "", false),
    ("ASK { }", " #x\n", "", false),
    ("SELECT(GROUP_CONCAT(?a;SEPARATOR=\"", "s", "\") AS ?x) { }", false),
    // lists
    ("", "PREFIX p: <i> ", "ASK { }", false),
    ("", "BASE <b> PREFIX :<i>\n", "ASK { }", false),
    ("SELECT ", "?x ", "{ }", false),
    ("SELECT ", "(?a AS ?x)", "{ }", false),
    ("DESCRIBE ?a", "?b", "", false),
    ("DESCRIBE ?a", " <b> c:d", "", false),
    ("ASK ", "FROM <i> ", "{ }", false),
    ("ASK ", "FROM NAMED p:x FROM <i> ", "{ }", false),
    ("ASK { } GROUP BY ?a ", "?x ", "", false),
    ("ASK { } GROUP BY ?a ", "(?x AS ?y) ", "", false),
    ("ASK { } HAVING (?a)", "(?x)", "", false),
    ("ASK { } ORDER BY ?a", "?x", "", false),
    ("ASK { } ORDER BY ?a", " DESC(?x)ASC(?y)", "", false),
    ("ASK { } VALUES ?x { ", "1 ", "}", false),
    ("ASK { } VALUES ( ", "?x ", ") { }", false),
    ("ASK { } VALUES ( ?x ) { ", "(1)", "}", false),
    ("ASK { VALUES ( ?x ) { ( ", "UNDEF ", ") } }", false),
    ("ASK { ", "?s ?p ?o . ", "}", false),
    ("ASK { ?s ?p ?o", " . <s> a 1 ", "}", false),
    ("ASK { ?s ?p ?o", ";p:p 'x'", "}", false),
    ("ASK { ?s ?p ?o", ";", "}", false),
    ("ASK { ?s ?p ?o", ",_:b", "}", false),
    ("ASK { ?s ?p ?o ", "{ } ", "}", false),
    ("ASK { ", "{ } . ?s ?p ?o .", "}", false),
    ("ASK { { } ", "UNION { } ", "}", false),
    ("ASK { ", "OPTIONAL { } ", "}", false),
    ("ASK { ", "FILTER(?x) ", "}", false),
    ("ASK { ", "BIND(1 AS ?x) ", "}", false),
    ("ASK { ", "MINUS { } . GRAPH ?g { } ", "}", false),
    ("ASK { ", "VALUES ?x { } SERVICE <s> { } ", "}", false),
    ("ASK { ?s ?p ( ?x", " ?x", ") }", false),
    ("ASK { ?s ?p [ ?p ?o", "; ?x ?y", "] }", false),
    ("ASK { ?s <p>", "/<q>", " ?o }", false),
    ("ASK { ?s <p>", "|^a*", " ?o }", false),
    ("ASK { ?s !(<p>", "|^a", ") ?o }", false),
    ("ASK { FILTER(?x", " + ?x", ") }", false),
    ("ASK { FILTER(?x", "*?x/1-2", ") }", false),
    ("ASK { FILTER(?x", " -1", ") }", false),
    ("ASK { FILTER(?x", " && ?x", ") }", false),
    ("ASK { FILTER(?x", "||?x&&1=2", ") }", false),
    ("ASK { FILTER(?x IN ( 1", ", 2", ")) }", false),
    ("ASK { FILTER <f>( 1", ", 2", ") }", false),
    ("ASK { FILTER COALESCE( 1", ",?x", ") }", false),
    ("ASK { FILTER CONCAT( 1", ",'x'", ") }", false),
    ("CONSTRUCT { ?s ?p ?o ", ". ?a ?b ?c ", "} { }", false),
    ("CONSTRUCT WHERE { ?s ?p ?o ", "; ?a ?b , ?c ", "}", false),
    ("INSERT DATA { ?s ?p ?o", " . ?s ?p ?o", "}", true),
    ("INSERT DATA { ", "GRAPH <g> { } ", "}", true),
    ("DELETE DATA { ", "GRAPH <g> { } . ?s ?p ?o ", "}", true),
    ("CLEAR ALL", " ; CLEAR ALL", "", true),
    ("DROP ALL", ";PREFIX p:<i>LOAD <i>", "", true),
    ("DELETE { } ", "USING <i> ", "WHERE { }", true),
    ("DELETE { } INSERT { } USING <x> ", "USING NAMED p:x ", "WHERE { }", true),
    ("DELETE WHERE { ", "?s ?p ?o . ", "}", true),
];
fn sized(ns: &[u16]) {
    let k = choice(REPS.len() as u8) as usize;
    let (a, m, b, upd) = REPS[k];
    let n = ns[choice(ns.len() as u8) as usize] as usize;
    // requests are read by recursion
    assume(n < 2000 || !(upd && m.contains(';')));
    let mut t = Vec::with_capacity(a.len() + b.len() + n * m.len() + 8);
    t.extend_from_slice(a.as_bytes());
    for _ in 0..n {
        t.extend_from_slice(m.as_bytes());
    }
    t.extend_from_slice(b.as_bytes());
    // and a character after it
    if choice(2) == 1 {
        let x = byte(b'}');
        assume(x < 0x80);
        t.push(x);
    }
    agree(&t, upd);
    std::mem::forget(t);
}
pub fn sizes() {
    sized(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257])
}
pub fn sizes_large() {
    sized(&[511, 513, 1001, 1025])
}
pub fn sizes_t() {
    sized(&[2049, 4097])
}

/// what is parsed before
const BEFORE: &[(&str, bool)] = &[
    ("", false),
    ("\u{e9}", false),
    ("PREFIX p: <i> BASE <b> ASK { p:x ?y <z> }", false),
    ("SELECT * { ?a", false),
    ("ASK {{{{{{{{ ?a ?b ?c }}}", false),
    ("ASK { ?a ?b ((((((1", false),
    ("ASK { ((((((?a) ?b ?c }", false),
    ("ASK { ?a ?b [ ?c [ ?d [ ?e", false),
    ("ASK { FILTER((((((?a + 1)) }", false),
    ("ASK { FILTER(!!!?a) FILTER(?a + ) }", false),
    ("ASK { FILTER(STR(STR(STR(?a)) }", false),
    ("ASK { ?a ^(^(<p>/!(a|^<q>) ?b }", false),
    ("ASK { ?a ?b 1e }", false),
    ("ASK { ?a ?b 'x", false),
    ("DESCRIBE <x", false),
    ("ASK { _:a ?b _:a OPTIONAL { _:a ?b _:a } }", false),
    ("ASK { { SELECT (1 AS ?x) { } GROUP BY ?x } FILTER EXISTS { } }", false),
    ("CONSTRUCT { ?a ?b ?c } { ?a ?b ?c } LIMIT 1", false),
    ("ASK { } VALUES ?x { 1 2", false),
    ("SELECT (COUNT(*) AS ?x) (SUM(DISTINCT ?y) AS ?z) { } HAVING(1) ORDER BY ?x", false),
    ("INSERT DATA { GRAPH <g> { ?a ?b ?c", true),
    ("PREFIX p: <i> INSERT DATA { p:a _:b 1 } ; LOAD <i>", true),
    ("DELETE { } WHERE { FILTER(?a", true),
];
const FINAL: &[(&str, bool)] = &[
    ("ASK { }", false),
    ("PREFIX p: <i> BASE <b> ASK { p:x ?y <z> }", false),
    ("SELECT * { ?a ?b ?c }", false),
    ("ASK {{{{{{ ?a ?b ?c }}}}}}", false),
    ("ASK { ((((1)))) ?b [ ?c [ ?d [ ?e () ] ] ] }", false),
    ("ASK { FILTER((((((?a + 1)))*STR(STR(?b)))) }", false),
    ("ASK { ?a ^(^(<p>/!(a|^<q>)))* ?b }", false),
    ("DESCRIBE <x> ?y FROM p:x { ?a ?b 'x'@en , 1.5e3 , true }", false),
    ("ASK { _:a ?b _:a OPTIONAL { _:a ?b _:a } FILTER EXISTS { { } UNION { } } }", false),
    ("SELECT DISTINCT (COUNT(*) AS ?x) { { SELECT * { } } } GROUP BY ?x HAVING(1) ORDER BY ?x LIMIT 1 VALUES ?x { 1 }", false),
    ("CONSTRUCT { ?a ?b ?c } { ?a ?b ?c } LIMIT 1", false),
    ("ASK { ?a ?b 1e }", false),
    ("ASK { { }", false),
    ("PREFIX p: <i> INSERT DATA { p:a _:b 1 } ; LOAD <i>", true),
    ("DELETE { } INSERT { ?a ?b ?c } USING <i> WHERE { FILTER(?a) }", true),
];
fn parse_away(c: &(&str, bool)) {
    if c.1 {
        drop(update(c.0))
    } else {
        drop(sparql_query_stmt(c.0))
    }
}
/// what was parsed before makes no difference
pub fn history() {
    let k = choice(BEFORE.len() as u8 + 1) as usize;
    let n = [1u16, 2, 35, 70, 140, 300][choice(6) as usize];
    for i in 0..n as usize {
        parse_away(BEFORE.get(k).unwrap_or(&BEFORE[i % BEFORE.len()]))
    }
    let (f, upd) = FINAL[choice(FINAL.len() as u8) as usize];
    let mut t = Vec::with_capacity(200);
    t.extend_from_slice(f.as_bytes());
    if n == 1 && choice(2) == 1 {
        let x = byte(b'}');
        assume(x < 0x80);
        t.push(x);
    }
    agree(&t, upd);
    std::mem::forget(t);
}
