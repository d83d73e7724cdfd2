//! Scenarios about tokens: parts of the text are arbitrary characters.
use crate::dump::{Dump, Out};
use crate::gen::*;
use crate::props::*;
use crate::spec::*;
use crate::sym::*;
use nom::Err;
use nom::IResult;
use nom_sparql::expression::{Iri, PrefixedName};
use nom_sparql::graph::*;
use nom_sparql::node::BlankNode;
use nom_sparql::parser::{sparql_query, sparql_query_stmt};
use nom_sparql::query::ask::ask_query;
use nom_sparql::query::construct::{construct_query, sub_construct, sub_triples};
use nom_sparql::query::describe::describe_query;
use nom_sparql::query::SparqlQuery;
use nom_sparql::var::{Var, VarOrIri, VarOrIrisOrAll};
use nom_sparql::verif_hooks::update;

/// k arbitrary characters
pub struct Hole {
    pub b: Vec<u8>,
    /// code points and where they begin
    pub c: Vec<u32>,
    pub at: Vec<usize>,
}
fn put(h: &mut Hole, c: SymChar) {
    h.at.push(h.b.len());
    h.c.push(c.c);
    h.b.extend_from_slice(c.bytes());
}
pub fn new_hole() -> Hole {
    Hole { b: Vec::with_capacity(32), c: Vec::with_capacity(8), at: Vec::with_capacity(8) }
}
/// n characters, `wide` of them of any length, the others ASCII
pub fn hole(n: u8, wide: u8) -> Hole {
    let mut h = new_hole();
    let mut wide = wide;
    for _ in 0..n {
        let w = if wide > 0 { 1 + choice(4) } else { 1 };
        if w > 1 {
            wide -= 1;
        }
        put(&mut h, sym_char(w));
    }
    h
}
impl Hole {
    /// where the character number i begins or the hole ends
    pub fn pos(&self, i: usize) -> usize {
        if i < self.at.len() {
            self.at[i]
        } else {
            self.b.len()
        }
    }
    pub fn all(&self, f: fn(u32) -> bool) -> bool {
        for c in &self.c {
            if !split(f(*c)) {
                return false;
            }
        }
        true
    }
    pub fn any(&self, f: fn(u32) -> bool) -> bool {
        for c in &self.c {
            if split(f(*c)) {
                return true;
            }
        }
        false
    }
}
/// accepted with the tree of g, or not at all
fn verdict(g: G, good: bool) {
    if good {
        stmt(g)
    } else {
        // a malformed token, or two tokens
        crate::props::agree(&g.t, false);
        std::mem::forget(g);
    }
}
/// one name in front of which and after which there is a space
fn raw(g: &mut G, t: &[&[u8]]) {
    g.t.push(b' ');
    for x in t {
        g.t.extend_from_slice(x);
    }
    g.t.push(b' ');
}

// ---------------------------------------------------------------- L01 IRIs
pub const IRI_CTX: u8 = 12;
/// a statement with an IRI reference at place k; `dumped`: as an iri or only
/// its text
fn iri_at(g: &mut G, k: u8, f: impl FnOnce(&mut G, bool)) {
    match k {
        0 => {
            g.head();
            g.e.open("describe");
            g.kw("DESCRIBE");
            g.e.open("vars");
            f(g, true);
            g.e.close();
            g.no_datasets();
            g.e.none();
            g.no_mods();
            g.e.close();
            g.tail();
        }
        1 => {
            g.head();
            g.e.open("ask");
            g.kw("ASK");
            g.e.open("ds");
            let named = choice(2) == 1;
            g.e.open(if named { "named" } else { "default" });
            g.kw(if named { "FROM NAMED" } else { "FROM" });
            f(g, true);
            g.e.close();
            g.e.close();
            g.empty_group();
            g.no_mods();
            g.e.close();
            g.tail();
        }
        2 | 3 => {
            g.e.open("Q");
            g.e.open("pro");
            if k == 2 {
                g.e.open("base");
                g.kw("BASE");
            } else {
                g.e.open("prefix");
                g.kw("PREFIX");
                g.pname_ns("p", false);
            }
            f(g, false);
            g.e.close();
            g.e.close();
            g.e.open("ask");
            g.kw("ASK");
            g.no_datasets();
            g.empty_group();
            g.no_mods();
            g.e.close();
            g.tail();
        }
        4 => path_stmt(g, |g| f(g, true)),
        5 => g.in_group(|g| {
            g.e.open("tb");
            g.e.open("s");
            f(g, true);
            g.e.open("pl");
            g.e.open("po");
            g.var();
            g.var();
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
        }),
        6 => g.in_group(|g| {
            g.e.open("tb");
            g.e.open("s");
            g.var();
            g.e.open("pl");
            g.e.open("po");
            g.var();
            g.e.tag("'");
            g.p("\"x\"^^");
            g.e.bytes(b"x");
            g.e.tag("^");
            f(g, true);
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
        }),
        7 => g.in_pattern(|g| {
            g.e.open("graph");
            g.kw("GRAPH");
            f(g, true);
            g.empty_group();
            g.e.close();
        }),
        8 => g.in_expr(0, |g| {
            g.e.open("fn");
            f(g, true);
            g.arg_list();
            g.e.close();
        }),
        9 => g.in_expr(1, |g| f(g, true)),
        10 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.e.open("values1");
            g.var();
            g.p("{");
            f(g, true);
            g.p("}");
            g.e.close();
        }),
        _ => {
            g.head();
            g.e.open("construct");
            g.kw("CONSTRUCT");
            g.p("{");
            g.e.open("tt");
            g.e.open("s");
            g.var();
            g.e.open("pl");
            g.e.open("po");
            f(g, true);
            g.var();
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
            g.p("}");
            g.no_datasets();
            g.empty_group();
            g.no_mods();
            g.e.close();
            g.tail();
        }
    }
}
fn l01(k: u8, h: Hole) {
    let good = h.all(iri_char);
    // a second `>` would end the token earlier
    assume(!h.any(|c| c == b'>' as u32));
    let mut g = G::new();
    iri_at(&mut g, k, |g, tag| {
        raw(g, &[b"<", &h.b, b">"]);
        if tag {
            g.e.tag("<");
        }
        g.e.bytes(&h.b);
    });
    verdict(g, good)
}
pub fn l01_content() {
    l01(choice(IRI_CTX), {
        let n = choice(3);
        hole(n, 1)
    })
}
pub fn l01_content3() {
    l01(0, hole(3, 3))
}
pub fn l01_content4() {
    l01(choice(3), hole(4, 1))
}
/// Long IRIs: one character is arbitrary, the others are usual ones.
fn long(n: u8, usual: fn(u32) -> bool, hint: u8) -> Hole {
    let mut h = new_hole();
    let at = choice(n);
    for i in 0..n {
        if i == at {
            put(&mut h, any_char());
        } else {
            let b = byte(hint);
            assume((b < 0x80) & usual(b as u32));
            put(&mut h, SymChar { b: [b, 0, 0, 0], n: 1, c: b as u32 });
        }
    }
    h
}
fn usual_iri(c: u32) -> bool {
    ((c >= b'a' as u32) & (c <= b'z' as u32)) | ((c >= 0x3f) & (c <= 0x5b)) | ((c >= 0x23) & (c <= 0x3b))
}
pub fn l01_long() {
    let n = [7, 12, 17, 33, 70][choice(5) as usize];
    l01(choice(2) * 4, long(n, usual_iri, b'/'))
}
/// The IRI ends at the first `>`.
pub fn l01_end() {
    let n = choice(2);
    let a = hole(n, 1);
    let n = 1 + choice(2);
    let z = hole(n, 1);
    assume(a.all(iri_char));
    let mut t = b"DESCRIBE <".to_vec();
    t.extend_from_slice(&a.b);
    t.push(b'>');
    t.extend_from_slice(&z.b);
    input(&t);
    match describe_query(as_str(&t)) {
        Ok((_, q)) => {
            match &q.var_or_iris_or_all {
                VarOrIrisOrAll::VarIri(v) => match v.first() {
                    Some(VarOrIri::Iri(Iri::Iri(s))) => check_eq(s.as_bytes(), &a.b, 9),
                    _ => check(false, 9),
                },
                _ => check(false, 9),
            }
            std::mem::forget(q)
        }
        Err(e) => {
            std::mem::forget(e);
            check(false, 8)
        }
    }
}

// ----------------------------------------------------------- L02 variables
pub fn l02_longest_n(h: Hole) {
    let sigil = byte(b'?');
    assume((sigil == b'?') | (sigil == b'$'));
    // the longest prefix that is a name
    let mut n = 0;
    for (i, c) in h.c.iter().enumerate() {
        if !split(if i == 0 { var_first(*c) } else { var_rest(*c) }) {
            break;
        }
        n += 1;
    }
    let mut t = b"DESCRIBE ".to_vec();
    t.push(sigil);
    t.extend_from_slice(&h.b);
    input(&t);
    let len = h.pos(n);
    match describe_query(as_str(&t)) {
        Ok((_, q)) => {
            check(n > 0, 7);
            let dollar = sigil == b'$';
            match first(&q.var_or_iris_or_all) {
                Some(VarOrIri::Var(Var::QMark(s))) => {
                    check(!dollar, 20);
                    check_eq(s.as_bytes(), &h.b[..len], 9)
                }
                Some(VarOrIri::Var(Var::Dollar(s))) => {
                    check(dollar, 20);
                    check_eq(s.as_bytes(), &h.b[..len], 9)
                }
                _ => check(false, 9),
            }
            std::mem::forget(q)
        }
        Err(e) => {
            std::mem::forget(e);
            check(n == 0, 8)
        }
    }
}

fn first(v: &VarOrIrisOrAll) -> Option<&VarOrIri> {
    match v {
        VarOrIrisOrAll::VarIri(v) => v.first(),
        _ => None,
    }
}
pub fn l02_longest() {
    let n = choice(3);
    l02_longest_n(hole(n, 2))
}
pub fn l02_longest3() {
    l02_longest_n(hole(3, 1))
}
pub fn l02_longest4() {
    l02_longest_n(hole(4, 2))
}
fn usual_name(c: u32) -> bool {
    (c >= b'a' as u32) & (c <= b'z' as u32)
}
pub fn l02_long() {
    let n = [5, 8, 9, 16, 17, 33, 70][choice(7) as usize];
    l02_longest_n(long(n, usual_name, b'n'))
}
/// names are kept wherever variables occur
pub fn l02_places() {
    let n = 1 + choice(2);
    let h = hole(n, 1);
    assume(var_first(h.c[0]));
    let mut ok = true;
    for c in &h.c[1..] {
        ok &= split(var_rest(*c));
    }
    assume(ok);
    let sigil = byte(b'$');
    assume((sigil == b'?') | (sigil == b'$'));
    let v = |g: &mut G| {
        raw(g, &[&[sigil], &h.b]);
        g.e.b().push(sigil);
        g.e.bytes(&h.b);
    };
    let mut g = G::new();
    match choice(13) {
        0 => {
            g.head();
            g.e.open("select");
            g.kw("SELECT");
            g.e.none();
            g.e.open("vars");
            v(&mut g);
            g.e.close();
            g.no_datasets();
            g.empty_group();
            g.no_mods();
            g.e.close();
            g.tail();
        }
        1 => g.in_pattern(|g| {
            g.e.open("bind");
            g.kw("BIND");
            g.e.open("as");
            g.p("(");
            g.var();
            g.kw("AS");
            v(g);
            g.p(")");
            g.e.close();
            g.e.close();
        }),
        2 => g.in_expr(0, v),
        3 => path_stmt(&mut g, v),
        4 => g.in_group(|g| {
            g.e.open("tb");
            g.e.open("s");
            v(g);
            g.e.open("pl");
            g.e.open("po");
            g.var();
            v(g);
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
        }),
        5 => g.in_pattern(|g| {
            g.e.open("graph");
            g.kw("GRAPH");
            v(g);
            g.empty_group();
            g.e.close();
        }),
        6 => g.in_pattern(|g| {
            g.e.open("service");
            g.kw("SERVICE");
            g.e.flag(false);
            v(g);
            g.empty_group();
            g.e.close();
        }),
        7 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.e.open("values1");
            v(g);
            g.p("{");
            g.p("}");
            g.e.close();
        }),
        8 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.e.open("values");
            g.p("(");
            g.e.open("vars");
            v(g);
            v(g);
            g.e.close();
            g.p(")");
            g.p("{");
            g.p("}");
            g.e.close();
        }),
        9 => g.in_modifier(0, |g| {
            g.e.open("group");
            g.kw("GROUP BY");
            v(g);
            g.e.close();
        }),
        10 => g.in_modifier(2, |g| {
            g.e.open("order");
            g.kw("ORDER BY");
            v(g);
            g.e.close();
        }),
        11 => g.in_expr(4, |g| {
            g.e.open("BOUND");
            g.kw("BOUND");
            g.p("(");
            v(g);
            g.p(")");
            g.e.close();
        }),
        _ => iri_at(&mut g, 11, |g, _| v(g)),
    }
    stmt(g)
}

// ------------------------------------------------------ L03 prefixed names
/// the length in characters of the longest local name
fn local_len(c: &[u32]) -> usize {
    let plx = |i: usize| -> usize {
        if i < c.len() && c[i] == b'%' as u32 {
            if i + 2 < c.len() && (hex(c[i + 1]) & hex(c[i + 2])) {
                return 3;
            }
        } else if i < c.len() && c[i] == b'\\' as u32 {
            if i + 1 < c.len() && local_esc(c[i + 1]) {
                return 2;
            }
        }
        0
    };
    let mut i = 0;
    let mut end = 0;
    while i < c.len() {
        let x = c[i];
        let p = plx(i);
        if p > 0 {
            i += p;
            end = i;
        } else if (x == b':' as u32) | digit(x) | pn_u(x) | ((i > 0) & pn_char(x)) {
            i += 1;
            end = i;
        } else if (i > 0) & (x == b'.' as u32) {
            i += 1;
        } else {
            break;
        }
    }
    end
}
fn l03_local_n(h: Hole, pre: &'static str) {
    // a graph pattern may follow
    assume(!h.any(|c| c == b'{' as u32));
    let n = local_len(&h.c);
    let len = h.pos(n);
    let mut t = b"DESCRIBE ".to_vec();
    t.extend_from_slice(pre.as_bytes());
    t.push(b':');
    t.extend_from_slice(&h.b);
    input(&t);
    let prefix_ok = |p: &Option<String>| match p {
        Some(p) => p.as_str() == pre,
        None => pre.is_empty(),
    };
    match describe_query(as_str(&t)) {
        Ok((_, q)) => {
            match first(&q.var_or_iris_or_all) {
                Some(VarOrIri::Iri(Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }))) => {
                    check(prefix_ok(pn_prefix), 9);
                    check_eq(pn_local.as_bytes(), &h.b[..len], 9);
                    check(n > 0, 9)
                }
                Some(VarOrIri::Iri(Iri::PrefixedName(PrefixedName::PnameNS(p)))) => {
                    check(prefix_ok(p), 9);
                    check(n == 0, 9)
                }
                _ => check(false, 9),
            }
            std::mem::forget(q)
        }
        Err(e) => {
            std::mem::forget(e);
            check(false, 8)
        }
    }
}
pub fn l03_local() {
    let n = choice(3);
    l03_local_n(hole(n, 2), ["", "p.q"][choice(2) as usize])
}
pub fn l03_local3() {
    l03_local_n(hole(3, 1), "p")
}
pub fn l03_local4() {
    l03_local_n(hole(4, 0), "p")
}
pub fn l03_long() {
    let n = [6, 9, 17, 40][choice(4) as usize];
    l03_local_n(long(n, usual_name, b'n'), "p")
}
/// What stands before the colon.
fn l03_prefix_n(h: Hole, decl: bool) {
    // characters that begin or separate other tokens
    assume(!h.any(|c| {
        ws(c) | (c == b'#' as u32) | (c == b'?' as u32) | (c == b'$' as u32) | (c == b'<' as u32)
            | (c == b':' as u32) | (c == b'*' as u32)
    }));
    let n = h.c.len();
    let mut good = true;
    for (i, c) in h.c.iter().enumerate() {
        good &= split(if i == 0 { pn_base(*c) } else { pn_char(*c) | ((*c == b'.' as u32) & (i + 1 < n)) });
    }
    let mut g = G::new();
    let dump = |g: &mut G| if n == 0 { g.e.none() } else { g.e.bytes(&h.b) };
    if decl {
        g.e.open("Q");
        g.e.open("pro");
        g.e.open("prefix");
        g.kw("PREFIX");
        raw(&mut g, &[&h.b, b":"]);
        dump(&mut g);
        g.t.extend_from_slice(b"<i>");
        g.e.bytes(b"i");
        g.e.close();
        g.e.close();
        g.e.open("ask");
        g.kw("ASK");
        g.no_datasets();
        g.empty_group();
        g.no_mods();
        g.e.close();
        g.tail();
    } else {
        iri_at(&mut g, 0, |g, _| {
            raw(g, &[&h.b, b":x"]);
            g.e.tag(":");
            dump(g);
            g.e.bytes(b"x");
        });
    }
    verdict(g, good)
}
pub fn l03_prefix() {
    let n = choice(3);
    l03_prefix_n(hole(n, 2), choice(2) == 1)
}
pub fn l03_prefix3() {
    l03_prefix_n(hole(3, 1), choice(2) == 1)
}
/// prefixed names are kept wherever IRIs may be used
pub fn l03_places() {
    let k = 4 + choice(IRI_CTX - 4);
    let n = 1 + choice(2);
    let h = hole(n, 1);
    assume(local_len(&h.c) == n as usize);
    let mut g = G::new();
    iri_at(&mut g, k, |g, _| {
        raw(g, &[b"p:", &h.b]);
        g.e.tag(":");
        g.e.bytes(b"p");
        g.e.bytes(&h.b);
    });
    stmt(g)
}
/// Labels of blank nodes.
fn l03_blank_n(h: Hole) {
    // characters that begin or separate other tokens
    assume(!h.any(|c| {
        ws(c) | (c == b'#' as u32) | (c == b'?' as u32) | (c == b'$' as u32) | (c == b'<' as u32)
            | (c == b':' as u32) | (c == b'^' as u32) | (c == b'!' as u32) | (c == b'(' as u32)
    }));
    let n = h.c.len();
    let mut good = n > 0;
    for (i, c) in h.c.iter().enumerate() {
        good &= split(if i == 0 {
            pn_u(*c) | digit(*c)
        } else {
            pn_char(*c) | ((*c == b'.' as u32) & (i + 1 < n))
        });
    }
    let mut g = G::new();
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        let subject = choice(2) == 0;
        if !subject {
            g.var();
            g.e.open("pl");
            g.e.open("po");
            g.var();
        }
        raw(g, &[b"_:", &h.b]);
        g.e.tag("_");
        g.e.bytes(&h.b);
        if subject {
            g.e.open("pl");
            g.e.open("po");
            g.var();
            g.var();
        } else {
            // what follows must be read, too
            g.p(",");
            g.var();
        }
        g.e.close();
        g.e.close();
        g.e.close();
        g.e.close();
    });
    verdict(g, good)
}
pub fn l03_blank() {
    let n = choice(3);
    l03_blank_n(hole(n, 2))
}
pub fn l03_blank3() {
    l03_blank_n(hole(3, 1))
}

// ------------------------------------------------------------- L04 strings
fn literal_at(g: &mut G, k: u8, f: impl FnOnce(&mut G)) {
    match k {
        0 => g.in_group(|g| {
            g.e.open("tb");
            g.e.open("s");
            g.var();
            g.e.open("pl");
            g.e.open("po");
            g.var();
            f(g);
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
        }),
        1 => g.in_expr(0, f),
        2 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.e.open("values1");
            g.var();
            g.p("{");
            f(g);
            g.p("}");
            g.e.close();
        }),
        3 => g.in_expr(1, |g| {
            g.e.open("STR");
            g.kw("STR");
            g.p("(");
            f(g);
            g.p(")");
            g.e.close();
        }),
        _ => {
            g.head();
            g.e.open("construct");
            g.kw("CONSTRUCT");
            g.p("{");
            g.e.open("tt");
            g.e.open("s");
            g.var();
            g.e.open("pl");
            g.e.open("po");
            g.var();
            f(g);
            g.e.close();
            g.e.close();
            g.e.close();
            g.e.close();
            g.p("}");
            g.no_datasets();
            g.empty_group();
            g.no_mods();
            g.e.close();
            g.tail();
        }
    }
}
fn l04(k: u8, h: Hole) {
    let q = [b'"', b'\''][choice(2) as usize];
    // scan
    let mut good = true;
    let mut i = 0;
    while i < h.c.len() {
        let c = h.c[i];
        if c == b'\\' as u32 {
            if i + 1 < h.c.len() {
                good &= split(echar(h.c[i + 1]));
                i += 2;
                continue;
            }
            good = false;
        }
        // a quote would end the string, line ends are not claimed
        assume((c != q as u32) & (c != 10) & (c != 13));
        i += 1;
    }
    let mut g = G::new();
    literal_at(&mut g, k, |g| {
        raw(g, &[&[q], &h.b, &[q]]);
        g.e.tag("'");
        g.e.bytes(&h.b);
        g.e.none();
    });
    verdict(g, good)
}
pub fn l04_content() {
    let k = choice(5);
    let n = choice(3);
    l04(k, hole(n, 2))
}
pub fn l04_content3() {
    l04(0, hole(3, 1))
}
pub fn l04_content4() {
    l04(0, hole(4, 0))
}
fn usual_string(c: u32) -> bool {
    ((c >= 0x20) & (c <= 0x7e)) & (c != 0x22) & (c != 0x27) & (c != 0x5c)
}
pub fn l04_long() {
    let n = [8, 9, 16, 17, 32, 33, 70][choice(7) as usize];
    l04(choice(2), long(n, usual_string, b' '))
}
/// language tags
fn l04_lang_n(h: Hole) {
    // what can follow a literal
    assume(!h.any(|c| ws(c) | (c == b'#' as u32) | (c == b'.' as u32) | (c == b',' as u32) | (c == b';' as u32)));
    // [a-zA-Z]+ ('-' [a-zA-Z0-9]+)*
    let mut ok = true;
    let mut first = true;
    let mut fresh = true;
    for c in &h.c {
        let c = *c;
        if c == b'-' as u32 {
            ok &= !fresh;
            first = false;
            fresh = true;
        } else {
            ok &= alpha(c) | (digit(c) & !first);
            fresh = false;
        }
    }
    ok &= !fresh;
    // a number after the tag would be another token
    assume(!h.any(|c| (c == b'}' as u32)));
    let mut g = G::new();
    literal_at(&mut g, 0, |g| {
        raw(g, &[b"\"x\"@", &h.b]);
        g.e.tag("'");
        g.e.bytes(b"x");
        g.e.tag("@");
        g.e.bytes(&h.b);
    });
    verdict(g, ok)
}
pub fn l04_lang() {
    let n = choice(4);
    l04_lang_n(hole(n, 1))
}
pub fn l04_lang5() {
    let n = 4 + choice(2);
    l04_lang_n(hole(n, 0))
}
/// the parts of a literal are not mixed up
pub fn l04_parts() {
    let k = choice(5);
    let kind = choice(3);
    let mut g = G::new().dev(1);
    g.wide = true;
    literal_at(&mut g, k, |g| g.literal(kind));
    stmt(g)
}

// ------------------------------------------------------------- L05 numbers
fn num_at(k: u8, f: impl FnOnce(&mut G)) {
    let mut g = G::new();
    literal_at(&mut g, k, f);
    stmt(g)
}
fn sym_digits(n: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(24);
    for _ in 0..n {
        let b = byte(b'1');
        assume(digit(b as u32));
        v.push(b);
    }
    v
}
/// integers: sign, up to four symbolic digits
fn l05_int_n(n: u8) {
    let k = [0, 2, 4, 1, 3][choice(5) as usize];
    let sign = if k == 1 || k == 3 { 0 } else { choice(3) };
    let d = sym_digits(n);
    let mut v = 0u64;
    for b in &d {
        v = v * 10 + (*b - b'0') as u64;
    }
    num_at(k, |g| {
        raw(g, &[["", "+", "-"][sign as usize].as_bytes(), &d]);
        g.e.tag("i");
        g.e.u64(if sign == 2 { v.wrapping_neg() } else { v });
    })
}
pub fn l05_int() {
    let n = 1 + choice(5);
    l05_int_n(n)
}
pub fn l05_int_t() {
    let n = 6 + choice(6);
    l05_int_n(n)
}
/// the number modulo 2^64
fn value(pre: &str, d: &[u8]) -> u64 {
    let mut v = 0u64;
    for b in pre.bytes() {
        v = v.wrapping_mul(10).wrapping_add((b - b'0') as u64);
    }
    for b in d {
        v = v.wrapping_mul(10).wrapping_add((*b as u64).wrapping_sub(b'0' as u64));
    }
    v
}
/// is the number at most max, which has no leading zero
fn at_most(pre: &str, d: &[u8], max: &str) -> bool {
    let pre = pre.trim_start_matches('0');
    if pre.len() + d.len() != max.len() {
        return pre.len() + d.len() < max.len();
    }
    let (m, rest) = max.split_at(pre.len());
    if pre != m {
        return pre < m;
    }
    value("", d) <= value(rest, &[])
}
/// the ends of the range: the last digits are symbolic
pub fn l05_int_bounds() {
    let sign = choice(3);
    let pre = [
        "92233720368547758",
        "21474836",
        "42949672",
        "327",
        "655",
        "90071992547409",
        "9999999999999999",
        "10000000000000000",
        "00000000000000000000",
    ][choice(9) as usize];
    let n = 2 + (pre.len() <= 3) as u8;
    let d = sym_digits(n);
    assume(at_most(pre, &d, if sign == 2 { "9223372036854775808" } else { "9223372036854775807" }));
    let v = value(pre, &d);
    num_at([0, 2][choice(2) as usize], |g| {
        raw(g, &[["", "+", "-"][sign as usize].as_bytes(), pre.as_bytes(), &d]);
        g.e.tag("i");
        g.e.u64(if sign == 2 { v.wrapping_neg() } else { v });
    })
}
/// LIMIT and OFFSET
pub fn l05_limits() {
    let pre = ["", "184467440737095516", "92233720368547758", "42949672", "0000000000000000000", "99999999999999999999"]
        [choice(6) as usize];
    let off = choice(2) == 1;
    let d = sym_digits(2);
    let v = value(pre, &d);
    let good = at_most(pre, &d, "18446744073709551615");
    let mut g = G::new();
    g.in_modifier(3, |g| {
        let (w, t) = if off { ("OFFSET", "O") } else { ("LIMIT", "L") };
        g.kw(w);
        g.e.tag(t);
        raw(g, &[pre.as_bytes(), &d]);
        g.e.u64(v);
        g.e.none();
    });
    verdict(g, good)
}
/// decimals and doubles, every digit of these shapes
pub fn l05_decimal() {
    let shape = choice(8);
    let mut s = String::with_capacity(32);
    let dig = |s: &mut String| s.push((b'0' + choice(10)) as char);
    let k = choice(2) * 2;
    let sign = choice(3);
    match shape {
        0 => {
            dig(&mut s);
            s.push('.');
            dig(&mut s);
        }
        1 => {
            s.push('.');
            dig(&mut s);
            dig(&mut s);
        }
        2 => {
            s.push_str("12");
            s.push('.');
            dig(&mut s);
            s.push_str("25");
        }
        3 => {
            s.push_str("100000000000000000000.");
            dig(&mut s);
        }
        4 => {
            s.push_str("0.000000000000000000000000000000");
            dig(&mut s);
        }
        5 => {
            s.push_str("123456789012345678901234567890.123456789");
            dig(&mut s);
        }
        6 => {
            s.push_str("00");
            dig(&mut s);
            s.push_str(".0");
            dig(&mut s);
        }
        _ => {
            s.push_str(".00");
            dig(&mut s);
            s.push_str("00");
        }
    }
    // 0: decimal, otherwise a double
    let x = choice(5);
    let f: f64 = s.parse().unwrap();
    let f = if sign == 2 { -f } else { f };
    let (et, ev): (&str, i64) = [("", 0), ("e7", 7), ("E-3", -3), ("e+12", 12), ("E00", 0)][x as usize];
    num_at(k, |g| {
        raw(g, &[["", "+", "-"][sign as usize].as_bytes(), s.as_bytes(), et.as_bytes()]);
        g.e.tag("f");
        g.e.u64(f.to_bits());
        if x == 0 {
            g.e.none()
        } else {
            g.e.tag("e");
            g.e.u64(ev as u64);
        }
    })
}
/// the exponent, with symbolic digits
pub fn l05_exponent() {
    let m = choice(4);
    let (t, f) = [("1.5", 1.5f64), (".5", 0.5), ("2", 2.0), ("7.0", 7.0)][m as usize];
    let sign = choice(3);
    let e = byte(b'e');
    assume((e == b'e') | (e == b'E'));
    let n = 1 + choice(3);
    let d = sym_digits(n);
    let mut v = 0u64;
    for b in &d {
        v = v * 10 + (*b - b'0') as u64;
    }
    num_at(0, |g| {
        raw(g, &[t.as_bytes(), &[e], ["", "+", "-"][sign as usize].as_bytes(), &d]);
        g.e.tag("f");
        g.e.u64(f.to_bits());
        g.e.tag("e");
        g.e.u64(if sign == 2 { v.wrapping_neg() } else { v });
    })
}
/// exponents near the limits of the usual integers and beyond them
pub fn l05_exponent_bounds() {
    let m = choice(3);
    let (t, f) = [("1.5", 1.5f64), (".5", 0.5), ("2", 2.0)][m as usize];
    let sign = choice(3);
    let pre = [
        "1", "12", "327", "655", "21474836", "42949672", "92233720368547758", "184467440737095516", "0000000000000000000",
        "99999999999999999999",
    ][choice(10) as usize];
    let n = 2 + (pre.len() <= 3) as u8;
    let d = sym_digits(n);
    let v = value(pre, &d);
    let good = split(at_most(pre, &d, if sign == 2 { "9223372036854775808" } else { "9223372036854775807" }));
    let mut g = G::new();
    literal_at(&mut g, [0, 2][choice(2) as usize], |g| {
        raw(g, &[t.as_bytes(), b"e", ["", "+", "-"][sign as usize].as_bytes(), pre.as_bytes(), &d]);
        g.e.tag("f");
        g.e.u64(f.to_bits());
        g.e.tag("e");
        g.e.u64(if sign == 2 { v.wrapping_neg() } else { v });
    });
    verdict(g, good)
}
/// booleans are not mixed up with names
pub fn l05_boolean() {
    let k = choice(5);
    let mut g = G::new();
    g.case = Case::Any;
    literal_at(&mut g, k, |g| g.boolean());
    stmt(g)
}

// ------------------------------------------------------------ L06 keywords
pub fn l06_stmt() {
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    let k = choice(4);
    g.statement(k);
    stmt(g)
}
pub fn l06_functions() {
    let mut g = G::new();
    g.case = Case::Any;
    let k = choice(FUNS.len() as u8);
    g.in_expr(0, |g| g.fun(k));
    stmt(g)
}
pub fn l06_aggregates() {
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    g.in_expr(3, |g| g.aggregate());
    stmt(g)
}
pub fn l06_patterns() {
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    g.in_pattern(|g| {
        let k = choice(8);
        g.graph_pattern(k)
    });
    stmt(g)
}
pub fn l06_expr() {
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    g.in_expr(0, |g| match choice(4) {
        0 => g.relation(),
        1 => g.boolean(),
        2 => g.expr(),
        _ => {
            g.e.open("NOTEXISTS");
            g.kw("NOT EXISTS");
            g.empty_group();
            g.e.close();
        }
    });
    stmt(g)
}
pub fn l06_modifiers() {
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    let k = choice(4);
    g.in_modifier(k, |g| match k {
        0 => g.group_by(),
        1 => g.having(),
        2 => {
            g.script = [&[1][..], &[2]][choice(2) as usize];
            g.order_by()
        }
        _ => {
            g.script = &[2];
            g.limit_offset()
        }
    });
    stmt(g)
}
pub fn l06_updates() {
    let k = choice(11);
    let mut g = G::new().dev(1);
    g.case = Case::Any;
    g.e.open("update");
    g.e.open("pro");
    g.e.close();
    g.update_stmt(k);
    g.e.none();
    g.e.close();
    upd(g)
}
fn swap(d: u8) -> G {
    let mut g = G::new().dev(d);
    g.swapping = true;
    g.case = [Case::Upper, Case::Lower][choice(2) as usize];
    g.symleaf = false;
    g
}
/// characters that case folding takes for letters of ASCII
pub fn l06_look_alikes() {
    let mut g = swap(1);
    g.looks = true;
    match choice(5) {
        0 => {
            let k = choice(4);
            g.statement(k)
        }
        1 => {
            g.dev = 0;
            g.in_expr(2, |g| match choice(3) {
                0 => {
                    let k = choice(FUNS.len() as u8);
                    g.fun(k)
                }
                1 => {
                    g.dev = 1;
                    g.aggregate()
                }
                _ => g.boolean(),
            })
        }
        2 => {
            g.dev = 0;
            g.in_pattern(|g| {
                let k = choice(8);
                g.graph_pattern(k)
            })
        }
        3 => {
            g.dev = 0;
            g.in_modifier(1, |g| g.modifiers())
        }
        _ => {
            let k = choice(11);
            u_single(&mut g, k);
            return swapped(g, true);
        }
    }
    swapped(g, false)
}
fn swapped(g: G, u: bool) {
    assume(!g.swapping);
    crate::props::agree(&g.t, u);
    std::mem::forget(g);
}
/// a character that is not a letter of ASCII in the place of every letter
pub fn l06_foreign() {
    let mut g = swap(1);
    g.dev = 1;
    let k = choice(4);
    g.statement(k);
    swapped(g, false)
}
pub fn l06_foreign_expr() {
    let mut g = swap(0);
    g.in_expr(2, |g| match choice(4) {
        0 => {
            let k = choice(FUNS.len() as u8);
            g.fun(k)
        }
        1 => {
            g.dev = 1;
            g.aggregate()
        }
        2 => {
            g.dev = 1;
            g.relation()
        }
        _ => g.boolean(),
    });
    swapped(g, false)
}
pub fn l06_foreign_pattern() {
    let mut g = swap(0);
    g.in_pattern(|g| {
        let k = choice(8);
        g.graph_pattern(k)
    });
    swapped(g, false)
}
pub fn l06_foreign_modifiers() {
    let mut g = swap(0);
    let k = choice(4);
    g.in_modifier(k, |g| match k {
        0 => g.group_by(),
        1 => g.having(),
        2 => {
            g.script = [&[1][..], &[2]][choice(2) as usize];
            g.order_by()
        }
        _ => {
            g.script = &[2];
            g.limit_offset()
        }
    });
    swapped(g, false)
}
pub fn l06_foreign_update() {
    let k = choice(11);
    let mut g = swap(1);
    u_single(&mut g, k);
    swapped(g, true)
}
fn glued(g: G, u: bool) {
    assume(!g.gluing);
    input(&g.t);
    let s = as_str(&g.t);
    if u {
        reject(update(s), 7)
    } else {
        reject(sparql_query_stmt(s), 7)
    }
    std::mem::forget(g);
}
fn glue(d: u8) -> G {
    let mut g = G::new().dev(d);
    g.gluing = true;
    g
}
/// a keyword does not end in the middle of a word
pub fn l06_words() {
    let mut g = glue(1);
    let k = choice(4);
    g.statement(k);
    glued(g, false)
}
pub fn l06_words2() {
    let mut g = glue(2);
    let k = choice(4);
    g.statement(k);
    glued(g, false)
}
pub fn l06_words_expr() {
    let mut g = glue(1);
    g.in_expr(0, |g| match choice(5) {
        0 => {
            let k = choice(FUNS.len() as u8);
            g.fun(k)
        }
        1 => g.aggregate(),
        2 => g.relation(),
        3 => g.boolean(),
        _ => g.expr(),
    });
    glued(g, false)
}
pub fn l06_words_pattern() {
    let mut g = glue(1);
    match choice(2) {
        0 => g.in_pattern(|g| {
            let k = choice(8);
            g.graph_pattern(k)
        }),
        _ => g.in_group(|g| g.triples_block()),
    }
    glued(g, false)
}
pub fn l06_words_update() {
    let k = choice(11);
    let mut g = glue(1);
    g.e.open("update");
    g.update_stmt(k);
    glued(g, true)
}

// ---------------------------------------------------------- L07 whitespace
fn wsg(d: u8, gap: Gap) -> G {
    let mut g = G::new().dev(d);
    g.gap = gap;
    g.symgaps = 1;
    g
}
fn gap2() -> Gap {
    [Gap::One, Gap::Tight][choice(2) as usize]
}
pub fn l07_stmt() {
    let mut g = wsg(1, gap2());
    let k = choice(4);
    g.statement(k);
    stmt(g)
}
pub fn l07_stmt2() {
    let mut g = wsg(2, Gap::One);
    let k = choice(4);
    g.statement(k);
    stmt(g)
}
pub fn l07_expr() {
    l07_expr_n(wsg(1, Gap::One))
}
pub fn l07_expr_t() {
    let mut g = wsg(1, gap2());
    g.fullgap = true;
    l07_expr_n(g)
}
fn l07_expr_n(mut g: G) {
    g.in_expr(0, |g| match choice(4) {
        0 => {
            if g.dev == 1 {
                g.dev = 0
            }
            let k = choice(FUNS.len() as u8);
            g.fun(k)
        }
        1 => g.aggregate(),
        2 => g.fn_call(),
        _ => g.expr(),
    });
    stmt(g)
}
pub fn l07_pattern() {
    l07_pattern_n(wsg(1, Gap::One))
}
pub fn l07_pattern_t() {
    let mut g = wsg(1, gap2());
    g.fullgap = true;
    l07_pattern_n(g)
}
fn l07_pattern_n(mut g: G) {
    g.in_pattern(|g| {
        let k = choice(8);
        g.graph_pattern(k)
    });
    stmt(g)
}
pub fn l07_triples() {
    l07_triples_n(wsg(1, gap2()))
}
pub fn l07_triples_t() {
    let mut g = wsg(2, gap2());
    g.fullgap = true;
    l07_triples_n(g)
}
fn l07_triples_n(mut g: G) {
    g.in_group(|g| g.triples_block());
    stmt(g)
}
pub fn l07_path() {
    l07_path_n(wsg(1, gap2()))
}
pub fn l07_path_t() {
    let mut g = wsg(2, gap2());
    g.fullgap = true;
    l07_path_n(g)
}
fn l07_path_n(mut g: G) {
    path_stmt(&mut g, |g| g.path(0));
    stmt(g)
}
pub fn l07_modifiers() {
    l07_modifiers_n(wsg(1, Gap::One))
}
pub fn l07_modifiers_t() {
    let mut g = wsg(1, gap2());
    g.fullgap = true;
    l07_modifiers_n(g)
}
fn l07_modifiers_n(mut g: G) {
    let k = choice(4);
    g.in_modifier(k, |g| match k {
        0 => g.group_by(),
        1 => g.having(),
        2 => {
            g.script = [&[0][..], &[1], &[2], &[3]][choice(4) as usize];
            g.order_by()
        }
        _ => {
            g.script = &[2];
            g.limit_offset()
        }
    });
    stmt(g)
}
pub fn l07_updates() {
    let k = choice(11);
    let mut g = wsg(1, gap2());
    g.e.open("update");
    g.e.open("pro");
    g.e.close();
    g.update_stmt(k);
    g.e.none();
    g.e.close();
    upd(g)
}
/// a character that is not whitespace ends the text
pub fn l07_other() {
    let mut g = wsg(1, gap2());
    g.odd = true;
    let mut upd = false;
    match choice(7) {
        0 => {
            let k = choice(4);
            g.statement(k)
        }
        1 => {
            g.plain = true;
            g.in_expr(0, |g| g.expr())
        }
        2 => {
            g.plain = true;
            g.in_pattern(|g| {
                let k = choice(8);
                g.graph_pattern(k)
            })
        }
        3 => g.in_group(|g| g.triples_block()),
        4 => path_stmt(&mut g, |g| g.path(0)),
        5 => {
            g.plain = true;
            let k = choice(4);
            g.in_modifier(k, |g| match k {
                0 => g.group_by(),
                1 => g.having(),
                2 => g.order_by(),
                _ => g.limit_offset(),
            })
        }
        _ => {
            g.plain = true;
            let k = choice(11);
            upd = true;
            g.e.open("update");
            g.e.open("pro");
            g.e.close();
            g.update_stmt(k);
            g.end_gap();
        }
    }
    if g.symgaps == 0 {
        input(&g.t);
        let most = g.t.len() - g.odd_at;
        if upd {
            beyond(update(as_str(&g.t)), most)
        } else {
            beyond(sparql_query_stmt(as_str(&g.t)), most)
        }
    }
    std::mem::forget(g);
}
pub fn beyond<T>(r: nom::IResult<&str, T>, most: usize) {
    match r {
        Ok((rest, v)) => {
            check(rest.len() >= most, 11);
            std::mem::forget(v);
        }
        Err(e) => {
            check(true, 11);
            std::mem::forget(e)
        }
    }
}
/// all gaps at once
pub fn l07_styles() {
    let mut g = G::new().dev(1);
    g.gap = [Gap::Tight, Gap::Loose][choice(2) as usize];
    match choice(4) {
        0 => {
            let k = choice(4);
            g.statement(k);
        }
        1 => g.in_expr(0, |g| {
            g.dev = 2;
            g.expr()
        }),
        2 => g.in_group(|g| {
            g.dev = 2;
            g.triples_block()
        }),
        _ => path_stmt(&mut g, |g| {
            g.dev = 2;
            g.path(0)
        }),
    }
    stmt(g)
}
/// long runs of whitespace and long comments
pub fn l07_long() {
    let n = [9usize, 17, 33, 65, 300][choice(5) as usize];
    let comment = choice(2) == 1;
    let place = choice(4);
    let mut gap = Vec::with_capacity(600);
    if comment {
        gap.push(b'#');
    }
    let at = if n > 40 { (choice(8) as usize * n) / 7 } else { choice(n as u8) as usize };
    for i in 0..n {
        if comment {
            if i == at {
                let c = any_char();
                assume((c.c != 10) & (c.c != 13));
                gap.extend_from_slice(c.bytes());
            } else {
                let b = byte(b'}');
                assume((b < 0x80) & (b != 10) & (b != 13));
                gap.push(b);
            }
        } else if i == at {
            let b = byte(b' ');
            assume(ws(b as u32));
            gap.push(b);
        } else {
            gap.push(b" \t\r\n "[i % 5]);
        }
    }
    if comment {
        gap.push(b'\n');
    }
    let parts = ["ASK", "{", "?s ?p ?o", "}"];
    let mut t = Vec::with_capacity(700);
    for (i, p) in parts.iter().enumerate() {
        t.extend_from_slice(p.as_bytes());
        if i == place as usize {
            t.extend_from_slice(&gap);
        } else {
            t.push(b' ');
        }
    }
    let mut g = G::new();
    g.symleaf = false;
    g.in_group(|g| {
        g.e.open("tb");
        g.e.open("s");
        for n in ["s", "p", "o"] {
            g.e.tag("?");
            g.e.bytes(n.as_bytes());
            if n == "s" {
                g.e.open("pl");
                g.e.open("po");
            }
        }
        g.e.close();
        g.e.close();
        g.e.close();
        g.e.close();
    });
    g.t = t;
    stmt(g)
}
/// where whitespace is not allowed
pub fn l07_inside() {
    let toks: [(&str, &str, &str); 14] = [
        ("ASK { ", "?", "a ?p ?o }"),
        ("ASK { ", "$", "a ?p ?o }"),
        ("ASK { ?s ?p <", "i", "> }"),
        ("ASK { ?s ?p ", "p", ":x ?q ?r }"),
        ("ASK { ?s ?p ", "_", ":x }"),
        ("ASK { ?s ?p ", "_:", "x }"),
        ("ASK { ?s ?p \"x\"", "@", "en }"),
        ("ASK { ?s ?p \"x\"", "^", "^<i> }"),
        ("ASK { FILTER(?a ", "!", "= ?b) }"),
        ("ASK { FILTER(?a ", "&", "& ?b) }"),
        ("ASK { FILTER(?a ", "|", "| ?b) }"),
        ("ASK { FILTER(?a ", "<", "= ?b) }"),
        ("ASK { ?s ?p \"x\"@en", "-", "us }"),
        ("ASK { ?s ?p \"x\"@", "en", "-us }"),
    ];
    let (a, b, c) = toks[choice(14) as usize];
    let w = byte(b' ');
    assume(ws(w as u32));
    let mut t = a.as_bytes().to_vec();
    t.extend_from_slice(b.as_bytes());
    t.push(w);
    t.extend_from_slice(c.as_bytes());
    input(&t);
    reject(sparql_query_stmt(as_str(&t)), 7)
}

// --------------------------------------------------------------- S01, S02
pub const Q_CTX: &[(&str, &str)] = &[
    ("", ""),
    ("", "SELECT * { }"),
    ("SELECT ", " { }"),
    ("SELECT ?a", "{ }"),
    ("SELECT (", " AS ?x) { }"),
    ("SELECT (1 ", " ?x) { }"),
    ("SELECT * ", "{ }"),
    ("SELECT * { ", " }"),
    ("SELECT * { ?s ", " ?o }"),
    ("SELECT * { ?s ?p ", " }"),
    ("SELECT * { ?s ?p ?o ", " }"),
    ("SELECT * { ?s ?p ?o; ", " }"),
    ("SELECT * { ?s :p", ":q ?o }"),
    ("SELECT * { ?s (", ") ?o }"),
    ("SELECT * { ?s !(", ") ?o }"),
    ("SELECT * { [", "] }"),
    ("SELECT * { (", ") ?p ?o }"),
    ("SELECT * { FILTER", " }"),
    ("SELECT * { FILTER(", ") }"),
    ("SELECT * { FILTER(?a", "?b) }"),
    ("SELECT * { FILTER(1", "2) }"),
    ("SELECT * { FILTER(STR(", ")) }"),
    ("SELECT * { FILTER(:f", "(1)) }"),
    ("SELECT * { FILTER(:f(", ")) }"),
    ("SELECT * { FILTER(?a IN", ") }"),
    ("SELECT * { BIND(1 ", ") }"),
    ("SELECT * { VALUES ", " }"),
    ("SELECT * { VALUES ?x {", "} }"),
    ("SELECT * { VALUES (?x) {(", ")} }"),
    ("SELECT * { SERVICE ", "{ } }"),
    ("SELECT * { { } ", "{ } }"),
    ("SELECT * { } ", ""),
    ("SELECT * { } GROUP BY ", ""),
    ("SELECT * { } HAVING ", ""),
    ("SELECT * { } ORDER BY ", ""),
    ("SELECT * { } LIMIT ", ""),
    ("SELECT * { } LIMIT 1", "2"),
    ("SELECT (COUNT(", ") AS ?x) { }"),
    ("SELECT (GROUP_CONCAT(?a ", ") AS ?x) { }"),
    ("CONSTRUCT ", " { }"),
    ("CONSTRUCT { ", " } { }"),
    ("DESCRIBE ", ""),
    ("DESCRIBE <", ">"),
    ("DESCRIBE ?", ""),
    ("DESCRIBE p:", ""),
    ("ASK ", "{ }"),
    ("ASK { ?s ?p \"", "\" }"),
    ("ASK { ?s ?p '", "' }"),
    ("ASK { ?s ?p \"x\"", " }"),
    ("ASK { ?s ?p \"x\"@", " }"),
    ("ASK { ?s ?p 1", " }"),
    ("ASK { ?s ?p 1.5e", " }"),
    ("ASK { ?s ?p _:", " }"),
    ("ASK { ?s ?p 9223372036854775", " }"),
    ("BASE ", " ASK { }"),
    ("PREFIX ", ": <i> ASK { }"),
    ("PREFIX p: ", " ASK { }"),
    ("# ", "\nASK { }"),
    ("ASK { (1", ":x) ?p ?o }"),
    ("ASK { VALUES ?x { 1.5", "x } }"),
    ("ASK { ?s ?p 'x'", "<i> }"),
    ("SELECT * { FILTER EXISTS", " }"),
    ("SELECT * { FILTER(1 NOT ", "(1)) }"),
    ("SELECT * { FILTER(REGEX(?a,", ")) }"),
    ("SELECT * { FILTER(NOT", "{ }) }"),
    ("SELECT * { ?s ^", " ?o }"),
    ("SELECT * { ?s :p|", " ?o }"),
    ("SELECT * { ?s :p", "/:q* ?o }"),
    ("SELECT * { ?s a", " ?o }"),
    ("SELECT * { OPTIONAL", "{ } }"),
    ("SELECT * { GRAPH", "{ } }"),
    ("SELECT * FROM", " { }"),
    ("SELECT * { { SELECT", " { } } }"),
    ("SELECT DISTINCT", "{ }"),
    ("SELECT * { } LIMIT 1 OFFSET", ""),
    ("SELECT * { } ORDER BY ASC", "(?a)"),
    ("SELECT * { } ORDER BY ?a", ""),
    ("SELECT * { } VALUES ?x { 1 ", ""),
    ("SELECT * { ?s ?p ?o, ", " }"),
    ("SELECT * { FILTER(?a|", "|?b) }"),
    ("SELECT * { FILTER(-", ") }"),
    ("SELECT * { FILTER(?a<", ") }"),
    ("SELECT * { [] ", " }"),
    ("SELECT * { { ?a ?b ?c", "} UNION { } }"),
    ("SELECT * { BIND(?a AS ?x", ") }"),
];
pub const U_CTX: &[(&str, &str)] = &[
    ("", ""),
    ("LOAD ", ""),
    ("LOAD <i> ", ""),
    ("CLEAR ", ""),
    ("DROP SILENT ", ""),
    ("CREATE ", ""),
    ("ADD ", " TO <i>"),
    ("MOVE <i> ", ""),
    ("COPY <i> TO ", ""),
    ("INSERT DATA { ", " }"),
    ("INSERT DATA { GRAPH ", " { } }"),
    ("DELETE DATA { ?s ?p ", " }"),
    ("DELETE WHERE { ", " }"),
    ("DELETE { } ", " WHERE { }"),
    ("WITH ", " DELETE { } WHERE { }"),
    ("INSERT { ?s ?p ?o } WHERE { ", " }"),
    ("DELETE { } USING ", " WHERE { }"),
    ("CLEAR ALL ", ""),
    ("CLEAR ALL; ", ""),
    ("DELETE WHERE", " { }"),
    ("INSERT DATA { ?s", " 1 }"),
    ("INSERT DATA { <i> a 1 ", "}"),
    ("INSERT DATA { GRAPH ", "{ } }"),
    ("DELETE { } ", "WHERE { }"),
    ("WITH ", "DELETE { } WHERE { }"),
    ("INSERT { } USING ", "WHERE { }"),
    ("INSERT { } WHERE { ", " }"),
    ("CLEAR ALL;", ""),
    ("ADD GRAPH <i> TO", " <j>"),
];
fn is_suffix(a: &str, b: &str) -> bool {
    a.len() <= b.len() && a.as_ptr() as usize == b.as_ptr() as usize + (b.len() - a.len())
}
/// 1: no Incomplete; 2: remainder and error positions are suffixes
pub fn positions<T>(s: &str, r: IResult<&str, T>) {
    match &r {
        Ok((rest, _)) => check(is_suffix(rest, s), 4),
        Err(Err::Incomplete(_)) => check(false, 6),
        Err(Err::Error((at, _))) | Err(Err::Failure((at, _))) => check(is_suffix(at, s), 5),
    }
    std::mem::forget(r);
}
fn total<T>(r: IResult<&str, T>) {
    let ok = match &r {
        Err(Err::Incomplete(_)) => false,
        _ => true,
    };
    // the result is dropped as a caller would do
    drop(r);
    check(ok, 6);
}
fn in_ctx(c: &(&str, &str), h: &Hole) -> Vec<u8> {
    let mut t = Vec::with_capacity(128);
    t.extend_from_slice(c.0.as_bytes());
    t.extend_from_slice(&h.b);
    t.extend_from_slice(c.1.as_bytes());
    input(&t);
    t
}
fn s01_run(k: u8, t: &[u8]) {
    let s = as_str(t);
    match k {
        0 => total(sparql_query_stmt(s)),
        1 => total(update(s)),
        2 => total(sparql_query(s)),
        3 => total(ask_query(s)),
        4 => total(construct_query(s)),
        5 => total(describe_query(s)),
        6 => total(sub_triples(s)),
        _ => total(sub_construct(s)),
    }
}
pub fn s01_query() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    let h = hole(1, 1);
    let t = in_ctx(c, &h);
    s01_run(0, &t)
}
pub fn s01_query2() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    let h = hole(2, 0);
    let t = in_ctx(c, &h);
    s01_run(0, &t)
}
pub fn s01_query3() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    let h = hole(3, 1);
    let t = in_ctx(c, &h);
    s01_run(0, &t)
}
pub fn s01_update() {
    let c = &U_CTX[choice(U_CTX.len() as u8) as usize];
    let n = 1 + choice(2);
    let h = hole(n, 1);
    let t = in_ctx(c, &h);
    s01_run(1, &t)
}
/// long tokens: one arbitrary character in front of, inside of or after them
pub const LONG_CTX: &[(&str, &str, &str, u16, &str)] = &[
    // before, first part, repeated, how often, after
    ("ASK { ?s ?p 1.5e", "", "9", 20, " }"),
    ("ASK { ?s ?p 1e-", "", "9", 18, " }"),
    ("ASK { ?s ?p 1E", "3", "2", 4, " }"),
    ("ASK { ?s ?p 2.5e", "21", "4", 8, " }"),
    ("ASK { ?s ?p ", "", "9", 18, " }"),
    ("ASK { ?s ?p -", "", "9", 19, " }"),
    ("ASK { ?s ?p ", "", "1", 39, " }"),
    ("ASK { ?s ?p ", "", "9", 310, " }"),
    ("ASK { ?s ?p 0.", "", "0", 400, " }"),
    ("ASK { ?s ?p .", "", "7", 60, " }"),
    ("ASK { FILTER(?a *", "", "9", 25, ") }"),
    ("ASK { FILTER(?a ", "-", "8", 25, ") }"),
    ("ASK { FILTER(1.", "", "0", 25, "e5 = ?a) }"),
    ("ASK { } LIMIT ", "1", "9", 19, ""),
    ("ASK { } OFFSET ", "", "9", 25, " LIMIT 2"),
    ("ASK { VALUES ?x { ", "", "9", 25, " } }"),
    ("SELECT ?", "", "x", 70, " { }"),
    ("DESCRIBE <", "", "i", 300, ">"),
    ("DESCRIBE p:", "", "l", 70, ""),
    ("DESCRIBE p:", "", "%4f", 70, ""),
    ("PREFIX ", "p", ".q", 40, ": <i> ASK { }"),
    ("ASK { ?s ?p \"", "", "x", 300, "\" }"),
    ("ASK { ?s ?p \"", "", "\\n", 70, "\" }"),
    ("ASK { ?s ?p 'x'@", "en", "-us", 30, " }"),
    ("ASK { ?s ?p _:", "", "b", 70, " }"),
    ("#", "", "c", 300, "\nASK { }"),
    ("ASK ", "", "\n\t", 150, "{ }"),
    ("ASK ", "", "{", 30, ""),
    ("ASK { ", "", "}", 30, ""),
    ("ASK { ?s ?p ", "", "(", 30, ""),
    ("ASK { ?s ?p ", "", "[", 30, ""),
    ("ASK { ?s ", "", "^", 30, " }"),
    ("ASK { ?s ", "", "!", 30, " }"),
    ("ASK { FILTER(", "", "!", 60, "?a) }"),
    ("ASK { FILTER(", "", "-", 30, "1) }"),
    ("ASK { FILTER(", "", "1 + ", 60, "1) }"),
    ("ASK { ?s ?p ?o ", "", ";", 60, "}"),
    ("ASK { ?s ?p ?o ", "", ".", 30, "}"),
    ("SELECT ", "", "SELECT ", 30, "{ }"),
    ("ASK { } VALUES ( ", "", "?x ", 60, ") { }"),
];
fn long_text() -> Vec<u8> {
    let c = &LONG_CTX[choice(LONG_CTX.len() as u8) as usize];
    let n = c.3 as usize;
    // where the character is: in front, after the first, in the middle, before the last, behind
    let at = [0, 1, n / 2, n - 1, n][choice(5) as usize];
    let mut t = Vec::with_capacity(1000);
    t.extend_from_slice(c.0.as_bytes());
    t.extend_from_slice(c.1.as_bytes());
    // digits beside digits are concrete: numbers are not read symbolically
    let ch = match choice(3) {
        0 => None,
        1 => {
            let x = any_char();
            assume(!digit(x.c) | !c.2.as_bytes()[0].is_ascii_digit());
            Some(x)
        }
        _ => {
            assume(c.2.as_bytes()[0].is_ascii_digit());
            Some(SymChar { b: [b'0' + choice(10), 0, 0, 0], n: 1, c: 0 })
        }
    };
    for i in 0..=n {
        if i == at {
            match &ch {
                Some(ch) => t.extend_from_slice(ch.bytes()),
                None => assume(at == 0),
            }
        }
        if i < n {
            t.extend_from_slice(c.2.as_bytes());
        }
    }
    t.extend_from_slice(c.4.as_bytes());
    t
}
pub fn s01_long() {
    let t = long_text();
    input(&t);
    s01_run(0, &t)
}
pub fn s02_long() {
    let t = long_text();
    input(&t);
    let s = as_str(&t);
    positions(s, sparql_query_stmt(s))
}
/// nothing hidden behind the recogniser: the same texts have their verdict
pub fn m02_long() {
    let t = long_text();
    crate::props::agree(&t, false)
}
pub fn s01_start() {
    // any short text for every public parser
    let k = choice(8);
    let n = choice(4);
    let h = hole(n, 1);
    input(&h.b);
    s01_run(k, &h.b)
}
fn s02_any(c: &(&str, &str), h: &Hole, u: bool) {
    let t = in_ctx(c, h);
    let s = as_str(&t);
    if u {
        positions(s, update(s))
    } else {
        positions(s, sparql_query_stmt(s))
    }
    std::mem::forget(t);
}
pub fn s02_query() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    s02_any(c, &hole(1, 1), false)
}
pub fn s02_query2() {
    let c = &Q_CTX[choice(Q_CTX.len() as u8) as usize];
    s02_any(c, &hole(2, 0), false)
}
pub fn s02_update() {
    let c = &U_CTX[choice(U_CTX.len() as u8) as usize];
    s02_any(c, &hole(1, 1), true)
}
/// a whole statement and up to two characters after it, for every parser
fn s02_after_n(d: u8, n: u8) {
    let mut g = G::new().dev(d);
    g.symleaf = false;
    let k = choice(4);
    let sub = choice(3);
    let mut from = 0;
    if sub == 2 {
        g.query(k);
        while !g.t[from].is_ascii_alphabetic() {
            from += 1;
        }
    } else {
        g.statement(k);
    }
    if choice(2) == 1 {
        g.t.push(b' ');
    }
    let h = if n == 1 { hole(1, 1) } else { hole(2, 0) };
    g.t.extend_from_slice(&h.b);
    let text = &g.t[from..];
    input(text);
    let s = as_str(text);
    match (sub, k) {
        (0, _) => positions(s, sparql_query_stmt(s)),
        (1, _) | (_, 0) => positions(s, sparql_query(s)),
        (_, 1) => positions(s, ask_query(s)),
        (_, 2) => positions(s, construct_query(s)),
        _ => positions(s, describe_query(s)),
    }
    std::mem::forget(g);
}
pub fn s02_after() {
    s02_after_n(2, 1)
}
pub fn s02_after2_t() {
    s02_after_n(2, 2)
}
pub fn s02_after2() {
    s02_after_n(1, 2)
}
pub fn s02_after_update() {
    let k = choice(11);
    let mut g = G::new().dev(1);
    g.symleaf = false;
    u_single(&mut g, k);
    if choice(2) == 1 {
        g.t.push(b' ');
    }
    let h = if choice(2) == 0 { hole(1, 1) } else { hole(2, 0) };
    g.t.extend_from_slice(&h.b);
    input(&g.t);
    let s = as_str(&g.t);
    positions(s, update(s));
    std::mem::forget(g);
}
/// What was read is read the same way without the text after it.
fn s02_prefix_n(h: Hole, c: &(&str, &str)) {
    let t = in_ctx(c, &h);
    let s = as_str(&t);
    match sparql_query_stmt(s) {
        Ok((rest, v)) => {
            let used = &s[..s.len() - rest.len()];
            let mut a = Vec::with_capacity(512);
            v.d(&mut a);
            std::mem::forget(v);
            match sparql_query_stmt(used) {
                Ok((r2, w)) => {
                    check(r2.is_empty(), 13);
                    let mut b = Vec::with_capacity(512);
                    w.d(&mut b);
                    std::mem::forget(w);
                    check_eq(&a, &b, 3);
                }
                Err(e) => {
                    std::mem::forget(e);
                    check(false, 13)
                }
            }
        }
        Err(e) => {
            std::mem::forget(e);
            check(true, 13)
        }
    }
}
pub const TAIL_CTX: &[(&str, &str)] = &[
    ("SELECT * { } ", ""),
    ("SELECT * { } GROUP BY ?a ", ""),
    ("SELECT * { } ORDER BY ?a ", ""),
    ("SELECT * { } LIMIT 1 ", ""),
    ("SELECT * { } LIMIT 1", ""),
    ("DESCRIBE <i> ", ""),
    ("DESCRIBE p:x", ""),
    ("DESCRIBE ?a", ""),
    ("SELECT * { } HAVING(?a) ", ""),
    ("SELECT * { } VALUES ?a { } ", ""),
];
pub fn s02_prefix() {
    let c = &TAIL_CTX[choice(TAIL_CTX.len() as u8) as usize];
    let n = 1 + choice(2);
    s02_prefix_n(hole(n, 1), c)
}
/// the same text gives the same result
pub fn s02_same() {
    let mut g = G::new().dev(1);
    let k = choice(4);
    g.statement(k);
    let n = choice(2);
    let h = hole(n, 0);
    g.t.extend_from_slice(&h.b);
    input(&g.t);
    let copy = g.t.clone();
    let (a, b) = (sparql_query_stmt(as_str(&g.t)), sparql_query_stmt(as_str(&copy)));
    match (&a, &b) {
        (Ok((ra, va)), Ok((rb, vb))) => {
            check(ra.len() == rb.len(), 4);
            check(va == vb, 24);
        }
        (Err(_), Err(_)) => check(true, 24),
        _ => check(false, 24),
    }
    std::mem::forget(a);
    std::mem::forget(b);
}
#[allow(unused)]
fn _unused(_: SparqlQuery, _: GraphTerm, _: BlankNode) {}
