//! Texts of many productions: which ones is decided by a generator of numbers
//! whose seed is a choice, everything else about them is symbolic.
use crate::api::{cut, change, extra};
use crate::dump::{Dump, Out};
use crate::gen::*;
use crate::lex::{beyond, positions};
use crate::props::*;
use crate::sym::*;
use nom_sparql::parser::sparql_query_stmt;
use nom_sparql::verif_hooks::update;

/// a text of one of 8 kinds; whether it is an update
fn any_text(g: &mut G) -> bool {
    match choice(8) {
        0 => {
            let k = choice(4);
            g.statement(k)
        }
        1 => {
            let c = choice(6);
            g.in_expr(c, |g| g.expr())
        }
        2 => g.in_group(|g| g.ggp_sub()),
        3 => g.in_group(|g| g.triples_block()),
        4 => path_stmt(g, |g| g.path(0)),
        5 => {
            g.head();
            g.e.open("ask");
            g.kw("ASK");
            g.no_datasets();
            g.empty_group();
            g.modifiers();
            g.e.close();
            g.tail()
        }
        6 => g.in_pattern(|g| {
            g.kw("VALUES");
            g.datablock()
        }),
        _ => {
            g.update();
            return true;
        }
    }
    false
}
fn decide(g: G, u: bool) {
    if u {
        upd(g)
    } else {
        stmt(g)
    }
}
/// one gap of it is arbitrary
fn gaps(d: u8) {
    let mut g = G::new().dev(d);
    g.symgaps = 1;
    g.symleaf = false;
    g.gap = [Gap::One, Gap::Tight][choice(2) as usize];
    let u = any_text(&mut g);
    decide(g, u)
}
pub fn l07_wild() {
    gaps(WILD)
}
pub fn l07_wild_t() {
    gaps(WILD + 6)
}
/// or holds a character that is no whitespace
fn other(d: u8) {
    let mut g = G::new().dev(d);
    g.symgaps = 1;
    g.symleaf = false;
    g.odd = true;
    let u = any_text(&mut g);
    if u {
        g.end_gap();
    }
    if g.symgaps == 0 {
        input(&g.t);
        let most = g.t.len() - g.odd_at;
        if u {
            beyond(update(as_str(&g.t)), most)
        } else {
            beyond(sparql_query_stmt(as_str(&g.t)), most)
        }
    }
    std::mem::forget(g);
}
pub fn l07_other_wild() {
    other(WILD)
}
pub fn l07_other_wild_t() {
    other(WILD + 6)
}
/// every letter of every keyword in either case
fn letters(d: u8) {
    let mut g = G::new().dev(d);
    g.case = Case::Any;
    let u = any_text(&mut g);
    decide(g, u)
}
pub fn l06_wild() {
    letters(WILD + 5)
}
pub fn l06_wild_t() {
    letters(WILD + 8)
}
/// one keyword of it goes on
fn words(d: u8) {
    let mut g = G::new().dev(d);
    g.gluing = true;
    let u = any_text(&mut g);
    assume(!g.gluing);
    agree(&g.t, u);
    std::mem::forget(g);
}
pub fn l06_words_wild() {
    words(WILD + 3)
}
pub fn l06_words_wild_t() {
    words(WILD + 6)
}
/// it is the same when parsed again, and so is what a copy holds
fn again(d: u8) {
    let mut g = G::new().dev(d);
    let u = any_text(&mut g);
    let c = sym_char(1);
    g.t.push(b' ');
    g.t.extend_from_slice(c.bytes());
    input(&g.t);
    let s = as_str(&g.t);
    if u {
        positions(s, update(s))
    } else {
        positions(s, sparql_query_stmt(s))
    }
    std::mem::forget(g);
}
pub fn s02_wild() {
    again(WILD + 4)
}
pub fn s02_wild_t() {
    again(WILD + 7)
}
/// values of it and of a text that differs from it in one token or character
fn alike(d: u8) {
    let mut g = G::new().dev(d);
    g.toks = true;
    g.symleaf = false;
    let u = any_text(&mut g);
    let t = match choice(4) {
        3 => tok_mutant(&mut g, &["?v", "<i>", "1", "*", "+", "DISTINCT", "NOT", "'s'"]),
        how => chr_mutate(&mut g, how),
    };
    input(&g.t);
    input(&t);
    let (a, b) = (as_str(&g.t), as_str(&t));
    macro_rules! same {
        ($p:ident) => {
            match ($p(a), $p(b)) {
                (Ok((_, v)), Ok((_, w))) => {
                    let (mut x, mut y) = (Vec::with_capacity(1024), Vec::with_capacity(1024));
                    v.d(&mut x);
                    w.d(&mut y);
                    let same = x.len() == y.len() && split(x == y);
                    check((v == w) == same, 24);
                    check((w != v) != same, 24);
                    // a copy outlives what it is made of
                    let c = v.clone();
                    check(c == v, 24);
                    drop(v);
                    let mut z = Vec::with_capacity(1024);
                    c.d(&mut z);
                    check_eq(&z, &x, 24);
                    std::mem::forget((w, c, x, y, z));
                }
                (Ok(_), Err(_)) => {}
                _ => check(false, 1),
            }
        };
    }
    if u {
        same!(update)
    } else {
        same!(sparql_query_stmt)
    }
    std::mem::forget((g, t));
}
pub fn m01_cut_wild() {
    cut(WILD)
}
pub fn m01_change_wild() {
    change(WILD)
}
pub fn m01_extra_wild() {
    extra(WILD)
}
pub fn m01_cut_wild_t() {
    cut(WILD + 3)
}
pub fn m01_change_wild_t() {
    change(WILD + 3)
}
pub fn m01_extra_wild_t() {
    extra(WILD + 3)
}
pub fn a01_similar_wild() {
    alike(WILD)
}
pub fn a01_similar_wild_t() {
    alike(WILD + 4)
}
