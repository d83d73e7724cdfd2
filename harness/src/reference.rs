//! A recogniser of SPARQL 1.1 over bytes, written from the grammar (sections
//! 19.8 of the recommendation) as a recursive descent with tokens of longest
//! extent.  It writes the same dump as `dump.rs` makes of the parser's tree.
//! What the properties leave open (see `Unk`) ends the comparison.
use crate::dump::Out;
use crate::gen::{AGGS, FUNS, E01, E1, E2, E23, E3, E34, LIST, NONE, VAR};
use crate::spec::*;

pub enum E {
    /// not in the language
    No,
    /// a construct the properties do not claim anything about
    Unk,
}
pub type P<T = ()> = Result<T, E>;

pub struct R<'a> {
    t: &'a [u8],
    i: usize,
    pub o: Vec<u8>,
}

/// The dump of a query statement.
pub fn query(t: &[u8]) -> P<Vec<u8>> {
    let mut r = R::new(t);
    r.ws();
    r.statement()?;
    r.end()?;
    Ok(r.o)
}
/// The dump of an update request.
pub fn update(t: &[u8]) -> P<Vec<u8>> {
    let mut r = R::new(t);
    r.ws();
    r.update()?;
    r.end()?;
    Ok(r.o)
}

/// Is this only whitespace and comments?
pub fn blank_text(t: &[u8]) -> bool {
    let mut r = R::new(t);
    r.end().is_ok()
}

fn to(s: u8) -> u32 {
    s as u32
}

impl<'a> R<'a> {
    fn new(t: &'a [u8]) -> R<'a> {
        R { t, i: 0, o: Vec::with_capacity(512) }
    }
    // ------------------------------------------------------------ bytes
    #[inline(always)]
    fn at(&self, k: usize) -> u8 {
        // 0 is in no token: it stands for the end
        if self.i + k < self.t.len() {
            self.t[self.i + k]
        } else {
            0
        }
    }
    fn end(&mut self) -> P {
        self.ws();
        if self.i == self.t.len() {
            Ok(())
        } else {
            Err(E::No)
        }
    }
    /// the character at p and its length; 0 at the end
    fn ch(&self, p: usize) -> (u32, usize) {
        if p >= self.t.len() {
            return (0, 0);
        }
        let a = to(self.t[p]);
        let x = |k: usize| to(self.t[p + k]) & 0x3f;
        if a < 0x80 {
            (a, 1)
        } else if a < 0xE0 {
            ((a & 0x1f) << 6 | x(1), 2)
        } else if a < 0xF0 {
            ((a & 0xf) << 12 | x(1) << 6 | x(2), 3)
        } else {
            ((a & 7) << 18 | x(1) << 12 | x(2) << 6 | x(3), 4)
        }
    }
    fn ws(&mut self) {
        loop {
            if self.i >= self.t.len() {
                return;
            }
            let b = self.t[self.i];
            if ws(to(b)) {
                self.i += 1;
            } else if b == b'#' {
                while self.i < self.t.len() && (self.t[self.i] != 10) & (self.t[self.i] != 13) {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    /// the longest run of characters of a class from p on
    fn run(&self, mut p: usize, f: fn(u32) -> bool) -> usize {
        loop {
            let (c, n) = self.ch(p);
            if n == 0 || !f(c) {
                return p;
            }
            p += n;
        }
    }
    // ----------------------------------------------------------- tokens
    /// The end of the prefix and colon of a prefixed name at i.
    fn pname_ns(&self) -> Option<usize> {
        let (c, n) = self.ch(self.i);
        if n == 0 {
            return None;
        }
        if c == to(b':') {
            return Some(self.i + 1);
        }
        if !pn_base(c) {
            return None;
        }
        let mut p = self.i + n;
        loop {
            let q = self.run(p, pn_char);
            let mut d = q;
            while d < self.t.len() && self.t[d] == b'.' {
                d += 1;
            }
            if d == q || d == self.run(d, pn_char) {
                // dots only inside
                p = q;
                break;
            }
            p = d;
        }
        if p < self.t.len() && self.t[p] == b':' {
            Some(p + 1)
        } else {
            None
        }
    }
    /// one character or escape of a local name at p
    fn local_part(&self, p: usize, first: bool) -> P<usize> {
        let (c, n) = self.ch(p);
        if n == 0 {
            return Ok(p);
        }
        if if first { pn_u(c) | digit(c) | (c == to(b':')) } else { pn_char(c) | (c == to(b':')) } {
            return Ok(p + n);
        }
        if c == to(b'%') {
            let (a, x) = self.ch(p + 1);
            let (b, y) = self.ch(p + 1 + x);
            if x == 1 && y == 1 && hex(a) & hex(b) {
                return Ok(p + 3);
            }
        }
        if c == to(b'\\') {
            let (a, x) = self.ch(p + 1);
            if x == 1 {
                if (a == to(b'u')) | (a == to(b'U')) {
                    return Err(E::Unk);
                }
                if local_esc(a) {
                    return Ok(p + 2);
                }
            }
        }
        Ok(p)
    }
    /// A prefixed name: (end of prefix, end).
    fn pname(&self) -> P<Option<(usize, usize)>> {
        let Some(c) = self.pname_ns() else { return Ok(None) };
        let mut p = self.local_part(c, true)?;
        if p == c {
            return Ok(Some((c, c)));
        }
        loop {
            loop {
                let q = self.local_part(p, false)?;
                if q == p {
                    break;
                }
                p = q;
            }
            let mut d = p;
            while d < self.t.len() && self.t[d] == b'.' {
                d += 1;
            }
            if d == p {
                break;
            }
            let q = self.local_part(d, false)?;
            if q == d {
                break;
            }
            p = q;
        }
        Ok(Some((c, p)))
    }
    /// The end of an IRI reference at i.
    fn iri_ref_end(&self) -> P<Option<usize>> {
        if self.at(0) != b'<' {
            return Ok(None);
        }
        let p = self.run(self.i + 1, iri_char);
        if p < self.t.len() {
            if self.t[p] == b'>' {
                return Ok(Some(p + 1));
            }
            if self.t[p] == b'\\' {
                return Err(E::Unk);
            }
        }
        Ok(None)
    }
    /// Is the word w here?
    fn is_word(&self, w: &str) -> bool {
        let n = w.len();
        if self.i + n > self.t.len() {
            return false;
        }
        let mut ok = true;
        for (k, b) in w.bytes().enumerate() {
            let x = self.t[self.i + k];
            if b.is_ascii_alphabetic() {
                ok &= (x | 0x20) == (b | 0x20);
            } else {
                ok &= x == b;
            }
        }
        if !ok {
            return false;
        }
        let (c, m) = self.ch(self.i + n);
        if m > 0 && pn_u(c) | (c == to(b':')) {
            return false;
        }
        // a prefixed name is longer
        self.pname_ns().is_none()
    }
    fn word(&mut self, w: &str) -> bool {
        if self.is_word(w) {
            self.i += w.len();
            self.ws();
            true
        } else {
            false
        }
    }
    fn need(&mut self, w: &str) -> P {
        if self.word(w) {
            Ok(())
        } else {
            Err(E::No)
        }
    }
    fn words(&mut self, w: &str) -> P {
        for x in w.split(' ') {
            self.need(x)?;
        }
        Ok(())
    }
    fn is_verb_a(&self) -> bool {
        self.at(0) == b'a' && self.is_word("a")
    }
    /// punctuation of one character
    fn p(&mut self, b: u8) -> bool {
        if self.at(0) == b {
            self.i += 1;
            self.ws();
            true
        } else {
            false
        }
    }
    fn pp(&mut self, b: u8) -> P {
        if self.p(b) {
            Ok(())
        } else {
            Err(E::No)
        }
    }
    /// the `.` between triples: in front of a digit it begins a number
    fn dot(&mut self) -> bool {
        self.at(0) == b'.' && !digit(to(self.at(1))) && self.p(b'.')
    }
    fn two(&self, a: u8, b: u8) -> bool {
        (self.at(0) == a) & (self.at(1) == b)
    }
    fn skip(&mut self, n: usize) {
        self.i += n;
        self.ws();
    }
    fn wrap(&mut self, from: usize, tag: &str) {
        let tail = self.o.split_off(from);
        self.o.open(tag);
        self.o.extend_from_slice(&tail);
    }
    // ----------------------------------------------------------- leaves
    fn is_var(&self) -> bool {
        let b = self.at(0);
        if !((b == b'?') | (b == b'$')) {
            return false;
        }
        let (c, n) = self.ch(self.i + 1);
        n > 0 && var_first(c)
    }
    fn var(&mut self) -> P {
        if !self.is_var() {
            return Err(E::No);
        }
        let e = self.run(self.i + 1, var_rest);
        self.o.push(self.t[self.i]);
        self.o.bytes(&self.t[self.i + 1..e]);
        self.i = e;
        self.ws();
        Ok(())
    }
    fn iri_ref(&mut self, tag: bool) -> P {
        let Some(e) = self.iri_ref_end()? else { return Err(E::No) };
        if tag {
            self.o.tag("<");
        }
        self.o.bytes(&self.t[self.i + 1..e - 1]);
        self.i = e;
        self.ws();
        Ok(())
    }
    fn is_iri(&self) -> P<bool> {
        Ok(if self.at(0) == b'<' { self.iri_ref_end()?.is_some() } else { self.pname_ns().is_some() })
    }
    fn prefix(&mut self, c: usize) {
        if c - 1 == self.i {
            self.o.none()
        } else {
            self.o.bytes(&self.t[self.i..c - 1])
        }
    }
    fn iri(&mut self) -> P {
        if self.at(0) == b'<' {
            return self.iri_ref(true);
        }
        let Some((c, e)) = self.pname()? else { return Err(E::No) };
        self.o.tag(if e > c { ":" } else { "ns" });
        self.prefix(c);
        if e > c {
            self.o.bytes(&self.t[c..e]);
        }
        self.i = e;
        self.ws();
        Ok(())
    }
    fn var_or_iri(&mut self) -> P {
        if self.is_var() {
            self.var()
        } else {
            self.iri()
        }
    }
    fn is_string(&self) -> bool {
        let b = self.at(0);
        (b == b'"') | (b == b'\'')
    }
    fn string(&mut self) -> P {
        if !self.is_string() {
            return Err(E::No);
        }
        let q = self.at(0);
        if self.two(q, q) && self.at(2) == q {
            return Err(E::Unk);
        }
        let from = self.i + 1;
        let mut p = from;
        loop {
            if p >= self.t.len() {
                return Err(E::No);
            }
            let b = self.t[p];
            if b == q {
                break;
            }
            if (b == 10) | (b == 13) {
                return Err(E::Unk);
            }
            if b == b'\\' {
                if p + 1 >= self.t.len() {
                    return Err(E::No);
                }
                let x = to(self.t[p + 1]);
                if (x == to(b'u')) | (x == to(b'U')) {
                    return Err(E::Unk);
                }
                if !echar(x) {
                    return Err(E::No);
                }
                p += 1;
            }
            p += 1;
        }
        self.o.bytes(&self.t[from..p]);
        self.i = p + 1;
        self.ws();
        Ok(())
    }
    fn literal(&mut self) -> P {
        self.o.tag("'");
        self.string()?;
        if self.at(0) == b'@' {
            let mut p = self.run(self.i + 1, alpha);
            if p == self.i + 1 {
                return Err(E::No);
            }
            loop {
                if p < self.t.len() && self.t[p] == b'-' {
                    let q = self.run(p + 1, |c| alpha(c) | digit(c));
                    if q > p + 1 {
                        p = q;
                        continue;
                    }
                }
                break;
            }
            self.o.tag("@");
            self.o.bytes(&self.t[self.i + 1..p]);
            self.i = p;
            self.ws();
            Ok(())
        } else if self.two(b'^', b'^') {
            self.skip(2);
            self.o.tag("^");
            self.iri()
        } else {
            self.o.none();
            Ok(())
        }
    }
    fn is_number(&self, signed: bool) -> bool {
        let mut k = 0;
        let b = self.at(0);
        if signed && (b == b'+') | (b == b'-') {
            k = 1;
        }
        digit(to(self.at(k))) || self.at(k) == b'.' && digit(to(self.at(k + 1)))
    }
    fn number(&mut self) -> P {
        let start = self.i;
        let b = self.at(0);
        let neg = b == b'-';
        let from = if (b == b'+') | neg { start + 1 } else { start };
        let at = |p: usize| if p < self.t.len() { self.t[p] } else { 0 };
        let mut p = self.run(from, digit);
        let mut int = true;
        let exponent_at = |p: usize| {
            if (at(p) | 0x20) != b'e' {
                return (p, p);
            }
            let q = if (at(p + 1) == b'+') | (at(p + 1) == b'-') { p + 2 } else { p + 1 };
            let e = self.run(q, digit);
            // without a digit, the e begins another token
            if e == q {
                (p, p)
            } else {
                (p + 1, e)
            }
        };
        if at(p) == b'.' {
            let q = self.run(p + 1, digit);
            if q == p + 1 && exponent_at(q).1 == q {
                // `1.`
                return Err(E::Unk);
            }
            p = q;
            int = false;
        }
        let mantissa = p;
        let mut exponent = None;
        let (q, e) = exponent_at(p);
        if e > q {
            let s = unsafe { std::str::from_utf8_unchecked(&self.t[q..e]) };
            match s.parse::<i64>() {
                Ok(x) => exponent = Some(x),
                Err(_) => return Err(E::Unk),
            }
            p = e;
            int = false;
        }
        if int {
            // the value of the digits
            let mut v = 0u64;
            for k in from..p {
                let d = (self.t[k] - b'0') as u64;
                match v.checked_mul(10).and_then(|v| v.checked_add(d)) {
                    Some(x) => v = x,
                    None => return Err(E::Unk),
                }
            }
            if v > i64::MAX as u64 + neg as u64 {
                return Err(E::Unk);
            }
            self.o.tag("i");
            self.o.u64(if neg { v.wrapping_neg() } else { v });
        } else {
            let s = unsafe { std::str::from_utf8_unchecked(&self.t[start..mantissa]) };
            let Ok(f) = s.parse::<f64>() else { return Err(E::Unk) };
            self.o.tag("f");
            self.o.u64(f.to_bits());
            match exponent {
                None => self.o.none(),
                Some(x) => {
                    self.o.tag("e");
                    self.o.u64(x as u64);
                }
            }
        }
        self.i = p;
        self.ws();
        Ok(())
    }
    /// an unsigned number of LIMIT and OFFSET
    fn count(&mut self) -> P {
        let p = self.run(self.i, digit);
        if p == self.i {
            return Err(E::No);
        }
        let b = if p < self.t.len() { self.t[p] } else { 0 };
        if (b == b'.') | ((b | 0x20) == b'e') {
            return Err(E::Unk);
        }
        let mut v = 0u64;
        for k in self.i..p {
            let d = (self.t[k] - b'0') as u64;
            match v.checked_mul(10).and_then(|v| v.checked_add(d)) {
                Some(x) => v = x,
                None => return Err(E::No),
            }
        }
        self.o.u64(v);
        self.i = p;
        self.ws();
        Ok(())
    }
    fn boolean(&mut self) -> bool {
        for (w, v) in [("true", true), ("false", false)] {
            if self.word(w) {
                self.o.tag("b");
                self.o.flag(v);
                return true;
            }
        }
        false
    }
    fn is_blank(&self) -> bool {
        if !self.two(b'_', b':') {
            return false;
        }
        let (c, n) = self.ch(self.i + 2);
        n > 0 && var_first(c)
    }
    fn blank(&mut self) {
        let (_, n) = self.ch(self.i + 2);
        let mut p = self.i + 2 + n;
        loop {
            p = self.run(p, pn_char);
            let mut d = p;
            while d < self.t.len() && self.t[d] == b'.' {
                d += 1;
            }
            if d == p || d == self.run(d, pn_char) {
                break;
            }
            p = d;
        }
        self.o.tag("_");
        self.o.bytes(&self.t[self.i + 2..p]);
        self.i = p;
        self.ws();
    }
    /// `(` `)` or `[` `]`: the text after them
    fn pair(&mut self, a: u8, b: u8) -> bool {
        let i = self.i;
        if self.p(a) {
            if self.p(b) {
                return true;
            }
            self.i = i;
        }
        false
    }
    /// A term; false if there is none.
    fn term(&mut self, bnodes: bool) -> P<bool> {
        if self.is_string() {
            self.literal()?;
        } else if self.is_number(true) {
            self.number()?;
        } else if self.is_iri()? {
            self.iri()?;
        } else if self.boolean() {
        } else if bnodes && self.is_blank() {
            self.blank();
        } else if bnodes && self.pair(b'[', b']') {
            self.o.tag("[]");
        } else if bnodes && self.pair(b'(', b')') {
            self.o.tag("nil");
        } else {
            return Ok(false);
        }
        Ok(true)
    }
    // ------------------------------------------------------ expressions
    fn expr(&mut self) -> P {
        self.assoc(b'|', "||")
    }
    fn assoc(&mut self, c: u8, tag: &str) -> P {
        let from = self.o.len();
        let mut n = 0;
        loop {
            if c == b'|' {
                self.assoc(b'&', "&&")?;
            } else {
                self.relation()?;
            }
            if !self.two(c, c) {
                break;
            }
            self.skip(2);
            n += 1;
        }
        if n > 0 {
            self.wrap(from, tag);
            self.o.close();
        }
        Ok(())
    }
    fn relation(&mut self) -> P {
        let from = self.o.len();
        self.sum()?;
        let (a, b) = (self.at(0), self.at(1));
        let (tag, n) = if a == b'=' {
            ("=", 1)
        } else if a == b'!' {
            if b != b'=' {
                return Ok(());
            }
            ("!=", 2)
        } else if a == b'<' {
            if self.iri_ref_end()?.is_some() {
                return Err(E::Unk);
            }
            if b == b'=' { ("<=", 2) } else { ("<", 1) }
        } else if a == b'>' {
            if b == b'=' { (">=", 2) } else { (">", 1) }
        } else if self.word("in") {
            ("in", 0)
        } else if self.word("not") {
            self.need("in")?;
            ("notin", 0)
        } else {
            return Ok(());
        };
        self.wrap(from, tag);
        if n > 0 {
            self.skip(n);
            self.sum()?;
        } else {
            self.pp(b'(')?;
            if self.p(b')') {
                self.o.tag("nillist");
            } else {
                self.o.open("list");
                self.exprs()?;
                self.pp(b')')?;
                self.o.close();
            }
        }
        self.o.close();
        Ok(())
    }
    fn exprs(&mut self) -> P<u32> {
        let mut n = 1;
        self.expr()?;
        while self.p(b',') {
            self.expr()?;
            n += 1;
        }
        Ok(n)
    }
    fn sum(&mut self) -> P {
        self.chain(b'+', b'-', "sum")
    }
    fn chain(&mut self, a: u8, b: u8, tag: &str) -> P {
        let from = self.o.len();
        let mut n = 0;
        loop {
            if a == b'+' {
                self.chain(b'*', b'/', "prod")?;
            } else {
                self.unary()?;
            }
            let c = self.at(0);
            if !((c == a) | (c == b)) {
                break;
            }
            if n == 0 {
                self.wrap(from, tag);
            }
            self.o.push(c);
            self.skip(1);
            n += 1;
        }
        if n > 0 {
            self.o.close();
        }
        Ok(())
    }
    fn unary(&mut self) -> P {
        let c = self.at(0);
        for (b, tag) in [(b'!', "!"), (b'+', "+"), (b'-', "-")] {
            if c == b {
                self.skip(1);
                self.o.open(tag);
                self.primary()?;
                self.o.close();
                return Ok(());
            }
        }
        self.primary()
    }
    fn primary(&mut self) -> P {
        if self.at(0) == b'(' {
            self.skip(1);
            self.o.open("B");
            self.expr()?;
            self.pp(b')')?;
            self.o.close();
            return Ok(());
        }
        if self.is_var() {
            return self.var();
        }
        if (self.at(0) == b'+') | (self.at(0) == b'-') {
            // a signed number behind a sign or `!`
            return if self.is_number(true) { Err(E::Unk) } else { Err(E::No) };
        }
        if self.is_iri()? {
            let from = self.o.len();
            self.iri()?;
            if self.at(0) == b'(' {
                self.wrap(from, "fn");
                self.args()?;
                self.o.close();
            }
            return Ok(());
        }
        if self.term(false)? {
            return Ok(());
        }
        self.builtin()
    }
    fn args(&mut self) -> P {
        self.pp(b'(')?;
        if self.p(b')') {
            self.o.tag("nilargs");
            return Ok(());
        }
        self.o.open("args");
        let d = self.word("distinct");
        self.o.flag(d);
        self.exprs()?;
        self.pp(b')')?;
        self.o.close();
        Ok(())
    }
    fn distinct(&mut self) {
        let d = self.word("distinct");
        self.o.flag(d);
    }
    fn builtin(&mut self) -> P {
        // no letter, no name
        if !alpha(to(self.at(0))) {
            return Err(E::No);
        }
        for f in FUNS {
            if !self.word(f.name) {
                continue;
            }
            self.o.open(f.name);
            self.pp(b'(')?;
            if f.kind == VAR {
                self.var()?;
                self.pp(b')')?;
            } else {
                let n = if self.at(0) == b')' { 0 } else { self.exprs()? };
                self.pp(b')')?;
                let ok = match f.kind {
                    NONE => n == 0,
                    E1 => n == 1,
                    E2 => n == 2,
                    E3 => n == 3,
                    E01 => n <= 1,
                    E23 => n == 2 || n == 3,
                    E34 => n == 3 || n == 4,
                    k => k == LIST,
                };
                if !ok {
                    return Err(E::No);
                }
            }
            self.o.close();
            return Ok(());
        }
        for a in AGGS {
            if self.word(a) {
                self.o.open(a);
                self.pp(b'(')?;
                self.distinct();
                self.expr()?;
                self.pp(b')')?;
                self.o.close();
                return Ok(());
            }
        }
        if self.word("count") {
            self.o.open("COUNT");
            self.pp(b'(')?;
            self.distinct();
            if self.p(b'*') {
                self.o.tag("*");
            } else {
                self.expr()?;
            }
        } else if self.word("group_concat") {
            self.o.open("GROUP_CONCAT");
            self.pp(b'(')?;
            self.distinct();
            self.expr()?;
            if self.p(b';') {
                self.need("separator")?;
                self.pp(b'=')?;
                self.string()?;
            } else {
                self.o.none();
            }
        } else {
            let not = self.word("not");
            if !self.word("exists") {
                return Err(E::No);
            }
            self.o.open(if not { "NOTEXISTS" } else { "EXISTS" });
            self.ggp()?;
            self.o.close();
            return Ok(());
        }
        self.pp(b')')?;
        self.o.close();
        Ok(())
    }
    fn constraint(&mut self) -> P {
        if self.at(0) == b'(' {
            return self.primary();
        }
        if self.is_iri()? {
            self.o.open("fn");
            self.iri()?;
            self.args()?;
            self.o.close();
            return Ok(());
        }
        self.builtin()
    }
    fn as_var(&mut self, needed: bool) -> P {
        self.o.open(if needed { "as" } else { "asopt" });
        self.pp(b'(')?;
        self.expr()?;
        if self.word("as") {
            self.var()?;
        } else if needed {
            return Err(E::No);
        } else {
            self.o.none();
        }
        self.pp(b')')?;
        self.o.close();
        Ok(())
    }
    // ------------------------------------------------------------ paths
    fn path(&mut self) -> P {
        self.path_list(b'|')
    }
    fn path_list(&mut self, c: u8) -> P {
        let from = self.o.len();
        let mut n = 0;
        loop {
            if c == b'|' {
                self.path_list(b'/')?;
            } else {
                self.path_elt()?;
            }
            if self.at(0) != c {
                break;
            }
            self.skip(1);
            n += 1;
        }
        if n > 0 {
            self.wrap(from, if c == b'|' { "|" } else { "/" });
            self.o.close();
        }
        Ok(())
    }
    fn path_elt(&mut self) -> P {
        let inv = self.p(b'^');
        if inv {
            self.o.open("^");
        }
        let c = self.at(0);
        if c == b'(' {
            self.skip(1);
            self.o.open("P");
            self.path()?;
            self.pp(b')')?;
            self.o.close();
        } else if c == b'!' {
            self.skip(1);
            self.o.open("!");
            if self.p(b'(') {
                if !self.p(b')') {
                    loop {
                        self.path_one()?;
                        if !self.p(b'|') {
                            break;
                        }
                    }
                    self.pp(b')')?;
                }
            } else {
                self.path_one()?;
            }
            self.o.close();
        } else {
            self.iri_or_a()?;
        }
        let c = self.at(0);
        if c == b'*' {
            self.o.tag("%*");
            self.skip(1);
        } else if c == b'+' && !self.is_number(true) {
            self.o.tag("%+");
            self.skip(1);
        } else if c == b'?' && !self.is_var() {
            self.o.tag("%?");
            self.skip(1);
        }
        if inv {
            self.o.close();
        }
        Ok(())
    }
    fn iri_or_a(&mut self) -> P {
        if self.is_verb_a() {
            self.skip(1);
            self.o.tag("a");
            Ok(())
        } else {
            self.iri()
        }
    }
    fn path_one(&mut self) -> P {
        let inv = self.p(b'^');
        if inv {
            self.o.open("^");
        }
        self.iri_or_a()?;
        if inv {
            self.o.close();
        }
        Ok(())
    }
    // ---------------------------------------------------------- triples
    fn is_verb(&self, paths: bool) -> P<bool> {
        let c = self.at(0);
        Ok(self.is_var() || self.is_verb_a() || self.is_iri()? || paths && (c == b'^') | (c == b'(') | (c == b'!'))
    }
    fn verb(&mut self, paths: bool) -> P {
        if self.is_var() {
            self.var()
        } else if paths {
            self.path()
        } else {
            self.iri_or_a()
        }
    }
    /// `paths`: paths may be verbs
    fn property_list(&mut self, paths: bool) -> P {
        self.o.open("pl");
        let mut first = true;
        loop {
            if !first {
                if !self.p(b';') {
                    break;
                }
                if !self.is_verb(paths)? {
                    continue;
                }
            }
            self.o.open("po");
            self.verb(paths)?;
            // the recommendation says ObjectList where ObjectListPath is
            // meant; nothing is claimed about paths in there
            loop {
                let from = self.i;
                self.node(paths)?;
                if paths && !first {
                    self.only_simple(from)?;
                }
                if !self.p(b',') {
                    break;
                }
            }
            self.o.close();
            first = false;
        }
        self.o.close();
        Ok(())
    }
    /// the node at `from` has no paths inside
    fn only_simple(&mut self, from: usize) -> P {
        let b = self.t[from];
        if (b == b'(') | (b == b'[') {
            let mut r = R { t: self.t, i: from, o: Vec::new() };
            if r.node(false).is_err() || r.i != self.i {
                return Err(E::Unk);
            }
        }
        Ok(())
    }
    fn node(&mut self, paths: bool) -> P {
        if self.is_var() {
            return self.var();
        }
        if self.term(true)? {
            return Ok(());
        }
        self.triples_node(paths)
    }
    fn triples_node(&mut self, paths: bool) -> P {
        if self.p(b'(') {
            self.o.open("coll");
            loop {
                self.node(paths)?;
                if self.p(b')') {
                    break;
                }
            }
        } else if self.p(b'[') {
            self.o.open("bnpl");
            self.property_list(paths)?;
            self.pp(b']')?;
        } else {
            return Err(E::No);
        }
        self.o.close();
        Ok(())
    }
    /// does a triple begin here?
    fn is_triple(&mut self) -> P<bool> {
        let c = self.at(0);
        Ok((c == b'(') | (c == b'[')
            || self.is_var()
            || self.is_string()
            || self.is_number(true)
            || self.is_iri()?
            || self.is_blank()
            || self.is_word("true")
            || self.is_word("false"))
    }
    fn triple(&mut self, paths: bool) -> P {
        self.o.open("s");
        if self.is_var() {
            self.var()?;
            self.property_list(paths)?;
        } else if self.term(true)? {
            self.property_list(paths)?;
        } else {
            self.triples_node(paths)?;
            if self.is_verb(paths)? {
                self.property_list(paths)?;
            } else {
                self.o.none();
            }
        }
        self.o.close();
        Ok(())
    }
    fn triples(&mut self, paths: bool) -> P {
        self.o.open(if paths { "tb" } else { "tt" });
        loop {
            self.triple(paths)?;
            if !self.dot() || !self.is_triple()? {
                break;
            }
        }
        self.o.close();
        Ok(())
    }
    /// an optional template
    fn template(&mut self) -> P {
        if self.is_triple()? {
            self.triples(false)
        } else {
            self.o.open("tt");
            self.o.close();
            Ok(())
        }
    }
    // --------------------------------------------------------- patterns
    fn ggp(&mut self) -> P {
        self.pp(b'{')?;
        self.o.open("{");
        if self.is_word("select") {
            self.o.open("subselect");
            self.select_clause()?;
            self.where_clause()?;
            self.modifiers()?;
            self.values_opt()?;
            self.o.close();
        } else {
            self.block_opt()?;
            loop {
                let from = self.o.len();
                if !self.pattern()? {
                    break;
                }
                self.wrap(from, "gp");
                self.dot();
                self.block_opt()?;
                self.o.close();
            }
        }
        self.pp(b'}')?;
        self.o.close();
        Ok(())
    }
    fn block_opt(&mut self) -> P {
        if self.is_triple()? {
            self.triples(true)
        } else {
            self.o.none();
            Ok(())
        }
    }
    fn silent(&mut self) {
        let s = self.word("silent");
        self.o.flag(s);
    }
    /// GraphPatternNotTriples; false if there is none
    fn pattern(&mut self) -> P<bool> {
        if self.at(0) == b'{' {
            self.o.open("union");
            self.ggp()?;
            while self.word("union") {
                self.ggp()?;
            }
        } else if !alpha(to(self.at(0))) {
            return Ok(false);
        } else if self.word("filter") {
            self.o.open("filter");
            self.constraint()?;
        } else if self.word("optional") {
            self.o.open("optional");
            self.ggp()?;
        } else if self.word("minus") {
            self.o.open("minus");
            self.ggp()?;
        } else if self.word("graph") {
            self.o.open("graph");
            self.var_or_iri()?;
            self.ggp()?;
        } else if self.word("service") {
            self.o.open("service");
            self.silent();
            self.var_or_iri()?;
            self.ggp()?;
        } else if self.word("bind") {
            self.o.open("bind");
            self.as_var(true)?;
        } else if self.word("values") {
            self.datablock()?;
            return Ok(true);
        } else {
            return Ok(false);
        }
        self.o.close();
        Ok(true)
    }
    fn data_value(&mut self) -> P<bool> {
        if self.term(false)? {
            return Ok(true);
        }
        if self.word("undef") {
            self.o.tag("UNDEF");
            return Ok(true);
        }
        Ok(false)
    }
    fn datablock(&mut self) -> P {
        if self.is_var() {
            self.o.open("values1");
            self.var()?;
            self.pp(b'{')?;
            while self.data_value()? {}
            self.pp(b'}')?;
            self.o.close();
            return Ok(());
        }
        self.pp(b'(')?;
        self.o.open("values");
        self.o.open("vars");
        let mut cols = 0;
        while !self.p(b')') {
            self.var()?;
            cols += 1;
        }
        self.o.close();
        self.pp(b'{')?;
        let mut uneven = false;
        while self.p(b'(') {
            self.o.open("row");
            let mut n = 0;
            while self.data_value()? {
                n += 1;
            }
            self.pp(b')')?;
            self.o.close();
            uneven |= n != cols;
        }
        self.pp(b'}')?;
        self.o.close();
        if uneven {
            // the number of values is a note to the grammar
            return Err(E::Unk);
        }
        Ok(())
    }
    // ---------------------------------------------------------- queries
    fn prologue(&mut self) -> P {
        self.o.open("pro");
        loop {
            if self.word("base") {
                self.o.open("base");
            } else if self.word("prefix") {
                self.o.open("prefix");
                let Some(c) = self.pname_ns() else { return Err(E::No) };
                self.prefix(c);
                // longest token: a local name here is no declaration
                if self.local_part(c, true)? != c {
                    return Err(E::No);
                }
                self.i = c;
                self.ws();
            } else {
                break;
            }
            self.iri_ref(false)?;
            self.o.close();
        }
        self.o.close();
        Ok(())
    }
    fn datasets(&mut self, word: &str, tag: &str) -> P {
        self.o.open(tag);
        while self.word(word) {
            let named = self.word("named");
            self.o.open(if named { "named" } else { "default" });
            self.iri()?;
            self.o.close();
        }
        self.o.close();
        Ok(())
    }
    fn where_clause(&mut self) -> P {
        self.word("where");
        self.ggp()
    }
    fn values_opt(&mut self) -> P {
        if self.word("values") {
            self.datablock()
        } else {
            self.o.none();
            Ok(())
        }
    }
    fn is_constraint(&self) -> P<bool> {
        if self.at(0) == b'(' || self.is_iri()? {
            return Ok(true);
        }
        if !alpha(to(self.at(0))) {
            return Ok(false);
        }
        for f in FUNS {
            if self.is_word(f.name) {
                return Ok(true);
            }
        }
        for a in AGGS {
            if self.is_word(a) {
                return Ok(true);
            }
        }
        Ok(self.is_word("count") || self.is_word("group_concat") || self.is_word("exists") || self.is_word("not"))
    }
    fn group_condition(&mut self) -> P<bool> {
        if self.is_var() {
            self.var()?;
        } else if self.at(0) == b'(' {
            self.as_var(false)?;
        } else if self.is_constraint()? {
            self.constraint()?;
        } else {
            return Ok(false);
        }
        Ok(true)
    }
    fn order_condition(&mut self) -> P<bool> {
        for (w, tag) in [("asc", "asc"), ("desc", "desc")] {
            if self.word(w) {
                self.pp(b'(')?;
                self.o.open(tag);
                self.expr()?;
                self.o.close();
                self.pp(b')')?;
                return Ok(true);
            }
        }
        if self.is_var() {
            self.var()?;
        } else if self.is_constraint()? {
            self.constraint()?;
        } else {
            return Ok(false);
        }
        Ok(true)
    }
    fn modifiers(&mut self) -> P {
        self.o.open("mod");
        if self.word("group") {
            self.need("by")?;
            self.o.open("group");
            if !self.group_condition()? {
                return Err(E::No);
            }
            while self.group_condition()? {}
            self.o.close();
        } else {
            self.o.none();
        }
        if self.word("having") {
            self.o.open("having");
            self.constraint()?;
            while self.is_constraint()? {
                self.constraint()?;
            }
            self.o.close();
        } else {
            self.o.none();
        }
        if self.word("order") {
            self.need("by")?;
            self.o.open("order");
            if !self.order_condition()? {
                return Err(E::No);
            }
            while self.order_condition()? {}
            self.o.close();
        } else {
            self.o.none();
        }
        if self.word("limit") {
            self.o.tag("L");
            self.count()?;
            if self.word("offset") {
                self.o.tag("O");
                self.count()?;
            } else {
                self.o.none();
            }
        } else if self.word("offset") {
            self.o.tag("O");
            self.count()?;
            if self.word("limit") {
                self.o.tag("L");
                self.count()?;
            } else {
                self.o.none();
            }
        } else {
            self.o.none();
        }
        self.o.close();
        Ok(())
    }
    fn select_clause(&mut self) -> P {
        self.need("select")?;
        if self.word("distinct") {
            self.o.tag("D");
        } else if self.word("reduced") {
            self.o.tag("R");
        } else {
            self.o.none();
        }
        if self.p(b'*') {
            self.o.tag("*");
            return Ok(());
        }
        self.o.open("vars");
        let mut n = 0;
        loop {
            if self.is_var() {
                self.var()?;
            } else if self.at(0) == b'(' {
                self.as_var(true)?;
            } else {
                break;
            }
            n += 1;
        }
        if n == 0 {
            return Err(E::No);
        }
        self.o.close();
        Ok(())
    }
    fn statement(&mut self) -> P {
        self.o.open("Q");
        self.prologue()?;
        if self.is_word("select") {
            self.o.open("select");
            self.select_clause()?;
            self.datasets("from", "ds")?;
            self.where_clause()?;
        } else if self.word("ask") {
            self.o.open("ask");
            self.datasets("from", "ds")?;
            self.where_clause()?;
        } else if self.word("construct") {
            if self.p(b'{') {
                self.o.open("construct");
                self.template()?;
                self.pp(b'}')?;
                self.datasets("from", "ds")?;
                self.where_clause()?;
            } else {
                self.o.open("constructwhere");
                self.datasets("from", "ds")?;
                self.need("where")?;
                self.pp(b'{')?;
                self.template()?;
                self.pp(b'}')?;
            }
        } else if self.word("describe") {
            self.o.open("describe");
            if self.p(b'*') {
                self.o.tag("*");
            } else {
                self.o.open("vars");
                self.var_or_iri()?;
                while self.is_var() || self.is_iri()? {
                    self.var_or_iri()?;
                }
                self.o.close();
            }
            self.datasets("from", "ds")?;
            if self.is_word("where") || self.at(0) == b'{' {
                self.where_clause()?;
            } else {
                self.o.none();
            }
        } else {
            return Err(E::No);
        }
        self.modifiers()?;
        self.o.close();
        self.values_opt()?;
        self.o.close();
        Ok(())
    }
    // ---------------------------------------------------------- updates
    fn update(&mut self) -> P {
        self.o.open("update");
        self.prologue()?;
        if self.update_stmt()? {
            if self.p(b';') {
                self.update()?;
            } else {
                self.o.none();
            }
        } else {
            self.o.none();
            self.o.none();
        }
        self.o.close();
        Ok(())
    }
    fn quads(&mut self) -> P {
        self.pp(b'{')?;
        self.o.open("quads");
        self.template()?;
        while self.word("graph") {
            self.o.open("graph");
            self.var_or_iri()?;
            self.pp(b'{')?;
            self.template()?;
            self.pp(b'}')?;
            self.o.close();
            self.dot();
            self.template()?;
        }
        self.pp(b'}')?;
        self.o.close();
        Ok(())
    }
    fn graph_or_default(&mut self) -> P {
        if self.word("default") {
            self.o.tag("DEFAULT");
            return Ok(());
        }
        self.o.open("graph");
        self.word("graph");
        self.iri()?;
        self.o.close();
        Ok(())
    }
    fn update_stmt(&mut self) -> P<bool> {
        if self.word("load") {
            self.o.open("LOAD");
            self.silent();
            self.iri()?;
            if self.word("into") {
                self.need("graph")?;
                self.iri()?;
            } else {
                self.o.none();
            }
            self.o.close();
            return Ok(true);
        }
        for w in ["CLEAR", "DROP"] {
            if self.word(w) {
                self.o.open(w);
                self.silent();
                if self.word("graph") {
                    self.o.open("graph");
                    self.iri()?;
                    self.o.close();
                } else if self.word("default") {
                    self.o.tag("DEFAULT");
                } else if self.word("named") {
                    self.o.tag("NAMED");
                } else {
                    self.need("all")?;
                    self.o.tag("ALL");
                }
                self.o.close();
                return Ok(true);
            }
        }
        if self.word("create") {
            self.o.open("CREATE");
            self.silent();
            self.need("graph")?;
            self.iri()?;
            self.o.close();
            return Ok(true);
        }
        for w in ["ADD", "MOVE", "COPY"] {
            if self.word(w) {
                self.o.open(w);
                self.silent();
                self.graph_or_default()?;
                self.need("to")?;
                self.graph_or_default()?;
                self.o.close();
                return Ok(true);
            }
        }
        let with = self.word("with");
        if with {
            self.o.open("MODIFY");
            self.iri()?;
        }
        if self.word("insert") {
            if !with && self.word("data") {
                self.o.open("INSERTDATA");
                self.quads()?;
                self.o.close();
                return Ok(true);
            }
            if !with {
                self.o.open("MODIFY");
                self.o.none();
            }
            self.o.none();
            self.quads()?;
        } else if self.word("delete") {
            for (w, tag) in [("data", "DELETEDATA"), ("where", "DELETEWHERE")] {
                if !with && self.word(w) {
                    self.o.open(tag);
                    self.quads()?;
                    self.o.close();
                    return Ok(true);
                }
            }
            if !with {
                self.o.open("MODIFY");
                self.o.none();
            }
            self.quads()?;
            if self.word("insert") {
                self.quads()?;
            } else {
                self.o.none();
            }
        } else if with {
            return Err(E::No);
        } else {
            return Ok(false);
        }
        self.datasets("using", "using")?;
        self.need("where")?;
        self.ggp()?;
        self.o.close();
        Ok(true)
    }
}
