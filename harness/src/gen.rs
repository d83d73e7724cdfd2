//! A generator of SPARQL text together with the dump of the syntax tree the
//! text denotes.  It is written from the SPARQL 1.1 grammar, not from the
//! parser.  Productions are chosen by symbolic choices, at most `dev` of which
//! may differ from the simplest production; leaves are symbolic bytes.
use crate::dump::Out;
use crate::spec::*;
use crate::sym::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Cls {
    Other,
    Word,
    Var,
    Pname,
    Num,
    Lang,
    Lt,
    PathQ,
    PathPlus,
    PnameDot,
    Dot,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Gap {
    /// one space between all tokens
    One,
    /// only the whitespace that keeps tokens apart
    Tight,
    /// several characters and a comment everywhere
    Loose,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Case {
    Upper,
    Lower,
    Mixed,
    /// every letter of every keyword in any case
    Any,
}

/// `dev(WILD + n)`: one of so many texts of 4 to 12 productions other than the simplest
const WILDS: [usize; 11] = [20, 40, 100, 200, 500, 1000, 2000, 5000, 10000, 20000, 6];
pub const WILD: u8 = 100;

pub struct G {
    pub t: Vec<u8>,
    pub e: Vec<u8>,
    last: Cls,
    pub gap: Gap,
    /// how many gaps may be symbolic
    /// where brackets are, if marking
    pub marking: bool,
    pub marks: Vec<u16>,
    /// where tokens begin, if recorded
    pub toks: bool,
    pub starts: Vec<u16>,
    pub symgaps: u8,
    /// gaps hold a character that belongs to no token: its place in the text
    pub odd: bool,
    pub odd_at: usize,
    /// longer symbolic gaps
    pub fullgap: bool,
    pub case: Case,
    /// how many productions may differ from the simplest one
    pub dev: u8,
    /// leaves are symbolic
    pub symleaf: bool,
    /// leaves take every value of their class, otherwise the common ones
    pub wide: bool,
    /// how many leaves may be richer: several characters, characters of any
    /// length, empty texts, names that are spelled like keywords
    pub rich: u8,
    /// expressions are the simplest ones
    pub plain: bool,
    leaf: u8,
    depth: u8,
    /// the list that gets `rep` further elements
    rep_kind: u8,
    rep: u16,
    /// one keyword is to be followed by a name character
    pub gluing: bool,
    /// one letter of one keyword is to be another character
    pub swapping: bool,
    /// which is one that case folding takes for a letter
    pub looks: bool,
    /// productions are picked by a generator of numbers with this state, until
    /// so many are not the simplest
    wild: u32,
    fuel: u8,
    /// production picks that come before the symbolic ones
    pub script: &'static [u8],
}

// lists
pub const R_PRO: u8 = 1;
pub const R_DS: u8 = 2;
pub const R_SELVARS: u8 = 3;
pub const R_GROUP: u8 = 4;
pub const R_HAVING: u8 = 5;
pub const R_ORDER: u8 = 6;
pub const R_DESCRIBE: u8 = 7;
pub const R_TRIPLES: u8 = 8;
pub const R_PO: u8 = 9;
pub const R_OBJ: u8 = 10;
pub const R_GP: u8 = 11;
pub const R_UNION: u8 = 12;
pub const R_ROWS: u8 = 13;
pub const R_VALS: u8 = 14;
pub const R_ARGS: u8 = 15;
pub const R_IN: u8 = 16;
pub const R_ASSOC: u8 = 17;
pub const R_CHAIN: u8 = 18;
pub const R_PATH: u8 = 19;
pub const R_NEG: u8 = 20;
pub const R_COLL: u8 = 21;
pub const R_QUADS: u8 = 22;
pub const R_UPD: u8 = 23;
pub const R_USING: u8 = 24;
pub const R_CONCAT: u8 = 25;
pub const R_COLS: u8 = 26;

pub struct Fun {
    pub name: &'static str,
    pub kind: u8,
}
pub const NONE: u8 = 0;
pub const E1: u8 = 1;
pub const E2: u8 = 2;
pub const E3: u8 = 3;
pub const VAR: u8 = 4;
pub const E01: u8 = 5;
pub const E23: u8 = 6;
pub const E34: u8 = 7;
pub const LIST: u8 = 8;
const fn f(name: &'static str, kind: u8) -> Fun {
    Fun { name, kind }
}
/// BuiltInCall of the SPARQL 1.1 grammar without aggregates and EXISTS
pub const FUNS: &[Fun] = &[
    f("STR", E1),
    f("LANG", E1),
    f("LANGMATCHES", E2),
    f("DATATYPE", E1),
    f("BOUND", VAR),
    f("IRI", E1),
    f("URI", E1),
    f("BNODE", E01),
    f("RAND", NONE),
    f("ABS", E1),
    f("CEIL", E1),
    f("FLOOR", E1),
    f("ROUND", E1),
    f("CONCAT", LIST),
    f("SUBSTR", E23),
    f("STRLEN", E1),
    f("REPLACE", E34),
    f("UCASE", E1),
    f("LCASE", E1),
    f("ENCODE_FOR_URI", E1),
    f("CONTAINS", E2),
    f("STRSTARTS", E2),
    f("STRENDS", E2),
    f("STRBEFORE", E2),
    f("STRAFTER", E2),
    f("YEAR", E1),
    f("MONTH", E1),
    f("DAY", E1),
    f("HOURS", E1),
    f("MINUTES", E1),
    f("SECONDS", E1),
    f("TIMEZONE", E1),
    f("TZ", E1),
    f("NOW", NONE),
    f("UUID", NONE),
    f("STRUUID", NONE),
    f("MD5", E1),
    f("SHA1", E1),
    f("SHA256", E1),
    f("SHA384", E1),
    f("SHA512", E1),
    f("COALESCE", LIST),
    f("IF", E3),
    f("STRLANG", E2),
    f("STRDT", E2),
    f("SAMETERM", E2),
    f("ISIRI", E1),
    f("ISURI", E1),
    f("ISBLANK", E1),
    f("ISLITERAL", E1),
    f("ISNUMERIC", E1),
    f("REGEX", E23),
];
pub const AGGS: &[&str] = &["SUM", "MIN", "MAX", "AVG", "SAMPLE"];

/// words that names may be mistaken for
pub const WORDS: &[&str] = &[
    "a", "select", "true", "false", "graph", "base", "prefix", "distinct", "reduced", "as", "construct", "where",
    "describe", "ask", "from", "named", "group", "by", "having", "order", "asc", "desc", "limit", "offset", "values",
    "optional", "service", "silent", "bind", "undef", "minus", "union", "filter", "exists", "not", "in", "load",
    "into", "clear", "drop", "create", "add", "to", "move", "copy", "insert", "delete", "data", "with", "using",
    "default", "all", "count", "sum", "group_concat", "separator", "str", "lang", "if", "iri", "bnode", "rand",
    "abs", "concat", "now", "coalesce", "regex", "isiri", "e", "A", "Ask", "TRUE", "e5",
];

/// characters and ligatures whose upper or lower case is the letter at `k`,
/// or that differ from it by bits of their code
fn look_alike(w: &str, k: usize) -> Option<&'static [(&'static str, bool)]> {
    let b = w.as_bytes();
    let c = b[k].to_ascii_lowercase();
    let n = b.get(k + 1).map_or(0, |c| c.to_ascii_lowercase());
    Some(match (c, n) {
        (b's', b't') => &[("\u{17f}", false), ("\u{fb06}", true), ("\u{ff33}", false)],
        (b's', b's') => &[("\u{17f}", false), ("\u{df}", true), ("\u{1e9e}", true)],
        (b's', _) => &[("\u{17f}", false), ("\u{ff53}", false)],
        (b'f', b'f') => &[("\u{fb00}", true)],
        (b'f', b'i') => &[("\u{fb01}", true)],
        (b'f', b'l') => &[("\u{fb02}", true)],
        (b'k', _) => &[("\u{212a}", false)],
        (b'i', b'j') => &[("\u{133}", true)],
        (b'i', _) => &[("\u{130}", false), ("\u{131}", false), ("i\u{307}", false)],
        (b'a', _) => &[("\u{e1}", false), ("\u{ff41}", false)],
        (b'e', _) => &[("\u{e9}", false), ("\u{0415}", false)],
        _ => return None,
    })
}
impl G {
    pub fn new() -> G {
        G {
            t: Vec::with_capacity(256),
            e: Vec::with_capacity(512),
            last: Cls::Other,
            gap: Gap::One,
            symgaps: 0,
            odd: false,
            odd_at: 0,
            marking: false,
            marks: Vec::new(),
            toks: false,
            starts: Vec::new(),
            fullgap: false,
            case: Case::Upper,
            dev: 0,
            symleaf: true,
            wide: false,
            rich: 0,
            plain: false,
            leaf: 0,
            depth: 0,
            rep_kind: 0,
            rep: 0,
            gluing: false,
            swapping: false,
            looks: false,
            wild: 0,
            fuel: 0,
            script: &[],
        }
    }
    pub fn dev(mut self, d: u8) -> G {
        if d >= WILD {
            let k = below(WILDS[(d - WILD) as usize]) as u32;
            self.wild = (k + 1).wrapping_mul(0x9E37_79B1) | 1;
            self.fuel = 4 + self.number(9);
        } else {
            self.dev = d;
        }
        self
    }
    fn number(&mut self, n: u8) -> u8 {
        let mut x = self.wild;
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        self.wild = x;
        ((x >> 8) % n as u32) as u8
    }
    /// a place below n: all of them, or 16 of a wild text
    pub fn place(&mut self, n: usize) -> usize {
        if self.wild == 0 || n <= 16 {
            return below(n);
        }
        let k = choice(16) as usize;
        k * n / 16 + self.number((n / 16) as u8) as usize
    }
    /// a choice that is free of cost
    pub fn any(&mut self, n: u8) -> u8 {
        if self.wild != 0 {
            self.number(n)
        } else {
            choice(n)
        }
    }
    /// A choice among n productions; all but the first use up a deviation.
    pub fn pick(&mut self, n: u8) -> u8 {
        if let Some((c, rest)) = self.script.split_first() {
            self.script = rest;
            return *c;
        }
        if self.wild != 0 {
            if self.fuel == 0 || self.number(4) == 0 {
                return 0;
            }
            let c = self.number(n);
            if c != 0 {
                self.fuel -= 1;
            }
            return c;
        }
        if self.dev == 0 {
            return 0;
        }
        let c = choice(n);
        if c != 0 {
            self.dev -= 1;
        }
        c
    }
    /// the next list of this kind has n more elements than it needs (300 for 250)
    pub fn repeat(mut self, kind: u8, n: u8) -> G {
        self.rep_kind = kind;
        self.rep = if n < 250 { n as u16 } else { n as u16 + 50 };
        self
    }
    fn rep_now(&mut self, kind: u8) -> bool {
        if self.rep_kind == kind {
            if self.rep > 0 {
                self.rep -= 1;
                return true;
            }
            self.rep_kind = 0;
        }
        false
    }
    /// a free choice of two; alternates in long lists
    pub fn coin(&mut self) -> u8 {
        if self.symleaf {
            self.any(2)
        } else {
            self.next_leaf() % 2
        }
    }
    /// the length of a list: min..min+n
    fn count(&mut self, kind: u8, min: u8, n: u8) -> u16 {
        if self.rep_kind == kind {
            self.rep_kind = 0;
            return min as u16 + self.rep;
        }
        (min + choice(n)) as u16
    }
    fn more(&mut self, kind: u8) -> bool {
        self.rep_now(kind) || self.pick(2) == 1
    }
    /// pick for lists: 0 ends the list
    fn pick_more(&mut self, kind: u8, n: u8) -> u8 {
        if self.rep_now(kind) {
            if self.dev > 0 {
                1 + choice(n - 1)
            } else {
                1
            }
        } else {
            self.pick(n)
        }
    }

    // ---------------------------------------------------------- tokens
    fn need(&self, c: u8) -> bool {
        let name = c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80;
        match self.last {
            Cls::Other => false,
            Cls::Word => name || c == b':',
            Cls::Var | Cls::PathQ => name,
            Cls::Pname => name || c == b':' || c == b'-' || c == b'%' || c == b'\\',
            Cls::PnameDot => name || c == b':' || c == b'-' || c == b'%' || c == b'\\' || c == b'.',
            Cls::Num => name || c == b'.' || c == b':',
            Cls::Lang => name || c == b'-',
            Cls::Lt => true,
            Cls::Dot => c.is_ascii_digit(),
            Cls::PathPlus => c.is_ascii_digit() || c == b'.',
        }
    }
    /// the gap in front of a token that starts with c
    fn gap_before(&mut self, c: u8) {
        self.gap_before0(c);
        if self.toks {
            self.starts.push(self.t.len() as u16);
        }
    }
    fn gap_before0(&mut self, c: u8) {
        let need = !self.t.is_empty() && self.need(c);
        if self.symgaps > 0 && choice(2) == 1 {
            self.symgaps -= 1;
            self.sym_gap(need);
            return;
        }
        match self.gap {
            Gap::One => {
                if !self.t.is_empty() {
                    self.t.push(b' ')
                }
            }
            Gap::Tight => {
                if need {
                    self.t.push(b' ')
                }
            }
            Gap::Loose => self.t.extend_from_slice(b" \t#}'\r\n\n "),
        }
    }
    fn sym_ws(&mut self) {
        let w = byte(b'\n');
        assume(ws(w as u32));
        self.t.push(w);
    }
    fn sym_comment(&mut self) {
        self.t.push(b'#');
        match choice(3) {
            0 => {}
            1 => {
                let c = byte(b'}');
                assume((c < 0x80) & (c != 10) & (c != 13));
                self.t.push(c);
            }
            _ => {
                let c = byte(0xC3);
                let d = byte(0xA9);
                assume((c >= 0xC2) & (c <= 0xDF) & (d >= 0x80) & (d <= 0xBF));
                self.t.push(c);
                self.t.push(d);
            }
        }
        let n = byte(b'\r');
        assume((n == 10) | (n == 13));
        self.t.push(n);
    }
    /// a character that is neither whitespace nor part of any token here
    fn odd_gap(&mut self) {
        if choice(2) == 1 {
            self.t.push(b' ');
        }
        let open = self.t.iter().rev().find(|b| **b != b' ') == Some(&b'<');
        let c = sym_char(1 + choice(if open { 1 } else { 4 }));
        let v = c.c;
        if c.n == 1 {
            assume(((v < 0x20) & (v != 9) & (v != 10) & (v != 13)) | ((v == 0x7f) & !open));
        } else {
            assume(!pn_char(v));
        }
        self.odd_at = self.t.len();
        self.t.extend_from_slice(c.bytes());
        if choice(2) == 1 {
            self.t.push(b' ');
        }
    }
    fn sym_gap(&mut self, need: bool) {
        if self.odd {
            return self.odd_gap();
        }
        match choice(if need { 4 } else { 5 }) {
            0 => self.sym_ws(),
            1 => {
                self.sym_ws();
                if self.fullgap {
                    self.sym_ws()
                } else {
                    self.t.push(b'\t')
                }
            }
            2 => self.sym_comment(),
            3 => {
                if self.fullgap {
                    self.sym_ws();
                    self.sym_comment();
                    self.sym_ws()
                } else {
                    self.t.extend_from_slice(b" #?\r");
                    self.sym_ws()
                }
            }
            _ => {}
        }
    }
    /// gap at the end of a text
    pub fn end_gap(&mut self) {
        self.last = Cls::Other;
        if self.symgaps > 0 && choice(2) == 1 {
            self.symgaps -= 1;
            if !self.odd && choice(2) == 1 {
                // a comment that the end of the text ends
                let sp = choice(2) == 1;
                if sp {
                    self.sym_ws();
                }
                self.t.push(b'#');
                for _ in 0..choice(3) {
                    let c = any_char();
                    assume((c.c != 10) & (c.c != 13));
                    self.t.extend_from_slice(c.bytes());
                }
            } else {
                self.sym_gap(false);
            }
            return;
        }
        if self.gap == Gap::Loose {
            self.t.extend_from_slice(b" \t#}'\r\n\n ")
        }
    }
    pub fn p(&mut self, s: &str) {
        let was = self.last;
        self.gap_before(s.as_bytes()[0]);
        if self.marking && matches!(s, "{" | "}" | "(" | ")" | "[" | "]") {
            self.marks.push(self.t.len() as u16);
        }
        self.t.extend_from_slice(s.as_bytes());
        self.last = match s {
            "." if was == Cls::Pname || was == Cls::Word => Cls::PnameDot,
            // `distinct-p:x` is one prefixed name
            "-" if was == Cls::Word => Cls::PnameDot,
            "." => Cls::Dot,
            "<" | "<=" => Cls::Lt,
            _ => Cls::Other,
        };
    }
    pub fn path_mod(&mut self, s: &str) {
        self.p(s);
        self.last = match s {
            "?" => Cls::PathQ,
            "+" => Cls::PathPlus,
            _ => Cls::Other,
        };
    }
    pub fn kw(&mut self, s: &str) {
        for (i, w) in s.split(' ').enumerate() {
            let _ = i;
            self.gap_before(w.as_bytes()[0]);
            let mut skip = false;
            for (k, c) in w.bytes().enumerate() {
                let c = match self.case {
                    Case::Upper => c.to_ascii_uppercase(),
                    Case::Lower => c.to_ascii_lowercase(),
                    Case::Mixed => {
                        if k % 2 == 1 {
                            c.to_ascii_uppercase()
                        } else {
                            c.to_ascii_lowercase()
                        }
                    }
                    Case::Any => {
                        if c.is_ascii_alphabetic() {
                            let x = byte(c.to_ascii_lowercase());
                            assume((x == c.to_ascii_lowercase()) | (x == c.to_ascii_uppercase()));
                            x
                        } else {
                            c
                        }
                    }
                };
                if skip {
                    skip = false;
                    continue;
                }
                if self.swapping && self.looks {
                    if let Some(x) = look_alike(w, k) {
                        if choice(2) == 1 {
                            self.swapping = false;
                            let (x, two) = x[choice(x.len() as u8) as usize];
                            self.t.extend_from_slice(x.as_bytes());
                            skip = two;
                            continue;
                        }
                    }
                } else if self.swapping && c.is_ascii_alphabetic() && choice(2) == 1 {
                    self.swapping = false;
                    let x = sym_char(2 + choice(3));
                    self.t.extend_from_slice(x.bytes());
                    continue;
                }
                self.t.push(c);
            }
            self.glue();
            self.last = Cls::Word;
        }
    }
    fn glue(&mut self) {
        if self.gluing && choice(2) == 1 {
            self.gluing = false;
            let c = sym_char(choice(3) + 1);
            assume(pn_u(c.c));
            self.t.extend_from_slice(c.bytes());
        }
    }
    /// the case sensitive keyword
    pub fn kw_a(&mut self) {
        self.gap_before(b'a');
        self.t.push(b'a');
        self.glue();
        self.last = Cls::Word;
        self.e.tag("a");
    }

    // ---------------------------------------------------------- leaves
    pub fn next_leaf(&mut self) -> u8 {
        let l = self.leaf;
        self.leaf = (l + 1) % 20;
        l
    }
    fn rich_now(&mut self) -> bool {
        if self.rich > 0 && choice(2) == 1 {
            self.rich -= 1;
            return true;
        }
        false
    }
    /// a name of several characters; `words` of them may be keywords
    fn rich_name(&mut self, first: fn(u32) -> bool, rest: fn(u32) -> bool, words: u8) -> Vec<u8> {
        let mut o = Vec::with_capacity(16);
        let mut ch = |n: u8, f: fn(u32) -> bool| {
            let c = sym_char(n);
            assume(f(c.c));
            o.extend_from_slice(c.bytes());
        };
        match choice(5) {
            0 => {
                ch(1, first);
                ch(1, rest);
            }
            1 => ch(2, first),
            2 => {
                ch(1, first);
                ch(3, rest);
            }
            3 => {
                ch(4, first);
                ch(2, rest);
            }
            _ => o.extend_from_slice(WORDS[choice(words) as usize].as_bytes()),
        }
        o
    }
    /// the text of a string between quotes q or of an IRI
    fn rich_text(&mut self, ok: fn(u32) -> bool) -> Vec<u8> {
        let mut o = Vec::with_capacity(16);
        let mut ch = |n: u8| {
            let c = sym_char(n);
            assume(ok(c.c));
            o.extend_from_slice(c.bytes());
        };
        match choice(5) {
            0 => {
                ch(1);
                ch(1);
                ch(1);
            }
            1 => ch(2),
            2 => {
                ch(3);
                ch(1);
            }
            3 => {
                ch(1);
                ch(4);
            }
            _ => {}
        }
        o
    }
    /// an IRI of any kind with richer parts
    fn rich_iri(&mut self) {
        match choice(4) {
            0 => {
                self.gap_before(b'<');
                let t = self.rich_text(iri_char);
                self.t.push(b'<');
                self.t.extend_from_slice(&t);
                self.t.push(b'>');
                self.e.tag("<");
                self.e.bytes(&t);
                self.last = Cls::Other;
            }
            1 => {
                // prefix, local name of one character
                self.gap_before(b'a');
                let p = self.rich_name(pn_base, pn_char, WORDS.len() as u8);
                let mut p = p;
                if p.len() > 1 {
                    p.extend_from_slice(["", "-", ".b", "2"][choice(4) as usize].as_bytes());
                }
                let b = self.name_byte();
                self.t.extend_from_slice(&p);
                self.t.push(b':');
                self.t.push(b);
                self.e.tag(":");
                self.e.bytes(&p);
                self.e.bytes(&[b]);
                self.last = Cls::Pname;
            }
            2 => {
                self.gap_before(b':');
                let l = self.rich_local();
                self.t.push(b':');
                self.t.extend_from_slice(&l);
                self.e.tag(":");
                self.e.none();
                self.e.bytes(&l);
                self.last = Cls::Pname;
            }
            _ => {
                self.gap_before(b'a');
                let p = self.rich_name(pn_base, pn_char, 12);
                self.t.extend_from_slice(&p);
                self.t.push(b':');
                self.e.tag("ns");
                self.e.bytes(&p);
                self.last = Cls::Pname;
            }
        }
    }
    fn rich_local(&mut self) -> Vec<u8> {
        fn first(c: u32) -> bool {
            pn_u(c) | digit(c) | (c == 0x3a)
        }
        fn rest(c: u32) -> bool {
            pn_char(c) | (c == 0x3a)
        }
        match choice(4) {
            0 => {
                let mut o = self.rich_name(first, rest, 6);
                o.push(b'.');
                let c = sym_char(1);
                assume(rest(c.c));
                o.push(c.b[0]);
                o
            }
            1 => {
                let a = byte(b'4');
                let b = byte(b'f');
                assume(hex(a as u32) & hex(b as u32));
                vec![b'%', a, b]
            }
            2 => {
                let a = byte(b';');
                assume(local_esc(a as u32));
                vec![b'\\', a]
            }
            _ => self.rich_name(first, rest, 6),
        }
    }
    /// one byte of a name: a letter, digit or underscore
    pub fn name_byte(&mut self) -> u8 {
        let h = b'b' + self.next_leaf();
        if !self.symleaf {
            return h;
        }
        let b = byte(h);
        let c = b as u32;
        if self.wide {
            assume(alpha(c) | digit(c) | (c == 0x5f));
        } else {
            assume((b >= b'a') & (b <= b'z'));
        }
        b
    }
    pub fn var(&mut self) {
        let dollar = self.pick(2) == 1;
        self.gap_before(b'?');
        if self.rich_now() {
            let n = self.rich_name(var_first, var_rest, 6);
            self.t.push(if dollar { b'$' } else { b'?' });
            self.t.extend_from_slice(&n);
            self.e.tag(if dollar { "$" } else { "?" });
            self.e.bytes(&n);
            self.last = Cls::Var;
            return;
        }
        let b = self.name_byte();
        self.t.push(if dollar { b'$' } else { b'?' });
        self.t.push(b);
        self.e.tag(if dollar { "$" } else { "?" });
        self.e.bytes(&[b]);
        self.last = Cls::Var;
    }
    pub fn iri_ref(&mut self, tag: bool) {
        self.gap_before(b'<');
        let h = b'b' + self.next_leaf();
        let b = if self.symleaf {
            let b = byte(h);
            if self.wide {
                assume(iri_char(b as u32) & (b < 0x7f));
            } else {
                assume(((b >= 0x3f) & (b <= 0x5b)) | ((b >= b'a') & (b <= b'z')));
            }
            b
        } else {
            h
        };
        self.t.push(b'<');
        self.t.push(b);
        self.t.push(b'>');
        if tag {
            self.e.tag("<");
        }
        self.e.bytes(&[b]);
        self.last = Cls::Other;
    }
    pub fn pname(&mut self, prefix: &str) {
        self.gap_before(if prefix.is_empty() { b':' } else { prefix.as_bytes()[0] });
        let b = self.name_byte();
        self.t.extend_from_slice(prefix.as_bytes());
        self.t.push(b':');
        self.t.push(b);
        self.e.tag(":");
        if prefix.is_empty() {
            self.e.none()
        } else {
            self.e.bytes(prefix.as_bytes())
        }
        self.e.bytes(&[b]);
        self.last = Cls::Pname;
    }
    pub fn pname_ns(&mut self, prefix: &str, tag: bool) {
        self.gap_before(if prefix.is_empty() { b':' } else { prefix.as_bytes()[0] });
        self.t.extend_from_slice(prefix.as_bytes());
        self.t.push(b':');
        if tag {
            self.e.tag("ns");
        }
        if prefix.is_empty() {
            self.e.none()
        } else {
            self.e.bytes(prefix.as_bytes())
        }
        self.last = Cls::Pname;
    }
    pub fn iri(&mut self) {
        if self.rich_now() {
            return self.rich_iri();
        }
        match self.pick(5) {
            0 => self.iri_ref(true),
            1 => self.pname("p.q"),
            2 => self.pname(""),
            3 => self.pname_ns("p", true),
            _ => self.pname_ns("", true),
        }
    }
    /// the text of a string literal with one symbolic character
    pub fn string(&mut self) {
        let h = b'b' + self.next_leaf();
        let shape = self.pick(4);
        let q = if shape == 1 { b'\'' } else { b'"' };
        self.gap_before(q);
        self.t.push(q);
        if shape < 2 && self.rich_now() {
            fn ok(c: u32) -> bool {
                (c != 0x5c) & (c != 10) & (c != 13)
            }
            let t = self.rich_text(ok);
            for b in &t {
                assume(*b != q);
            }
            self.t.extend_from_slice(&t);
            self.e.bytes(&t);
        } else if shape == 2 {
            self.e.bytes(&[]);
        } else if shape == 3 {
            let c = if self.symleaf {
                let c = byte(b'n');
                assume(echar(c as u32));
                c
            } else {
                b'n'
            };
            self.t.push(b'\\');
            self.t.push(c);
            self.e.bytes(&[b'\\', c]);
        } else {
            let b = if self.symleaf {
                let b = byte(h);
                if self.wide {
                    assume((b < 0x80) & (b != q) & (b != b'\\') & (b != 10) & (b != 13));
                } else {
                    assume(((b >= 0x23) & (b <= 0x26)) | ((b >= 0x28) & (b <= 0x5b)) | ((b >= b'a') & (b <= b'z')));
                }
                b
            } else {
                h
            };
            self.t.push(b);
            self.e.bytes(&[b]);
        }
        self.t.push(q);
        self.last = Cls::Other;
    }
    pub fn literal(&mut self, kind: u8) {
        self.e.tag("'");
        self.string();
        match kind {
            0 => self.e.none(),
            1 => {
                self.gap_before(b'@');
                if self.rich_now() {
                    let w = ["true", "a", "x-y-z", "EN-us-1", "a-b-c-1-2-3"][choice(5) as usize];
                    self.t.push(b'@');
                    self.t.extend_from_slice(w.as_bytes());
                    self.e.tag("@");
                    self.e.bytes(w.as_bytes());
                    self.last = Cls::Lang;
                    return;
                }
                let b = byte(b'e');
                assume(alpha(b as u32));
                self.t.push(b'@');
                self.t.push(b);
                self.t.extend_from_slice(b"-x1");
                self.e.tag("@");
                self.e.bytes(&[b, b'-', b'x', b'1']);
                self.last = Cls::Lang;
            }
            _ => {
                self.p("^^");
                self.e.tag("^");
                self.iri();
            }
        }
    }
    /// one or two symbolic digits
    pub fn digits(&mut self) -> u64 {
        let d = |h: u8, s: bool| {
            if !s {
                return h;
            }
            let b = byte(h);
            assume(digit(b as u32));
            b
        };
        let two = self.pick(2) == 1;
        self.gap_before(b'0');
        let h = b'1' + self.next_leaf() % 8;
        let a = d(h, self.symleaf);
        self.t.push(a);
        let mut v = (a - b'0') as u64;
        if two {
            let b = d(b'0', self.symleaf);
            self.t.push(b);
            v = v * 10 + (b - b'0') as u64;
        }
        self.last = Cls::Num;
        v
    }
    pub fn integer(&mut self, signed: bool) {
        let sign = if signed { self.pick(3) } else { 0 };
        let v = if sign != 0 {
            let c = if sign == 1 { b'-' } else { b'+' };
            self.gap_before(c);
            self.t.push(c);
            let a = byte(b'7');
            assume(digit(a as u32));
            self.t.push(a);
            self.last = Cls::Num;
            (a - b'0') as u64
        } else {
            self.digits()
        };
        self.e.tag("i");
        self.e.u64(if sign == 1 { v.wrapping_neg() } else { v });
    }
    pub fn decimal(&mut self) {
        const D: &[(&str, f64, Option<i64>)] = &[
            ("1.5", 1.5, None),
            (".25", 0.25, None),
            ("10.0625", 10.0625, None),
            ("2e3", 2.0, Some(3)),
            ("7.5E-10", 7.5, Some(-10)),
            (".5e+2", 0.5, Some(2)),
        ];
        let (s, f, x) = D[self.any(D.len() as u8) as usize];
        self.gap_before(b'1');
        if self.last == Cls::Num {}
        self.t.extend_from_slice(s.as_bytes());
        self.e.tag("f");
        self.e.u64(f.to_bits());
        match x {
            None => self.e.none(),
            Some(x) => {
                self.e.tag("e");
                self.e.u64(x as u64);
            }
        }
        self.last = Cls::Num;
    }
    pub fn boolean(&mut self) {
        let b = self.any(2) == 1;
        self.kw(if b { "true" } else { "false" });
        self.e.tag("b");
        self.e.flag(b);
    }
    pub fn blank_label(&mut self) {
        self.gap_before(b'_');
        if self.rich_now() {
            let n = self.rich_name(var_first, pn_char, 6);
            self.t.extend_from_slice(b"_:");
            self.t.extend_from_slice(&n);
            self.e.tag("_");
            self.e.bytes(&n);
            self.last = Cls::Pname;
            return;
        }
        let b = self.name_byte();
        self.t.extend_from_slice(b"_:");
        self.t.push(b);
        self.e.tag("_");
        self.e.bytes(&[b]);
        self.last = Cls::Pname;
    }
    /// GraphTerm number k (0..8)
    pub fn graph_term(&mut self, k: u8) {
        match k {
            0 => self.iri(),
            1 => self.literal(0),
            2 => self.literal(1),
            3 => self.literal(2),
            4 => self.integer(true),
            5 => self.decimal(),
            6 => self.boolean(),
            7 => self.blank_label(),
            8 => {
                self.p("[");
                self.p("]");
                self.e.tag("[]");
            }
            _ => {
                self.p("(");
                self.p(")");
                self.e.tag("nil");
            }
        }
    }
    pub fn var_or_term(&mut self) {
        match self.pick(11) {
            0 => self.var(),
            k => self.graph_term(k - 1),
        }
    }
    pub fn var_or_iri(&mut self) {
        match self.pick(2) {
            0 => self.var(),
            _ => self.iri(),
        }
    }

    // ----------------------------------------------------- expressions
    pub fn expr(&mut self) {
        if self.plain {
            let d = std::mem::replace(&mut self.dev, 0);
            self.expr_at(0);
            self.dev = d;
        } else {
            self.expr_at(0)
        }
    }
    /// An expression that binds at least as strongly as `level`:
    /// 0 `||`, 1 `&&`, 2 relational, 3 additive, 4 multiplicative, 5 unary,
    /// 6 primary.
    pub fn expr_at(&mut self, level: u8) {
        let ops = 6 - level;
        let k = self.pick(ops + 6);
        if k == 0 {
            return self.primary(0);
        }
        if k > ops {
            return self.primary(k - ops);
        }
        match level + k - 1 {
            0 => self.assoc("||", 1),
            1 => self.assoc("&&", 2),
            2 => self.relation(),
            3 => self.chain("sum", ["+", "-"], 4),
            4 => self.chain("prod", ["*", "/"], 5),
            _ => {
                let op = ["!", "+", "-"][self.any(3) as usize];
                self.e.open(op);
                self.p(op);
                self.primary_any();
                self.e.close();
            }
        }
    }
    pub fn assoc(&mut self, op: &str, sub: u8) {
        self.e.open(op);
        self.expr_at(sub);
        loop {
            self.p(op);
            self.expr_at(sub);
            if !self.more(R_ASSOC) {
                break;
            }
        }
        self.e.close();
    }
    pub fn chain(&mut self, tag: &str, ops: [&str; 2], sub: u8) {
        self.e.open(tag);
        self.expr_at(sub);
        loop {
            let op = ops[self.coin() as usize];
            self.p(op);
            self.e.tag(op);
            self.expr_at(sub);
            if !self.more(R_CHAIN) {
                break;
            }
        }
        self.e.close();
    }
    pub fn relation(&mut self) {
        let k = self.any(8);
        if k < 6 {
            let op = ["=", "!=", "<", ">", "<=", ">="][k as usize];
            self.e.open(op);
            self.expr_at(3);
            self.p(op);
            self.expr_at(3);
        } else {
            self.e.open(if k == 6 { "in" } else { "notin" });
            self.expr_at(3);
            self.kw(if k == 6 { "IN" } else { "NOT IN" });
            self.expr_list("nillist", "list");
        }
        self.e.close();
    }
    pub fn expr_list(&mut self, nil: &str, tag: &str) {
        let k = self.pick(3);
        self.p("(");
        if k == 1 {
            self.e.tag(nil);
        } else {
            self.e.open(tag);
            self.expr();
            if k == 2 {
                self.p(",");
                self.expr();
                while self.more(R_IN) {
                    self.p(",");
                    self.expr();
                }
            }
            self.e.close();
        }
        self.p(")");
    }
    fn primary_any(&mut self) {
        let k = self.pick(7);
        self.primary(k)
    }
    pub fn primary(&mut self, k: u8) {
        match k {
            0 => self.var(),
            1 => {
                self.e.open("B");
                self.p("(");
                self.expr();
                self.p(")");
                self.e.close();
            }
            2 => self.builtin(),
            3 => self.fn_call(),
            4 => self.iri(),
            _ => match self.any(6) {
                0 => self.integer(false),
                1 => self.literal(0),
                2 => self.literal(1),
                3 => self.literal(2),
                4 => self.decimal(),
                _ => self.boolean(),
            },
        }
    }
    pub fn fn_call(&mut self) {
        self.e.open("fn");
        self.iri();
        self.arg_list();
        self.e.close();
    }
    pub fn arg_list(&mut self) {
        let k = self.pick(4);
        self.p("(");
        if k == 1 {
            self.e.tag("nilargs");
        } else {
            self.e.open("args");
            let distinct = k == 3;
            self.e.flag(distinct);
            if distinct {
                self.kw("DISTINCT");
            }
            self.expr();
            if k == 2 {
                self.p(",");
                self.expr();
            }
            while self.more(R_ARGS) {
                self.p(",");
                self.expr();
            }
            self.e.close();
        }
        self.p(")");
    }
    pub fn builtin(&mut self) {
        match self.any(4) {
            0 => {
                let k = self.any(FUNS.len() as u8);
                self.fun(k)
            }
            1 => self.aggregate(),
            k => {
                self.e.open(if k == 2 { "EXISTS" } else { "NOTEXISTS" });
                self.kw(if k == 2 { "EXISTS" } else { "NOT EXISTS" });
                self.ggp();
                self.e.close();
            }
        }
    }
    pub fn fun(&mut self, k: u8) {
        let fun = &FUNS[k as usize];
        self.e.open(fun.name);
        self.kw(fun.name);
        self.p("(");
        let (min, max) = match fun.kind {
            NONE => (0, 0),
            E1 => (1, 1),
            E2 => (2, 2),
            E3 => (3, 3),
            E01 => (0, 1),
            E23 => (2, 3),
            E34 => (3, 4),
            LIST => (0, 3),
            _ => (0, 0),
        };
        if fun.kind == VAR {
            self.var()
        } else {
            let n = self.count(R_CONCAT, min, max - min + 1);
            for i in 0..n {
                if i > 0 {
                    self.p(",");
                }
                self.expr();
            }
        }
        self.p(")");
        self.e.close();
    }
    pub fn distinct(&mut self) {
        let d = self.pick(2) == 1;
        self.e.flag(d);
        if d {
            self.kw("DISTINCT");
        }
    }
    pub fn aggregate(&mut self) {
        match self.any(3) {
            0 => {
                self.e.open("COUNT");
                self.kw("COUNT");
                self.p("(");
                self.distinct();
                if self.pick(2) == 1 {
                    self.p("*");
                    self.e.tag("*");
                } else {
                    self.expr();
                }
                self.p(")");
                self.e.close();
            }
            1 => {
                let n = AGGS[self.any(AGGS.len() as u8) as usize];
                self.e.open(n);
                self.kw(n);
                self.p("(");
                self.distinct();
                self.expr();
                self.p(")");
                self.e.close();
            }
            _ => {
                self.e.open("GROUP_CONCAT");
                self.kw("GROUP_CONCAT");
                self.p("(");
                self.distinct();
                self.expr();
                if self.pick(2) == 1 {
                    self.p(";");
                    self.kw("SEPARATOR");
                    self.p("=");
                    self.string();
                } else {
                    self.e.none();
                }
                self.p(")");
                self.e.close();
            }
        }
    }
    pub fn constraint(&mut self) {
        match self.pick(3) {
            0 => {
                self.e.open("B");
                self.p("(");
                self.expr();
                self.p(")");
                self.e.close();
            }
            1 => self.builtin(),
            _ => self.fn_call(),
        }
    }
    pub fn expr_as_var(&mut self) {
        self.e.open("as");
        self.p("(");
        self.expr();
        self.kw("AS");
        self.var();
        self.p(")");
        self.e.close();
    }

    // ----------------------------------------------------------- paths
    /// level 0: alternative, 1: sequence, 2: element or inverse, 3: primary
    pub fn path(&mut self, level: u8) {
        let ops = 4 - level;
        let k = self.pick(ops + 4);
        if k == 0 {
            return self.iri();
        }
        if k > ops - 1 {
            // primary 1..
            return self.path_primary(k - (ops - 1));
        }
        match level + k - 1 {
            0 => self.path_list("|", 1),
            1 => self.path_list("/", 2),
            _ => match self.any(4) {
                0 => {
                    self.e.open("^");
                    self.p("^");
                    self.path_elt();
                    self.e.close();
                }
                m => {
                    let k = self.pick(5);
                    self.path_primary(k);
                    self.path_mod_n(m)
                }
            },
        }
    }
    pub fn path_mod_n(&mut self, m: u8) {
        match m {
            1 => {
                self.path_mod("?");
                self.e.tag("%?")
            }
            2 => {
                self.path_mod("*");
                self.e.tag("%*")
            }
            _ => {
                self.path_mod("+");
                self.e.tag("%+")
            }
        }
    }
    pub fn path_elt(&mut self) {
        let k = self.pick(5);
        self.path_primary(k);
        let m = self.pick(4);
        if m != 0 {
            self.path_mod_n(m)
        }
    }
    pub fn path_primary(&mut self, k: u8) {
        match k {
            0 => self.iri(),
            1 => self.kw_a(),
            2 => {
                self.e.open("P");
                self.p("(");
                self.path(0);
                self.p(")");
                self.e.close();
            }
            3 => {
                self.e.open("!");
                self.p("!");
                self.path_one();
                self.e.close();
            }
            _ => {
                self.e.open("!");
                self.p("!");
                self.p("(");
                if self.any(2) == 1 {
                    self.path_one();
                    while self.more(R_NEG) {
                        self.p("|");
                        self.path_one();
                    }
                }
                self.p(")");
                self.e.close();
            }
        }
    }
    pub fn path_one(&mut self) {
        let k = self.pick(4);
        if k >= 2 {
            self.e.open("^");
            self.p("^");
        }
        if k % 2 == 0 {
            self.iri()
        } else {
            self.kw_a()
        }
        if k >= 2 {
            self.e.close();
        }
    }
    pub fn path_list(&mut self, op: &str, sub: u8) {
        self.e.open(op);
        self.path(sub);
        loop {
            self.p(op);
            self.path(sub);
            if !self.more(R_PATH) {
                break;
            }
        }
        self.e.close();
    }

    // --------------------------------------------------------- triples
    /// `paths`: verbs may be property paths (graph patterns)
    pub fn verb(&mut self, paths: bool) {
        if paths {
            match self.pick(2) {
                0 => self.var(),
                _ => self.path(0),
            }
        } else {
            match self.pick(3) {
                0 => self.var(),
                1 => self.iri(),
                _ => self.kw_a(),
            }
        }
    }
    pub fn graph_node(&mut self, paths: bool) {
        match self.pick(13) {
            0 => self.var(),
            11 => self.collection(paths),
            12 => self.bnpl(paths),
            k => self.graph_term(k - 1),
        }
    }
    pub fn collection(&mut self, paths: bool) {
        self.e.open("coll");
        self.p("(");
        self.graph_node(paths);
        while self.more(R_COLL) {
            self.graph_node(paths);
        }
        self.p(")");
        self.e.close();
    }
    pub fn bnpl(&mut self, paths: bool) {
        self.e.open("bnpl");
        self.p("[");
        self.property_list(paths);
        self.p("]");
        self.e.close();
    }
    pub fn property_list(&mut self, paths: bool) {
        self.e.open("pl");
        let mut first = true;
        loop {
            self.e.open("po");
            self.verb(paths);
            self.graph_node(paths && first);
            while self.more(R_OBJ) {
                self.p(",");
                self.graph_node(paths && first);
            }
            self.e.close();
            first = false;
            // 1: another verb, 2: empty entries at the end, 3: `;;` and another verb
            match self.pick_more(R_PO, 4) {
                0 => break,
                1 => self.p(";"),
                2 => {
                    self.p(";");
                    if self.pick(2) == 1 {
                        self.p(";");
                    }
                    break;
                }
                _ => {
                    self.p(";");
                    self.p(";");
                }
            }
        }
        self.e.close();
    }
    pub fn triples_same_subject(&mut self, paths: bool) {
        self.e.open("s");
        match self.pick(3) {
            0 => {
                self.var_or_term();
                self.property_list(paths);
            }
            k => {
                if k == 1 {
                    self.collection(paths)
                } else {
                    self.bnpl(paths)
                }
                if self.any(2) == 1 {
                    self.property_list(paths)
                } else {
                    self.e.none()
                }
            }
        }
        self.e.close();
    }
    /// triples with or without a `.` at the end
    pub fn triples(&mut self, tag: &str, paths: bool) {
        self.e.open(tag);
        self.triples_same_subject(paths);
        loop {
            match self.pick_more(R_TRIPLES, 3) {
                0 => break,
                1 => {
                    self.p(".");
                    self.triples_same_subject(paths);
                }
                _ => {
                    self.p(".");
                    break;
                }
            }
        }
        self.e.close();
    }
    pub fn triples_block(&mut self) {
        self.triples("tb", true)
    }
    /// an optional triples template
    pub fn template(&mut self) {
        if self.pick(2) == 1 {
            self.triples("tt", false)
        } else {
            self.e.open("tt");
            self.e.close();
        }
    }
    /// a template that is not empty, at no cost
    pub fn template1(&mut self) {
        self.triples("tt", false)
    }

    // -------------------------------------------------------- patterns
    pub fn ggp(&mut self) {
        self.depth += 1;
        let sub = self.pick(2) == 1;
        self.e.open("{");
        self.p("{");
        if sub {
            self.sub_select();
        } else {
            self.ggp_sub();
        }
        self.p("}");
        self.e.close();
        self.depth -= 1;
    }
    pub fn ggp_sub(&mut self) {
        if self.pick(2) == 1 {
            self.triples_block();
        } else {
            self.e.none();
        }
        loop {
            let k = self.pick_more(R_GP, 9);
            if k == 0 {
                break;
            }
            self.e.open("gp");
            self.graph_pattern(k - 1);
            if self.coin() == 1 {
                self.p(".");
            }
            if self.pick(2) == 1 {
                self.triples_block();
            } else {
                self.e.none();
            }
            self.e.close();
        }
    }
    /// GraphPatternNotTriples number k (0..8)
    pub fn graph_pattern(&mut self, k: u8) {
        match k {
            0 => {
                self.e.open("filter");
                self.kw("FILTER");
                self.constraint();
                self.e.close();
            }
            1 => {
                self.e.open("optional");
                self.kw("OPTIONAL");
                self.ggp();
                self.e.close();
            }
            2 => {
                self.e.open("union");
                self.ggp();
                let mut n = self.count(R_UNION, 0, 3);
                while n > 0 {
                    self.kw("UNION");
                    self.ggp();
                    n -= 1;
                }
                self.e.close();
            }
            3 => {
                self.e.open("minus");
                self.kw("MINUS");
                self.ggp();
                self.e.close();
            }
            4 => {
                self.e.open("graph");
                self.kw("GRAPH");
                self.var_or_iri();
                self.ggp();
                self.e.close();
            }
            5 => {
                self.e.open("service");
                self.kw("SERVICE");
                self.silent();
                self.var_or_iri();
                self.ggp();
                self.e.close();
            }
            6 => {
                self.e.open("bind");
                self.kw("BIND");
                self.expr_as_var();
                self.e.close();
            }
            _ => {
                self.kw("VALUES");
                self.datablock();
            }
        }
    }
    pub fn silent(&mut self) {
        let s = self.coin() == 1;
        self.e.flag(s);
        if s {
            self.kw("SILENT");
        }
    }
    pub fn data_value(&mut self) {
        match self.pick(8) {
            0 => self.integer(true),
            1 => self.iri(),
            2 => self.literal(0),
            3 => self.literal(1),
            4 => self.literal(2),
            5 => self.decimal(),
            6 => self.boolean(),
            _ => {
                self.kw("UNDEF");
                self.e.tag("UNDEF");
            }
        }
    }
    pub fn datablock(&mut self) {
        if self.pick(2) == 0 {
            self.e.open("values1");
            self.var();
            self.p("{");
            while self.more(R_VALS) {
                self.data_value();
            }
            self.p("}");
            self.e.close();
        } else {
            self.e.open("values");
            self.p("(");
            self.e.open("vars");
            let n = self.count(R_COLS, 0, 3);
            for _ in 0..n {
                self.var();
            }
            self.e.close();
            self.p(")");
            self.p("{");
            let rows = self.count(R_ROWS, 0, 3);
            for _ in 0..rows {
                self.e.open("row");
                self.p("(");
                for _ in 0..n {
                    self.data_value();
                }
                self.p(")");
                self.e.close();
            }
            self.p("}");
            self.e.close();
        }
    }

    // -------------------------------------------------------- contexts
    pub fn head(&mut self) {
        self.e.open("Q");
        self.e.open("pro");
        self.e.close();
    }
    pub fn no_datasets(&mut self) {
        self.e.open("ds");
        self.e.close();
    }
    pub fn tail(&mut self) {
        self.e.none();
        self.e.close();
        self.end_gap();
    }
    pub fn no_mods(&mut self) {
        self.e.open("mod");
        for _ in 0..4 {
            self.e.none()
        }
        self.e.close();
    }
    /// an integer without sign of n symbolic digits
    pub fn int_digits(&mut self, n: u8) {
        self.gap_before(b'0');
        let mut v = 0u64;
        for _ in 0..n {
            let b = byte(b'1');
            assume(digit(b as u32));
            self.t.push(b);
            v = v * 10 + (b - b'0') as u64;
        }
        self.last = Cls::Num;
        self.e.u64(v);
    }
    /// `ASK { f }`
    pub fn in_group(&mut self, f: impl FnOnce(&mut G)) {
        self.head();
        self.e.open("ask");
        self.kw("ASK");
        self.no_datasets();
        self.e.open("{");
        self.p("{");
        f(self);
        self.p("}");
        self.e.close();
        self.e.open("mod");
        for _ in 0..4 {
            self.e.none()
        }
        self.e.close();
        self.e.close();
        self.tail();
    }
    /// a group that holds one pattern
    pub fn in_pattern(&mut self, f: impl FnOnce(&mut G)) {
        self.in_group(|g| {
            g.e.none();
            g.e.open("gp");
            f(g);
            g.e.none();
            g.e.close();
        })
    }
    /// `ASK { } modifiers`; f writes the modifier k (0..3) of
    /// GROUP BY, HAVING, ORDER BY, LIMIT
    pub fn in_modifier(&mut self, k: u8, f: impl FnOnce(&mut G)) {
        self.head();
        self.e.open("ask");
        self.kw("ASK");
        self.no_datasets();
        self.empty_group();
        self.e.open("mod");
        for _ in 0..k {
            self.e.none()
        }
        f(self);
        for _ in k..3 {
            self.e.none()
        }
        self.e.close();
        self.e.close();
        self.tail();
    }
    pub fn empty_group(&mut self) {
        self.e.open("{");
        self.p("{");
        self.e.none();
        self.p("}");
        self.e.close();
    }
    /// a query in which f writes an expression, context k (0..6)
    pub fn in_expr(&mut self, k: u8, f: impl FnOnce(&mut G)) {
        fn b(g: &mut G, tag: &str, f: impl FnOnce(&mut G), end: impl FnOnce(&mut G)) {
            g.e.open(tag);
            g.p("(");
            f(g);
            end(g);
            g.p(")");
            g.e.close();
        }
        fn as_var(g: &mut G) {
            g.kw("AS");
            g.var();
        }
        match k {
            0 => self.in_pattern(|g| {
                g.e.open("filter");
                g.kw("FILTER");
                b(g, "B", f, |_| ());
                g.e.close();
            }),
            1 => self.in_pattern(|g| {
                g.e.open("bind");
                g.kw("BIND");
                b(g, "as", f, as_var);
                g.e.close();
            }),
            2 => {
                self.head();
                self.e.open("select");
                self.kw("SELECT");
                self.e.none();
                self.e.open("vars");
                b(self, "as", f, as_var);
                self.e.close();
                self.no_datasets();
                self.empty_group();
                self.e.open("mod");
                for _ in 0..4 {
                    self.e.none()
                }
                self.e.close();
                self.e.close();
                self.tail();
            }
            3 => self.in_modifier(1, |g| {
                g.e.open("having");
                g.kw("HAVING");
                b(g, "B", f, |_| ());
                g.e.close();
            }),
            4 => self.in_modifier(2, |g| {
                g.e.open("order");
                g.kw("ORDER BY");
                g.e.open("desc");
                g.kw("DESC");
                g.p("(");
                f(g);
                g.p(")");
                g.e.close();
                g.e.close();
            }),
            _ => self.in_modifier(0, |g| {
                g.e.open("group");
                g.kw("GROUP BY");
                b(g, "asopt", f, |g| g.e.none());
                g.e.close();
            }),
        }
    }

    // --------------------------------------------------------- queries
    pub fn prologue(&mut self) {
        self.e.open("pro");
        loop {
            match self.pick_more(R_PRO, 5) {
                0 => break,
                1 => {
                    self.e.open("base");
                    self.kw("BASE");
                    self.iri_ref(false);
                    self.e.close();
                }
                k => {
                    self.e.open("prefix");
                    self.kw("PREFIX");
                    self.pname_ns(["", "p", "q-r.s"][k as usize - 2], false);
                    self.iri_ref(false);
                    self.e.close();
                }
            }
        }
        self.e.close();
    }
    pub fn datasets(&mut self) {
        self.e.open("ds");
        loop {
            let k = self.pick_more(R_DS, 3);
            if k == 0 {
                break;
            }
            self.e.open(if k == 1 { "default" } else { "named" });
            self.kw("FROM");
            if k == 2 {
                self.kw("NAMED");
            }
            self.iri();
            self.e.close();
        }
        self.e.close();
    }
    pub fn where_clause(&mut self) {
        if self.pick(2) == 0 {
            self.kw("WHERE");
        }
        self.ggp();
    }
    pub fn modifiers(&mut self) {
        self.e.open("mod");
        if self.pick(2) == 1 {
            self.group_by()
        } else {
            self.e.none()
        }
        if self.pick(2) == 1 {
            self.having()
        } else {
            self.e.none()
        }
        if self.pick(2) == 1 {
            self.order_by()
        } else {
            self.e.none()
        }
        self.limit_offset();
        self.e.close();
    }
    pub fn group_by(&mut self) {
        self.e.open("group");
        self.kw("GROUP BY");
        loop {
            match self.pick(5) {
                0 => self.var(),
                1 => self.builtin(),
                2 => self.fn_call(),
                k => {
                    self.e.open("asopt");
                    self.p("(");
                    self.expr();
                    if k == 4 {
                        self.kw("AS");
                        self.var();
                    } else {
                        self.e.none();
                    }
                    self.p(")");
                    self.e.close();
                }
            }
            if !self.more(R_GROUP) {
                break;
            }
        }
        self.e.close();
    }
    pub fn having(&mut self) {
        self.e.open("having");
        self.kw("HAVING");
        loop {
            self.constraint();
            if !self.more(R_HAVING) {
                break;
            }
        }
        self.e.close();
    }
    pub fn order_by(&mut self) {
        self.e.open("order");
        self.kw("ORDER BY");
        loop {
            match self.pick(4) {
                0 => self.var(),
                1 | 2 => {
                    let asc = self.any(2) == 0;
                    self.e.open(if asc { "asc" } else { "desc" });
                    self.kw(if asc { "ASC" } else { "DESC" });
                    self.p("(");
                    self.expr();
                    self.p(")");
                    self.e.close();
                }
                _ => self.constraint(),
            }
            if !self.more(R_ORDER) {
                break;
            }
        }
        self.e.close();
    }
    pub fn limit_offset(&mut self) {
        let k = self.pick(5);
        if k == 0 {
            return self.e.none();
        }
        let (a, b) = if k <= 2 { (("LIMIT", "L"), ("OFFSET", "O")) } else { (("OFFSET", "O"), ("LIMIT", "L")) };
        self.kw(a.0);
        self.e.tag(a.1);
        let v = self.digits();
        self.e.u64(v);
        if k % 2 == 0 {
            self.kw(b.0);
            self.e.tag(b.1);
            let v = self.digits();
            self.e.u64(v);
        } else {
            self.e.none();
        }
    }
    pub fn select_clause(&mut self) {
        self.kw("SELECT");
        match self.pick(3) {
            0 => self.e.none(),
            1 => {
                self.kw("DISTINCT");
                self.e.tag("D");
            }
            _ => {
                self.kw("REDUCED");
                self.e.tag("R");
            }
        }
        let k = self.pick(3);
        if k == 0 {
            self.p("*");
            self.e.tag("*");
        } else {
            self.e.open("vars");
            let mut k = k;
            loop {
                if k == 1 {
                    self.var()
                } else {
                    self.expr_as_var()
                }
                k = self.pick_more(R_SELVARS, 3);
                if k == 0 {
                    break;
                }
            }
            self.e.close();
        }
    }
    pub fn select(&mut self) {
        self.e.open("select");
        self.select_clause();
        self.datasets();
        self.where_clause();
        self.modifiers();
        self.e.close();
    }
    pub fn sub_select(&mut self) {
        self.e.open("subselect");
        self.select_clause();
        self.where_clause();
        self.modifiers();
        self.values_opt();
        self.e.close();
    }
    pub fn values_opt(&mut self) {
        if self.pick(2) == 1 {
            self.kw("VALUES");
            self.datablock()
        } else {
            self.e.none()
        }
    }
    pub fn ask(&mut self) {
        self.e.open("ask");
        self.kw("ASK");
        self.datasets();
        self.where_clause();
        self.modifiers();
        self.e.close();
    }
    pub fn describe(&mut self) {
        self.e.open("describe");
        self.kw("DESCRIBE");
        if self.pick(2) == 1 {
            self.p("*");
            self.e.tag("*");
        } else {
            self.e.open("vars");
            self.var_or_iri();
            while self.more(R_DESCRIBE) {
                self.var_or_iri();
            }
            self.e.close();
        }
        self.datasets();
        if self.pick(2) == 1 {
            self.where_clause();
        } else {
            self.e.none();
        }
        self.modifiers();
        self.e.close();
    }
    pub fn construct(&mut self) {
        if self.pick(2) == 0 {
            self.e.open("construct");
            self.kw("CONSTRUCT");
            self.p("{");
            self.template();
            self.p("}");
            self.datasets();
            self.where_clause();
        } else {
            self.e.open("constructwhere");
            self.kw("CONSTRUCT");
            self.datasets();
            self.kw("WHERE");
            self.p("{");
            self.template();
            self.p("}");
        }
        self.modifiers();
        self.e.close();
    }
    /// query form k (0..4)
    pub fn query(&mut self, k: u8) {
        match k {
            0 => self.select(),
            1 => self.ask(),
            2 => self.construct(),
            _ => self.describe(),
        }
    }
    pub fn statement(&mut self, k: u8) {
        self.e.open("Q");
        self.prologue();
        self.query(k);
        self.values_opt();
        self.e.close();
        self.end_gap();
    }

    // --------------------------------------------------------- updates
    pub fn update(&mut self) {
        self.e.open("update");
        self.prologue();
        match self.pick(9) {
            8 => {
                self.e.none();
                self.e.none();
            }
            k => {
                let s = [0, 1, 3, 4, 7, 8, 9, 10][k as usize];
                self.update_stmt(s);
                // 1: `;` at the end, 2: another update
                match if self.rep_now(R_UPD) { 2 } else { self.pick(3) } {
                    0 => self.e.none(),
                    1 => {
                        self.p(";");
                        self.e.open("update");
                        self.e.open("pro");
                        self.e.close();
                        self.e.none();
                        self.e.none();
                        self.e.close();
                    }
                    _ => {
                        self.p(";");
                        self.update();
                    }
                }
            }
        }
        self.e.close();
    }
    pub fn quads(&mut self) {
        self.e.open("quads");
        self.p("{");
        self.template();
        while self.more(R_QUADS) {
            self.e.open("graph");
            self.kw("GRAPH");
            self.var_or_iri();
            self.p("{");
            self.template();
            self.p("}");
            self.e.close();
            if self.coin() == 1 {
                self.p(".");
            }
            self.template();
        }
        self.p("}");
        self.e.close();
    }
    pub fn graph_or_default(&mut self) {
        match self.pick(3) {
            0 => {
                self.kw("DEFAULT");
                self.e.tag("DEFAULT");
            }
            k => {
                self.e.open("graph");
                if k == 1 {
                    self.kw("GRAPH");
                }
                self.iri();
                self.e.close();
            }
        }
    }
    pub fn graph_ref_all(&mut self) {
        match self.any(4) {
            0 => {
                self.kw("DEFAULT");
                self.e.tag("DEFAULT");
            }
            1 => {
                self.kw("NAMED");
                self.e.tag("NAMED");
            }
            2 => {
                self.kw("ALL");
                self.e.tag("ALL");
            }
            _ => {
                self.e.open("graph");
                self.kw("GRAPH");
                self.iri();
                self.e.close();
            }
        }
    }
    /// update statement k (0..11)
    pub fn update_stmt(&mut self, k: u8) {
        match k {
            0 => {
                self.e.open("LOAD");
                self.kw("LOAD");
                self.silent();
                self.iri();
                if self.coin() == 1 {
                    self.kw("INTO GRAPH");
                    self.iri();
                } else {
                    self.e.none();
                }
            }
            1 | 2 => {
                let n = if k == 1 { "CLEAR" } else { "DROP" };
                self.e.open(n);
                self.kw(n);
                self.silent();
                self.graph_ref_all();
            }
            3 => {
                self.e.open("CREATE");
                self.kw("CREATE");
                self.silent();
                self.kw("GRAPH");
                self.iri();
            }
            4 | 5 | 6 => {
                let n = ["ADD", "MOVE", "COPY"][k as usize - 4];
                self.e.open(n);
                self.kw(n);
                self.silent();
                self.graph_or_default();
                self.kw("TO");
                self.graph_or_default();
            }
            7 => {
                self.e.open("INSERTDATA");
                self.kw("INSERT DATA");
                self.quads();
            }
            8 => {
                self.e.open("DELETEDATA");
                self.kw("DELETE DATA");
                self.quads();
            }
            9 => {
                self.e.open("DELETEWHERE");
                self.kw("DELETE WHERE");
                self.quads();
            }
            _ => {
                self.e.open("MODIFY");
                if self.pick(2) == 1 {
                    self.kw("WITH");
                    self.iri();
                } else {
                    self.e.none();
                }
                match self.any(3) {
                    0 => {
                        self.kw("DELETE");
                        self.quads();
                        self.e.none();
                    }
                    1 => {
                        self.kw("DELETE");
                        self.quads();
                        self.kw("INSERT");
                        self.quads();
                    }
                    _ => {
                        self.e.none();
                        self.kw("INSERT");
                        self.quads();
                    }
                }
                self.e.open("using");
                loop {
                    let k = self.pick_more(R_USING, 3);
                    if k == 0 {
                        break;
                    }
                    self.e.open(if k == 1 { "default" } else { "named" });
                    self.kw("USING");
                    if k == 2 {
                        self.kw("NAMED");
                    }
                    self.iri();
                    self.e.close();
                }
                self.e.close();
                self.kw("WHERE");
                self.ggp();
            }
        }
        self.e.close();
    }
}
