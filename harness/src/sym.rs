//! The symbolic inputs and assertions.  In the symbolic executor these calls
//! are intrinsics; in `replay` they are ordinary functions that read the
//! values of one concrete run.
mod ffi {
    extern "C-unwind" {
        pub fn sym_byte(hint: u8) -> u8;
        pub fn sym_choice(n: u8) -> u8;
        pub fn sym_assume(c: bool);
        pub fn sym_split(c: bool) -> bool;
        pub fn sym_check(c: bool, label: u32);
        pub fn sym_check_eq(p: *const u8, n: usize, q: *const u8, m: usize, label: u32);
        pub fn sym_input(p: *const u8, n: usize);
        pub fn sym_reach(label: u32);
    }
}
/// Any byte; `hint` is the value of the run that is made first.
#[inline(always)]
pub fn byte(hint: u8) -> u8 {
    unsafe { ffi::sym_byte(hint) }
}
/// Any number below `n`; the executor makes one run for each.
#[inline(always)]
pub fn choice(n: u8) -> u8 {
    if n <= 1 {
        return 0;
    }
    unsafe { ffi::sym_choice(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
/// c; the executor makes separate runs for true and false.
#[inline(always)]
pub fn split(c: bool) -> bool {
    unsafe { ffi::sym_split(c) }
}
#[inline(always)]
pub fn check(c: bool, label: u32) {
    unsafe { ffi::sym_check(c, label) }
}
#[inline(always)]
pub fn check_eq(a: &[u8], b: &[u8], label: u32) {
    unsafe { ffi::sym_check_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), label) }
}
#[inline(always)]
pub fn input(a: &[u8]) {
    unsafe { ffi::sym_input(a.as_ptr(), a.len()) }
}
#[inline(always)]
pub fn reach(label: u32) {
    unsafe { ffi::sym_reach(label) }
}

/// What the labels of failed checks mean.
pub const LABELS: &[(u32, &str)] = &[
    (1, "a well-formed text is not accepted"),
    (2, "the text is accepted but not consumed to its end"),
    (3, "the syntax tree differs from the one the text denotes"),
    (4, "the remainder is not a suffix of the input"),
    (5, "a position in an error is not a suffix of the input"),
    (6, "the parser asks for more input although the input is complete"),
    (7, "a malformed token is accepted"),
    (8, "a well-formed token is rejected"),
    (9, "the content of a token is not returned verbatim"),
    (10, "the value of a number is not the one written"),
    (11, "a malformed text is accepted"),
    (12, "the length of a dump differs"),
    (13, "the token was not read up to its end"),
    (20, "text form and parsed value disagree"),
    (21, "compatibility of string literals is wrong"),
    (22, "distinct flag is wrong"),
    (23, "a constructor does not store its argument"),
    (24, "equality of values is wrong"),
];
pub const ACCEPT: u32 = 1;
pub const CONSUME: u32 = 2;
pub const TREE: u32 = 3;

/// A symbolic character of a given length in UTF-8.
pub struct SymChar {
    pub b: [u8; 4],
    pub n: u8,
    /// its code point
    pub c: u32,
}
impl SymChar {
    #[inline(always)]
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n as usize]
    }
}
/// Any character whose UTF-8 form has n bytes (1..=4).
pub fn sym_char(n: u8) -> SymChar {
    match n {
        1 => {
            let a = byte(b'x');
            assume(a < 0x80);
            SymChar { b: [a, 0, 0, 0], n, c: a as u32 }
        }
        2 => {
            let (a, b) = (byte(0xC3), byte(0xA9));
            assume((a >= 0xC2) & (a <= 0xDF) & (b & 0xC0 == 0x80));
            SymChar { b: [a, b, 0, 0], n, c: ((a as u32 & 0x1F) << 6) | (b as u32 & 0x3F) }
        }
        3 => {
            let (a, b, c) = (byte(0xE4), byte(0xB8), byte(0x80));
            let v = ((a as u32 & 0x0F) << 12) | ((b as u32 & 0x3F) << 6) | (c as u32 & 0x3F);
            assume((a & 0xF0 == 0xE0) & (b & 0xC0 == 0x80) & (c & 0xC0 == 0x80));
            assume((v >= 0x800) & ((v < 0xD800) | (v > 0xDFFF)));
            SymChar { b: [a, b, c, 0], n, c: v }
        }
        _ => {
            let (a, b, c, d) = (byte(0xF0), byte(0x9F), byte(0x98), byte(0x80));
            let v = ((a as u32 & 0x07) << 18)
                | ((b as u32 & 0x3F) << 12)
                | ((c as u32 & 0x3F) << 6)
                | (d as u32 & 0x3F);
            assume((a & 0xF8 == 0xF0) & (b & 0xC0 == 0x80) & (c & 0xC0 == 0x80) & (d & 0xC0 == 0x80));
            assume((v >= 0x10000) & (v <= 0x10FFFF));
            SymChar { b: [a, b, c, d], n: 4, c: v }
        }
    }
}
/// A number below n, which may be large.
pub fn below(n: usize) -> usize {
    if n < 256 {
        return choice(n as u8) as usize;
    }
    let high = below((n + 127) / 128);
    high * 128 + choice((n - high * 128).min(128) as u8) as usize
}
/// Any character.
pub fn any_char() -> SymChar {
    sym_char(1 + choice(4))
}
