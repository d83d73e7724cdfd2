//! Character classes of the SPARQL grammar, written without branches so that
//! they become terms of the solver instead of paths.
#[inline(always)]
fn r(c: u32, lo: u32, hi: u32) -> bool {
    (c >= lo) & (c <= hi)
}
#[inline(always)]
pub fn alpha(c: u32) -> bool {
    r(c | 0x20, 0x61, 0x7a) & (c < 0x80)
}
#[inline(always)]
pub fn digit(c: u32) -> bool {
    r(c, 0x30, 0x39)
}
#[inline(always)]
pub fn hex(c: u32) -> bool {
    digit(c) | (r(c | 0x20, 0x61, 0x66) & (c < 0x80))
}
/// PN_CHARS_BASE
#[inline(always)]
pub fn pn_base(c: u32) -> bool {
    alpha(c)
        | r(c, 0xC0, 0xD6)
        | r(c, 0xD8, 0xF6)
        | r(c, 0xF8, 0x2FF)
        | r(c, 0x370, 0x37D)
        | r(c, 0x37F, 0x1FFF)
        | r(c, 0x200C, 0x200D)
        | r(c, 0x2070, 0x218F)
        | r(c, 0x2C00, 0x2FEF)
        | r(c, 0x3001, 0xD7FF)
        | r(c, 0xF900, 0xFDCF)
        | r(c, 0xFDF0, 0xFFFD)
        | r(c, 0x10000, 0xEFFFF)
}
/// PN_CHARS_U
#[inline(always)]
pub fn pn_u(c: u32) -> bool {
    pn_base(c) | (c == 0x5f)
}
#[inline(always)]
pub fn ext(c: u32) -> bool {
    (c == 0xB7) | r(c, 0x300, 0x36F) | r(c, 0x203F, 0x2040)
}
/// PN_CHARS
#[inline(always)]
pub fn pn_char(c: u32) -> bool {
    pn_u(c) | (c == 0x2d) | digit(c) | ext(c)
}
/// first character of VARNAME
#[inline(always)]
pub fn var_first(c: u32) -> bool {
    pn_u(c) | digit(c)
}
/// further characters of VARNAME
#[inline(always)]
pub fn var_rest(c: u32) -> bool {
    pn_u(c) | digit(c) | ext(c)
}
/// characters of an IRIREF
#[inline(always)]
pub fn iri_char(c: u32) -> bool {
    (c > 0x20)
        & (c != 0x3c)
        & (c != 0x3e)
        & (c != 0x22)
        & (c != 0x7b)
        & (c != 0x7d)
        & (c != 0x7c)
        & (c != 0x5e)
        & (c != 0x60)
        & (c != 0x5c)
}
#[inline(always)]
pub fn ws(c: u32) -> bool {
    (c == 0x20) | (c == 9) | (c == 10) | (c == 13)
}
/// may follow a backslash in a string
#[inline(always)]
pub fn echar(c: u32) -> bool {
    (c == b't' as u32)
        | (c == b'b' as u32)
        | (c == b'n' as u32)
        | (c == b'r' as u32)
        | (c == b'f' as u32)
        | (c == b'\\' as u32)
        | (c == b'\'' as u32)
        | (c == b'"' as u32)
}
/// may follow a backslash in a local name
#[inline(always)]
pub fn local_esc(c: u32) -> bool {
    let mut ok = false;
    let s = b"_~.-!$&'()*+,;=/?#@%";
    let mut k = 0;
    while k < s.len() {
        ok |= c == s[k] as u32;
        k += 1;
    }
    ok
}
