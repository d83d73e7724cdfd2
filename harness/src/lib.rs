//! Properties of nom-sparql as programs over symbolic bytes.
pub mod api;
pub mod dump;
pub mod gen;
pub mod lex;
pub mod places;
pub mod props;
pub mod sizes;
pub mod reference;
pub mod spec;
pub mod sym;
pub mod wild;

pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    /// 'q': quick and thorough, 't': thorough only
    pub tier: char,
    pub bounds: &'static str,
    pub f: fn(),
}


#[no_mangle]
pub extern "C-unwind" fn h_main(scn: u32) {
    (props::SCENARIOS[scn as usize].f)()
}
