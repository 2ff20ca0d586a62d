//! Harnesses over the crates workspace, preprocessor, stringtable and p3d.
pub mod codes;
pub mod p3d;
pub mod pos;
pub mod pp;
pub mod refpp;
pub mod st;
pub mod wsp;

type Entry = (&'static str, extern "C-unwind" fn(u32));
pub const ENTRIES: &[Entry] = &[("sym_pp", sym_pp), ("sym_p3d", sym_p3d), ("sym_pos", sym_pos), ("sym_wsp", sym_wsp), ("sym_st", sym_st), ("sym_codes", sym_codes)];
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => { $(
    #[no_mangle]
    pub extern "C-unwind" fn $n(h: u32) { $f(h) }
)* } }
entries! {
    sym_pp => pp::run,
    sym_p3d => p3d::run,
    sym_pos => pos::run,
    sym_wsp => wsp::run,
    sym_st => st::run,
    sym_codes => codes::run,
}
