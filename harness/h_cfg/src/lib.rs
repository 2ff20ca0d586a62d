//! Harnesses over the crate config, fed through the preprocessor.
pub mod cfg;
pub mod lints;
pub mod patches;
pub mod raps;

type Entry = (&'static str, extern "C-unwind" fn(u32));
pub const ENTRIES: &[Entry] = &[("sym_cfg", sym_cfg), ("sym_lints", sym_lints)];
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => { $(
    #[no_mangle]
    pub extern "C-unwind" fn $n(h: u32) { $f(h) }
)* } }
entries! {
    sym_cfg => cfg::run,
    sym_lints => lints::run,
}
