//! Harnesses over the crate sqf, fed through the preprocessor.
//! The commands are those of the stand-in for arma3-wiki in stubs/.
#[path = "../../h_fs/src/fs.rs"]
pub mod fs;
pub mod gen;
pub mod sqfc;
pub mod slints;
pub mod sqf;

type Entry = (&'static str, extern "C-unwind" fn(u32));
pub const ENTRIES: &[Entry] = &[("sym_sqf", sym_sqf), ("sym_slints", sym_slints)];
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => { $(
    #[no_mangle]
    pub extern "C-unwind" fn $n(h: u32) { $f(h) }
)* } }
entries! {
    sym_sqf => sqf::run,
    sym_slints => slints::run,
}
