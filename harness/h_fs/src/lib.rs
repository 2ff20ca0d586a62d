//! Harnesses over code that reads the file system, on an in-memory stand-in for it.
pub mod fs;
pub mod lint;
pub mod prj;
pub mod scan;

type Entry = (&'static str, extern "C-unwind" fn(u32));
pub const ENTRIES: &[Entry] = &[("sym_prj", sym_prj), ("sym_scan", sym_scan), ("sym_lint", sym_lint)];
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => { $(
    #[no_mangle]
    pub extern "C-unwind" fn $n(h: u32) { $f(h) }
)* } }
entries! {
    sym_prj => prj::run,
    sym_scan => scan::run,
    sym_lint => lint::run,
}
