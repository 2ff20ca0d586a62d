//! Harnesses over the crates common, lzo, pbo, paa and signing.
pub mod basic;
pub mod lzo;
pub mod pbo;
pub mod sign;
pub mod tex;

type Entry = (&'static str, extern "C-unwind" fn(u32));
pub const ENTRIES: &[Entry] = &[
    ("sym_ints", sym_ints),
    ("sym_version", sym_version),
    ("sym_prefix", sym_prefix),
    ("sym_dlc", sym_dlc),
    ("sym_math", sym_math),
    ("sym_lzo", sym_lzo),
    ("sym_pbo", sym_pbo),
    ("sym_sign", sym_sign),
    ("sym_tex", sym_tex),
];
macro_rules! entries { ($($n:ident => $f:path),* $(,)?) => { $(
    #[no_mangle]
    pub extern "C-unwind" fn $n(h: u32) { $f(h) }
)* } }
entries! {
    sym_ints => basic::ints,
    sym_version => basic::version,
    sym_prefix => basic::prefix,
    sym_dlc => basic::dlc,
    sym_math => basic::math,
    sym_lzo => lzo::run,
    sym_pbo => pbo::run,
    sym_sign => sign::run,
    sym_tex => tex::run,
}
