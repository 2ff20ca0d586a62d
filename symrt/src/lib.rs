//! Runtime of the harnesses: symbolic inputs, assumptions, assertions and observations.
//! Under the symbolic engine the `__sym_*` functions are modelled by the engine; with the
//! feature `native` they are implemented here on top of the input bytes of a replay.

mod imp {
    extern "C-unwind" {
        pub fn __sym_bytes(p: *mut u8, n: usize);
        pub fn __sym_assume(c: u32);
        pub fn __sym_fail(p: *const u8, n: usize) -> !;
        pub fn __sym_reach(p: *const u8, n: usize);
        pub fn __sym_obs(p: *const u8, n: usize);
        pub fn __sym_conc(v: u64) -> u64;
        pub fn __sym_param(i: u64) -> u64;
        pub fn __sym_flag(v: u64);
    }
}
use imp::*;

/// a symbolic byte
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    unsafe { __sym_bytes(b.as_mut_ptr(), 1) };
    b[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(array())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(array())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(array())
}
pub fn array<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { __sym_bytes(b.as_mut_ptr(), N) };
    b
}
/// `n` symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { __sym_bytes(b.as_mut_ptr(), n) };
    b
}
/// make a value concrete: one path per feasible value
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_conc(v) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(u32::from(c)) }
}
/// one of 0..n, one path each
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = u8();
    assume((b as usize) < n);
    conc(u64::from(b)) as usize
}
/// a symbolic yes/no, one path each
pub fn flip() -> bool {
    choice(2) == 1
}
/// a length in lo..=hi, one path each
pub fn len(lo: usize, hi: usize) -> usize {
    lo + choice(hi - lo + 1)
}
/// a symbolic byte of the given alphabet (not split into one path per member)
pub fn of(alphabet: &[u8]) -> u8 {
    let b = u8();
    let mut ok = false;
    for a in alphabet {
        ok |= b == *a;
    }
    assume(ok);
    b
}
pub fn text(alphabet: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|_| of(alphabet)).collect()
}
/// a symbolic byte in lo..=hi
pub fn range(lo: u8, hi: u8) -> u8 {
    let b = u8();
    assume((b >= lo) & (b <= hi));
    b
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { __sym_fail(msg.as_ptr(), msg.len()) }
}
/// the assertion of a property
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}
/// vacuity witness: this point was reached
pub fn reach(label: &str) {
    unsafe { __sym_reach(label.as_ptr(), label.len()) }
}
/// part of the observable behaviour, compared between the engine and the native run
pub fn obs(b: &[u8]) {
    unsafe { __sym_obs(b.as_ptr(), b.len()) }
}
pub fn obs_u(v: u64) {
    obs(&v.to_le_bytes())
}
pub fn param(i: u64) -> usize {
    unsafe { __sym_param(i) as usize }
}
/// stub message formatting (`format!`) to an empty string, stated as a cut
pub fn stub_fmt(on: bool) {
    unsafe { __sym_flag(u64::from(on)) }
}

#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
pub use native::{main, Guarded};
