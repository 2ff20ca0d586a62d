//! Small fast hasher (FxHash) used for hash-consing.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
const K: u64 = 0x517c_c1b7_2722_0a95;
impl Fx {
    #[inline(always)]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(K);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
    }
    #[inline(always)]
    fn write_u8(&mut self, v: u8) { self.add(v as u64) }
    #[inline(always)]
    fn write_u32(&mut self, v: u32) { self.add(v as u64) }
    #[inline(always)]
    fn write_u64(&mut self, v: u64) { self.add(v) }
    #[inline(always)]
    fn write_usize(&mut self, v: usize) { self.add(v as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
