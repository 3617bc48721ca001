//! Small 64-bit mixing hash used for fingerprints.
#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (x ^ (x >> 31)).wrapping_add(h.rotate_left(17))
}
pub fn bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w) ^ ((c.len() as u64) << 59));
    }
    h
}
pub fn f64s(mut h: u64, v: &[f64]) -> u64 {
    for x in v {
        h = mix(h, x.to_bits());
    }
    h
}
/// hasher for tables keyed by addresses
#[derive(Default, Clone, Copy)]
pub struct Build;
pub struct H(u64);
impl std::hash::BuildHasher for Build {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0)
    }
}
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = bytes(self.0, b);
    }
    fn write_usize(&mut self, v: usize) {
        self.0 = (v as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 32;
    }
}
