//! Small helpers: deterministic random numbers, digests, byte access.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}
/// sizes of large parts: around the buffers and limits programs like
pub fn huge(r: &mut Rng) -> usize { if r.chance(2, 3) { let b = *r.pick(&[4096usize, 8192, 65536, 131072, 1 << 18]); b - 1 + r.below(3) } else { r.range(40000, 300000) } }
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x0000_0100_0000_01b3); }
    h ^ (h >> 29)
}
/// short digest of a byte string, used as content identity
pub fn dig(b: &[u8]) -> String { format!("{:x}.{:09x}", b.len(), fnv(b) & 0xf_ffff_ffff) }
pub fn be16(b: &[u8]) -> u16 { u16::from_be_bytes([b[0], b[1]]) }
pub fn be32(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
pub fn be64(b: &[u8]) -> u64 { u64::from_be_bytes(b[..8].try_into().unwrap()) }
pub fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
pub fn le24(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], 0]) }
pub fn crc32(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in data { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } }
    !c
}
pub fn seed_of(s: &str, seed: u64) -> u64 { fnv(s.as_bytes()) ^ seed.wrapping_mul(0x2545_F491_4F6C_DD1D) }
