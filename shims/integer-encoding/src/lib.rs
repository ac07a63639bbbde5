//! Stand-in for `integer-encoding` 4.0: LEB128 varints, zigzag for signed types.
pub trait VarInt: Sized + Copy {
    fn required_space(self) -> usize;
    fn decode_var(src: &[u8]) -> Option<(Self, usize)>;
    fn encode_var(self, dst: &mut [u8]) -> usize;
    fn encode_var_vec(self) -> Vec<u8> {
        let mut v = vec![0; self.required_space()];
        self.encode_var(&mut v);
        v
    }
}
fn need(mut v: u64) -> usize { if v == 0 { return 1; } let mut n = 0; while v > 0 { n += 1; v >>= 7; } n }
fn enc(mut n: u64, dst: &mut [u8]) -> usize {
    assert!(dst.len() >= need(n));
    let mut i = 0;
    while n >= 0x80 { dst[i] = 0x80 | (n as u8); i += 1; n >>= 7; }
    dst[i] = n as u8;
    i + 1
}
fn dec(src: &[u8]) -> Option<(u64, usize)> {
    let (mut result, mut shift, mut ok) = (0u64, 0u32, false);
    for b in src.iter() {
        let d = b & 0x7f;
        if shift > (9 * 7) { ok = *b < 2; result |= (d as u64) << shift.min(63); shift += 7; break; }
        result |= (d as u64) << shift;
        shift += 7;
        if b & 0x80 == 0 { ok = shift <= 9 * 7 || *b < 2; break; }
    }
    if ok { Some((result, (shift / 7) as usize)) } else { None }
}
fn zz(n: i64) -> u64 { ((n << 1) ^ (n >> 63)) as u64 }
fn uzz(n: u64) -> i64 { ((n >> 1) as i64) ^ (-((n & 1) as i64)) }
macro_rules! u { ($($t:ty),*) => {$( impl VarInt for $t {
    fn required_space(self) -> usize { need(self as u64) }
    fn decode_var(src: &[u8]) -> Option<(Self, usize)> { let (n, s) = dec(src)?; if n > (<$t>::MAX as u64) { None } else { Some((n as $t, s)) } }
    fn encode_var(self, dst: &mut [u8]) -> usize { enc(self as u64, dst) }
})*} }
macro_rules! s { ($($t:ty),*) => {$( impl VarInt for $t {
    fn required_space(self) -> usize { need(zz(self as i64)) }
    fn decode_var(src: &[u8]) -> Option<(Self, usize)> { let (n, s) = dec(src)?; let v = uzz(n); if v < (<$t>::MIN as i64) || v > (<$t>::MAX as i64) { None } else { Some((v as $t, s)) } }
    fn encode_var(self, dst: &mut [u8]) -> usize { enc(zz(self as i64), dst) }
})*} }
u!(u8, u16, u32, u64, usize);
s!(i8, i16, i32, i64, isize);
pub trait FixedInt: Sized + Copy {
    fn required_space() -> usize;
    fn encode_fixed(self, dst: &mut [u8]);
    fn encode_fixed_vec(self) -> Vec<u8>;
    fn decode_fixed(src: &[u8]) -> Self;
}
macro_rules! fx { ($($t:ty),*) => {$( impl FixedInt for $t {
    fn required_space() -> usize { std::mem::size_of::<$t>() }
    fn encode_fixed(self, dst: &mut [u8]) { dst.copy_from_slice(&self.to_le_bytes()) }
    fn encode_fixed_vec(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    fn decode_fixed(src: &[u8]) -> Self { <$t>::from_le_bytes(src.try_into().unwrap()) }
})*} }
fx!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
