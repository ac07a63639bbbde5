//! Stand-in for `atoi_simd` 0.15: strict decimal parsing of byte slices.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AtoiSimdError<'a> { Empty, Size(usize, &'a [u8]), Invalid64(u64, usize, &'a [u8]), Invalid128(u128, usize, &'a [u8]) }
impl std::fmt::Display for AtoiSimdError<'_> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for AtoiSimdError<'_> {}
pub trait Parse: Sized { fn conv(neg: bool, v: u128) -> Option<Self>; const SIGNED: bool; }
macro_rules! p { ($s:expr; $($t:ty),*) => {$( impl Parse for $t { const SIGNED: bool = $s; fn conv(neg: bool, v: u128) -> Option<Self> {
    if neg { let v = i128::try_from(v).ok()?; <$t>::try_from(-v).ok() } else { <$t>::try_from(v).ok() } } } )*} }
p!(true; i8, i16, i32, i64, isize);
p!(false; u8, u16, u32, u64, usize);
fn run<T: Parse>(s: &[u8], allow_neg: bool) -> Result<(T, usize), AtoiSimdError<'_>> {
    if s.is_empty() { return Err(AtoiSimdError::Empty); }
    let (neg, st) = if allow_neg && T::SIGNED && s[0] == b'-' { (true, 1) } else { (false, 0) };
    let mut v: u128 = 0; let mut i = st;
    while i < s.len() && s[i].is_ascii_digit() {
        if i - st > 25 { return Err(AtoiSimdError::Size(s.len(), s)); }
        v = v * 10 + (s[i] - b'0') as u128; i += 1;
    }
    if i == st { return Err(if st == 1 && s.len() == 1 { AtoiSimdError::Empty } else { AtoiSimdError::Invalid64(0, i, s) }); }
    match T::conv(neg, v) { Some(t) => Ok((t, i)), None => Err(AtoiSimdError::Size(s.len(), s)) }
}
pub fn parse<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError<'_>> { let (t, n) = run(s, true)?; if n == s.len() { Ok(t) } else { Err(AtoiSimdError::Invalid64(0, n, s)) } }
pub fn parse_pos<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError<'_>> { let (t, n) = run(s, false)?; if n == s.len() { Ok(t) } else { Err(AtoiSimdError::Invalid64(0, n, s)) } }
pub fn parse_until_invalid<T: Parse>(s: &[u8]) -> Result<(T, usize), AtoiSimdError<'_>> { run(s, true) }
