//! Stand-in for `pco` 0.4: a checked container for number columns (no compression).
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod errors {
    #[derive(Debug, Clone)]
    pub struct PcoError(pub String);
    impl std::fmt::Display for PcoError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for PcoError {}
    pub type PcoResult<T> = Result<T, PcoError>;
}
pub mod data_types {
    pub trait Number: Copy + 'static {
        const TAG: u8;
        fn bits(self) -> u64;
        fn from_bits(v: u64) -> Self;
    }
    macro_rules! n { ($($t:ty, $tag:expr);*) => {$( impl Number for $t { const TAG: u8 = $tag; fn bits(self) -> u64 { self as u64 } fn from_bits(v: u64) -> Self { v as $t } } )*} }
    n!(u64, 1; i64, 2; u32, 3; i32, 4);
    impl Number for f64 {
        const TAG: u8 = 5;
        fn bits(self) -> u64 {
            self.to_bits()
        }
        fn from_bits(v: u64) -> Self {
            f64::from_bits(v)
        }
    }
}
pub mod standalone {
    use crate::data_types::Number;
    use crate::errors::{PcoError, PcoResult};
    fn sum(b: &[u8]) -> u32 {
        b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193))
    }
    pub fn simpler_compress<T: Number>(nums: &[T], _level: usize) -> PcoResult<Vec<u8>> {
        let mut out = b"pco!".to_vec();
        out.push(T::TAG);
        out.extend_from_slice(&(nums.len() as u32).to_le_bytes());
        for n in nums {
            out.extend_from_slice(&n.bits().to_le_bytes());
        }
        let s = sum(&out);
        out.extend_from_slice(&s.to_le_bytes());
        Ok(out)
    }
    pub fn simple_decompress<T: Number>(src: &[u8]) -> PcoResult<Vec<T>> {
        let bad = || PcoError("corruption".to_string());
        if src.len() < 13 || &src[..4] != b"pco!" || src[4] != T::TAG {
            return Err(bad());
        }
        let n = u32::from_le_bytes(src[5..9].try_into().unwrap()) as usize;
        let end = n.checked_mul(8).and_then(|b| b.checked_add(9)).ok_or_else(bad)?;
        if src.len() < end + 4 || sum(&src[..end]).to_le_bytes() != src[end..end + 4] {
            return Err(bad());
        }
        Ok(src[9..end].chunks_exact(8).map(|c| T::from_bits(u64::from_le_bytes(c.try_into().unwrap()))).collect())
    }
}
