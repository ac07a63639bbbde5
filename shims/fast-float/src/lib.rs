//! Stand-in for `fast-float`: std's correctly rounded parser (same accepted grammar for ASCII numbers).
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "error while parsing a float") } }
impl std::error::Error for Error {}
pub trait FastFloat: Sized { fn p(s: &str) -> Option<Self>; }
impl FastFloat for f64 { fn p(s: &str) -> Option<Self> { s.parse().ok() } }
impl FastFloat for f32 { fn p(s: &str) -> Option<Self> { s.parse().ok() } }
pub fn parse<T: FastFloat, S: AsRef<[u8]>>(s: S) -> Result<T, Error> { T::p(std::str::from_utf8(s.as_ref()).map_err(|_| Error)?).ok_or(Error) }
