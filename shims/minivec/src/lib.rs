//! Stand-in for the `minivec` crate: a Vec with the MiniVec name.
use std::ops::{Deref, DerefMut};
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
pub struct MiniVec<T>(pub Vec<T>);
impl<T> Default for MiniVec<T> { fn default() -> Self { MiniVec(Vec::new()) } }
impl<T: std::fmt::Debug> std::fmt::Debug for MiniVec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl<T> MiniVec<T> {
    pub fn new() -> Self { MiniVec(Vec::new()) }
    pub fn with_capacity(n: usize) -> Self { MiniVec(Vec::with_capacity(n)) }
    pub fn as_slice(&self) -> &[T] { &self.0 }
    pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
}
impl<T: Clone> MiniVec<T> { pub fn to_vec(&self) -> Vec<T> { self.0.clone() } }
impl<T> Deref for MiniVec<T> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T> DerefMut for MiniVec<T> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T> From<Vec<T>> for MiniVec<T> { fn from(v: Vec<T>) -> Self { MiniVec(v) } }
impl<T> From<MiniVec<T>> for Vec<T> { fn from(v: MiniVec<T>) -> Self { v.0 } }
impl<T: Clone> From<&[T]> for MiniVec<T> { fn from(v: &[T]) -> Self { MiniVec(v.to_vec()) } }
impl<T: Clone> From<&mut [T]> for MiniVec<T> { fn from(v: &mut [T]) -> Self { MiniVec(v.to_vec()) } }
impl<T, const N: usize> From<[T; N]> for MiniVec<T> { fn from(v: [T; N]) -> Self { MiniVec(Vec::from(v)) } }
impl<T: Clone, const N: usize> From<&[T; N]> for MiniVec<T> { fn from(v: &[T; N]) -> Self { MiniVec(v.to_vec()) } }
impl From<&str> for MiniVec<u8> { fn from(v: &str) -> Self { MiniVec(v.as_bytes().to_vec()) } }
impl From<String> for MiniVec<u8> { fn from(v: String) -> Self { MiniVec(v.into_bytes()) } }
impl<T> FromIterator<T> for MiniVec<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { MiniVec(i.into_iter().collect()) } }
impl<T> Extend<T> for MiniVec<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { self.0.extend(i) } }
impl<T> IntoIterator for MiniVec<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T> IntoIterator for &'a MiniVec<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<T> AsRef<[T]> for MiniVec<T> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T> std::borrow::Borrow<[T]> for MiniVec<T> { fn borrow(&self) -> &[T] { &self.0 } }
impl std::io::Write for MiniVec<u8> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[macro_export]
macro_rules! mini_vec {
    () => { $crate::MiniVec::new() };
    ($e:expr; $n:expr) => { $crate::MiniVec(::std::vec![$e; $n]) };
    ($($x:expr),+ $(,)?) => { $crate::MiniVec(::std::vec![$($x),+]) };
}
