//! Stand-in for `roaring` 0.10: an ordered set of u32 with the same set operations
//! (the serialised form is private to the stand-in).
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, Sub, SubAssign};

#[derive(Clone, Default, PartialEq, Eq)]
pub struct RoaringBitmap(BTreeSet<u32>);
impl std::fmt::Debug for RoaringBitmap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "RoaringBitmap<{:?}>", self.0)
    }
}
impl RoaringBitmap {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, v: u32) -> bool {
        self.0.insert(v)
    }
    pub fn push(&mut self, v: u32) -> bool {
        if self.0.last().is_some_and(|m| *m >= v) {
            return false;
        }
        self.0.insert(v)
    }
    pub fn remove(&mut self, v: u32) -> bool {
        self.0.remove(&v)
    }
    pub fn contains(&self, v: u32) -> bool {
        self.0.contains(&v)
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> u64 {
        self.0.len() as u64
    }
    pub fn min(&self) -> Option<u32> {
        self.0.first().copied()
    }
    pub fn max(&self) -> Option<u32> {
        self.0.last().copied()
    }
    pub fn iter(&self) -> std::iter::Copied<std::collections::btree_set::Iter<'_, u32>> {
        self.0.iter().copied()
    }
    pub fn serialized_size(&self) -> usize {
        4 + 4 * self.0.len()
    }
    pub fn serialize_into<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&(self.0.len() as u32).to_le_bytes())?;
        for v in &self.0 {
            w.write_all(&v.to_le_bytes())?;
        }
        Ok(())
    }
    pub fn deserialize_from<R: Read>(mut r: R) -> io::Result<Self> {
        let mut b = [0; 4];
        r.read_exact(&mut b)?;
        let mut s = BTreeSet::new();
        for _ in 0..u32::from_le_bytes(b) {
            r.read_exact(&mut b)?;
            s.insert(u32::from_le_bytes(b));
        }
        Ok(Self(s))
    }
}
impl IntoIterator for RoaringBitmap {
    type Item = u32;
    type IntoIter = std::collections::btree_set::IntoIter<u32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a> IntoIterator for &'a RoaringBitmap {
    type Item = u32;
    type IntoIter = std::iter::Copied<std::collections::btree_set::Iter<'a, u32>>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl FromIterator<u32> for RoaringBitmap {
    fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl Extend<u32> for RoaringBitmap {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
macro_rules! ops {
    ($($t:ident $m:ident $f:ident),*) => {$(
        impl $t<RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$f(&o.0).copied().collect()) } }
        impl $t<&RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$f(&o.0).copied().collect()) } }
        impl $t<RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$f(&o.0).copied().collect()) } }
        impl $t<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $m(self, o: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$f(&o.0).copied().collect()) } }
    )*};
}
ops!(BitOr bitor union, BitAnd bitand intersection, BitXor bitxor symmetric_difference, Sub sub difference);
macro_rules! assign {
    ($($t:ident $m:ident $f:ident),*) => {$(
        impl $t<RoaringBitmap> for RoaringBitmap { fn $m(&mut self, o: RoaringBitmap) { self.0 = self.0.$f(&o.0).copied().collect() } }
        impl $t<&RoaringBitmap> for RoaringBitmap { fn $m(&mut self, o: &RoaringBitmap) { self.0 = self.0.$f(&o.0).copied().collect() } }
    )*};
}
assign!(BitOrAssign bitor_assign union, BitAndAssign bitand_assign intersection, SubAssign sub_assign difference);
