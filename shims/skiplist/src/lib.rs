//! Stand-in for `skiplist` 0.5: a list kept in order; of equal elements the one
//! inserted last comes first (what cnosdb's own tests of the cache rely on).
use std::cmp::Ordering;

pub mod skiplist {
    pub use crate::{IntoIter, Iter};
}

pub struct OrderedSkipList<T> {
    items: Vec<T>,
    cmp: Box<dyn Fn(&T, &T) -> Ordering + Send + Sync>,
}
pub type Iter<'a, T> = std::slice::Iter<'a, T>;
pub type IntoIter<T> = std::vec::IntoIter<T>;

impl<T: PartialOrd> OrderedSkipList<T> {
    pub fn new() -> Self {
        Self { items: vec![], cmp: Box::new(|a, b| a.partial_cmp(b).expect("Element cannot be ordered.")) }
    }
}
impl<T: PartialOrd> Default for OrderedSkipList<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OrderedSkipList<T> {
    /// # Safety
    /// as in skiplist
    pub unsafe fn with_comp<F: 'static + Fn(&T, &T) -> Ordering + Send + Sync>(f: F) -> Self {
        Self { items: vec![], cmp: Box::new(f) }
    }
    /// # Safety
    /// as in skiplist
    pub unsafe fn sort_by<F: 'static + Fn(&T, &T) -> Ordering + Send + Sync>(&mut self, cmp: F) {
        self.cmp = Box::new(cmp);
        let items = std::mem::take(&mut self.items);
        for i in items {
            self.insert(i);
        }
    }
    pub fn insert(&mut self, v: T) {
        let at = self.items.partition_point(|x| (self.cmp)(x, &v) == Ordering::Less);
        self.items.insert(at, v);
    }
    pub fn clear(&mut self) {
        self.items.clear();
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn front(&self) -> Option<&T> {
        self.items.first()
    }
    pub fn back(&self) -> Option<&T> {
        self.items.last()
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.items.get(i)
    }
    pub fn pop_front(&mut self) -> Option<T> {
        if self.items.is_empty() {
            None
        } else {
            Some(self.items.remove(0))
        }
    }
    pub fn pop_back(&mut self) -> Option<T> {
        self.items.pop()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        self.items.iter()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.items.retain(f)
    }
}
impl<T> IntoIterator for OrderedSkipList<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        self.items.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.items.iter()
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for OrderedSkipList<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(&self.items).finish()
    }
}
impl<T: PartialEq> PartialEq for OrderedSkipList<T> {
    fn eq(&self, o: &Self) -> bool {
        self.items == o.items
    }
}
impl<T: Eq> Eq for OrderedSkipList<T> {}
