//! Stand-in for smallvec over Vec.
use std::ops::{Deref, DerefMut};
pub trait Array { type Item; }
impl<T, const N: usize> Array for [T; N] { type Item = T; }
pub struct SmallVec<A: Array>(Vec<A::Item>);
impl<A: Array> SmallVec<A> {
    pub fn new() -> Self { SmallVec(Vec::new()) }
    pub fn with_capacity(_: usize) -> Self { SmallVec(Vec::new()) }
    pub fn push(&mut self, x: A::Item) { self.0.push(x) }
    pub fn pop(&mut self) -> Option<A::Item> { self.0.pop() }
    pub fn insert(&mut self, i: usize, x: A::Item) { self.0.insert(i, x) }
    pub fn remove(&mut self, i: usize) -> A::Item { self.0.remove(i) }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn as_slice(&self) -> &[A::Item] { &self.0 }
    pub fn into_vec(self) -> Vec<A::Item> { self.0 }
    pub fn from_vec(v: Vec<A::Item>) -> Self { SmallVec(v) }
    pub fn extend_from_slice(&mut self, s: &[A::Item]) where A::Item: Clone { self.0.extend_from_slice(s) }
    pub fn from_slice(s: &[A::Item]) -> Self where A::Item: Clone { SmallVec(s.to_vec()) }
}
impl<A: Array> Default for SmallVec<A> { fn default() -> Self { Self::new() } }
impl<A: Array> Deref for SmallVec<A> { type Target = [A::Item]; fn deref(&self) -> &[A::Item] { &self.0 } }
impl<A: Array> DerefMut for SmallVec<A> { fn deref_mut(&mut self) -> &mut [A::Item] { &mut self.0 } }
impl<A: Array> Clone for SmallVec<A> where A::Item: Clone { fn clone(&self) -> Self { SmallVec(self.0.clone()) } }
impl<A: Array> std::fmt::Debug for SmallVec<A> where A::Item: std::fmt::Debug {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
}
impl<A: Array> PartialEq for SmallVec<A> where A::Item: PartialEq { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}
impl<A: Array> std::hash::Hash for SmallVec<A> where A::Item: std::hash::Hash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
impl<A: Array> From<Vec<A::Item>> for SmallVec<A> { fn from(v: Vec<A::Item>) -> Self { SmallVec(v) } }
impl<A: Array> FromIterator<A::Item> for SmallVec<A> { fn from_iter<I: IntoIterator<Item = A::Item>>(i: I) -> Self { SmallVec(i.into_iter().collect()) } }
impl<A: Array> Extend<A::Item> for SmallVec<A> { fn extend<I: IntoIterator<Item = A::Item>>(&mut self, i: I) { self.0.extend(i) } }
impl<A: Array> IntoIterator for SmallVec<A> { type Item = A::Item; type IntoIter = std::vec::IntoIter<A::Item>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, A: Array> IntoIterator for &'a SmallVec<A> { type Item = &'a A::Item; type IntoIter = std::slice::Iter<'a, A::Item>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
#[macro_export]
macro_rules! smallvec {
    ($($x:expr),* $(,)?) => { $crate::SmallVec::from(vec![$($x),*]) };
    ($x:expr; $n:expr) => { $crate::SmallVec::from(vec![$x; $n]) };
}
