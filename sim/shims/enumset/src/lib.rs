//! Bit sets over field-less enums.
pub use enumset_derive::EnumSetType;
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;
pub unsafe trait EnumSetType: Copy + Eq + 'static { const ALL: &'static [Self]; fn to_u32(self) -> u32; }
pub struct EnumSet<T> { repr: u64, _p: PhantomData<T> }
impl<T> Copy for EnumSet<T> {}
impl<T> Clone for EnumSet<T> { fn clone(&self) -> Self { *self } }
impl<T> PartialEq for EnumSet<T> { fn eq(&self, o: &Self) -> bool { self.repr == o.repr } }
impl<T> Eq for EnumSet<T> {}
impl<T> PartialOrd for EnumSet<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T> Ord for EnumSet<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.repr.cmp(&o.repr) } }
impl<T> std::hash::Hash for EnumSet<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.repr.hash(h) } }
impl<T> Default for EnumSet<T> { fn default() -> Self { Self::__from_repr(0) } }
impl<T> EnumSet<T> {
    #[doc(hidden)] pub const fn __from_repr(repr: u64) -> Self { EnumSet { repr, _p: PhantomData } }
    #[doc(hidden)] pub const fn __repr(self) -> u64 { self.repr }
    pub const fn empty() -> Self { Self::__from_repr(0) }
    pub const fn new() -> Self { Self::__from_repr(0) }
    pub const fn is_empty(&self) -> bool { self.repr == 0 }
    pub const fn len(&self) -> usize { self.repr.count_ones() as usize }
    pub fn clear(&mut self) { self.repr = 0 }
}
impl<T: EnumSetType> EnumSet<T> {
    pub fn all() -> Self { Self::__from_repr(T::ALL.iter().fold(0, |a, v| a | 1 << v.to_u32())) }
    pub fn only(t: T) -> Self { Self::__from_repr(1 << t.to_u32()) }
    pub fn contains(&self, t: T) -> bool { self.repr & (1 << t.to_u32()) != 0 }
    pub fn insert(&mut self, t: T) -> bool { let c = !self.contains(t); self.repr |= 1 << t.to_u32(); c }
    pub fn remove(&mut self, t: T) -> bool { let c = self.contains(t); self.repr &= !(1 << t.to_u32()); c }
    pub fn is_disjoint(&self, o: impl Into<Self>) -> bool { self.repr & o.into().repr == 0 }
    pub fn is_superset(&self, o: impl Into<Self>) -> bool { let o = o.into(); self.repr & o.repr == o.repr }
    pub fn is_subset(&self, o: impl Into<Self>) -> bool { let o = o.into(); self.repr & o.repr == self.repr }
    pub fn union(&self, o: impl Into<Self>) -> Self { Self::__from_repr(self.repr | o.into().repr) }
    pub fn intersection(&self, o: impl Into<Self>) -> Self { Self::__from_repr(self.repr & o.into().repr) }
    pub fn difference(&self, o: impl Into<Self>) -> Self { Self::__from_repr(self.repr & !o.into().repr) }
    pub fn symmetrical_difference(&self, o: impl Into<Self>) -> Self { Self::__from_repr(self.repr ^ o.into().repr) }
    pub fn complement(&self) -> Self { Self::__from_repr(Self::all().repr & !self.repr) }
    pub fn insert_all(&mut self, o: impl Into<Self>) { self.repr |= o.into().repr }
    pub fn remove_all(&mut self, o: impl Into<Self>) { self.repr &= !o.into().repr }
    pub fn iter(&self) -> std::vec::IntoIter<T> { let s = *self; T::ALL.iter().copied().filter(|v| s.contains(*v)).collect::<Vec<_>>().into_iter() }
}
impl<T: EnumSetType> From<T> for EnumSet<T> { fn from(t: T) -> Self { Self::only(t) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> BitOr<O> for EnumSet<T> { type Output = Self; fn bitor(self, o: O) -> Self { self.union(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> BitAnd<O> for EnumSet<T> { type Output = Self; fn bitand(self, o: O) -> Self { self.intersection(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> BitXor<O> for EnumSet<T> { type Output = Self; fn bitxor(self, o: O) -> Self { self.symmetrical_difference(o) } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> Sub<O> for EnumSet<T> { type Output = Self; fn sub(self, o: O) -> Self { self.difference(o) } }
impl<T: EnumSetType> Not for EnumSet<T> { type Output = Self; fn not(self) -> Self { self.complement() } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> BitOrAssign<O> for EnumSet<T> { fn bitor_assign(&mut self, o: O) { *self = *self | o } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> BitAndAssign<O> for EnumSet<T> { fn bitand_assign(&mut self, o: O) { *self = *self & o } }
impl<T: EnumSetType, O: Into<EnumSet<T>>> SubAssign<O> for EnumSet<T> { fn sub_assign(&mut self, o: O) { *self = *self - o } }
impl<T: EnumSetType> IntoIterator for EnumSet<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<T: EnumSetType> FromIterator<T> for EnumSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut s = Self::new(); for t in i { s.insert(t); } s } }
impl<T: EnumSetType> Extend<T> for EnumSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.insert(t); } } }
impl<T: EnumSetType + fmt::Debug> fmt::Debug for EnumSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("EnumSet(")?; for (i, t) in self.iter().enumerate() { if i > 0 { f.write_str(" | ")?; } fmt::Debug::fmt(&t, f)?; } f.write_str(")") } }
impl<T: EnumSetType + fmt::Display> fmt::Display for EnumSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (i, t) in self.iter().enumerate() { if i > 0 { f.write_str(" | ")?; } fmt::Display::fmt(&t, f)?; } Ok(()) } }
#[macro_export]
macro_rules! enum_set {
    () => { $crate::EnumSet::__from_repr(0) };
    ($(|)? $($v:path)|+ $(|)?) => { $crate::EnumSet::__from_repr(0 $(| (1u64 << ($v as u32)))+) };
}
