//! Offline stand-in for the `text-size` crate (API-compatible subset).
use std::{cmp, fmt, iter, ops::*};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TextSize { raw: u32 }

impl fmt::Debug for TextSize {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.raw) }
}
pub trait TextLen: Copy { fn text_len(self) -> TextSize; }
impl TextLen for &'_ str { fn text_len(self) -> TextSize { self.len().try_into().unwrap() } }
impl TextLen for &'_ String { fn text_len(self) -> TextSize { self.as_str().text_len() } }
impl TextLen for char { fn text_len(self) -> TextSize { (self.len_utf8() as u32).into() } }

impl TextSize {
    pub const fn new(raw: u32) -> TextSize { TextSize { raw } }
    pub fn of<T: TextLen>(text: T) -> TextSize { text.text_len() }
    pub const fn checked_add(self, rhs: TextSize) -> Option<TextSize> {
        match self.raw.checked_add(rhs.raw) { Some(raw) => Some(TextSize { raw }), None => None }
    }
    pub const fn checked_sub(self, rhs: TextSize) -> Option<TextSize> {
        match self.raw.checked_sub(rhs.raw) { Some(raw) => Some(TextSize { raw }), None => None }
    }
}
impl From<u32> for TextSize { fn from(raw: u32) -> Self { TextSize { raw } } }
impl From<TextSize> for u32 { fn from(v: TextSize) -> Self { v.raw } }
impl TryFrom<usize> for TextSize {
    type Error = std::num::TryFromIntError;
    fn try_from(v: usize) -> Result<Self, std::num::TryFromIntError> { Ok(u32::try_from(v)?.into()) }
}
impl From<TextSize> for usize { fn from(v: TextSize) -> Self { v.raw as usize } }

macro_rules! ops {
    ($Op:ident for TextSize by fn $f:ident = $op:tt) => {
        impl $Op<TextSize> for TextSize { type Output = TextSize; fn $f(self, o: TextSize) -> TextSize { TextSize { raw: self.raw $op o.raw } } }
        impl $Op<&TextSize> for TextSize { type Output = TextSize; fn $f(self, o: &TextSize) -> TextSize { self $op *o } }
        impl<T> $Op<T> for &TextSize where TextSize: $Op<T, Output = TextSize> { type Output = TextSize; fn $f(self, o: T) -> TextSize { *self $op o } }
    };
}
ops!(Add for TextSize by fn add = +);
ops!(Sub for TextSize by fn sub = -);
impl<A> AddAssign<A> for TextSize where TextSize: Add<A, Output = TextSize> { fn add_assign(&mut self, r: A) { *self = *self + r } }
impl<S> SubAssign<S> for TextSize where TextSize: Sub<S, Output = TextSize> { fn sub_assign(&mut self, r: S) { *self = *self - r } }
impl<A> iter::Sum<A> for TextSize where TextSize: Add<A, Output = TextSize> {
    fn sum<I: Iterator<Item = A>>(iter: I) -> TextSize { iter.fold(0.into(), Add::add) }
}

#[derive(Default, Copy, Clone, Eq, PartialEq, Hash)]
pub struct TextRange { start: TextSize, end: TextSize }
impl fmt::Debug for TextRange {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}..{}", self.start.raw, self.end.raw) }
}
impl TextRange {
    #[track_caller]
    pub const fn new(start: TextSize, end: TextSize) -> TextRange {
        assert!(start.raw <= end.raw);
        TextRange { start, end }
    }
    pub const fn at(offset: TextSize, len: TextSize) -> TextRange {
        TextRange::new(offset, TextSize::new(offset.raw + len.raw))
    }
    pub const fn empty(offset: TextSize) -> TextRange { TextRange { start: offset, end: offset } }
    pub const fn up_to(end: TextSize) -> TextRange { TextRange { start: TextSize::new(0), end } }
    pub const fn start(self) -> TextSize { self.start }
    pub const fn end(self) -> TextSize { self.end }
    pub const fn len(self) -> TextSize { TextSize { raw: self.end.raw - self.start.raw } }
    pub const fn is_empty(self) -> bool { self.start.raw == self.end.raw }
    pub fn contains(self, offset: TextSize) -> bool { self.start <= offset && offset < self.end }
    pub fn contains_inclusive(self, offset: TextSize) -> bool { self.start <= offset && offset <= self.end }
    pub fn contains_range(self, other: TextRange) -> bool { self.start <= other.start && other.end <= self.end }
    pub fn intersect(self, other: TextRange) -> Option<TextRange> {
        let start = cmp::max(self.start, other.start);
        let end = cmp::min(self.end, other.end);
        if end < start { return None; }
        Some(TextRange::new(start, end))
    }
    pub fn cover(self, other: TextRange) -> TextRange {
        TextRange::new(cmp::min(self.start, other.start), cmp::max(self.end, other.end))
    }
    pub fn cover_offset(self, offset: TextSize) -> TextRange { self.cover(TextRange::empty(offset)) }
    pub fn checked_add(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_add(offset)?, end: self.end.checked_add(offset)? })
    }
    pub fn checked_sub(self, offset: TextSize) -> Option<TextRange> {
        Some(TextRange { start: self.start.checked_sub(offset)?, end: self.end.checked_sub(offset)? })
    }
    pub fn ordering(self, r2: TextRange) -> cmp::Ordering {
        if self.end <= r2.start { cmp::Ordering::Less }
        else if r2.end <= self.start { cmp::Ordering::Greater }
        else { cmp::Ordering::Equal }
    }
}
impl Index<TextRange> for str { type Output = str; fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl Index<TextRange> for String { type Output = str; fn index(&self, i: TextRange) -> &str { &self[Range::<usize>::from(i)] } }
impl IndexMut<TextRange> for str { fn index_mut(&mut self, i: TextRange) -> &mut str { &mut self[Range::<usize>::from(i)] } }
impl IndexMut<TextRange> for String { fn index_mut(&mut self, i: TextRange) -> &mut str { &mut self[Range::<usize>::from(i)] } }
impl RangeBounds<TextSize> for TextRange {
    fn start_bound(&self) -> Bound<&TextSize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&TextSize> { Bound::Excluded(&self.end) }
}
impl<T> From<TextRange> for Range<T> where T: From<TextSize> {
    fn from(r: TextRange) -> Self { r.start.into()..r.end.into() }
}
macro_rules! rops {
    ($Op:ident by fn $f:ident = $op:tt $c:ident) => {
        impl $Op<&TextSize> for TextRange { type Output = TextRange; fn $f(self, o: &TextSize) -> TextRange { self $op *o } }
        impl<T> $Op<T> for &TextRange where TextRange: $Op<T, Output = TextRange> { type Output = TextRange; fn $f(self, o: T) -> TextRange { *self $op o } }
        impl $Op<TextSize> for TextRange { type Output = TextRange; fn $f(self, o: TextSize) -> TextRange { self.$c(o).expect("TextRange offset overflowed") } }
    };
}
rops!(Add by fn add = + checked_add);
rops!(Sub by fn sub = - checked_sub);
impl<A> AddAssign<A> for TextRange where TextRange: Add<A, Output = TextRange> { fn add_assign(&mut self, r: A) { *self = *self + r } }
impl<S> SubAssign<S> for TextRange where TextRange: Sub<S, Output = TextRange> { fn sub_assign(&mut self, r: S) { *self = *self - r } }
