//! Ordered byte-string maps with automaton search and union (API subset of `fst`).
use std::collections::BTreeMap;
use std::fmt;
#[derive(Debug)] pub enum Error { OutOfOrder { previous: Vec<u8>, got: Vec<u8> }, DuplicateKey { got: Vec<u8> }, Corrupt }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub trait Streamer<'a> { type Item: 'a; fn next(&'a mut self) -> Option<Self::Item>; }
pub trait IntoStreamer<'a> { type Item: 'a; type Into: Streamer<'a, Item = Self::Item>; fn into_stream(self) -> Self::Into; }
pub trait Automaton { fn matches(&self, key: &[u8]) -> bool; fn starts_with(self) -> automaton::StartsWith<Self> where Self: Sized { automaton::StartsWith(self) } }
impl<A: Automaton> Automaton for &A { fn matches(&self, k: &[u8]) -> bool { (**self).matches(k) } }
pub mod automaton {
    pub use super::Automaton;
    #[derive(Clone, Debug)] pub struct Subsequence<'a>(&'a [u8]);
    impl<'a> Subsequence<'a> { pub fn new(s: &'a str) -> Self { Subsequence(s.as_bytes()) } }
    impl Automaton for Subsequence<'_> { fn matches(&self, key: &[u8]) -> bool { let mut i = 0; for b in key { if i < self.0.len() && self.0[i] == *b { i += 1; } } i == self.0.len() } }
    #[derive(Clone, Debug)] pub struct Str<'a>(&'a [u8]);
    impl<'a> Str<'a> { pub fn new(s: &'a str) -> Self { Str(s.as_bytes()) } }
    impl Automaton for Str<'_> { fn matches(&self, key: &[u8]) -> bool { self.0 == key } }
    #[derive(Clone, Debug)] pub struct AlwaysMatch;
    impl Automaton for AlwaysMatch { fn matches(&self, _: &[u8]) -> bool { true } }
    pub struct StartsWith<A>(pub(crate) A);
    impl<A: Automaton> Automaton for StartsWith<A> { fn matches(&self, key: &[u8]) -> bool { (0..=key.len()).any(|i| self.0.matches(&key[..i])) } }
}
pub mod raw {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct IndexedValue { pub index: usize, pub value: u64 }
    pub struct Fst<'a>(pub(crate) &'a [(Vec<u8>, u64)]);
    impl Fst<'_> { pub fn size(&self) -> usize { self.0.iter().map(|(k, _)| k.len() + 8).sum() } pub fn len(&self) -> usize { self.0.len() } }
}
pub struct MapBuilder<W> { w: W, last: Option<Vec<u8>> }
impl MapBuilder<Vec<u8>> {
    pub fn memory() -> Self { MapBuilder { w: vec![], last: None } }
    pub fn insert<K: AsRef<[u8]>>(&mut self, k: K, v: u64) -> Result<()> {
        let k = k.as_ref();
        if let Some(l) = &self.last { if k == &l[..] { return Err(Error::DuplicateKey { got: k.to_vec() }); } if k < &l[..] { return Err(Error::OutOfOrder { previous: l.clone(), got: k.to_vec() }); } }
        self.last = Some(k.to_vec());
        self.w.extend((k.len() as u64).to_le_bytes()); self.w.extend(v.to_le_bytes()); self.w.extend(k);
        Ok(())
    }
    pub fn into_inner(self) -> Result<Vec<u8>> { Ok(self.w) }
    pub fn into_map(self) -> Map<Vec<u8>> { Map::new(self.w).unwrap() }
    pub fn finish(self) -> Result<()> { Ok(()) }
}
#[derive(Clone)]
pub struct Map<D> { entries: Vec<(Vec<u8>, u64)>, _d: std::marker::PhantomData<D> }
impl<D> fmt::Debug for Map<D> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Map([{}])", self.entries.len()) } }
impl<D: AsRef<[u8]>> Map<D> {
    pub fn new(d: D) -> Result<Map<D>> {
        let mut b = d.as_ref();
        let mut entries = vec![];
        while !b.is_empty() {
            if b.len() < 16 { return Err(Error::Corrupt); }
            let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let v = u64::from_le_bytes(b[8..16].try_into().unwrap());
            if b.len() < 16 + n { return Err(Error::Corrupt); }
            entries.push((b[16..16 + n].to_vec(), v));
            b = &b[16 + n..];
        }
        Ok(Map { entries, _d: std::marker::PhantomData })
    }
    pub fn as_fst(&self) -> raw::Fst<'_> { raw::Fst(&self.entries) }
    pub fn len(&self) -> usize { self.entries.len() }
    pub fn is_empty(&self) -> bool { self.entries.is_empty() }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Option<u64> { self.entries.binary_search_by(|e| e.0[..].cmp(k.as_ref())).ok().map(|i| self.entries[i].1) }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> bool { self.get(k).is_some() }
    pub fn search<A: Automaton>(&self, a: A) -> map::StreamBuilder { map::StreamBuilder { items: self.entries.iter().filter(|(k, _)| a.matches(k)).cloned().collect() } }
    pub fn stream(&self) -> map::Stream { map::Stream { items: self.entries.clone(), i: 0 } }
}
pub mod map {
    use super::*;
    pub use super::{Map, MapBuilder};
    pub struct StreamBuilder { pub(crate) items: Vec<(Vec<u8>, u64)> }
    impl StreamBuilder { pub fn into_stream(self) -> Stream { Stream { items: self.items, i: 0 } } }
    pub struct Stream { pub(crate) items: Vec<(Vec<u8>, u64)>, pub(crate) i: usize }
    impl<'a> Streamer<'a> for Stream { type Item = (&'a [u8], u64); fn next(&'a mut self) -> Option<(&'a [u8], u64)> { let e = self.items.get(self.i)?; self.i += 1; Some((&e.0, e.1)) } }
    #[derive(Default)] pub struct OpBuilder<'m> { streams: Vec<Vec<(Vec<u8>, u64)>>, _p: std::marker::PhantomData<&'m ()> }
    impl<'m> OpBuilder<'m> {
        pub fn new() -> Self { Self::default() }
        pub fn add(mut self, s: StreamBuilder) -> Self { self.push(s); self }
        pub fn push(&mut self, s: StreamBuilder) { self.streams.push(s.items) }
        pub fn union(self) -> Union<'m> {
            let mut m: BTreeMap<Vec<u8>, Vec<raw::IndexedValue>> = BTreeMap::new();
            for (index, s) in self.streams.into_iter().enumerate() { for (k, value) in s { m.entry(k).or_default().push(raw::IndexedValue { index, value }); } }
            Union { items: m.into_iter().collect(), i: 0, _p: std::marker::PhantomData }
        }
    }
    pub struct Union<'m> { items: Vec<(Vec<u8>, Vec<raw::IndexedValue>)>, i: usize, _p: std::marker::PhantomData<&'m ()> }
    impl<'a, 'm> Streamer<'a> for Union<'m> { type Item = (&'a [u8], &'a [raw::IndexedValue]); fn next(&'a mut self) -> Option<(&'a [u8], &'a [raw::IndexedValue])> { let e = self.items.get(self.i)?; self.i += 1; Some((&e.0, &e.1)) } }
}
impl Default for Map<Vec<u8>> { fn default() -> Self { Map { entries: vec![], _d: std::marker::PhantomData } } }
