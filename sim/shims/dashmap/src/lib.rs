//! Sharded concurrent map with `dashmap`'s blocking behaviour, on the simulator.
use simrt::sync::Monitor;
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::hash_map::{self, HashMap, RandomState};
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::ops::{Deref, DerefMut};
use std::sync::Arc;

struct Shard<K, V, S> { l: Monitor<(usize, bool)>, map: UnsafeCell<HashMap<K, V, S>> }
unsafe impl<K: Send, V: Send, S: Send> Send for Shard<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S: Send + Sync> Sync for Shard<K, V, S> {}
impl<K, V, S> Shard<K, V, S> {
    fn read(&self) -> ReadG<'_> { simrt::yield_point("dashmap-read"); self.l.wait("dashmap-read", None, |s| !s.1, |s| s.0 += 1); ReadG(&self.l) }
    fn write(&self) -> WriteG<'_> { simrt::yield_point("dashmap-write"); self.l.wait("dashmap-write", None, |s| !s.1 && s.0 == 0, |s| s.1 = true); WriteG(&self.l) }
    fn map(&self) -> &HashMap<K, V, S> { unsafe { &*self.map.get() } }
    #[allow(clippy::mut_from_ref)] fn map_mut(&self) -> &mut HashMap<K, V, S> { unsafe { &mut *self.map.get() } }
}
struct ReadG<'a>(&'a Monitor<(usize, bool)>);
impl Drop for ReadG<'_> { fn drop(&mut self) { self.0.with(|s| s.0 -= 1); if !std::thread::panicking() { simrt::yield_point("dashmap-unlock"); } } }
struct WriteG<'a>(&'a Monitor<(usize, bool)>);
impl Drop for WriteG<'_> { fn drop(&mut self) { self.0.with(|s| s.1 = false); if !std::thread::panicking() { simrt::yield_point("dashmap-unlock"); } } }

const SHARDS: usize = 4;
pub struct DashMap<K, V, S = RandomState> { shards: Box<[Shard<K, V, S>]>, hasher: S }
impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self { Self::with_hasher(RandomState::new()) }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
}
impl<K: Eq + Hash, V, S: Default + BuildHasher + Clone> Default for DashMap<K, V, S> { fn default() -> Self { Self::with_hasher(S::default()) } }
impl<'a, K: 'a + Eq + Hash, V: 'a, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn with_hasher(hasher: S) -> Self { DashMap { shards: (0..SHARDS).map(|_| Shard { l: Monitor::new((0, false)), map: UnsafeCell::new(HashMap::with_hasher(hasher.clone())) }).collect(), hasher } }
    pub fn hasher(&self) -> &S { &self.hasher }
    fn shard<Q: Hash + ?Sized>(&self, k: &Q) -> &Shard<K, V, S> { &self.shards[(self.hasher.hash_one(k) >> 57) as usize % SHARDS] }
    pub fn insert(&self, k: K, v: V) -> Option<V> { let s = self.shard(&k); let _g = s.write(); s.map_mut().insert(k, v) }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { let s = self.shard(k); let _g = s.write(); s.map_mut().remove_entry(k) }
    pub fn remove_if<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)> where K: Borrow<Q> { let s = self.shard(k); let _g = s.write(); match s.map().get_key_value(k) { Some((a, b)) if f(a, b) => s.map_mut().remove_entry(k), _ => None } }
    pub fn get<Q: Hash + Eq + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::Ref<'a, K, V>> where K: Borrow<Q> { let s = self.shard(k); let g = s.read(); let (k, v) = s.map().get_key_value(k)?; Some(mapref::one::Ref { _g: Arc::new(g), k, v }) }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&'a self, k: &Q) -> Option<mapref::one::RefMut<'a, K, V>> where K: Borrow<Q> { let s = self.shard(k); let g = s.write(); let (kk, _) = s.map().get_key_value(k)?; let v = s.map_mut().get_mut(k)?; Some(mapref::one::RefMut { _g: g, k: kk, v }) }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { let s = self.shard(k); let _g = s.read(); s.map().contains_key(k) }
    pub fn view<Q: Hash + Eq + ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R> where K: Borrow<Q> { self.get(k).map(|r| f(r.key(), r.value())) }
    pub fn entry(&'a self, k: K) -> Entry<'a, K, V> {
        let s = self.shard(&k);
        let g = s.write();
        match s.map_mut().entry_compat(k) {
            (k, true) => { let kk = s.map().get_key_value(&k).unwrap().0; let v = s.map_mut().get_mut(&k).unwrap() as *mut V; Entry::Occupied(OccupiedEntry { g, k: kk, v: unsafe { &mut *v }, key: k, ops: s }) }
            (k, false) => Entry::Vacant(VacantEntry { g, key: k, ops: s }),
        }
    }
    pub fn len(&self) -> usize { self.shards.iter().map(|s| { let _g = s.read(); s.map().len() }).sum() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&self) { self.retain(|_, _| false) }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) { for s in self.shards.iter() { let _g = s.write(); s.map_mut().retain(|k, v| f(k, v)); } }
    pub fn alter<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V) where K: Borrow<Q> { let s = self.shard(k); let _g = s.write(); if let Some((k, v)) = s.map_mut().remove_entry(k) { let v = f(&k, v); s.map_mut().insert(k, v); } }
    pub fn iter(&'a self) -> Iter<'a, K, V, S> { Iter { shards: self.shards.iter(), cur: None } }
    pub fn iter_mut(&'a self) -> IterMut<'a, K, V, S> { IterMut { shards: self.shards.iter(), cur: None } }
}
trait EntryCompat<K> { fn entry_compat(&self, k: K) -> (K, bool); }
impl<K: Eq + Hash, V, S: BuildHasher> EntryCompat<K> for HashMap<K, V, S> { fn entry_compat(&self, k: K) -> (K, bool) { let c = self.contains_key(&k); (k, c) } }
trait Ops<K, V> { fn ins(&self, k: K, v: V) -> (*const K, *mut V); fn rem(&self, k: &K) -> Option<(K, V)>; }
impl<K: Eq + Hash, V, S: BuildHasher> Ops<K, V> for Shard<K, V, S> {
    fn ins(&self, k: K, v: V) -> (*const K, *mut V) { match self.map_mut().entry(k) { hash_map::Entry::Occupied(mut o) => { *o.get_mut() = v; let k = o.key() as *const K; (k, o.into_mut() as *mut V) } hash_map::Entry::Vacant(e) => { let h = e.insert_entry(v); let k = h.key() as *const K; (k, h.into_mut() as *mut V) } } }
    fn rem(&self, k: &K) -> Option<(K, V)> { self.map_mut().remove_entry(k) }
}
impl<K: Eq + Hash + Clone, V: Clone, S: BuildHasher + Clone> Clone for DashMap<K, V, S> {
    fn clone(&self) -> Self { DashMap { shards: self.shards.iter().map(|s| { let _g = s.read(); Shard { l: Monitor::new((0, false)), map: UnsafeCell::new(s.map().clone()) } }).collect(), hasher: self.hasher.clone() } }
}
impl<K: Eq + Hash + fmt::Debug, V: fmt::Debug, S: BuildHasher + Clone> fmt::Debug for DashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let mut m = f.debug_map(); for r in self.iter() { m.entry(r.key(), r.value()); } m.finish() } }
impl<K: Eq + Hash, V, S: BuildHasher + Clone + Default> FromIterator<(K, V)> for DashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let m = Self::default(); for (k, v) in i { m.insert(k, v); } m } }
impl<K: Eq + Hash, V, S: BuildHasher + Clone> Extend<(K, V)> for DashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
impl<K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for DashMap<K, V, S> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.shards.into_vec().into_iter().flat_map(|s| s.map.into_inner()).collect::<Vec<_>>().into_iter() } }
impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> { type Item = mapref::multiple::RefMulti<'a, K, V>; type IntoIter = Iter<'a, K, V, S>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
pub struct Iter<'a, K, V, S> { shards: std::slice::Iter<'a, Shard<K, V, S>>, cur: Option<(Arc<ReadG<'a>>, hash_map::Iter<'a, K, V>)> }
impl<'a, K: Eq + Hash, V, S: BuildHasher> Iterator for Iter<'a, K, V, S> {
    type Item = mapref::multiple::RefMulti<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some((g, it)) = &mut self.cur { if let Some((k, v)) = it.next() { return Some(mapref::multiple::RefMulti { _g: g.clone(), k, v }); } }
            self.cur = None;
            let s = self.shards.next()?;
            let g = Arc::new(s.read());
            self.cur = Some((g, s.map().iter()));
        }
    }
}
pub struct IterMut<'a, K, V, S> { shards: std::slice::Iter<'a, Shard<K, V, S>>, cur: Option<(Arc<WriteG<'a>>, hash_map::IterMut<'a, K, V>)> }
impl<'a, K: Eq + Hash, V, S: BuildHasher> Iterator for IterMut<'a, K, V, S> {
    type Item = mapref::multiple::RefMutMulti<'a, K, V>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some((g, it)) = &mut self.cur { if let Some((k, v)) = it.next() { return Some(mapref::multiple::RefMutMulti { _g: g.clone(), k, v }); } }
            self.cur = None;
            let s = self.shards.next()?;
            let g = Arc::new(s.write());
            self.cur = Some((g, s.map_mut().iter_mut()));
        }
    }
}
pub mod mapref {
    use super::*;
    pub mod entry { pub use crate::{Entry, OccupiedEntry, VacantEntry}; }
    pub mod one {
        use super::*;
        pub struct Ref<'a, K, V> { pub(crate) _g: Arc<ReadG<'a>>, pub(crate) k: &'a K, pub(crate) v: &'a V }
        impl<'a, K, V> Ref<'a, K, V> { pub fn key(&self) -> &K { self.k } pub fn value(&self) -> &V { self.v } pub fn pair(&self) -> (&K, &V) { (self.k, self.v) } pub fn map<F: FnOnce(&V) -> &T, T>(self, f: F) -> MappedRef<'a, K, V, T> { MappedRef { _g: self._g, k: self.k, v: f(self.v), _p: std::marker::PhantomData } } }
        impl<K, V> Deref for Ref<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.v } }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Ref<'_, K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("Ref").field("k", &self.k).field("v", &self.v).finish() } }
        pub struct MappedRef<'a, K, V, T> { pub(crate) _g: Arc<ReadG<'a>>, pub(crate) k: &'a K, pub(crate) v: &'a T, pub(crate) _p: std::marker::PhantomData<V> }
        impl<K, V, T> Deref for MappedRef<'_, K, V, T> { type Target = T; fn deref(&self) -> &T { self.v } }
        impl<K, V, T> MappedRef<'_, K, V, T> { pub fn key(&self) -> &K { self.k } pub fn value(&self) -> &T { self.v } }
        pub struct RefMut<'a, K, V> { pub(crate) _g: WriteG<'a>, pub(crate) k: &'a K, pub(crate) v: &'a mut V }
        impl<'a, K, V> RefMut<'a, K, V> { pub fn key(&self) -> &K { self.k } pub fn value(&self) -> &V { self.v } pub fn value_mut(&mut self) -> &mut V { self.v } pub fn pair(&self) -> (&K, &V) { (self.k, self.v) } pub fn pair_mut(&mut self) -> (&K, &mut V) { (self.k, self.v) } }
        impl<K, V> Deref for RefMut<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.v } }
        impl<K, V> DerefMut for RefMut<'_, K, V> { fn deref_mut(&mut self) -> &mut V { self.v } }
    }
    pub mod multiple {
        use super::*;
        pub struct RefMulti<'a, K, V> { pub(crate) _g: Arc<ReadG<'a>>, pub(crate) k: &'a K, pub(crate) v: &'a V }
        impl<K, V> RefMulti<'_, K, V> { pub fn key(&self) -> &K { self.k } pub fn value(&self) -> &V { self.v } pub fn pair(&self) -> (&K, &V) { (self.k, self.v) } }
        impl<K, V> Deref for RefMulti<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.v } }
        pub struct RefMutMulti<'a, K, V> { pub(crate) _g: Arc<WriteG<'a>>, pub(crate) k: &'a K, pub(crate) v: &'a mut V }
        impl<K, V> RefMutMulti<'_, K, V> { pub fn key(&self) -> &K { self.k } pub fn value(&self) -> &V { self.v } pub fn value_mut(&mut self) -> &mut V { self.v } }
        impl<K, V> Deref for RefMutMulti<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.v } }
        impl<K, V> DerefMut for RefMutMulti<'_, K, V> { fn deref_mut(&mut self) -> &mut V { self.v } }
    }
}
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { g: WriteG<'a>, k: &'a K, v: &'a mut V, key: K, ops: &'a dyn OpsDyn<K, V> }
pub struct VacantEntry<'a, K, V> { g: WriteG<'a>, key: K, ops: &'a dyn OpsDyn<K, V> }
trait OpsDyn<K, V>: Ops<K, V> {}
impl<K, V, T: Ops<K, V>> OpsDyn<K, V> for T {}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { self.v }
    pub fn get_mut(&mut self) -> &mut V { self.v }
    pub fn key(&self) -> &K { self.k }
    pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.v, v) }
    pub fn into_ref(self) -> mapref::one::RefMut<'a, K, V> { mapref::one::RefMut { _g: self.g, k: self.k, v: self.v } }
    pub fn remove(self) -> V { self.remove_entry().1 }
    pub fn remove_entry(self) -> (K, V) { let OccupiedEntry { g, key, ops, .. } = self; let r = ops.rem(&key).unwrap(); drop(g); r }
    pub fn replace_entry(self, v: V) -> (K, V) { let OccupiedEntry { g, key, ops, .. } = self; let old = ops.rem(&key).unwrap(); ops.ins(key, v); drop(g); old }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> mapref::one::RefMut<'a, K, V> { let (k, p) = self.ops.ins(self.key, v); mapref::one::RefMut { _g: self.g, k: unsafe { &*k }, v: unsafe { &mut *p } } }
    pub fn key(&self) -> &K { &self.key }
    pub fn into_key(self) -> K { self.key }
}
impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
    pub fn or_insert(self, v: V) -> mapref::one::RefMut<'a, K, V> { self.or_insert_with(|| v) }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> mapref::one::RefMut<'a, K, V> { match self { Entry::Occupied(o) => o.into_ref(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_default(self) -> mapref::one::RefMut<'a, K, V> where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self { match self { Entry::Occupied(mut o) => { f(o.get_mut()); Entry::Occupied(o) } e => e } }
    pub fn insert(self, v: V) -> mapref::one::RefMut<'a, K, V> { match self { Entry::Occupied(mut o) => { o.insert(v); o.into_ref() } Entry::Vacant(e) => e.insert(v) } }
}
pub struct DashSet<K, S = RandomState> { m: DashMap<K, (), S> }
impl<K: Eq + Hash> DashSet<K> { pub fn new() -> Self { DashSet { m: DashMap::new() } } }
impl<K: Eq + Hash, S: Default + BuildHasher + Clone> Default for DashSet<K, S> { fn default() -> Self { DashSet { m: DashMap::default() } } }
impl<K: Eq + Hash, S: BuildHasher + Clone> DashSet<K, S> { pub fn insert(&self, k: K) -> bool { self.m.insert(k, ()).is_none() } pub fn contains(&self, k: &K) -> bool { self.m.contains_key(k) } pub fn remove(&self, k: &K) -> Option<K> { self.m.remove(k).map(|(k, _)| k) } pub fn len(&self) -> usize { self.m.len() } pub fn is_empty(&self) -> bool { self.m.is_empty() } }
