//! Locks with `parking_lot` semantics (a waiting writer blocks new readers) on the simulator.
use simrt::sync::Monitor;
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::time::{Duration, Instant};
use std::{fmt, mem};

#[derive(Default)]
struct St { readers: usize, upgradable: bool, writer: bool }
#[doc(hidden)]
pub struct Raw { m: Monitor<St> }
impl Raw {
    const fn new() -> Raw { Raw { m: Monitor::new(St { readers: 0, upgradable: false, writer: false }) } }
    fn read(&self, d: Option<Duration>) -> bool { simrt::yield_point("rwlock-read"); self.m.wait("rwlock-read", d, |s| !s.writer, |s| s.readers += 1).is_some() }
    fn try_read(&self, recursive: bool) -> bool { let _ = recursive; self.m.with(|s| if s.writer { false } else { s.readers += 1; true }) }
    fn write(&self, d: Option<Duration>) -> bool {
        simrt::yield_point("rwlock-write");
        if self.m.wait("rwlock-write", d, |s| !s.writer && !s.upgradable, |s| s.writer = true).is_none() { return false; }
        // the writer bit is set: new readers block while we wait for the present ones
        if self.m.wait("rwlock-write-drain", d, |s| s.readers == 0, |_| ()).is_none() { self.m.with(|s| s.writer = false); return false; }
        true
    }
    fn try_write(&self) -> bool { self.m.with(|s| if s.writer || s.upgradable || s.readers > 0 { false } else { s.writer = true; true }) }
    fn upgradable(&self, d: Option<Duration>) -> bool { simrt::yield_point("rwlock-upgradable"); self.m.wait("rwlock-upgradable", d, |s| !s.writer && !s.upgradable, |s| s.upgradable = true).is_some() }
    fn try_upgradable(&self) -> bool { self.m.with(|s| if s.writer || s.upgradable { false } else { s.upgradable = true; true }) }
    fn upgrade(&self) { self.m.with(|s| { s.upgradable = false; s.writer = true }); self.m.wait("rwlock-upgrade", None, |s| s.readers == 0, |_| ()); }
    fn try_upgrade(&self) -> bool { self.m.with(|s| if s.readers > 0 { false } else { s.upgradable = false; s.writer = true; true }) }
    fn unlock_read(&self) { self.m.with(|s| s.readers -= 1); y(); }
    fn unlock_write(&self) { self.m.with(|s| s.writer = false); y(); }
    fn unlock_upgradable(&self) { self.m.with(|s| s.upgradable = false); y(); }
    fn locked(&self) -> bool { self.m.with(|s| s.writer || s.readers > 0 || s.upgradable) }
    fn locked_excl(&self) -> bool { self.m.with(|s| s.writer) }
}
fn y() { if !std::thread::panicking() { simrt::yield_point("unlock"); } }

pub struct RwLock<T: ?Sized> { raw: Raw, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub const fn new(t: T) -> Self { RwLock { raw: Raw::new(), data: UnsafeCell::new(t) } } pub fn into_inner(self) -> T { self.data.into_inner() } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> { self.raw.read(None); RwLockReadGuard { l: self, _p: PhantomData } }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> { while !self.raw.try_read(true) { self.raw.m.wait("rwlock-read", None, |s| !s.writer, |_| ()); } RwLockReadGuard { l: self, _p: PhantomData } }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> { simrt::yield_point("rwlock-try"); self.raw.try_read(false).then(|| RwLockReadGuard { l: self, _p: PhantomData }) }
    pub fn try_read_for(&self, d: Duration) -> Option<RwLockReadGuard<'_, T>> { self.raw.read(Some(d)).then(|| RwLockReadGuard { l: self, _p: PhantomData }) }
    pub fn try_read_until(&self, i: Instant) -> Option<RwLockReadGuard<'_, T>> { self.try_read_for(i.saturating_duration_since(Instant::now())) }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { self.raw.write(None); RwLockWriteGuard { l: self, _p: PhantomData } }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> { simrt::yield_point("rwlock-try"); self.raw.try_write().then(|| RwLockWriteGuard { l: self, _p: PhantomData }) }
    pub fn try_write_for(&self, d: Duration) -> Option<RwLockWriteGuard<'_, T>> { self.raw.write(Some(d)).then(|| RwLockWriteGuard { l: self, _p: PhantomData }) }
    pub fn try_write_until(&self, i: Instant) -> Option<RwLockWriteGuard<'_, T>> { self.try_write_for(i.saturating_duration_since(Instant::now())) }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> { self.raw.upgradable(None); RwLockUpgradableReadGuard { l: self, _p: PhantomData } }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> { self.raw.try_upgradable().then(|| RwLockUpgradableReadGuard { l: self, _p: PhantomData }) }
    pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
    pub fn is_locked(&self) -> bool { self.raw.locked() }
    pub fn is_locked_exclusive(&self) -> bool { self.raw.locked_excl() }
    pub fn data_ptr(&self) -> *mut T { self.data.get() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock { .. }") } }
type NotSend = PhantomData<*const ()>;
pub struct RwLockReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: NotSend }
pub struct RwLockWriteGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: NotSend }
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _p: NotSend }
pub struct MappedRwLockReadGuard<'a, T: ?Sized> { raw: &'a Raw, data: *const T, _p: NotSend }
pub struct MappedRwLockWriteGuard<'a, T: ?Sized> { raw: &'a Raw, data: *mut T, _p: NotSend }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.data.get() } } }
impl<T: ?Sized> Deref for MappedRwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.data } } }
impl<T: ?Sized> Deref for MappedRwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.data } } }
impl<T: ?Sized> DerefMut for MappedRwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.data } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.l.raw.unlock_read() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.l.raw.unlock_write() } }
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> { fn drop(&mut self) { self.l.raw.unlock_upgradable() } }
impl<T: ?Sized> Drop for MappedRwLockReadGuard<'_, T> { fn drop(&mut self) { self.raw.unlock_read() } }
impl<T: ?Sized> Drop for MappedRwLockWriteGuard<'_, T> { fn drop(&mut self) { self.raw.unlock_write() } }
macro_rules! dbg_guard { ($($n:ident)*) => { $( impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } } impl<T: ?Sized + fmt::Display> fmt::Display for $n<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } } )* } }
dbg_guard!(RwLockReadGuard RwLockWriteGuard RwLockUpgradableReadGuard MappedRwLockReadGuard MappedRwLockWriteGuard MutexGuard MappedMutexGuard);
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> { let l = s.l; let data = f(unsafe { &*l.data.get() }) as *const U; mem::forget(s); MappedRwLockReadGuard { raw: &l.raw, data, _p: PhantomData } }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(s: Self, f: F) -> Result<MappedRwLockReadGuard<'a, U>, Self> { let l = s.l; match f(unsafe { &*l.data.get() }) { Some(d) => { let data = d as *const U; mem::forget(s); Ok(MappedRwLockReadGuard { raw: &l.raw, data, _p: PhantomData }) } None => Err(s) } }
    pub fn rwlock(s: &Self) -> &'a RwLock<T> { s.l }
    pub fn unlock_fair(s: Self) { drop(s) }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U { s.l.raw.unlock_read(); let r = f(); s.l.raw.read(None); r }
    pub fn bump(s: &mut Self) { Self::unlocked(s, || ()) }
}
impl<'a, T: ?Sized> MappedRwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&T) -> &U>(s: Self, f: F) -> MappedRwLockReadGuard<'a, U> { let raw = s.raw; let data = f(unsafe { &*s.data }) as *const U; mem::forget(s); MappedRwLockReadGuard { raw, data, _p: PhantomData } }
    pub fn try_map<U: ?Sized, F: FnOnce(&T) -> Option<&U>>(s: Self, f: F) -> Result<MappedRwLockReadGuard<'a, U>, Self> { let raw = s.raw; match f(unsafe { &*s.data }) { Some(d) => { let data = d as *const U; mem::forget(s); Ok(MappedRwLockReadGuard { raw, data, _p: PhantomData }) } None => Err(s) } }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedRwLockWriteGuard<'a, U> { let l = s.l; let data = f(unsafe { &mut *l.data.get() }) as *mut U; mem::forget(s); MappedRwLockWriteGuard { raw: &l.raw, data, _p: PhantomData } }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> { let l = s.l; mem::forget(s); l.raw.m.with(|s| { s.writer = false; s.readers += 1 }); RwLockReadGuard { l, _p: PhantomData } }
    pub fn downgrade_to_upgradable(s: Self) -> RwLockUpgradableReadGuard<'a, T> { let l = s.l; mem::forget(s); l.raw.m.with(|s| { s.writer = false; s.upgradable = true }); y(); RwLockUpgradableReadGuard { l, _p: PhantomData } }
    pub fn rwlock(s: &Self) -> &'a RwLock<T> { s.l }
    pub fn unlock_fair(s: Self) { drop(s) }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U { s.l.raw.unlock_write(); let r = f(); s.l.raw.write(None); r }
    pub fn bump(s: &mut Self) { Self::unlocked(s, || ()) }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> { let l = s.l; mem::forget(s); l.raw.upgrade(); RwLockWriteGuard { l, _p: PhantomData } }
    pub fn try_upgrade(s: Self) -> Result<RwLockWriteGuard<'a, T>, Self> { let l = s.l; if l.raw.try_upgrade() { mem::forget(s); Ok(RwLockWriteGuard { l, _p: PhantomData }) } else { Err(s) } }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> { let l = s.l; mem::forget(s); l.raw.m.with(|s| { s.upgradable = false; s.readers += 1 }); RwLockReadGuard { l, _p: PhantomData } }
    pub fn with_upgraded<R>(s: &mut Self, f: impl FnOnce(&mut T) -> R) -> R { s.l.raw.upgrade(); let r = f(unsafe { &mut *s.l.data.get() }); s.l.raw.m.with(|s| { s.writer = false; s.upgradable = true }); r }
    pub fn rwlock(s: &Self) -> &'a RwLock<T> { s.l }
}

pub struct Mutex<T: ?Sized> { raw: Raw, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> { pub const fn new(t: T) -> Self { Mutex { raw: Raw::new(), data: UnsafeCell::new(t) } } pub fn into_inner(self) -> T { self.data.into_inner() } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { simrt::yield_point("mutex"); self.raw.m.wait("mutex-lock", None, |s| !s.writer, |s| s.writer = true); MutexGuard { l: self, _p: PhantomData } }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { simrt::yield_point("mutex-try"); self.raw.try_write().then(|| MutexGuard { l: self, _p: PhantomData }) }
    pub fn try_lock_for(&self, d: Duration) -> Option<MutexGuard<'_, T>> { self.raw.m.wait("mutex-lock", Some(d), |s| !s.writer, |s| s.writer = true).map(|_| MutexGuard { l: self, _p: PhantomData }) }
    pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
    pub fn is_locked(&self) -> bool { self.raw.locked() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex { .. }") } }
pub struct MutexGuard<'a, T: ?Sized> { l: &'a Mutex<T>, _p: NotSend }
pub struct MappedMutexGuard<'a, T: ?Sized> { raw: &'a Raw, data: *mut T, _p: NotSend }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.data.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.l.raw.unlock_write() } }
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.data } } }
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.data } } }
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> { fn drop(&mut self) { self.raw.unlock_write() } }
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedMutexGuard<'a, U> { let l = s.l; let data = f(unsafe { &mut *l.data.get() }) as *mut U; mem::forget(s); MappedMutexGuard { raw: &l.raw, data, _p: PhantomData } }
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U { s.l.raw.unlock_write(); let r = f(); s.l.raw.m.wait("mutex-lock", None, |s| !s.writer, |s| s.writer = true); r }
    pub fn unlock_fair(s: Self) { drop(s) }
    pub fn mutex(s: &Self) -> &'a Mutex<T> { s.l }
}
/// Condition variable (no spurious wake-ups are injected outside of a simulation).
#[derive(Default)]
pub struct Condvar { m: Monitor<(u64, u64)> }
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Self { Condvar { m: Monitor::new((0, 0)) } }
    pub fn notify_one(&self) -> bool { self.m.with(|s| { if s.1 < s.0 { s.1 += 1; true } else { false } }) }
    pub fn notify_all(&self) -> usize { self.m.with(|s| { let n = s.0 - s.1; s.1 = s.0; n as usize }) }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) { let t = self.m.with(|s| { s.0 += 1; s.0 }); MutexGuard::unlocked(g, || { self.m.wait("condvar", None, |s| s.1 >= t, |_| ()); }) }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult { let t = self.m.with(|s| { s.0 += 1; s.0 }); MutexGuard::unlocked(g, || WaitTimeoutResult(self.m.wait("condvar", Some(d), |s| s.1 >= t, |_| ()).is_none())) }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut c: impl FnMut(&mut T) -> bool) { while c(&mut *g) { self.wait(g) } }
}
