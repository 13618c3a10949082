//! Blocking helpers which work both inside and outside of a simulation.
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// A mutex-protected state with "wait until" semantics.
pub struct Monitor<T> { m: Mutex<T>, cv: Condvar }
impl<T: Default> Default for Monitor<T> { fn default() -> Self { Monitor::new(T::default()) } }
impl<T> Monitor<T> {
    pub const fn new(t: T) -> Self { Monitor { m: Mutex::new(t), cv: Condvar::new() } }
    /// short critical section; never blocks on anything else
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        let r = f(&mut g);
        drop(g);
        if !crate::in_sim() { self.cv.notify_all(); }
        r
    }
    /// waits until `ready` holds, then runs `take`; None on timeout.  `ready` must be pure.
    pub fn wait<R>(&self, tag: &'static str, timeout: Option<Duration>, mut ready: impl FnMut(&T) -> bool, take: impl FnOnce(&mut T) -> R) -> Option<R> {
        if crate::in_sim() {
            let deadline = timeout.map(|d| crate::now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
            let ok = crate::block_until(tag, deadline, &mut || ready(&self.m.lock().unwrap_or_else(|e| e.into_inner())));
            if !ok { return None; }
            Some(take(&mut self.m.lock().unwrap_or_else(|e| e.into_inner())))
        } else {
            let end = timeout.and_then(|d| Instant::now().checked_add(d));
            let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
            loop {
                if ready(&g) { let r = take(&mut g); drop(g); self.cv.notify_all(); return Some(r); }
                match end {
                    None => g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner()),
                    Some(end) => {
                        let now = Instant::now();
                        if now >= end { return None; }
                        g = self.cv.wait_timeout(g, end - now).unwrap_or_else(|e| e.into_inner()).0;
                    }
                }
            }
        }
    }
}
