//! Multi-producer multi-consumer channels on the simulator (API subset of `crossbeam-channel`).
use simrt::sync::Monitor;
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::{Duration, Instant};
use std::{error, fmt};

struct Inner<T> { q: VecDeque<T>, cap: Option<usize>, senders: usize, receivers: usize }
struct Chan<T> { m: Monitor<Inner<T>> }
pub struct Sender<T> { c: Arc<Chan<T>> }
pub struct Receiver<T> { f: Flavor<T> }
enum Flavor<T> { Chan(Arc<Chan<T>>), At(Arc<Monitor<Timer<T>>>), Never }
struct Timer<T> { at: Option<u64>, period: Option<u64>, make: fn() -> T }

fn clock() -> u64 { if simrt::in_sim() { simrt::now() } else { use std::sync::OnceLock; static B: OnceLock<Instant> = OnceLock::new(); B.get_or_init(Instant::now).elapsed().as_nanos() as u64 } }

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { chan(None) }
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) { chan(Some(cap.max(1))) }
fn chan<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan { m: Monitor::new(Inner { q: VecDeque::new(), cap, senders: 1, receivers: 1 }) });
    (Sender { c: c.clone() }, Receiver { f: Flavor::Chan(c) })
}
pub fn after(d: Duration) -> Receiver<Instant> { Receiver { f: Flavor::At(Arc::new(Monitor::new(Timer { at: Some(clock().saturating_add(d.as_nanos() as u64)), period: None, make: Instant::now }))) } }
pub fn tick(d: Duration) -> Receiver<Instant> { let p = d.as_nanos() as u64; Receiver { f: Flavor::At(Arc::new(Monitor::new(Timer { at: Some(clock() + p), period: Some(p.max(1)), make: Instant::now }))) } }
pub fn at(i: Instant) -> Receiver<Instant> { after(i.saturating_duration_since(Instant::now())) }
pub fn never<T>() -> Receiver<T> { Receiver { f: Flavor::Never } }

#[derive(PartialEq, Eq, Clone, Copy)] pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)] pub enum TrySendError<T> { Full(T), Disconnected(T) }
#[derive(PartialEq, Eq, Clone, Copy)] pub enum SendTimeoutError<T> { Timeout(T), Disconnected(T) }
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub enum TryRecvError { Empty, Disconnected }
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub enum RecvTimeoutError { Timeout, Disconnected }
impl<T> SendError<T> { pub fn into_inner(self) -> T { self.0 } }
impl<T> TrySendError<T> { pub fn into_inner(self) -> T { match self { TrySendError::Full(t) | TrySendError::Disconnected(t) => t } } pub fn is_full(&self) -> bool { matches!(self, TrySendError::Full(_)) } pub fn is_disconnected(&self) -> bool { !self.is_full() } }
impl TryRecvError { pub fn is_empty(&self) -> bool { *self == TryRecvError::Empty } pub fn is_disconnected(&self) -> bool { !self.is_empty() } }
impl RecvTimeoutError { pub fn is_timeout(&self) -> bool { *self == RecvTimeoutError::Timeout } pub fn is_disconnected(&self) -> bool { !self.is_timeout() } }
impl<T> fmt::Debug for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SendError(..)") } }
impl<T> fmt::Display for SendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("sending on a disconnected channel") } }
impl<T: Send> error::Error for SendError<T> {}
impl<T> fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_full() { "Full(..)" } else { "Disconnected(..)" }) } }
impl<T> fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_full() { "sending on a full channel" } else { "sending on a disconnected channel" }) } }
impl<T: Send> error::Error for TrySendError<T> {}
impl<T> fmt::Debug for SendTimeoutError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("SendTimeoutError(..)") } }
impl fmt::Display for RecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("receiving on an empty and disconnected channel") } }
impl error::Error for RecvError {}
impl fmt::Display for TryRecvError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_empty() { "receiving on an empty channel" } else { "receiving on an empty and disconnected channel" }) } }
impl error::Error for TryRecvError {}
impl fmt::Display for RecvTimeoutError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_timeout() { "timed out waiting on receive operation" } else { "channel is empty and disconnected" }) } }
impl error::Error for RecvTimeoutError {}

impl<T> Sender<T> {
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        let r = self.send_inner(msg, None).map_err(|e| match e { SendTimeoutError::Timeout(t) | SendTimeoutError::Disconnected(t) => SendError(t) });
        simrt::yield_point("chan-send");
        r
    }
    pub fn send_timeout(&self, msg: T, d: Duration) -> Result<(), SendTimeoutError<T>> { self.send_inner(msg, Some(d)) }
    fn send_inner(&self, msg: T, d: Option<Duration>) -> Result<(), SendTimeoutError<T>> {
        let mut slot = Some(msg);
        // the common case never blocks
        let done = self.c.m.with(|i| { if i.receivers == 0 { Some(false) } else if i.cap.map_or(true, |c| i.q.len() < c) { i.q.push_back(slot.take().unwrap()); Some(true) } else { None } });
        let ok = match done {
            Some(ok) => Some(ok),
            None => self.c.m.wait("chan-send-full", d, |i| i.receivers == 0 || i.cap.map_or(true, |c| i.q.len() < c), |i| if i.receivers == 0 { false } else { i.q.push_back(slot.take().unwrap()); true }),
        };
        match ok { None => Err(SendTimeoutError::Timeout(slot.unwrap())), Some(true) => Ok(()), Some(false) => Err(SendTimeoutError::Disconnected(slot.unwrap())) }
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        let r = self.c.m.with(|i| if i.receivers == 0 { Err(TrySendError::Disconnected(msg)) } else if i.cap.map_or(true, |c| i.q.len() < c) { i.q.push_back(msg); Ok(()) } else { Err(TrySendError::Full(msg)) });
        simrt::yield_point("chan-try-send");
        r
    }
    pub fn len(&self) -> usize { self.c.m.with(|i| i.q.len()) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn is_full(&self) -> bool { self.c.m.with(|i| i.cap.map_or(false, |c| i.q.len() >= c)) }
    pub fn capacity(&self) -> Option<usize> { self.c.m.with(|i| i.cap) }
    pub fn same_channel(&self, o: &Sender<T>) -> bool { Arc::ptr_eq(&self.c, &o.c) }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.c.m.with(|i| i.senders += 1); Sender { c: self.c.clone() } } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.c.m.with(|i| i.senders -= 1); } }
impl<T> fmt::Debug for Sender<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("Sender { .. }") } }
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

impl<T> Receiver<T> {
    fn ready(&self) -> bool {
        match &self.f {
            Flavor::Chan(c) => c.m.with(|i| !i.q.is_empty() || i.senders == 0),
            Flavor::At(t) => { let now = clock(); t.with(|t| t.at.map_or(false, |a| a <= now)) }
            Flavor::Never => false,
        }
    }
    fn deadline(&self) -> Option<u64> { match &self.f { Flavor::At(t) => t.with(|t| t.at), _ => None } }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { let r = self.poll(); if simrt::in_sim() { simrt::yield_point("chan-try-recv"); } r }
    fn poll(&self) -> Result<T, TryRecvError> {
        match &self.f {
            Flavor::Chan(c) => c.m.with(|i| match i.q.pop_front() { Some(v) => Ok(v), None if i.senders == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) }),
            Flavor::At(t) => { let now = clock(); t.with(|t| match t.at { Some(a) if a <= now => { t.at = t.period.map(|p| now + p); Ok((t.make)()) } _ => Err(TryRecvError::Empty) }) }
            Flavor::Never => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            select_wait(&[self], None);
            match self.poll() { Ok(v) => return Ok(v), Err(TryRecvError::Disconnected) => return Err(RecvError), Err(TryRecvError::Empty) => {} }
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let end = clock().saturating_add(d.as_nanos() as u64);
        loop {
            let r = select_wait(&[self], Some(end));
            match self.poll() { Ok(v) => return Ok(v), Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected), Err(TryRecvError::Empty) => {} }
            if r.is_none() { return Err(RecvTimeoutError::Timeout); }
        }
    }
    pub fn len(&self) -> usize { match &self.f { Flavor::Chan(c) => c.m.with(|i| i.q.len()), _ => self.ready() as usize } }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn capacity(&self) -> Option<usize> { match &self.f { Flavor::Chan(c) => c.m.with(|i| i.cap), Flavor::At(_) => Some(1), Flavor::Never => Some(0) } }
    pub fn iter(&self) -> Iter<'_, T> { Iter { r: self } }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter { r: self } }
}
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { Receiver { f: match &self.f { Flavor::Chan(c) => { c.m.with(|i| i.receivers += 1); Flavor::Chan(c.clone()) } Flavor::At(t) => Flavor::At(t.clone()), Flavor::Never => Flavor::Never } } } }
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) { if let Flavor::Chan(c) = &self.f { let dead = c.m.with(|i| { i.receivers -= 1; if i.receivers == 0 { std::mem::take(&mut i.q) } else { VecDeque::new() } }); drop(dead); } }
}
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("Receiver { .. }") } }
pub struct Iter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
pub struct TryIter<'a, T> { r: &'a Receiver<T> }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.try_recv().ok() } }
pub struct IntoIter<T> { r: Receiver<T> }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.r.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { r: self } } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }

#[doc(hidden)]
pub trait Selectable { fn sel_ready(&self) -> bool; fn sel_deadline(&self) -> Option<u64>; }
impl<T> Selectable for Receiver<T> { fn sel_ready(&self) -> bool { self.ready() } fn sel_deadline(&self) -> Option<u64> { self.deadline() } }
impl<S: Selectable + ?Sized> Selectable for &S { fn sel_ready(&self) -> bool { (**self).sel_ready() } fn sel_deadline(&self) -> Option<u64> { (**self).sel_deadline() } }
/// index of a ready operation, chosen at random among the ready ones; None on timeout
#[doc(hidden)]
pub fn select_wait(ops: &[&dyn Selectable], until: Option<u64>) -> Option<usize> {
    let any = || ops.iter().any(|o| o.sel_ready());
    let deadline = ops.iter().filter_map(|o| o.sel_deadline()).chain(until).min();
    if simrt::in_sim() { while !simrt::block_until("chan-recv", deadline, &mut || any()) { if until.map_or(false, |u| u <= clock()) { return None; } if any() { break; } } }
    else { let mut us = 20; while !any() { if until.map_or(false, |u| u <= clock()) { return None; } std::thread::sleep(Duration::from_micros(us)); us = (us * 2).min(1000); } }
    let ready: Vec<usize> = ops.iter().enumerate().filter(|(_, o)| o.sel_ready()).map(|(i, _)| i).collect();
    if ready.len() > 1 && simrt::in_sim() { return Some(ready[(simrt::rand_u64() % ready.len() as u64) as usize]); }
    Some(ready[0])
}
#[doc(hidden)] pub fn deadline_in(d: Duration) -> u64 { clock().saturating_add(d.as_nanos() as u64) }
#[doc(hidden)] pub fn select_take<T>(r: &Receiver<T>) -> Option<Result<T, RecvError>> { match r.poll() { Ok(v) => Some(Ok(v)), Err(TryRecvError::Disconnected) => Some(Err(RecvError)), Err(TryRecvError::Empty) => None } }
#[macro_export]
macro_rules! select { ($($t:tt)*) => { $crate::__select!(@p [] [] $($t)*) }; }
#[macro_export]
macro_rules! select_biased { ($($t:tt)*) => { $crate::__select!(@p [] [] $($t)*) }; }
#[doc(hidden)]
#[macro_export]
macro_rules! __select {
    (@p [$($d:tt)*] [$($def:tt)*] recv($r:expr) -> $p:pat => $b:block , $($rest:tt)*) => { $crate::__select!(@p [$($d)* {($r) ($p) $b}] [$($def)*] $($rest)*) };
    (@p [$($d:tt)*] [$($def:tt)*] recv($r:expr) -> $p:pat => $b:expr , $($rest:tt)*) => { $crate::__select!(@p [$($d)* {($r) ($p) {$b}}] [$($def)*] $($rest)*) };
    (@p [$($d:tt)*] [$($def:tt)*] recv($r:expr) -> $p:pat => $b:block $($rest:tt)*) => { $crate::__select!(@p [$($d)* {($r) ($p) $b}] [$($def)*] $($rest)*) };
    (@p [$($d:tt)*] [$($def:tt)*] recv($r:expr) -> $p:pat => $b:expr) => { $crate::__select!(@p [$($d)* {($r) ($p) {$b}}] [$($def)*]) };
    (@p [$($d:tt)*] [] default($t:expr) => $b:expr $(,)?) => { $crate::__select!(@p [$($d)*] [(Some($crate::deadline_in($t))) {$b}]) };
    (@p [$($d:tt)*] [] default => $b:expr $(,)?) => { $crate::__select!(@p [$($d)*] [(Some(0)) {$b}]) };
    (@p [$({($r:expr) ($p:pat) $b:block})*] []) => { $crate::__select!(@go [$({($r) ($p) $b})*] [(None) {unreachable!()}]) };
    (@p [$({($r:expr) ($p:pat) $b:block})*] [($u:expr) $def:block]) => { $crate::__select!(@go [$({($r) ($p) $b})*] [($u) $def]) };
    (@go [$({($r:expr) ($p:pat) $b:block})*] [($u:expr) $def:block]) => {
        'sel: {
            let __until: ::std::option::Option<u64> = $u;
            loop {
                let __idx = match $crate::select_wait(&[$(&(&$r) as &dyn $crate::Selectable),*], __until) { ::std::option::Option::Some(i) => i, ::std::option::Option::None => break 'sel $def };
                let mut __n = 0usize;
                $(
                    if __idx == __n { if let ::std::option::Option::Some(__v) = $crate::select_take(&$r) { let $p = __v; break 'sel $b; } }
                    __n += 1;
                )*
                let _ = __n;
            }
        }
    };
}
