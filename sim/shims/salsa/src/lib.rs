//! Offline stand-in for `salsa`: incremental queries with revisions, durabilities, backdating and
//! cancellation, following the published semantics of the real crate.  Every query fetch is a
//! scheduling point of the simulator; waiting for other snapshots and for queries computed by other
//! threads blocks through the simulator.
#![allow(clippy::all)]
use std::any::Any;
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;
use std::panic::UnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};

pub use salsa_macros::{db, input, interned, tracked, Update};
pub mod prelude { pub use crate::{Database, Setter}; }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Durability(u8);
impl Durability {
    pub const LOW: Durability = Durability(0);
    pub const MEDIUM: Durability = Durability(1);
    pub const HIGH: Durability = Durability(2);
    pub const NEVER_CHANGE: Durability = Durability(3);
    pub const MIN: Durability = Durability::LOW;
    pub const MAX: Durability = Durability::NEVER_CHANGE;
}
impl Default for Durability { fn default() -> Self { Durability::LOW } }
impl fmt::Debug for Durability { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(["Durability::LOW", "Durability::MEDIUM", "Durability::HIGH", "Durability::NEVER_CHANGE"][self.0 as usize]) } }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Revision(u64);
impl Revision { pub fn as_usize(self) -> usize { self.0 as usize } }
impl fmt::Debug for Revision { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "R{}", self.0) } }
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Id(u32);
impl Id { pub fn index(self) -> u32 { self.0 } pub fn as_u32(self) -> u32 { self.0 } pub fn from_u32(x: u32) -> Id { Id(x) } }
impl fmt::Debug for Id { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Id({:x})", self.0) } }

#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Copy, Clone)]
#[non_exhaustive]
pub enum Cancelled { Local, PendingWrite, PropagatedPanic }
impl Cancelled {
    pub(crate) fn throw(self) -> ! { simrt::count("salsa_cancelled"); std::panic::resume_unwind(Box::new(self)) }
    pub fn catch<F: FnOnce() -> T + UnwindSafe, T>(f: F) -> Result<T, Cancelled> {
        match std::panic::catch_unwind(f) {
            Ok(t) => Ok(t),
            Err(payload) => match payload.downcast::<Cancelled>() { Ok(c) => Err(*c), Err(p) => std::panic::resume_unwind(p) },
        }
    }
}
impl fmt::Display for Cancelled {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cancelled because of ")?;
        f.write_str(match self { Cancelled::Local => "local cancellation request", Cancelled::PendingWrite => "pending write", Cancelled::PropagatedPanic => "propagated panic" })
    }
}
impl std::error::Error for Cancelled {}

pub struct Backtrace(());
impl Backtrace { pub fn capture() -> Option<Backtrace> { None } }
impl fmt::Display for Backtrace { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Debug for Backtrace { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[derive(Debug)]
pub struct Event(());

// ------------------------------------------------------------------------------------- storage
struct Shared {
    clones: simrt::sync::Monitor<usize>,
    cancel: AtomicBool,
    revision: AtomicU64,
    last_changed: [AtomicU64; 4],
    ingredients: RwLock<Vec<Option<Arc<dyn Ingredient>>>>,
    claims: simrt::sync::Monitor<Claims>,
}
#[derive(Default)]
struct Claims { owner: HashMap<(usize, u32), Owner>, waiting: HashMap<u64, (usize, u32)> }
#[derive(Clone, Copy)]
struct Owner { thread: u64, ticket: u64 }
static TICKET: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static THREAD: u64 = TICKET.fetch_add(1, Ordering::Relaxed);
    static STACK: std::cell::RefCell<Vec<Active>> = const { std::cell::RefCell::new(Vec::new()) };
}
struct Active { edges: Vec<(usize, u64)>, durability: Durability, changed_at: Revision, untracked: bool, name: &'static str }

pub struct Zalsa { shared: Arc<Shared> }
impl Zalsa {
    pub fn current_revision(&self) -> Revision { Revision(self.shared.revision.load(Ordering::Acquire)) }
    fn last_changed(&self, d: Durability) -> Revision { Revision(self.shared.last_changed[d.0 as usize].load(Ordering::Acquire)) }
    fn unwind_if_cancelled(&self) { if self.shared.cancel.load(Ordering::Acquire) { Cancelled::PendingWrite.throw() } }
    fn cancel_others(&self) {
        // dropping a snapshot, or writing, while unwinding must not block for ever
        self.shared.cancel.store(true, Ordering::Release);
        self.shared.clones.wait("salsa: wait for snapshots", None, |n| *n == 1, |_| ());
        self.shared.cancel.store(false, Ordering::Release);
    }
    fn new_revision(&self) -> Revision {
        let r = self.shared.revision.load(Ordering::Acquire) + 1;
        self.shared.revision.store(r, Ordering::Release);
        self.shared.last_changed[0].store(r, Ordering::Release);
        Revision(r)
    }
    fn report_tracked_write(&self, d: Durability) {
        let r = self.shared.revision.load(Ordering::Acquire);
        for i in 0..=(d.0 as usize).min(2) { self.shared.last_changed[i].store(r, Ordering::Release); }
    }
    fn ingredient<I: Ingredient + 'static>(&self, cell: &plumbing::IndexCell, make: impl FnOnce(usize) -> I) -> Arc<I> {
        let idx = cell.get();
        {
            let g = self.shared.ingredients.read().unwrap_or_else(|e| e.into_inner());
            if let Some(Some(i)) = g.get(idx) { return downcast(i.clone()); }
        }
        let mut g = self.shared.ingredients.write().unwrap_or_else(|e| e.into_inner());
        if g.len() <= idx { g.resize_with(idx + 1, || None); }
        if g[idx].is_none() { g[idx] = Some(Arc::new(make(idx))); }
        downcast(g[idx].clone().unwrap())
    }
    fn lookup(&self, idx: usize) -> Arc<dyn Ingredient> { self.shared.ingredients.read().unwrap_or_else(|e| e.into_inner())[idx].clone().unwrap() }
}
fn downcast<I: Ingredient + 'static>(i: Arc<dyn Ingredient>) -> Arc<I> {
    debug_assert!(i.as_any().is::<I>());
    unsafe { Arc::from_raw(Arc::into_raw(i) as *const I) }
}
trait Ingredient: Send + Sync {
    fn as_any(&self) -> &dyn Any;
    fn maybe_changed_after(&self, db: *const (), z: &Zalsa, key: u64, rev: Revision) -> bool;
}
fn report_read(edge: (usize, u64), d: Durability, changed_at: Revision) {
    STACK.with(|s| if let Some(a) = s.borrow_mut().last_mut() {
        if a.edges.last() != Some(&edge) { a.edges.push(edge); }
        if d < a.durability { a.durability = d; }
        if changed_at > a.changed_at { a.changed_at = changed_at; }
    });
}

pub struct Storage<Db> { z: Zalsa, _p: PhantomData<fn() -> Db> }
impl<Db> Storage<Db> {
    pub fn new(_cb: Option<Box<dyn Fn(Event) + Send + Sync + 'static>>) -> Self { Self::default() }
}
impl<Db> Default for Storage<Db> {
    fn default() -> Self {
        let one = || AtomicU64::new(1);
        Storage { z: Zalsa { shared: Arc::new(Shared { clones: simrt::sync::Monitor::new(1), cancel: AtomicBool::new(false), revision: one(), last_changed: [one(), one(), one(), one()], ingredients: RwLock::new(vec![]), claims: Default::default() }) }, _p: PhantomData }
    }
}
impl<Db> Clone for Storage<Db> {
    fn clone(&self) -> Self { self.z.shared.clones.with(|n| *n += 1); Storage { z: Zalsa { shared: self.z.shared.clone() }, _p: PhantomData } }
}
impl<Db> Drop for Storage<Db> {
    fn drop(&mut self) { self.z.shared.clones.with(|n| *n -= 1); }
}

pub struct CancellationToken(Arc<AtomicBool>);
impl CancellationToken { pub fn cancel(&self) { self.0.store(true, Ordering::Release); } pub fn is_cancelled(&self) -> bool { self.0.load(Ordering::Acquire) } }

pub trait Database: plumbing::ZalsaDatabase {
    fn synthetic_write(&mut self, durability: Durability) {
        let z = self.zalsa();
        z.cancel_others();
        z.new_revision();
        z.report_tracked_write(durability);
    }
    fn trigger_cancellation(&mut self) { self.zalsa().cancel_others(); }
    fn trigger_lru_eviction(&mut self) { self.zalsa().cancel_others(); }
    fn report_untracked_read(&self) {
        STACK.with(|s| if let Some(a) = s.borrow_mut().last_mut() { a.untracked = true; a.durability = Durability::LOW; a.changed_at = self.zalsa().current_revision(); });
    }
    fn unwind_if_revision_cancelled(&self) { simrt::yield_point("salsa: cancellation check"); self.zalsa().unwind_if_cancelled() }
    fn attach<R>(&self, op: impl FnOnce(&Self) -> R) -> R where Self: Sized { op(self) }
}

pub trait Setter: Sized {
    type FieldTy;
    fn with_durability(self, durability: Durability) -> Self;
    fn to(self, value: Self::FieldTy) -> Self::FieldTy;
}

pub mod plumbing {
    use super::*;
    pub use super::{Id, Revision, Zalsa};
    /// # Safety: `zalsa` must return the storage shared by all clones
    pub unsafe trait ZalsaDatabase: Any {
        fn zalsa(&self) -> &Zalsa;
    }
    pub fn storage_zalsa<Db>(s: &Storage<Db>) -> &Zalsa { &s.z }
    pub fn current_revision<Db: ?Sized + Database>(db: &Db) -> Revision { db.zalsa().current_revision() }
    pub trait AsId { fn as_id(&self) -> Id; }
    pub trait FromId { fn from_id(id: Id) -> Self; }

    static NEXT_INDEX: AtomicUsize = AtomicUsize::new(1);
    pub struct IndexCell(AtomicUsize);
    impl IndexCell {
        pub const fn new() -> Self { IndexCell(AtomicUsize::new(0)) }
        pub fn get(&self) -> usize {
            let v = self.0.load(Ordering::Acquire);
            if v != 0 { return v; }
            let n = NEXT_INDEX.fetch_add(1, Ordering::AcqRel);
            match self.0.compare_exchange(0, n, Ordering::AcqRel, Ordering::Acquire) { Ok(_) => n, Err(v) => v }
        }
    }

    // ---- inputs
    pub struct InputSlot<F> { fields: std::cell::UnsafeCell<F>, stamps: std::cell::UnsafeCell<Vec<(Durability, Revision)>> }
    pub struct InputIngredient<F> { idx: usize, slots: Mutex<Vec<Box<InputSlot<F>>>> }
    unsafe impl<F> Send for InputIngredient<F> {}
    unsafe impl<F> Sync for InputIngredient<F> {}
    impl<F: 'static> Ingredient for InputIngredient<F> {
        fn as_any(&self) -> &dyn Any { self }
        fn maybe_changed_after(&self, _: *const (), _: &Zalsa, key: u64, rev: Revision) -> bool {
            let s = self.slot((key >> 8) as u32);
            unsafe { (&*s.stamps.get())[(key & 255) as usize].1 > rev }
        }
    }
    impl<F> InputIngredient<F> {
        fn slot(&self, id: u32) -> &InputSlot<F> {
            let g = self.slots.lock().unwrap_or_else(|e| e.into_inner());
            let p: *const InputSlot<F> = &**g.get(id as usize).expect("salsa input does not belong to this database");
            unsafe { &*p } // slots are never removed
        }
    }
    fn input_ing<F: 'static>(z: &Zalsa, cell: &IndexCell) -> Arc<InputIngredient<F>> { z.ingredient(cell, |idx| InputIngredient { idx, slots: Mutex::new(vec![]) }) }
    pub fn input_new<F: 'static>(z: &Zalsa, cell: &IndexCell, fields: F, durabilities: Vec<Durability>) -> Id {
        let ing = input_ing::<F>(z, cell);
        let r = z.current_revision();
        let mut g = ing.slots.lock().unwrap_or_else(|e| e.into_inner());
        g.push(Box::new(InputSlot { fields: fields.into(), stamps: durabilities.into_iter().map(|d| (d, r)).collect::<Vec<_>>().into() }));
        Id(g.len() as u32 - 1)
    }
    pub fn input_get<'db, F: 'static>(z: &'db Zalsa, cell: &IndexCell, id: Id, field: usize) -> &'db F {
        let ing = input_ing::<F>(z, cell);
        let s = ing.slot(id.0);
        let (d, r) = unsafe { (&*s.stamps.get())[field] };
        report_read((ing.idx, ((id.0 as u64) << 8) | field as u64), d, r);
        // the slot lives as long as the database; writes need all other handles to be gone
        unsafe { &*s.fields.get() }
    }
    pub fn input_set<F: 'static, R>(z: &Zalsa, cell: &IndexCell, id: Id, field: usize, durability: Option<Durability>, f: impl FnOnce(&mut F) -> R) -> R {
        z.cancel_others();
        let r = z.new_revision();
        let ing = input_ing::<F>(z, cell);
        let s = ing.slot(id.0);
        let st = unsafe { &mut (&mut *s.stamps.get())[field] };
        if st.0 != Durability::MIN { z.report_tracked_write(st.0); }
        *st = (durability.unwrap_or(st.0), r);
        f(unsafe { &mut *s.fields.get() })
    }

    // ---- interned
    pub struct InternedIngredient<F> { map: Mutex<(HashMap<Arc<F>, u32>, Vec<Arc<F>>)> }
    impl<F: Send + Sync + 'static> Ingredient for InternedIngredient<F> {
        fn as_any(&self) -> &dyn Any { self }
        fn maybe_changed_after(&self, _: *const (), _: &Zalsa, _: u64, _: Revision) -> bool { false }
    }
    fn interned_ing<F: Send + Sync + 'static>(z: &Zalsa, cell: &IndexCell) -> Arc<InternedIngredient<F>> { z.ingredient(cell, |_| InternedIngredient { map: Mutex::new((HashMap::new(), vec![])) }) }
    pub fn intern<F: Hash + Eq + Send + Sync + 'static>(z: &Zalsa, cell: &IndexCell, fields: F) -> Id {
        let ing = interned_ing::<F>(z, cell);
        let mut g = ing.map.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(id) = g.0.get(&fields) { return Id(*id); }
        let id = g.1.len() as u32;
        let a = Arc::new(fields);
        g.0.insert(a.clone(), id);
        g.1.push(a);
        Id(id)
    }
    pub fn interned_get<'db, F: Send + Sync + 'static>(z: &'db Zalsa, cell: &IndexCell, id: Id) -> &'db F {
        let ing = interned_ing::<F>(z, cell);
        let g = ing.map.lock().unwrap_or_else(|e| e.into_inner());
        let p: *const F = &**g.1.get(id.0 as usize).expect("interned value does not belong to this database");
        unsafe { &*p } // never removed
    }

    // ---- functions
    pub trait FnConfig: 'static {
        const NAME: &'static str;
        type Db: ?Sized + 'static;
        type Key: Clone + Eq + Hash + 'static;
        type Value: 'static;
        fn execute(db: &Self::Db, key: Self::Key) -> Self::Value;
        fn eq(a: &Self::Value, b: &Self::Value) -> bool;
    }
    struct Memo<V> { value: V, verified_at: AtomicU64, changed_at: Revision, durability: Durability, edges: Vec<(usize, u64)>, untracked: bool }
    struct Slot<C: FnConfig> { key: C::Key, memo: Option<Arc<Memo<C::Value>>> }
    pub struct FnIngredient<C: FnConfig> { idx: usize, vtable: AtomicUsize, map: Mutex<(HashMap<C::Key, u32>, Vec<Slot<C>>)> }
    unsafe impl<C: FnConfig> Send for FnIngredient<C> {}
    unsafe impl<C: FnConfig> Sync for FnIngredient<C> {}
    struct PopGuard;
    impl Drop for PopGuard { fn drop(&mut self) { STACK.with(|s| { s.borrow_mut().pop(); }) } }
    struct ClaimGuard<'a> { z: &'a Zalsa, key: (usize, u32) }
    impl Drop for ClaimGuard<'_> { fn drop(&mut self) { let k = self.key; self.z.shared.claims.with(|c| { c.owner.remove(&k); }) } }

    enum Claim<'a> { Got(ClaimGuard<'a>), Retry }
    impl Zalsa {
        fn claim<'a>(&'a self, key: (usize, u32), name: &'static str) -> Claim<'a> {
            let me = THREAD.with(|t| *t);
            let ticket = TICKET.fetch_add(1, Ordering::Relaxed);
            let other = self.shared.claims.with(|c| match c.owner.get(&key) {
                None => { c.owner.insert(key, Owner { thread: me, ticket }); None }
                Some(o) => Some(*o),
            });
            let Some(other) = other else { return Claim::Got(ClaimGuard { z: self, key }) };
            let cycle = other.thread == me || self.shared.claims.with(|c| {
                let mut t = other.thread;
                loop {
                    match c.waiting.get(&t).and_then(|k| c.owner.get(k)) { None => return false, Some(o) if o.thread == me => return true, Some(o) => t = o.thread }
                }
            });
            if cycle {
                let stack: Vec<_> = STACK.with(|s| s.borrow().iter().map(|a| a.name).collect());
                panic!("dependency graph cycle when querying {name}, set cycle_fn/cycle_initial to fixpoint iterate.\nQuery stack:\n{stack:?}");
            }
            simrt::count("salsa_blocked_on_other");
            self.shared.claims.with(|c| { c.waiting.insert(me, key); });
            self.shared.claims.wait("salsa: query computed by another task", None, |c| c.owner.get(&key).map_or(true, |o| o.ticket != other.ticket), |c| { c.waiting.remove(&me); });
            // the other task either finished, was cancelled, or panicked
            self.unwind_if_cancelled();
            Claim::Retry
        }
    }

    impl<C: FnConfig> FnIngredient<C> {
        fn db<'a>(&self, p: *const ()) -> &'a C::Db {
            unsafe {
                match std::mem::size_of::<&C::Db>() / std::mem::size_of::<usize>() {
                    1 => std::mem::transmute_copy::<*const (), &C::Db>(&p),
                    2 => { let fat = [p as usize, self.vtable.load(Ordering::Acquire)]; std::mem::transmute_copy::<[usize; 2], &C::Db>(&fat) }
                    _ => unreachable!(),
                }
            }
        }
        fn id(&self, key: &C::Key) -> u32 {
            let mut g = self.map.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(i) = g.0.get(key) { return *i; }
            let i = g.1.len() as u32;
            g.0.insert(key.clone(), i);
            g.1.push(Slot { key: key.clone(), memo: None });
            i
        }
        fn memo(&self, id: u32) -> Option<Arc<Memo<C::Value>>> { self.map.lock().unwrap_or_else(|e| e.into_inner()).1[id as usize].memo.clone() }
        /// verified in this revision, or nothing of its durability changed since
        fn shallow(z: &Zalsa, m: &Memo<C::Value>) -> bool {
            let cur = z.current_revision();
            let v = Revision(m.verified_at.load(Ordering::Acquire));
            if v == cur { return true; }
            if m.untracked { return false; }
            if z.last_changed(m.durability) <= v { m.verified_at.store(cur.0, Ordering::Release); return true; }
            false
        }
        fn deep(&self, db: *const (), z: &Zalsa, m: &Memo<C::Value>) -> bool {
            if m.untracked { return false; }
            let v = Revision(m.verified_at.load(Ordering::Acquire));
            for (idx, key) in &m.edges {
                if z.lookup(*idx).maybe_changed_after(db, z, *key, v) { return false; }
            }
            m.verified_at.store(z.current_revision().0, Ordering::Release);
            true
        }
        fn execute(&self, db: *const (), z: &Zalsa, id: u32, old: Option<Arc<Memo<C::Value>>>) -> Arc<Memo<C::Value>> {
            simrt::count("salsa_execute");
            let key = self.map.lock().unwrap_or_else(|e| e.into_inner()).1[id as usize].key.clone();
            STACK.with(|s| s.borrow_mut().push(Active { edges: vec![], durability: Durability::MAX, changed_at: Revision(1), untracked: false, name: C::NAME }));
            let guard = PopGuard;
            let value = C::execute(self.db(db), key);
            std::mem::forget(guard);
            let a = STACK.with(|s| s.borrow_mut().pop().unwrap());
            let mut changed_at = a.changed_at;
            if let Some(old) = &old {
                if a.durability >= old.durability && C::eq(&old.value, &value) { changed_at = changed_at.min(old.changed_at); }
            }
            let m = Arc::new(Memo { value, verified_at: AtomicU64::new(z.current_revision().0), changed_at, durability: a.durability, edges: a.edges, untracked: a.untracked });
            let prev = { let mut g = self.map.lock().unwrap_or_else(|e| e.into_inner()); std::mem::replace(&mut g.1[id as usize].memo, Some(m.clone())) };
            drop(prev);
            m
        }
        fn refresh(&self, db: *const (), z: &Zalsa, id: u32) -> Arc<Memo<C::Value>> {
            loop {
                if let Some(m) = self.memo(id) { if Self::shallow(z, &m) { return m; } }
                let _guard = match z.claim((self.idx, id), C::NAME) { Claim::Got(g) => g, Claim::Retry => continue };
                let old = self.memo(id);
                if let Some(m) = &old { if Self::shallow(z, m) || self.deep(db, z, m) { return m.clone(); } }
                return self.execute(db, z, id, old);
            }
        }
    }
    impl<C: FnConfig> Ingredient for FnIngredient<C> {
        fn as_any(&self) -> &dyn Any { self }
        fn maybe_changed_after(&self, db: *const (), z: &Zalsa, key: u64, rev: Revision) -> bool {
            simrt::yield_point("salsa: verify");
            z.unwind_if_cancelled();
            let id = key as u32;
            if self.memo(id).is_none() { return true; }
            self.refresh(db, z, id).changed_at > rev
        }
    }
    pub fn fetch<'db, C: FnConfig>(cell: &'static IndexCell, db: &'db C::Db, z: &'db Zalsa, key: C::Key) -> &'db C::Value {
        simrt::yield_point("salsa: fetch");
        z.unwind_if_cancelled();
        let ing: Arc<FnIngredient<C>> = z.ingredient(cell, |idx| FnIngredient { idx, vtable: AtomicUsize::new(0), map: Mutex::new((HashMap::new(), vec![])) });
        let data: *const () = unsafe {
            match std::mem::size_of::<&C::Db>() / std::mem::size_of::<usize>() {
                1 => std::mem::transmute_copy::<&C::Db, *const ()>(&db),
                2 => { let fat = std::mem::transmute_copy::<&C::Db, [usize; 2]>(&db); ing.vtable.store(fat[1], Ordering::Release); fat[0] as *const () }
                _ => unreachable!(),
            }
        };
        let id = ing.id(&key);
        let m = ing.refresh(data, z, id);
        report_read((ing.idx, id as u64), m.durability, m.changed_at);
        let p: *const C::Value = &m.value;
        // the memo is only replaced in a later revision, which needs every `&db` borrow to be gone
        unsafe { &*p }
    }
    pub unsafe fn cast<A, B>(a: A) -> B {
        debug_assert_eq!(std::mem::size_of::<A>(), std::mem::size_of::<B>());
        let a = std::mem::ManuallyDrop::new(a);
        std::mem::transmute_copy::<A, B>(&*a)
    }
}
/// blanket: the real crate requires `Update` for values of tracked functions
pub unsafe trait Update {}
