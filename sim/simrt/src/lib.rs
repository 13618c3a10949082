//! Deterministic single-runner scheduler.
//!
//! Every simulated task is a real OS thread, but exactly one of them holds the baton at any moment.
//! All scheduling choices, simulated time and all randomness come from one seeded generator, so a
//! seed is one exactly repeatable execution.  Outside of a simulation every primitive degrades to
//! its ordinary blocking behaviour, so the shim crates can also be used by plain tests.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub mod sync;

// ------------------------------------------------------------------------------------------ rng
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n <= 1 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi.saturating_sub(lo) + 1) }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { (self.next() % den as u64) < num as u64 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
}

// ------------------------------------------------------------------------------------ scheduler
#[derive(Clone, Debug)]
pub enum Policy {
    /// preempt at a yield point with a mean gap of `mean_gap` yield points; uniform choice
    Random { mean_gap: u32 },
    /// fixed random priorities with `changes` random demotions (PCT); `horizon` yield points
    Pct { changes: u32, horizon: u64 },
    /// like Random, but the task with this name prefix only runs when nothing else can
    /// (for at most `budget` consecutive decisions)
    Starve { victim: String, mean_gap: u32, budget: u64 },
    /// run to completion; deviations only where listed: (yield index, task)
    Explicit { picks: BTreeMap<u64, usize> },
}
#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    pub max_steps: u64,
    pub max_time: Duration,
    pub trace: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub sim_nanos: u64,
    pub tasks: usize,
    pub sched_hash: u64,
    pub time_jumps: u64,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    /// Err(description) when the run was aborted (deadlock, step or time limit, `fail`)
    pub result: Result<(), String>,
    pub stats: Stats,
    pub picks: Vec<(u64, usize)>,
    pub trace: Vec<String>,
    pub panics: Vec<(String, String)>,
}

type Cond = *mut (dyn FnMut() -> bool + 'static);
enum State {
    Ready,
    Blocked { cond: Cond, deadline: Option<u64> },
    /// resumes only when nothing else can run; `horizon`: timers up to this instant fire first
    Idle { horizon: u64 },
    Done,
}
struct Task { name: String, state: State, cv: Arc<Condvar>, tag: &'static str, prio: u64, timed_out: bool, granted: bool }
struct Sim {
    cfg: Config,
    rng: Rng,
    tasks: Vec<Task>,
    current: usize,
    stats: Stats,
    picks: Vec<(u64, usize)>,
    trace: Vec<String>,
    countdown: u64,
    pct_points: Vec<u64>,
    next_low_prio: u64,
    starve_used: u64,
    aborted: Option<String>,
    finished: bool,
    panics: Vec<(String, String)>,
    driver_cv: Arc<Condvar>,
    counters: BTreeMap<&'static str, u64>,
    epoch: u64,
}
unsafe impl Send for Sim {}

static SIM: Mutex<Option<Box<Sim>>> = Mutex::new(None);
static STEP: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static NEXT_DECISION: AtomicU64 = AtomicU64::new(0);
static EPOCH: AtomicU64 = AtomicU64::new(0);
const STEP_NANOS: u64 = 700;

thread_local! {
    static TASK: Cell<Option<usize>> = const { Cell::new(None) };
    static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
    static RAND: Cell<u64> = const { Cell::new(0) };
}

thread_local! { static RT: Cell<u32> = const { Cell::new(0) }; }
/// the calling thread is inside the scheduler itself (its own locks must not be simulated)
pub fn in_rt() -> bool { RT.try_with(|r| r.get() > 0).unwrap_or(true) }
fn rt<R>(f: impl FnOnce() -> R) -> R { RT.with(|r| r.set(r.get() + 1)); let x = f(); RT.with(|r| r.set(r.get() - 1)); x }
fn lock() -> MutexGuard<'static, Option<Box<Sim>>> { rt(|| match SIM.lock() { Ok(g) => g, Err(e) => e.into_inner() }) }

pub fn in_sim() -> bool { TASK.try_with(|t| t.get().is_some()).unwrap_or(false) }
pub fn task_id() -> Option<usize> { TASK.try_with(|t| t.get()).unwrap_or(None) }
/// name of the running task
pub fn task_name() -> String { match task_id() { Some(id) => lock().as_ref().map(|s| s.tasks[id].name.clone()).unwrap_or_default(), None => std::thread::current().name().unwrap_or("").to_string() } }
pub fn step() -> u64 { STEP.load(Ordering::Relaxed) }
/// simulated nanoseconds since the start of the run
pub fn now() -> u64 { CLOCK.load(Ordering::Relaxed) }
pub fn advance(d: Duration) { CLOCK.fetch_add(d.as_nanos() as u64, Ordering::Relaxed); }

/// RAII: no preemption while held (blocking still switches)
pub struct NoPreempt(());
pub fn no_preempt() -> NoPreempt { NOPREEMPT.with(|n| n.set(n.get() + 1)); NoPreempt(()) }
impl Drop for NoPreempt { fn drop(&mut self) { NOPREEMPT.with(|n| n.set(n.get() - 1)); } }

/// Deterministic random bytes for the running task (used for hash seeds).
pub fn rand_u64() -> u64 {
    RAND.with(|r| { let mut g = Rng(r.get()); let v = g.next(); r.set(g.0); v })
}
pub fn count(name: &'static str) { if let Some(s) = lock().as_mut() { *s.counters.entry(name).or_insert(0) += 1; } }
pub fn counters() -> BTreeMap<&'static str, u64> { lock().as_ref().map(|s| s.counters.clone()).unwrap_or_default() }

struct SimAbort;
fn park_forever() -> ! { RT.with(|r| r.set(1 << 20)); loop { std::thread::park(); } }

impl Sim {
    fn enabled(&mut self, id: usize) -> bool {
        let now = CLOCK.load(Ordering::Relaxed);
        match &mut self.tasks[id].state {
            State::Ready => true,
            State::Blocked { cond, deadline } => {
                let c = unsafe { (**cond)() };
                if c { self.tasks[id].granted = true; return true; }
                if deadline.map_or(false, |d| d <= now) { self.tasks[id].timed_out = true; return true; }
                false
            }
            State::Idle { .. } | State::Done => false,
        }
    }
    fn describe(&self) -> String {
        self.tasks.iter().enumerate().filter_map(|(i, t)| {
            let s = match &t.state { State::Ready => "ready".to_string(), State::Blocked { deadline, .. } => format!("blocked({}{})", t.tag, if deadline.is_some() { ", timer" } else { "" }), State::Idle { .. } => "idle".into(), State::Done => return None };
            Some(format!("#{i} {} {s}", t.name))
        }).collect::<Vec<_>>().join("; ")
    }
    fn abort(&mut self, why: String) {
        if self.aborted.is_none() { self.aborted = Some(why); }
        self.finished = true;
        self.driver_cv.notify_all();
    }
    fn plan_next(&mut self) {
        let step = STEP.load(Ordering::Relaxed);
        let gap = match &self.cfg.policy {
            Policy::Random { mean_gap } | Policy::Starve { mean_gap, .. } => 1 + self.rng.next() % (2 * (*mean_gap as u64).max(1)),
            Policy::Pct { .. } => match self.pct_points.iter().find(|p| **p > step) { Some(p) => p - step, None => u64::MAX / 4 },
            Policy::Explicit { picks } => match picks.range(step + 1..).next() { Some((k, _)) => k - step, None => u64::MAX / 4 },
        };
        NEXT_DECISION.store(step.saturating_add(gap), Ordering::Relaxed);
    }
    /// chooses the next task; `forced`: the running one cannot continue
    fn choose(&mut self, me: usize, forced: bool) -> Option<usize> {
        loop {
            let mut en: Vec<usize> = Vec::with_capacity(self.tasks.len());
            for i in 0..self.tasks.len() { if self.enabled(i) { en.push(i); } }
            if en.is_empty() {
                // nothing can run: fire the next timer, or hand over to an idle waiter
                let next_deadline = self.tasks.iter().filter_map(|t| match t.state { State::Blocked { deadline: Some(d), .. } => Some(d), _ => None }).min();
                let idle = self.tasks.iter().enumerate().find_map(|(i, t)| match t.state { State::Idle { horizon } => Some((i, horizon)), _ => None });
                match (next_deadline, idle) {
                    (Some(d), Some((_, h))) if d <= h => { self.jump(d); continue; }
                    (_, Some((i, _))) => { self.tasks[i].granted = true; self.tasks[i].state = State::Ready; return Some(i); }
                    (Some(d), None) => { self.jump(d); continue; }
                    (None, None) => return None,
                }
            }
            let step = STEP.load(Ordering::Relaxed);
            let pick = match &self.cfg.policy {
                Policy::Explicit { picks } => match picks.get(&step) {
                    Some(t) if en.contains(t) => *t,
                    _ => if !forced && en.contains(&me) { me } else { *en.iter().find(|i| **i > me).unwrap_or(&en[0]) },
                },
                Policy::Random { .. } => en[self.rng.below(en.len())],
                Policy::Starve { victim, budget, .. } => {
                    let others: Vec<usize> = en.iter().copied().filter(|i| !self.tasks[*i].name.starts_with(victim.as_str())).collect();
                    if others.is_empty() || self.starve_used >= *budget { en[self.rng.below(en.len())] } else {
                        if others.len() != en.len() { self.starve_used += 1; }
                        others[self.rng.below(others.len())]
                    }
                }
                Policy::Pct { .. } => {
                    if self.pct_points.contains(&step) && en.contains(&me) { self.next_low_prio -= 1; let p = self.next_low_prio; self.tasks[me].prio = p; }
                    *en.iter().max_by_key(|i| (self.tasks[**i].prio, **i)).unwrap()
                }
            };
            if forced || pick != me { self.picks.push((step, pick)); }
            return Some(pick);
        }
    }
    fn jump(&mut self, d: u64) {
        let now = CLOCK.load(Ordering::Relaxed);
        if d > now { CLOCK.store(d, Ordering::Relaxed); self.stats.time_jumps += 1; }
    }
}

/// switch away from the calling task; its new state must already be set.
fn switch(mut g: MutexGuard<'static, Option<Box<Sim>>>, me: usize, forced: bool, exiting: bool) {
    let sim = g.as_mut().unwrap();
    if sim.finished { drop(g); if exiting { return; } park_forever(); }
    let over_time = CLOCK.load(Ordering::Relaxed) > sim.cfg.max_time.as_nanos() as u64;
    if STEP.load(Ordering::Relaxed) > sim.cfg.max_steps || over_time {
        let d = sim.describe();
        let what = if over_time { "simulated-time limit" } else { "step limit" };
        sim.abort(format!("{what} exceeded (no progress to quiescence): {d}"));
        drop(g);
        if exiting { return; }
        park_forever();
    }
    match sim.choose(me, forced) {
        None => {
            if sim.tasks.iter().all(|t| matches!(t.state, State::Done)) {
                sim.finished = true;
                sim.driver_cv.notify_all();
                return;
            }
            let d = sim.describe();
            sim.abort(format!("deadlock: no task can run: {d}"));
            drop(g);
            if exiting { return; }
            park_forever();
        }
        Some(next) => {
            sim.plan_next();
            let t = &mut sim.tasks[next];
            t.state = State::Ready;
            if next == me { return; }
            sim.stats.switches += 1;
            if !forced { sim.stats.preemptions += 1; }
            let tag = sim.tasks[me].tag;
            let mut h = sim.stats.sched_hash ^ (next as u64 + 1).wrapping_mul(0x100000001b3);
            for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
            sim.stats.sched_hash = h;
            if sim.cfg.trace {
                let line = format!("{:>8} t={:>12} {} -> {} at {}{}", STEP.load(Ordering::Relaxed), CLOCK.load(Ordering::Relaxed), sim.tasks[me].name, sim.tasks[next].name, tag, if forced { "" } else { " (preempt)" });
                sim.trace.push(line);
            }
            sim.current = next;
            sim.tasks[next].cv.clone().notify_one();
            if exiting { return; }
            let cv = sim.tasks[me].cv.clone();
            loop {
                g = rt(|| match cv.wait(g) { Ok(g) => g, Err(e) => e.into_inner() });
                match g.as_ref() {
                    Some(s) if s.epoch == MY_EPOCH.with(|e| e.get()) => {
                        if s.finished { drop(g); park_forever(); }
                        if s.current == me { return; }
                    }
                    _ => { drop(g); park_forever(); }
                }
            }
        }
    }
}
thread_local! { static MY_EPOCH: Cell<u64> = const { Cell::new(0) }; }

/// A point where the scheduler may preempt the calling task.
pub fn yield_point(tag: &'static str) {
    let Some(me) = task_id() else { return };
    let s = STEP.fetch_add(1, Ordering::Relaxed) + 1;
    CLOCK.fetch_add(STEP_NANOS, Ordering::Relaxed);
    if s < NEXT_DECISION.load(Ordering::Relaxed) { return; }
    if NOPREEMPT.with(|n| n.get()) > 0 { return; }
    let mut g = lock();
    match g.as_mut() { Some(sim) if !sim.finished => { sim.tasks[me].tag = tag; }, Some(_) => { drop(g); park_forever() }, None => return }
    switch(g, me, false, false);
}
/// Voluntarily gives way.
pub fn yield_now(tag: &'static str) {
    NEXT_DECISION.store(0, Ordering::Relaxed);
    yield_point(tag);
}
/// Blocks until `cond` holds (true) or the simulated instant `deadline` passes (false).
/// Must only be called inside a simulation.
pub fn block_until(tag: &'static str, deadline: Option<u64>, cond: &mut dyn FnMut() -> bool) -> bool {
    let me = task_id().expect("block_until outside of a simulation");
    yield_point(tag);
    if cond() { return true; }
    if let Some(d) = deadline { if d <= now() { return false; } }
    STEP.fetch_add(1, Ordering::Relaxed);
    let mut g = lock();
    {
        let Some(sim) = g.as_mut() else { drop(g); park_forever() };
        if sim.finished { drop(g); park_forever(); }
        let c: Cond = unsafe { std::mem::transmute::<*mut (dyn FnMut() -> bool + '_), Cond>(cond as *mut _) };
        let t = &mut sim.tasks[me];
        t.tag = tag; t.timed_out = false; t.granted = false;
        t.state = State::Blocked { cond: c, deadline };
    }
    switch(g, me, true, false);
    // the condition was evaluated when we were picked and nothing ran since
    cond()
}
pub fn sleep(d: Duration) {
    if in_sim() { let dl = now() + d.as_nanos() as u64; block_until("sleep", Some(dl), &mut || false); } else { std::thread::sleep(d) }
}
/// Waits until no other task can run; timers due within `timers` fire first.
pub fn wait_idle(timers: Duration) {
    let me = task_id().expect("wait_idle outside of a simulation");
    let mut g = lock();
    STEP.fetch_add(1, Ordering::Relaxed);
    {
        let Some(sim) = g.as_mut() else { drop(g); park_forever() };
        if sim.finished { drop(g); park_forever(); }
        let horizon = CLOCK.load(Ordering::Relaxed) + timers.as_nanos() as u64;
        let t = &mut sim.tasks[me];
        t.tag = "wait_idle";
        t.state = State::Idle { horizon };
    }
    switch(g, me, true, false);
}
/// Aborts the run with a violation and never returns.
pub fn fail(why: impl Into<String>) -> ! {
    if in_sim() {
        let mut g = lock();
        if let Some(sim) = g.as_mut() { sim.abort(why.into()); }
        drop(g);
        park_forever()
    }
    panic!("{}", why.into())
}
/// names and blocking points of all unfinished tasks
pub fn describe() -> String { lock().as_ref().map(|s| s.describe()).unwrap_or_default() }
pub fn live_tasks(prefix: &str) -> usize { lock().as_ref().map(|s| s.tasks.iter().filter(|t| t.name.starts_with(prefix) && !matches!(t.state, State::Done)).count()).unwrap_or(0) }
pub fn note(line: impl FnOnce() -> String) {
    if !in_sim() { return; }
    if let Some(s) = lock().as_mut() { if s.cfg.trace { let l = format!("{:>8} t={:>12} | {}", STEP.load(Ordering::Relaxed), CLOCK.load(Ordering::Relaxed), line()); s.trace.push(l); } }
}
pub fn tracing() -> bool { lock().as_ref().map_or(false, |s| s.cfg.trace) }
/// panics of simulated tasks recorded so far: (task, message)
pub fn panics() -> Vec<(String, String)> { lock().as_ref().map(|s| s.panics.clone()).unwrap_or_default() }
pub fn record_panic(msg: String) {
    if let Some(id) = task_id() { if let Some(s) = lock().as_mut() { let n = s.tasks[id].name.clone(); s.panics.push((n, msg)); } }
}

pub struct JoinHandle<T> { inner: JoinInner<T> }
enum JoinInner<T> {
    Sim { id: usize, slot: Arc<Mutex<Option<std::thread::Result<T>>>> },
    Real(std::thread::JoinHandle<T>),
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.inner {
            JoinInner::Real(h) => h.join(),
            JoinInner::Sim { id, slot } => {
                if std::thread::panicking() && !in_sim() { return Err(Box::new("join outside of simulation")); }
                block_until("join", None, &mut || slot.lock().unwrap_or_else(|e| e.into_inner()).is_some());
                let _ = id;
                let r = slot.lock().unwrap_or_else(|e| e.into_inner()).take();
                r.unwrap()
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.inner { JoinInner::Real(h) => h.is_finished(), JoinInner::Sim { slot, .. } => slot.lock().unwrap().is_some() }
    }
}
fn start_task<T: Send + 'static>(sim: &mut Sim, name: String, stack: usize, f: impl FnOnce() -> T + Send + 'static) -> (usize, Arc<Mutex<Option<std::thread::Result<T>>>>) {
    let id = sim.tasks.len();
    let prio = (1 << 32) + sim.rng.next() % (1 << 30);
    let hash_seed = sim.rng.next();
    let cv = Arc::new(Condvar::new());
    sim.tasks.push(Task { name: name.clone(), state: State::Ready, cv: cv.clone(), tag: "start", prio, timed_out: false, granted: false });
    let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
    let slot2 = slot.clone();
    let epoch = sim.epoch;
    std::thread::Builder::new().name(name).stack_size(stack).spawn(move || {
        TASK.with(|t| t.set(Some(id)));
        MY_EPOCH.with(|e| e.set(epoch));
        RAND.with(|r| r.set(hash_seed));
        {
            let mut g = lock();
            loop {
                match g.as_ref() {
                    Some(s) if s.epoch == epoch => { if s.finished { drop(g); park_forever(); } if s.current == id { break; } }
                    _ => { drop(g); park_forever(); }
                }
                g = rt(|| match cv.wait(g) { Ok(g) => g, Err(e) => e.into_inner() });
            }
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *slot2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        let mut g = lock();
        if let Some(sim) = g.as_mut() {
            if sim.epoch == epoch && !sim.finished {
                sim.tasks[id].state = State::Done;
                sim.tasks[id].tag = "exit";
                STEP.fetch_add(1, Ordering::Relaxed);
                TASK.with(|t| t.set(None));
                switch(g, id, true, true);
                return;
            }
        }
        TASK.with(|t| t.set(None));
    }).expect("spawn");
    (id, slot)
}
pub fn spawn<T: Send + 'static>(name: impl Into<String>, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> { spawn_with_stack(name, 8 << 20, f) }
pub fn spawn_with_stack<T: Send + 'static>(name: impl Into<String>, stack: usize, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    let name = name.into();
    if !in_sim() { return JoinHandle { inner: JoinInner::Real(std::thread::Builder::new().name(name).stack_size(stack).spawn(f).expect("spawn")) }; }
    let (id, slot) = {
        let mut g = lock();
        match g.as_mut() { Some(sim) if !sim.finished => start_task(sim, name, stack, f), _ => { drop(g); park_forever() } }
    };
    yield_point("spawn");
    JoinHandle { inner: JoinInner::Sim { id, slot } }
}

/// Runs `main` as task 0 under the scheduler until every task has finished or the run aborts.
pub fn run(cfg: Config, main: impl FnOnce() + Send + 'static) -> Outcome {
    assert!(!in_sim());
    let driver_cv = Arc::new(Condvar::new());
    let epoch = EPOCH.fetch_add(1, Ordering::Relaxed) + 1;
    STEP.store(0, Ordering::Relaxed);
    CLOCK.store(0, Ordering::Relaxed);
    let mut rng = Rng::new(cfg.seed);
    let mut pct_points = vec![];
    if let Policy::Pct { changes, horizon } = &cfg.policy { for _ in 0..*changes { pct_points.push(1 + rng.next() % horizon); } pct_points.sort(); }
    let mut sim = Box::new(Sim {
        cfg, rng, tasks: vec![], current: 0, stats: Stats { sched_hash: 0xcbf29ce484222325, ..Default::default() }, picks: vec![], trace: vec![],
        countdown: 0, pct_points, next_low_prio: 1 << 31, starve_used: 0, aborted: None, finished: false, panics: vec![],
        driver_cv: driver_cv.clone(), counters: BTreeMap::new(), epoch,
    });
    let _ = sim.countdown;
    sim.plan_next();
    let mut g = lock();
    assert!(g.is_none(), "nested simulation");
    *g = Some(sim);
    start_task(g.as_mut().unwrap(), "driver".into(), 32 << 20, main);
    g.as_mut().unwrap().tasks[0].cv.clone().notify_one();
    while !g.as_ref().unwrap().finished { g = match driver_cv.wait(g) { Ok(g) => g, Err(e) => e.into_inner() }; }
    let mut sim = g.take().unwrap();
    drop(g);
    sim.stats.steps = STEP.load(Ordering::Relaxed);
    sim.stats.sim_nanos = CLOCK.load(Ordering::Relaxed);
    sim.stats.tasks = sim.tasks.len();
    let _ = SimAbort;
    Outcome { result: match sim.aborted.take() { None => Ok(()), Some(e) => Err(e) }, stats: sim.stats.clone(), picks: std::mem::take(&mut sim.picks), trace: std::mem::take(&mut sim.trace), panics: std::mem::take(&mut sim.panics) }
}
