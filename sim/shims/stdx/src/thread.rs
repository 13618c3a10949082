//! Threads, worker pools: every thread is a simulated task when created inside a simulation.
use simrt::sync::Monitor;
use std::collections::VecDeque;
use std::fmt;
use std::io;
use std::panic::{self, UnwindSafe};
use std::sync::Arc;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum ThreadIntent { Worker, LatencySensitive }

pub fn spawn<F, T>(intent: ThreadIntent, name: String, f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Builder::new(intent, name).spawn(f).expect("failed to spawn thread") }
pub struct Builder { name: String, stack: usize, allow_leak: bool }
impl Builder {
    pub fn new(_intent: ThreadIntent, name: impl Into<String>) -> Self { Builder { name: name.into(), stack: 16 << 20, allow_leak: false } }
    pub fn stack_size(mut self, size: usize) -> Self { self.stack = self.stack.max(size); self }
    pub fn allow_leak(mut self, allow_leak: bool) -> Self { self.allow_leak = allow_leak; self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(JoinHandle { inner: Some(simrt::spawn_with_stack(self.name, self.stack, f)), allow_leak: self.allow_leak }) }
}
pub struct JoinHandle<T = ()> { inner: Option<simrt::JoinHandle<T>>, allow_leak: bool }
impl<T> JoinHandle<T> { pub fn join(mut self) -> T { self.inner.take().unwrap().join().unwrap_or_else(|e| panic::resume_unwind(e)) } }
impl<T> Drop for JoinHandle<T> { fn drop(&mut self) { if self.allow_leak { return; } if let Some(j) = self.inner.take() { let _ = j.join(); } } }
impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("JoinHandle { .. }") } }

struct Job { f: Box<dyn FnOnce() + Send + UnwindSafe> }
#[derive(Default)]
struct Queue { jobs: VecDeque<Job>, closed: bool }
pub struct Pool { queue: Arc<Monitor<Queue>>, extant: Arc<std::sync::atomic::AtomicUsize>, handles: Vec<Option<simrt::JoinHandle<()>>> }
impl Pool {
    pub fn new(threads: usize) -> Self {
        let queue: Arc<Monitor<Queue>> = Arc::new(Monitor::default());
        let extant = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let handles = (0..threads).map(|i| {
            let (q, ex) = (queue.clone(), extant.clone());
            Some(simrt::spawn_with_stack(format!("Worker{i}"), 16 << 20, move || loop {
                let job = q.wait("pool-recv", None, |q| q.closed || !q.jobs.is_empty(), |q| q.jobs.pop_front()).unwrap();
                let Some(job) = job else { break };
                ex.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                // a panicking job must not take the pool thread down
                _ = panic::catch_unwind(job.f);
                ex.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                simrt::yield_point("pool-job-done");
            }))
        }).collect();
        Pool { queue, extant, handles }
    }
    pub fn spawn<F>(&self, _intent: ThreadIntent, f: F) where F: FnOnce() + Send + UnwindSafe + 'static {
        self.queue.with(|q| q.jobs.push_back(Job { f: Box::new(f) }));
        simrt::yield_point("pool-spawn");
    }
    #[must_use] pub fn len(&self) -> usize { self.extant.load(std::sync::atomic::Ordering::SeqCst) }
    #[must_use] pub fn is_empty(&self) -> bool { self.len() == 0 }
}
impl Drop for Pool {
    fn drop(&mut self) {
        // like the real pool: pending jobs still run, then the threads are joined
        self.queue.with(|q| q.closed = true);
        for h in &mut self.handles { if let Some(h) = h.take() { let _ = h.join(); } }
    }
}
