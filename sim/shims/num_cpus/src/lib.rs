//! The number of processors is a simulation knob (it sizes the worker pools).
use std::sync::atomic::{AtomicUsize, Ordering};
pub static COUNT: AtomicUsize = AtomicUsize::new(2);
pub fn get() -> usize { COUNT.load(Ordering::Relaxed) }
pub fn get_physical() -> usize { COUNT.load(Ordering::Relaxed) }
