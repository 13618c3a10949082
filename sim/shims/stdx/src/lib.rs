//! The parts of rust-analyzer's `stdx` used by the workspace; `thread` runs on the simulator.
use std::cmp::Ordering;
pub use inner as itertools;
pub mod panic_context;
pub mod thread;
mod macros;
#[inline(always)] pub const fn is_ci() -> bool { option_env!("CI").is_some() }
pub fn hash_once<H: std::hash::Hasher + Default>(thing: impl std::hash::Hash) -> u64 { let mut h = H::default(); thing.hash(&mut h); h.finish() }
pub fn to_lower_snake_case(s: &str) -> String { snake(s, char::to_ascii_lowercase) }
pub fn to_upper_snake_case(s: &str) -> String { snake(s, char::to_ascii_uppercase) }
fn snake<F: Fn(&char) -> char>(s: &str, f: F) -> String {
    let mut buf = String::with_capacity(s.len());
    let mut prev = false;
    for c in s.chars() { if c.is_ascii_uppercase() && prev { buf.push('_'); } prev = true; buf.push(f(&c)); }
    buf
}
pub fn to_camel_case(ident: &str) -> String { ident.split('_').map(|p| { let mut c = p.chars(); match c.next() { Some(f) => f.to_ascii_uppercase().to_string() + &c.as_str().to_lowercase(), None => String::new() } }).collect() }
pub fn replace(buf: &mut String, from: char, to: &str) { let replaced = buf.replace(from, to); *buf = replaced; }
pub fn trim_indent(mut text: &str) -> String {
    if text.starts_with('\n') { text = &text[1..]; }
    let indent = indent_of(text);
    text.split_inclusive('\n').map(|line| if line.len() <= indent { line.trim_start_matches(' ') } else { &line[indent..] }).collect()
}
fn indent_of(text: &str) -> usize { text.lines().filter(|it| !it.trim().is_empty()).map(|it| it.len() - it.trim_start().len()).min().unwrap_or(0) }
pub fn dedent_by(spaces: usize, text: &str) -> String { text.split_inclusive('\n').map(|line| { let t = line.trim_start_matches(' '); if line.len() - t.len() <= spaces { t } else { &line[spaces..] } }).collect() }
pub fn equal_range_by<T, F: FnMut(&T) -> Ordering>(slice: &[T], mut key: F) -> std::ops::Range<usize> {
    let start = slice.partition_point(|it| key(it) == Ordering::Less);
    let len = slice[start..].partition_point(|it| key(it) == Ordering::Equal);
    start..start + len
}
#[must_use] pub fn defer<F: FnOnce()>(f: F) -> impl Drop { struct D<F: FnOnce()>(Option<F>); impl<F: FnOnce()> Drop for D<F> { fn drop(&mut self) { if let Some(f) = self.0.take() { f() } } } D(Some(f)) }
pub trait TupleExt { type Head; type Tail; fn head(self) -> Self::Head; fn tail(self) -> Self::Tail; }
impl<T, U> TupleExt for (T, U) { type Head = T; type Tail = U; fn head(self) -> T { self.0 } fn tail(self) -> U { self.1 } }
impl<T, U, V> TupleExt for (T, U, V) { type Head = T; type Tail = V; fn head(self) -> T { self.0 } fn tail(self) -> V { self.2 } }
pub fn slice_tails<T>(this: &[T]) -> impl Iterator<Item = &[T]> { (0..this.len()).map(|i| &this[i..]) }
pub trait IsNoneOr { type Type; fn is_none_or(self, s: impl FnOnce(Self::Type) -> bool) -> bool; }
impl<T> IsNoneOr for Option<T> { type Type = T; fn is_none_or(self, f: impl FnOnce(T) -> bool) -> bool { match self { Some(v) => f(v), None => true } } }
/// `always!`/`never!` log in release builds and panic with `force-always-assert`.
#[doc(hidden)] pub fn on_assert_failure(args: std::fmt::Arguments<'_>) { tracing::error!("{}", args); simrt::count("stdx_assert_failure"); simrt::note(|| format!("stdx assertion: {args}")); }
