//! Inert stand-in for the hierarchical log layer (log formatting is outside of the simulation).
use std::marker::PhantomData;
use tracing_core::Subscriber;
use tracing_subscriber::fmt::MakeWriter;
use tracing_subscriber::registry::LookupSpan;
use tracing_subscriber::Layer;
pub struct HierarchicalLayer<W = fn() -> std::io::Stderr> { _w: PhantomData<fn(W)> }
impl HierarchicalLayer { pub fn new(_: usize) -> Self { HierarchicalLayer { _w: PhantomData } } }
impl Default for HierarchicalLayer { fn default() -> Self { Self::new(2) } }
macro_rules! opts { ($($n:ident: $t:ty),*) => { $( pub fn $n(self, _: $t) -> Self { self } )* } }
impl<W> HierarchicalLayer<W> {
    pub fn with_writer<W2: for<'w> MakeWriter<'w> + 'static>(self, _: W2) -> HierarchicalLayer<W2> { HierarchicalLayer { _w: PhantomData } }
    opts!(with_ansi: bool, with_indent_lines: bool, with_deferred_spans: bool, with_indent_amount: usize, with_targets: bool, with_thread_ids: bool, with_thread_names: bool, with_bracketed_fields: bool, with_span_retrace: bool, with_span_modes: bool, with_verbose_entry: bool, with_verbose_exit: bool, with_higher_precision: bool, with_wraparound: usize);
}
impl<S: Subscriber + for<'s> LookupSpan<'s>, W: 'static> Layer<S> for HierarchicalLayer<W> {}
