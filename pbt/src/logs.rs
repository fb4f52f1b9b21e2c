//! A logger and a tracing subscriber that format everything and keep nothing: what the library logs
//! is evaluated as in a program that turned logging on, so that a panic there is seen.
use std::fmt::{self, Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Null;
impl Write for Null {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("knx_ip_client")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let _ = Null.write_fmt(*r.args());
        }
    }
    fn flush(&self) {}
}
struct Fields;
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn Debug) {
        let _ = write!(Null, "{v:?}");
    }
}
static SPANS: AtomicU64 = AtomicU64::new(1);
impl tracing::Subscriber for Sink {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("knx_ip_client")
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        a.record(&mut Fields);
        tracing::span::Id::from_u64(SPANS.fetch_add(1, Relaxed).max(1))
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Fields)
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Fields)
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn install() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    let _ = tracing::subscriber::set_global_default(Sink);
}
