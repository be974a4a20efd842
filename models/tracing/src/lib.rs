//! Model of `tracing`: logging has empty bodies.
macro_rules! nothing {
    ($d:tt $($m:ident)*) => {$(
        #[macro_export]
        macro_rules! $m { ($d($d t:tt)*) => { {} }; }
    )*};
}
nothing!($ trace debug info warn error event);
macro_rules! spans {
    ($d:tt $($m:ident)*) => {$(
        #[macro_export]
        macro_rules! $m { ($d($d t:tt)*) => { $crate::Span::none() }; }
    )*};
}
spans!($ trace_span debug_span info_span warn_span error_span span);
#[macro_export]
macro_rules! enabled { ($($t:tt)*) => { false }; }

pub struct Level;
impl Level {
    pub const TRACE: Level = Level;
    pub const DEBUG: Level = Level;
    pub const INFO: Level = Level;
    pub const WARN: Level = Level;
    pub const ERROR: Level = Level;
}
#[derive(Clone, Debug)]
pub struct Span;
pub struct Entered;
impl Span {
    pub fn none() -> Span {
        Span
    }
    pub fn current() -> Span {
        Span
    }
    pub fn enter(&self) -> Entered {
        Entered
    }
    pub fn entered(self) -> Entered {
        Entered
    }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn record<V>(&self, _: &str, _: V) -> &Self {
        self
    }
}

#[cfg(feature = "proxy")]
pub use attrs::instrument;
/// Spans have no effect.
pub trait Instrument: Sized {
    fn in_current_span(self) -> Self {
        self
    }
    fn instrument(self, _: Span) -> Self {
        self
    }
}
impl<T> Instrument for T {}
