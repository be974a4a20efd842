//! Model of `tracing-subscriber`: no effect.
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
    pub fn new<S: AsRef<str>>(_: S) -> Self {
        EnvFilter
    }
}
pub struct Builder;
pub fn fmt() -> Builder {
    Builder
}
impl Builder {
    pub fn with_env_filter(self, _: EnvFilter) -> Self { self }
    pub fn with_target(self, _: bool) -> Self { self }
    pub fn with_file(self, _: bool) -> Self { self }
    pub fn with_line_number(self, _: bool) -> Self { self }
    pub fn with_level(self, _: bool) -> Self { self }
    pub fn with_ansi(self, _: bool) -> Self { self }
    pub fn with_thread_ids(self, _: bool) -> Self { self }
    pub fn with_thread_names(self, _: bool) -> Self { self }
    pub fn without_time(self) -> Self { self }
    pub fn compact(self) -> Self { self }
    pub fn pretty(self) -> Self { self }
    pub fn init(self) {}
}
