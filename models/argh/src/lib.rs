//! Model of `argh`: options given by the harness.
pub use attrs::FromArgs;

pub trait FromArgs {
    #[doc(hidden)]
    fn from_model() -> Self;
}
pub fn from_env<T: FromArgs>() -> T {
    T::from_model()
}
static mut OPTION: Option<(&'static str, &'static str)> = None;
/// The one option on the command line (`--name value`).
pub fn set(name: &'static str, value: &'static str) {
    unsafe { OPTION = Some((name, value)) }
}
#[doc(hidden)]
pub fn value(long: &str, short: &str) -> Option<&'static str> {
    match unsafe { OPTION } {
        Some((n, v)) if n == long || n == short => Some(v),
        _ => None,
    }
}
