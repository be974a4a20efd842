//! Interface between harnesses/models and the symbolic executor.
//!
//! The `__sx_*` functions are interpreted by `sx`; natively they come from `rt/sxrt.c`, which takes
//! the values from the solver's assignment (replay).

extern "C" {
    fn __sx_u8() -> u8;
    fn __sx_u16() -> u16;
    fn __sx_u32() -> u32;
    fn __sx_u64() -> u64;
    fn __sx_assume(c: u8);
    fn __sx_fail(p: *const u8, n: usize) -> !;
    fn __sx_cover(id: u32);
    fn __sx_fork(v: u8) -> u8;
    fn __sx_log(v: u64);
    fn __sx_spawn(f: extern "C" fn(usize), arg: usize) -> u64;
    fn __sx_yield();
    fn __sx_join(t: u64);
}

/// Fresh symbolic values.
pub fn u8() -> u8 {
    unsafe { __sx_u8() }
}
pub fn u16() -> u16 {
    unsafe { __sx_u16() }
}
pub fn u32() -> u32 {
    unsafe { __sx_u32() }
}
pub fn u64() -> u64 {
    unsafe { __sx_u64() }
}
/// Symbolic value below `n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
/// Symbolic bool (not forked).
pub fn bool() -> bool {
    below(2) == 1
}
pub fn assume(c: bool) {
    unsafe { __sx_assume(c as u8) }
}
/// One of `0..n`, each explored on its own path.
pub fn choose(n: u8) -> u8 {
    if n <= 1 {
        return 0;
    }
    fork(below(n))
}
pub fn flip() -> bool {
    choose(2) == 1
}
/// Split into one path per possible value.
pub fn fork(v: u8) -> u8 {
    unsafe { __sx_fork(v) }
}
pub fn fail(msg: &str) -> ! {
    unsafe { __sx_fail(msg.as_ptr(), msg.len()) }
}
#[inline]
pub fn check(c: bool, msg: &str) {
    if !c {
        fail(msg)
    }
}
/// Reachability witness.
pub fn cover(id: u32) {
    unsafe { __sx_cover(id) }
}
pub fn log(v: u64) {
    unsafe { __sx_log(v) }
}
pub fn log_bytes(b: &[u8]) {
    for x in b {
        log(*x as u64);
    }
}
pub fn spawn(f: extern "C" fn(usize), arg: usize) -> u64 {
    unsafe { __sx_spawn(f, arg) }
}
pub fn yield_now() {
    unsafe { __sx_yield() }
}
pub fn join(t: u64) {
    unsafe { __sx_join(t) }
}

/// Harness entry points: `extern "C"` functions that the executor starts at, and a native `main`
/// (`BIN NAME`) for replay.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        pub fn main() {
            let n = std::env::args().nth(1).unwrap_or_default();
            match n.as_str() {
                $(concat!("h_", stringify!($name)) => $crate::run(entry::$name),)*
                "--list" => { $(std::println!("h_{}", stringify!($name));)* }
                _ => { std::eprintln!("no such harness"); std::process::exit(2) }
            }
        }
        mod entry {
            $(
                #[export_name = concat!("h_", stringify!($name))]
                #[inline(never)]
                pub extern "C" fn $name() { super::$name() }
            )*
        }
    };
}
pub fn run(f: extern "C" fn()) {
    f();
    println!("SX_OK");
}
