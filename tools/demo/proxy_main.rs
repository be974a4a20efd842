//! The proxy with files and network played by the scenario.
#![allow(static_mut_refs, unused)]
macro_rules! println {
    ($($t:tt)*) => { crate::vp_world::printed(format!($($t)*)) };
}
macro_rules! eprintln {
    ($($t:tt)*) => { crate::vp_world::printed(format!($($t)*)) };
}
include!("@REPO@/proxy/src/main.rs");
mod scenario;
mod vp_peer;
mod vp_world;
fn main() {
    std::panic::set_hook(Box::new(|p| {
        use std::io::Write;
        let _ = writeln!(std::io::stderr(), "{p}");
        std::process::exit(1)
    }));
    scenario::run()
}
