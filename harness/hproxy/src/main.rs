//! The proxy, driven from its command line and configuration file down to the bytes on its sockets.
#![allow(static_mut_refs, unused, clippy::all)]

/// Standard output of the program.
macro_rules! println {
    ($($t:tt)*) => { crate::vp_world::printed(format!($($t)*)) };
}
macro_rules! eprintln {
    ($($t:tt)*) => { crate::vp_world::printed(format!($($t)*)) };
}

include!("/repo/proxy/src/main.rs");

mod vp_main;
mod vp_peer;
mod vp_world;

fn main() {
    vp_main::main()
}
