//! Native stand-in for the executor interface: the models need only these.
#![allow(static_mut_refs)]
static mut SCRIPT: Vec<u8> = Vec::new();
/// The next choices (then 0).
pub fn script(v: &[u8]) { unsafe { SCRIPT = v.iter().rev().copied().collect() } }
pub fn choose(n: u8) -> u8 { unsafe { SCRIPT.pop().unwrap_or(0).min(n.max(1) - 1) } }
pub fn flip() -> bool { choose(2) == 1 }
pub fn fork(v: u8) -> u8 { v }
pub fn u8() -> u8 { 0 }
pub fn u16() -> u16 { 0 }
pub fn u32() -> u32 { 0 }
pub fn u64() -> u64 { 0 }
pub fn assume(_: bool) {}
pub fn cover(_: u32) {}
pub fn check(c: bool, msg: &str) { if !c { fail(msg) } }
pub fn fail(msg: &str) -> ! { println!("FAIL: {msg}"); std::process::exit(1) }
pub fn below(n: u8) -> u8 { choose(n) }
