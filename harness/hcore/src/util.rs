//! Small helpers shared by the harnesses.
use imap_codec::{
    encode::{Encoded, Fragment},
    imap_types::{core::LiteralMode, model::Raw},
};
use std::collections::VecDeque;

/// Symbolic payload byte that cannot be confused with a line ending.
pub fn id() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 0x20);
    v
}
/// Symbolic message `[id, code, CR, LF]` of the given decoder class (upper three bits of the code).
pub fn message(class: u8) -> Vec<u8> {
    let low = nd::u8();
    nd::assume(low < 0x20);
    let k = class << 5 | low;
    nd::assume(k != b'\n' && k != b'\r');
    vec![id(), k, b'\r', b'\n']
}
pub fn raw1(b: u8) -> Raw {
    Raw::one(b)
}
/// All bytes equal (one condition, no fork per byte).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// `b` is a prefix of `out`; removes it.
pub fn take_prefix(out: &mut VecDeque<u8>, b: &[u8]) -> bool {
    if b.len() > out.len() {
        return false;
    }
    let mut d = 0;
    for x in b {
        d |= *x ^ out.pop_front().unwrap();
    }
    d == 0
}
pub fn fragments(e: Encoded) -> VecDeque<Fragment> {
    e.items
}
/// Appends fragments to `out` up to the next synchronizing literal, which is returned.
pub fn until_sync(fr: &mut VecDeque<Fragment>, out: &mut VecDeque<u8>) -> Option<Vec<u8>> {
    while let Some(f) = fr.pop_front() {
        match f {
            Fragment::Line { data } | Fragment::Literal { data, mode: LiteralMode::NonSync } => {
                out.extend(data)
            }
            Fragment::Literal { data, mode: LiteralMode::Sync } => return Some(data),
        }
    }
    None
}
