//! `imap_next::stream::Stream` over modelled sockets (and a modelled TLS session), polled by hand.
mod link;
mod mon;
use mon::{Cfg, Tls};

nd::harnesses!(
    t_bulk, t_huge, tls_huge, tls_bulk, tls_early_bulk, link_bulk,
    t_io, t_duplex, t_short, t_cancel, t_flush, t_close, t_error, t_spurious, t_convert,
    tls_in, tls_out, tls_big, tls_ask, tls_early, tls_close, tls_bad, tls_cancel, tls_flush,
    link_small, link_tls,
    t_io_t, t_duplex_t, t_cancel_t, t_flush_t, t_error_t, tls_in_t, tls_out_t, tls_ask_t, tls_close_t, tls_cancel_t, link_small_t, link_tls_t,
);

const T: Cfg = Cfg {
    tls: Tls::No,
    polls: 4,
    steps: 3,
    deliver: 2,
    window: 2,
    bytes: 3,
    room: 3,
    outs: 2,
    results: false,
    errors: false,
    cancels: 0,
    flushes: 0,
    rx_faults: false,
    tx_faults: false,
    spurious: 0,
    partials: 0,
    kinds: &[],
    early: 0,
    convert: false,
    unit: 1,
};

/// Input and output in any order, results in between.
fn t_io() {
    mon::run(&Cfg { results: true, polls: 2, steps: 3, ..T });
}
/// Both directions at once.
fn t_duplex() {
    mon::run(&Cfg { polls: 3, steps: 3, deliver: 1, window: 1, outs: 2, ..T });
}
/// Short reads and writes.
fn t_short() {
    mon::run(&Cfg { polls: 2, steps: 2, deliver: 3, window: 3, outs: 3, partials: 2, ..T });
}
fn t_cancel() {
    mon::run(&Cfg { polls: 3, steps: 2, deliver: 1, window: 1, cancels: 2, ..T });
}
fn t_flush() {
    mon::run(&Cfg { polls: 3, steps: 2, flushes: 2, cancels: 1, deliver: 1, window: 1, ..T });
}
fn t_close() {
    mon::run(&Cfg { polls: 3, steps: 3, rx_faults: true, results: true, deliver: 1, window: 1, ..T });
}
fn t_error() {
    mon::run(&Cfg { polls: 2, steps: 3, tx_faults: true, errors: true, results: true, flushes: 1, deliver: 1, window: 1, ..T });
}
fn t_spurious() {
    mon::run(&Cfg { polls: 3, steps: 3, deliver: 1, window: 1, outs: 1, spurious: 2, ..T });
}
fn t_convert() {
    mon::run(&Cfg { polls: 2, steps: 2, results: true, deliver: 1, window: 1, cancels: 1, convert: true, ..T });
}

const S: Cfg = Cfg { tls: Tls::Any, polls: 2, steps: 3, kinds: &[mon::DATA], ..T };
fn tls_in() {
    mon::run(&Cfg { polls: 3, steps: 2, outs: 0, results: true, deliver: 3, partials: 1, ..S });
}
fn tls_out() {
    mon::run(&Cfg { polls: 3, steps: 3, outs: 3, results: true, window: 3, deliver: 0, partials: 1, kinds: &[], ..S });
}
/// Output larger than the session's buffer.
fn tls_big() {
    mon::run(&Cfg { polls: 2, steps: 1, outs: 14, window: 20, deliver: 0, kinds: &[], ..S });
}
fn tls_ask() {
    mon::run(&Cfg { polls: 2, steps: 1, deliver: 3, bytes: 4, window: 1, outs: 1, kinds: &[mon::DATA, mon::ASK, mon::NOTE], ..S });
}
fn tls_early() {
    mon::run(&Cfg { polls: 2, steps: 2, deliver: 2, outs: 1, window: 1, results: true, early: 2, kinds: &[mon::DATA], ..S });
}
fn tls_close() {
    mon::run(&Cfg { polls: 2, steps: 1, deliver: 3, bytes: 4, outs: 1, window: 1, rx_faults: true, kinds: &[mon::DATA, mon::CLOSE], ..S });
}
fn tls_bad() {
    mon::run(&Cfg { polls: 2, steps: 2, deliver: 3, outs: 1, window: 1, kinds: &[mon::DATA, mon::BAD], ..S });
}
fn tls_cancel() {
    mon::run(&Cfg { polls: 3, steps: 2, outs: 1, deliver: 1, window: 1, cancels: 2, kinds: &[mon::DATA], ..S });
}
fn tls_flush() {
    mon::run(&Cfg { polls: 3, steps: 1, outs: 1, deliver: 1, window: 1, flushes: 2, results: true, cancels: 1, kinds: &[mon::ASK], ..S });
}

/// Thousands of bytes at once.
fn t_bulk() {
    mon::run(&Cfg { unit: 1500, results: true, polls: 1, steps: 2, outs: 2, deliver: 2, window: 2, ..T });
}
fn t_huge() {
    mon::run(&Cfg { unit: 40_000, polls: 1, steps: 2, outs: 1, deliver: 2, window: 2, ..T });
}
/// Real sizes of the session's buffers (but not of records).
fn tls_huge() {
    unsafe {
        rustls::limits::FRAGMENT = 8;
        rustls::limits::READ = 4096;
        rustls::limits::BUFFER = 64 * 1024;
    }
    mon::run(&Cfg { unit: 70_000, polls: 1, steps: 1, outs: 1, deliver: 1, window: 1, ..S });
}
/// The sizes of the session's buffers are larger than any the code has.
fn large() {
    unsafe {
        rustls::limits::FRAGMENT = 8;
        rustls::limits::READ = 700;
        rustls::limits::BUFFER = 500;
    }
}
fn tls_bulk() {
    large();
    mon::run(&Cfg { unit: 300, polls: 2, steps: 2, outs: 1, deliver: 2, window: 1, results: true, ..S });
}
fn tls_early_bulk() {
    large();
    mon::run(&Cfg { unit: 20, polls: 2, steps: 2, outs: 1, early: 3, deliver: 1, window: 1, results: true, ..S });
}
/// Many messages between client and server.
fn link_bulk() {
    large();
    link::run(&link::Cfg { tls: nd::flip(), cmds: 12, datas: 12, capacity: [3, 64, 2000][nd::choose(3) as usize], turns: 3, orders: 0 });
}

fn link_small() {
    link::run(&link::Cfg { tls: false, cmds: 2, datas: 2, capacity: 1 + nd::choose(4) as usize, turns: 5, orders: 4 });
}
fn link_tls() {
    link::run(&link::Cfg { tls: true, cmds: 2, datas: 2, capacity: 1 + nd::choose(4) as usize, turns: 5, orders: 4 });
}

fn t_io_t() {
    mon::run(&Cfg { results: true, polls: 3, steps: 4, deliver: 1, window: 1, ..T });
}
fn t_duplex_t() {
    mon::run(&Cfg { polls: 4, steps: 3, window: 1, ..T });
}
fn t_cancel_t() {
    mon::run(&Cfg { polls: 3, steps: 3, deliver: 1, cancels: 2, partials: 1, ..T });
}
fn t_flush_t() {
    mon::run(&Cfg { polls: 3, steps: 3, flushes: 2, results: true, cancels: 1, deliver: 1, window: 1, ..T });
}
fn t_error_t() {
    mon::run(&Cfg { polls: 3, steps: 3, rx_faults: true, tx_faults: true, errors: true, results: true, flushes: 1, deliver: 1, window: 1, ..T });
}
fn tls_in_t() {
    mon::run(&Cfg { polls: 4, steps: 2, bytes: 7, outs: 0, results: true, deliver: 3, partials: 1, ..S });
}
fn tls_out_t() {
    mon::run(&Cfg { polls: 3, steps: 3, outs: 3, results: true, errors: true, window: 3, room: 5, deliver: 0, partials: 1, kinds: &[], ..S });
}
fn tls_ask_t() {
    mon::run(&Cfg { polls: 3, steps: 2, deliver: 2, bytes: 4, window: 1, outs: 1, kinds: &[mon::DATA, mon::ASK, mon::NOTE], ..S });
}
fn tls_close_t() {
    mon::run(&Cfg { polls: 3, steps: 2, deliver: 3, bytes: 5, outs: 1, window: 1, rx_faults: true, results: true, kinds: &[mon::DATA, mon::CLOSE, mon::BAD], ..S });
}
fn tls_cancel_t() {
    mon::run(&Cfg { polls: 3, steps: 3, outs: 1, deliver: 2, window: 1, cancels: 2, kinds: &[mon::DATA], ..S });
}
fn link_small_t() {
    link::run(&link::Cfg { tls: false, cmds: 3, datas: 3, capacity: 1 + nd::choose(6) as usize, turns: 7, orders: 6 });
}
fn link_tls_t() {
    link::run(&link::Cfg { tls: true, cmds: 3, datas: 3, capacity: 1 + nd::choose(6) as usize, turns: 7, orders: 6 });
}
