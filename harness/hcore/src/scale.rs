//! Many messages, long messages: nothing depends on how many there are or how long they are. What is
//! sent is fixed up to payload bytes, so that the runs are few and can be long.
use crate::{
    cflow::{self, Kind},
    frame, pair,
    sflow::{self, Resp},
    util::id,
};
use imap_codec::{imap_types::core::Tag, model};

const N: usize = 70;
fn line(k: u8) -> Vec<u8> {
    vec![id(), k, b'\r', b'\n']
}
/// Tagged OK.
fn ok(tag: u8) -> Vec<u8> {
    line(0x80 | tag)
}
const DATA: u8 = 0xE0;
const CCR: u8 = 0x61;

/// A message with `literals` literals, each as long as can be (any bytes).
fn long(literals: u8, announce: u8, end: u8) -> Vec<u8> {
    let mut b = Vec::with_capacity(2000);
    b.push(id());
    for _ in 0..literals {
        b.extend([announce | 2, b'\r', b'\n']);
        for _ in 0..*model::long() {
            b.push(id());
        }
        // Line endings in the literal mean nothing.
        let n = b.len();
        b[n - 1] = b'\n';
        b[n - 2] = b'\r';
    }
    b.extend([end, b'\r', b'\n']);
    b
}

pub fn client() {
    let kinds = [
        Kind::Noop,
        Kind::Model(cflow::NONSYNC1),
        Kind::Model(cflow::SYNC1),
        Kind::Model(cflow::SYNC_SYNC),
    ];
    let case = nd::choose(7);
    nd::cover(30 + case as u32);
    if case == 5 || case == 6 {
        // Long responses, in any two pieces.
        *model::long() = if case == 5 { 150 } else { 30 };
        let mut s = cflow::greeting();
        let pre = s.len();
        s.extend(long(if case == 5 { 1 } else { 5 }, 0x20, DATA));
        s.extend(line(DATA));
        frame::client_stream(s, pre, nd::flip(), frame::Cuts::AtMost(1));
        return;
    }
    *model::long() = [2, 5000][nd::choose(2) as usize];
    let mut m = cflow::Mon::new();
    m.limit = 700;
    if case > 0 {
        m.feed(cflow::greeting());
        m.rest();
    }
    match case {
        // Many commands before the greeting; many one after the other.
        0 | 1 => {
            let (a, b) = (nd::choose(4) as usize, nd::choose(4) as usize);
            for i in 0..N {
                m.enqueue_tagged(kinds[if i % 2 == 0 { a } else { b }], Tag::model(i as u8 % 4));
                if case == 1 && i % 4 == 0 {
                    m.rest();
                }
            }
            if case == 0 {
                m.feed(cflow::greeting());
            }
            m.rest();
            for _ in 0..2 * N {
                if m.open() == 0 {
                    break;
                }
                m.feed(line(CCR));
                m.rest();
            }
            nd::check(m.open() == 0, "a command is not completed");
        }
        // A long AUTHENTICATE exchange.
        2 => {
            m.enqueue_tagged(Kind::Auth, Tag::model(1));
            m.enqueue_tagged(Kind::Noop, Tag::model(2));
            m.rest();
            for i in 0..N {
                m.feed(line(CCR));
                m.rest();
                m.authenticate(i % 3 == 2);
                m.rest();
            }
            nd::check(m.open() == 2, "AUTHENTICATE ended");
            m.feed(ok(1));
            m.rest();
            nd::check(m.open() == 0, "a command is not completed");
        }
        // IDLE again and again.
        3 => {
            for i in 0..N {
                m.enqueue_tagged(Kind::Idle, Tag::model(i as u8 % 4));
            }
            m.rest();
            for i in 0..N {
                m.feed_all(vec![line(DATA), line(CCR), line(DATA)]);
                m.rest();
                m.set_idle_done();
                m.rest();
                m.feed(ok(i as u8 % 4));
                m.rest();
            }
            nd::check(m.open() == 0, "a command is not completed");
        }
        // Many responses at once, whatever is in progress.
        _ => {
            match nd::choose(4) {
                0 => {}
                1 => m.enqueue_tagged(Kind::Model(cflow::SYNC1), Tag::model(1)),
                2 => m.enqueue_tagged(Kind::Auth, Tag::model(1)),
                _ => m.enqueue_tagged(Kind::Idle, Tag::model(1)),
            }
            m.rest();
            let codes = [DATA, 0xA0, 0x82, 0xC0, 1, 0];
            let (a, b) = (codes[nd::choose(6) as usize], codes[nd::choose(6) as usize]);
            let all = (0..2 * N).map(|i| line(if i % 2 == 0 { a } else { b })).collect();
            m.feed_all(all);
            m.rest();
        }
    }
}

const S: sflow::Cfg = sflow::Cfg {
    kinds: &[],
    resps: 0,
    first: &[],
    classes: &[],
    msgs: 0,
    user: 0,
    calls: &[],
    rounds: 0,
    drain: false,
    greeted: true,
    max_literal: 5000,
    max_command: 100_000,
    relaxed: false,
    wide: false,
};
pub fn server() {
    let case = nd::choose(7);
    nd::cover(30 + case as u32);
    if case == 5 || case == 6 {
        // Long commands, in any two pieces, within the limit or just not.
        *model::long() = if case == 5 { 150 } else { 30 };
        let mut s = long(if case == 5 { 1 } else { 5 }, 0x20 | (nd::flip() as u8) << 2, 0xA0);
        let n = s.len() as u32;
        s.extend(line(0xA0));
        let cfg = frame::ServerCfg {
            n: 0,
            relaxed: nd::flip(),
            max_literal: *model::long(),
            max_command: n + nd::choose(3) as u32,
            flows: false,
        };
        frame::server_stream(s, &cfg, frame::Cuts::AtMost(1));
        return;
    }
    *model::long() = [2, 5000][nd::choose(2) as usize];
    let mut m = sflow::Mon::new(&S);
    m.limit = 1500;
    if case > 0 {
        m.rest();
    }
    let kinds = [Resp::Data, Resp::DataLiteral];
    match case {
        // Many responses before the greeting was sent; many one after the other.
        0 | 1 => {
            let (a, b) = (nd::choose(2) as usize, nd::choose(2) as usize);
            for i in 0..N {
                m.enqueue(kinds[if i % 2 == 0 { a } else { b }]);
                if case == 1 && i % 4 == 0 {
                    m.rest();
                }
            }
            m.rest();
        }
        // A long AUTHENTICATE exchange.
        2 => {
            m.feed(&line(0x40));
            m.rest();
            for i in 0..N {
                m.call(0);
                m.rest();
                m.feed(&line(if i % 3 == 2 { 0x60 } else { 0xA0 }));
                m.rest();
            }
            m.call(1);
            m.feed(&line(0xA0));
            m.rest();
        }
        // IDLE again and again.
        3 => {
            for _ in 0..N {
                m.feed(&line(0x60));
                m.rest();
                m.call(2);
                m.rest();
                m.enqueue(Resp::Data);
                m.rest();
                m.feed(&line(0x80));
                m.rest();
            }
            m.feed(&line(0xA0));
            m.rest();
        }
        // Many commands at once.
        _ => {
            let codes = [0xA0, 0x80, 0x24, 0x20, 0, 1];
            let (a, b) = (codes[nd::choose(6) as usize], codes[nd::choose(6) as usize]);
            let mut all = Vec::with_capacity(400);
            for i in 0..2 * N {
                all.extend(line(if i % 2 == 0 { a } else { b }));
            }
            m.feed(&all);
            m.rest();
        }
    }
}

/// Many commands between a real client and a real server.
pub fn pair() {
    use pair::Kind::*;
    *model::long() = [2, 200][nd::choose(2) as usize];
    let k = nd::choose(6);
    let kinds: &'static [pair::Kind] = match k {
        0 => &[Noop],
        1 => &[Model(cflow::SYNC1)],
        2 => &[Model(cflow::SYNC_SYNC)],
        3 => &[Model(cflow::NONSYNC_SYNC)],
        4 => &[Idle],
        _ => &[Auth],
    };
    // Each exchange of AUTHENTICATE and IDLE has two outcomes.
    let cmds = if matches!(kinds[0], Idle | Auth) { 5 } else { 20 };
    pair::run(&pair::Cfg {
        kinds,
        cmds,
        // Literals that need no permission must be accepted.
        max_literal: if k != 3 && nd::flip() { 1 } else { 1000 },
        limit: 400,
        most: 250,
        ..pair::FEW
    });
}
