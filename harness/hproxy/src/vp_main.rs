use crate::{vp_peer::*, vp_world::*};
use tokio::net::{sock, world, Connect};

nd::harnesses!(
    p_any, p_any_burst, p_tls_two, p_relay, p_cut, p_literal, p_auth, p_idle, p_mixed, p_race, p_slow, p_caps, p_caps_flow, p_panic, p_panic_t, p_end, p_bye,
    p_silence, p_silence_t, p_others, p_scale, p_long, p_sessions, p_crowd, p_crowd_t, p_services, p_tls, p_identity, p_names, p_port, p_config, p_service, p_two, p_tls_relay, p_bytes,
    p_relay_t, p_literal_t, p_auth_t, p_idle_t, p_mixed_t, p_slow_t, p_race_t, p_two_t, p_cut_t, p_bytes_t, p_bye_t, p_end_t, p_service_t
);
const PLAIN: (bool, bool) = (false, false);

fn orders(n: u32) {
    *tokio::rt::orders() = n;
}

/// Any order of client and server steps; the proxy comes to rest after each.
fn steps(x: &mut Session, mut client: u8, mut server: u8, ck: &[u8], sk: &[u8]) {
    while client + server > 0 {
        if server == 0 || client > 0 && x.turn != Turn::Wait && nd::flip() {
            if x.turn == Turn::Wait {
                return;
            }
            client -= 1;
            x.client(ck);
        } else {
            server -= 1;
            x.server(sk);
        }
        rest();
        x.judge(true);
    }
}

fn plain(ck: (u8, &[u8]), sk: (u8, &[u8]), cuts: u8, codes: bool) {
    relay(PLAIN, ck, sk, cuts, codes)
}
fn relay(tls: (bool, bool), ck: (u8, &[u8]), sk: (u8, &[u8]), cuts: u8, codes: bool) {
    file("chain", b"c1");
    file("key", b"k2");
    launch(&config(tls));
    orders(0);
    let mut x = session(0, tls);
    x.c.cuts = cuts;
    x.s.cuts = cuts;
    x.codes = codes;
    steps(&mut x, ck.0, sk.0, ck.1, sk.1);
    nd::cover(1);
    if x.stage == Stage::Free && x.queue.is_empty() && x.turn == Turn::Any {
        nd::cover(2);
    }
}
fn p_relay() {
    plain((2, &[0, 1, 2, 6]), (2, &[0, 1, 2, 5, 6, 7, 4]), 0, true)
}
/// From here on, messages may be of every kind the real ones are.
fn all_kinds() {
    *imap_codec::model::kinds() = true;
}
fn p_any() {
    all_kinds();
    match nd::choose(5) {
        4 => {
            // A greeting of any kind, with or without a code.
            launch(&config(PLAIN));
            orders(0);
            let mut x = open(0, PLAIN);
            let kind = nd::choose(3);
            x.pass(match nd::choose(3) {
                0 => line(id(), 0x40 | kind),
                1 => line(id(), 0x50 | kind),
                _ => message(id(), &[0x80 | nd::u8()], 0x50 | kind),
            });
            rest();
            x.judge(true);
            nd::cover(3);
        }
        3 => plain((2, &[4, 5]), (2, &[3, 4]), 0, true),
        0 => plain((1, &[0, 2, 3]), (1, &[0, 1, 2, 4]), 0, true),
        1 => plain((0, &[]), (2, &[0, 4]), 0, true),
        _ => plain((2, &[3]), (1, &[4]), 0, true),
    }
}
/// Several messages at once, or while the network takes only a few bytes.
fn p_any_burst() {
    all_kinds();
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    x.codes = true;
    let side = nd::choose(3);
    if nd::flip() {
        sock((side == 0) as usize).window = 3;
    }
    match side {
        0 => {
            x.client(&[0, 2]);
            x.client(&[0, 2]);
        }
        1 => {
            x.server(&[0, 1]);
            x.server(&[0, 1]);
        }
        _ => {
            x.client(&[0]);
            x.server(&[0]);
        }
    }
    rest();
    x.judge(false);
    sock(0).window = 1000;
    sock(1).window = 1000;
    rest();
    x.judge(true);
    nd::cover(1);
}
fn p_cut() {
    plain((1, &[0, 2, 3, 6]), (1, &[0, 1, 4, 7]), 1, false)
}
fn p_literal() {
    plain((4, &[0, 3, 7, 8]), (2, &[0, 3, 4]), 0, false)
}
fn p_auth() {
    plain((3, &[0, 4, 6]), (3, &[0, 3, 4]), 0, false)
}
fn p_idle() {
    plain((3, &[0, 5, 6]), (3, &[0, 3, 4]), 0, false)
}
fn p_mixed() {
    plain((3, &[0, 3, 4, 5]), (3, &[2, 4]), 0, false)
}

fn p_relay_t() {
    plain((2, &[0, 1, 2, 6]), (3, &[0, 1, 2, 5, 6, 7, 4]), 0, true)
}
fn p_cut_t() {
    plain((2, &[0, 2, 3, 6]), (2, &[0, 1, 4, 7]), 1, false)
}
fn p_literal_t() {
    plain((4, &[0, 3, 7, 8]), (3, &[0, 3, 4]), 0, false)
}
fn p_auth_t() {
    plain((4, &[0, 4]), (5, &[0, 3, 4]), 0, false)
}
fn p_idle_t() {
    plain((4, &[0, 5]), (4, &[0, 3, 4, 7]), 0, false)
}
fn p_mixed_t() {
    plain((4, &[0, 3, 4, 5]), (3, &[2, 4]), 0, false)
}
/// Over TLS.
fn p_tls_relay() {
    let tls = [(true, true), (true, false), (false, true)][nd::choose(3) as usize];
    relay(tls, (2, &[0, 3, 4]), (2, &[0, 3, 4]), 0, false)
}

/// The two sides act at the same time.
fn p_race() {
    race(2, 6)
}
fn p_race_t() {
    race(3, 6)
}
fn race(rounds: u8, n: u32) {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    for _ in 0..rounds {
        orders(n);
        // Data for the server and its own refusal may overtake each other.
        let (client, server) = (nd::flip(), nd::flip());
        if client {
            nd::assume(!matches!(x.turn, Turn::Wait | Turn::Data | Turn::Done));
        }
        // The server does not know yet what the client does now.
        if server {
            // A continuation request nobody waits for can be taken for the answer to what comes next.
            let waiting = matches!(x.stage, Stage::Literal(_) | Stage::Auth(_) | Stage::IdleWait(_));
            x.server(if waiting { &[0, 3, 4] } else { &[0] });
        }
        if client {
            // The proxy's own continuation request may come before or after data of the server.
            x.client(if server { &[0, 4, 5] } else { &[0, 3, 4, 5] });
        }
        rest();
        x.judge(true);
    }
    nd::cover(1);
}
/// The network takes only a few bytes at a time.
fn p_slow() {
    slow(2, 2)
}
fn p_slow_t() {
    slow(3, 2)
}
fn slow(mut client: u8, mut server: u8) {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    while client + server > 0 {
        sock(0).window = nd::choose(2) as usize * 3;
        sock(1).window = nd::choose(2) as usize * 3;
        if server == 0 || client > 0 && nd::flip() {
            client -= 1;
            x.client(&[0, 2]);
        } else {
            server -= 1;
            x.server(&[0, 1]);
        }
        rest();
        x.judge(false);
    }
    sock(0).window = 1000;
    sock(1).window = 1000;
    rest();
    x.judge(true);
    nd::cover(1);
}

// ------------------------------------------------------------------------------------ capabilities
/// Capabilities the proxy can offer: those of the base protocol and of extensions that work through it.
fn relayable(b: u8) -> bool {
    matches!(b, 0 | 3 | 6 | 9..=17 | 26 | 27 | 29 | 30 | 32)
}
fn capabilities() -> Vec<u8> {
    let mut v = Vec::new();
    if nd::flip() {
        for _ in 0..1 + nd::choose(2) {
            v.push(imap_codec::proxy::FIRST + nd::below(imap_codec::proxy::CAPABILITIES));
        }
    } else {
        // Longer lists, with repetitions.
        for i in 0..3 + nd::choose(2) {
            let kinds = if i < 2 { [0, 1, 3, 20] } else { [9, 2, 32, 1] };
            v.push(imap_codec::proxy::FIRST + kinds[nd::choose(2 + 2 * (i == 0) as u8) as usize]);
        }
    }
    v
}
/// What is left of the capabilities `v`.
fn filtered(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for b in v {
        if relayable(nd::fork(*b) - imap_codec::proxy::FIRST) {
            o.push(*b);
        }
    }
    if o.is_empty() {
        o.push(imap_codec::proxy::FIRST);
    }
    o
}
fn message(first: u8, middle: &[u8], k: u8) -> Vec<u8> {
    let mut o = vec![first];
    o.extend_from_slice(middle);
    o.extend_from_slice(&[k, b'\r', b'\n']);
    o
}
/// The server sends capabilities; the client gets those that are left.
fn offer(x: &mut Session, first: u8, k: u8) {
    let v = capabilities();
    x.s.deliver(&message(first, &v, k));
    x.want_c.push_back(Exp::Bytes(message(first, &filtered(&v), k)));
    rest();
    x.judge(true);
}
fn p_caps() {
    launch(&config(PLAIN));
    orders(0);
    if nd::flip() {
        let mut x = open(0, PLAIN);
        let kind = nd::choose(3);
        offer(&mut x, id(), 0x50 | kind);
        nd::cover(1);
        return;
    }
    let mut x = session(0, PLAIN);
    let kind = nd::choose(3);
    match nd::choose(5) {
        0 => offer(&mut x, b'C', 0xF0),
        1 => offer(&mut x, id(), 0xB0 | kind << 2),
        2 => offer(&mut x, id(), 0xD0),
        3 => offer(&mut x, id(), 0x71),
        _ => {
            x.client(&[0]);
            rest();
            x.judge(true);
            offer(&mut x, id(), 0x90 | kind << 2);
        }
    }
    nd::cover(2);
}
/// In the course of AUTHENTICATE, IDLE and literals.
fn p_caps_flow() {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    match nd::choose(4) {
        0 => {
            x.client(&[4]);
            rest();
            x.judge(true);
            let kind = nd::choose(3);
            offer(&mut x, id(), [0x90 | kind << 2, 0x71][nd::choose(2) as usize]);
            nd::cover(1);
        }
        1 => {
            x.client(&[4]);
            rest();
            x.server(&[4]);
            rest();
            x.client(&[0]);
            rest();
            x.judge(true);
            let kind = nd::choose(3);
            offer(&mut x, id(), 0x90 | kind << 2);
            nd::cover(2);
        }
        2 => {
            x.client(&[5]);
            rest();
            x.judge(true);
            let kind = nd::choose(3);
            offer(&mut x, id(), [0x90 | kind << 2, 0x71][nd::choose(2) as usize]);
            nd::cover(3);
        }
        _ => {
            // Refused: the client is told so by the proxy.
            x.client(&[3]);
            rest();
            x.judge(true);
            x.client(&[3]);
            rest();
            x.judge(true);
            let text = id();
            x.s.deliver(&message(text, &capabilities(), 0x98));
            x.want_c.push_back(Exp::Bad(0, text));
            rest();
            x.judge(true);
            nd::cover(4);
        }
    }
}

// -------------------------------------------------------------------------------- hostile peers
/// Any message, in any state.
fn anything(client: bool) -> Vec<u8> {
    let t = nd::choose(2);
    if client {
        match nd::choose(8) {
            0 => line(id(), 0xA0 | t << 3),
            1 => line(b'a', 0x40 | t << 3),
            2 => line(b'i', 0x60 | t << 3),
            3 => line(b'D', 0x80 | t << 3),
            4 => line(id(), 0x25 | t << 3),
            5 => line(id(), 0x27 | t << 3),
            6 => line(id(), nd::below(2)),
            _ => vec![id(), 0x80, b'\n'],
        }
    } else {
        match nd::choose(6) {
            0 => line(id(), 0xE0),
            1 => line(id(), 0x61),
            2 => line(id(), 0x80 | nd::choose(3) << 2 | t),
            3 => line(id(), 0x98 | t),
            4 => line(id(), nd::below(2)),
            _ => line(id(), 0xC0),
        }
    }
}
/// Whatever both peers of a session send: the program goes on, and serves others.
fn panic(n: u8) {
    launch(&config(PLAIN));
    orders(0);
    let _x = session(0, PLAIN);
    for _ in 0..n {
        if nd::flip() {
            sock(0).rx.extend(anything(true));
        } else {
            sock(1).rx.extend(anything(false));
        }
        if nd::flip() {
            rest();
        }
    }
    unharmed(false);
}
/// The session is whole or gone; another one works.
fn unharmed(always: bool) {
    rest();
    nd::check(sock(0).owned == sock(1).owned, "half of the session is gone");
    if sock(0).owned {
        nd::cover(1);
    } else {
        nd::cover(2);
    }
    nd::check(ended().is_none(), "the program must go on");
    if !sock(0).owned || always {
        let mut y = session(1, PLAIN);
        alive(&mut y);
    }
}
fn p_panic() {
    panic(3)
}
fn p_panic_t() {
    panic(4)
}
/// The same for arbitrary bytes.
fn bytes(n: usize) {
    launch(&config(PLAIN));
    orders(0);
    let greeting = nd::flip();
    let _x = if greeting { session(0, PLAIN) } else { open(0, PLAIN) };
    let client = greeting && nd::flip();
    for i in 0..n {
        sock(!client as usize).rx.push_back(nd::u8());
        if i == 0 && nd::flip() {
            rest();
        }
    }
    unharmed(true);
}
fn p_bytes() {
    bytes(5)
}
fn p_bytes_t() {
    bytes(7)
}

// ----------------------------------------------------------------------------------------- ends
/// A session ends when one of its connections does; nothing received from the server before is lost.
fn p_end() {
    finish(1)
}
fn p_end_t() {
    finish(3)
}
fn finish(before: u8) {
    *tokio::net::kinds() = 4;
    launch(&config(PLAIN));
    orders(0);
    let greeting = nd::flip();
    let mut x = if greeting { session(0, PLAIN) } else { open(0, PLAIN) };
    if greeting {
        for _ in 0..nd::choose(before + 1) {
            if x.turn != Turn::Wait && nd::flip() {
                x.client(&[0, 3, 4, 5]);
            } else {
                x.server(&[0]);
            }
            rest();
            x.judge(true);
        }
    }
    orders(2);
    let how = nd::choose(if greeting { 6 } else { 4 });
    match how {
        0 => sock(1).eof = true,
        1 => sock(1).rx_err = true,
        2 => sock(0).eof = true,
        3 => sock(0).rx_err = true,
        n => {
            // Something to send that cannot be sent.
            nd::assume(x.turn == Turn::Any && x.stage == Stage::Free);
            let to = n as usize - 4;
            sock(to).window = nd::choose(2) as usize;
            sock(to).tx_mode = if nd::flip() { tokio::net::Tx::Zero } else { tokio::net::Tx::Broken };
            if to == 0 {
                x.server(&[0]);
            } else {
                x.client(&[0]);
            }
        }
    }
    rest();
    if !greeting && how >= 2 {
        // That the client is gone is noticed with the greeting.
        sock(1).rx.extend(line(id(), 0x42));
        rest();
        nd::cover(3);
    }
    nd::check(closed(0), "the session must end with its connection");
    nd::check(ended().is_none(), "the program must go on");
    let mut y = session(1, PLAIN);
    alive(&mut y);
    nd::cover(1 + greeting as u32);
}
/// A session goes on however long nothing is said, whatever state it is in.
fn p_silence() {
    silence(2, 2)
}
fn p_silence_t() {
    silence(3, 2)
}
fn silence(mut client: u8, mut server: u8) {
    launch(&config(PLAIN));
    orders(0);
    let mut x = open(0, PLAIN);
    wait();
    x.pass(line(id(), 0x42));
    rest();
    x.judge(true);
    while client + server > 0 {
        wait();
        x.judge(true);
        nd::check(!closed(0), "silence must not end the session");
        if server == 0 || client > 0 && x.turn != Turn::Wait && nd::flip() {
            nd::assume(x.turn != Turn::Wait);
            client -= 1;
            x.c.cuts = 1;
            x.client(&[0, 3, 4, 5, 6]);
        } else {
            server -= 1;
            x.server(&[0, 3, 4, 7]);
        }
        rest();
        x.judge(true);
    }
    wait();
    x.judge(true);
    nd::check(sock(0).owned && sock(1).owned, "silence must not end the session");
    match x.turn {
        Turn::Any if x.stage == Stage::Free => {
            alive(&mut x);
            nd::cover(1);
        }
        Turn::Wait | Turn::Data | Turn::Done => nd::cover(2),
        _ => nd::cover(3),
    }
}
/// What the server sends before it closes reaches the client.
fn p_bye() {
    bye(false)
}
fn p_bye_t() {
    bye(true)
}
fn bye(more: bool) {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    if nd::flip() {
        // The client asked for it.
        x.client(&[1]);
        rest();
        x.judge(true);
    }
    orders(6);
    let slow = nd::flip();
    if slow {
        sock(0).window = nd::choose(6) as usize;
    }
    x.server(&[0, 6]);
    if nd::flip() {
        rest();
    }
    x.server(&[1, 5]);
    if more {
        x.server(&[0, 7]);
    }
    if nd::flip() {
        sock(1).eof = true;
    } else {
        sock(1).rx_err = true;
    }
    rest();
    x.judge(!slow);
    if slow {
        sock(0).window = 1000;
        rest();
        x.judge(true);
    }
    nd::check(closed(0), "the session must end with its connection");
    nd::cover(1);
}
/// Whatever happens to one client, another one is served.
fn p_others() {
    *tokio::net::kinds() = 10;
    let tls = (nd::flip(), nd::flip());
    file("chain", b"c1");
    file("key", b"k2");
    launch(&config(tls));
    orders(0);
    let m = tokio_rustls::model();
    use tokio_rustls::Handshake::*;
    let n = nd::choose(6);
    match n {
        // The connection is gone before it is accepted.
        0 => world().accept[0] = Connect::Refuse,
        // The server cannot be reached, or does not answer.
        1 | 2 => {
            arrive(0, 0);
            m.accept[0] = Done(Vec::new());
            world().connects[0] = if n == 1 { Connect::Refuse } else { Connect::Wait };
        }
        // The handshake with the client fails, or never ends.
        3 | 4 => {
            nd::assume(tls.0);
            arrive(0, 0);
            m.accept[0] = if n == 3 { Fail } else { Wait };
        }
        // The handshake with the server fails.
        _ => {
            nd::assume(tls.1);
            arrive(0, 0);
            connection(0);
            m.accept[0] = Done(Vec::new());
            m.connect[0] = Fail;
        }
    }
    rest();
    nd::check(ended().is_none(), "the program must go on");
    if n == 1 || n == 3 || n == 5 {
        nd::check(closed(0), "the connection must be closed");
        nd::check(sock(0).tx.is_empty() && sock(1).tx.is_empty(), "nothing may be sent");
    }
    let mut y = session(1, tls);
    alive(&mut y);
    nd::cover(n as u32 + 1);
}

// --------------------------------------------------------------------------------------- scale
const MANY: usize = 70;
/// Many messages of the same kinds.
fn p_scale() {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    x.fixed = Some(nd::choose(2) as u32);
    sock(0).window = 100_000;
    sock(1).window = 100_000;
    let settle = |x: &mut Session| {
        rest();
        x.judge(true);
    };
    let case = nd::choose(7);
    match case {
        // Commands, answered or not, literals permitted or refused.
        0 => {
            let kinds = [0, 1, 2, 3, 6, 7, 8];
            let (a, b) = (kinds[nd::choose(7) as usize], kinds[nd::choose(7) as usize]);
            for i in 0..MANY {
                x.client(&[if i % 2 == 0 { a } else { b }]);
                settle(&mut x);
                if x.turn != Turn::Any {
                    x.client(&[]);
                    settle(&mut x);
                }
                if matches!(x.stage, Stage::Literal(_)) {
                    x.server(&[if i % 4 < 2 { 4 } else { 3 }]);
                    settle(&mut x);
                } else if i % 4 == 3 {
                    x.server(&[2]);
                    settle(&mut x);
                }
            }
            // Whatever the server still has to permit.
            while let Stage::Literal(_) = x.stage {
                x.server(&[4]);
                settle(&mut x);
            }
        }
        // Commands the server takes no notice of.
        1 => {
            sock(1).window = 0;
            for _ in 0..MANY {
                x.client(&[0, 2]);
                rest();
                x.judge(false);
            }
            for _ in 0..MANY {
                sock(1).window += 7;
                rest();
                x.judge(false);
            }
            sock(1).window = 100_000;
            settle(&mut x);
        }
        // Responses the client takes no notice of.
        2 => {
            sock(0).window = 0;
            let together = nd::flip();
            for _ in 0..MANY {
                x.server(&[0, 1, 5, 6]);
                if !together {
                    rest();
                    x.judge(false);
                }
            }
            for _ in 0..MANY {
                sock(0).window += 7;
                rest();
                x.judge(false);
            }
            sock(0).window = 100_000;
            settle(&mut x);
        }
        // A long AUTHENTICATE.
        3 => {
            x.client(&[4]);
            settle(&mut x);
            for _ in 0..MANY {
                x.server(&[4]);
                settle(&mut x);
                x.server(&[0]);
                settle(&mut x);
                x.client(&[]);
                settle(&mut x);
            }
            x.server(&[3]);
            settle(&mut x);
        }
        // IDLE again and again, with many responses.
        4 => {
            for _ in 0..MANY {
                x.client(&[5]);
                settle(&mut x);
                x.server(&[4]);
                settle(&mut x);
                x.server(&[0]);
                settle(&mut x);
                x.client(&[]);
                settle(&mut x);
            }
        }
        // Refused AUTHENTICATE and IDLE.
        5 => {
            let k = 4 + nd::choose(2);
            for _ in 0..MANY {
                x.client(&[k]);
                settle(&mut x);
                x.server(&[3]);
                settle(&mut x);
            }
        }
        // Malformed messages.
        _ => {
            for _ in 0..MANY {
                x.client(&[6]);
                x.server(&[7]);
                settle(&mut x);
            }
        }
    }
    alive(&mut x);
    nd::cover(case as u32 + 1);
}
/// Mails are long: the proxy asks for a literal of any usual length.
fn p_long() {
    launch(&config(PLAIN));
    orders(0);
    let mut x = session(0, PLAIN);
    *imap_codec::model::long() = [100, 70_000, 1_000_000, 20_000_000][nd::choose(4) as usize];
    x.c.deliver(&line(id(), 0x26));
    x.want_c.push_back(Exp::Go);
    rest();
    x.judge(true);
    nd::cover(1);
}
/// Many clients, whatever becomes of them.
fn p_sessions() {
    let tls = (nd::flip(), nd::flip());
    file("chain", b"c1");
    file("key", b"k2");
    launch(&config(tls));
    orders(0);
    let m = tokio_rustls::model();
    use tokio_rustls::Handshake::*;
    let fate = nd::choose(9);
    nd::assume(tls.0 || !matches!(fate, 3 | 4));
    nd::assume(tls.1 || fate != 5);
    let mut open = Vec::new();
    for i in 0..MANY - 1 {
        let (a, c) = (m.accepted.len(), m.connected.len());
        match fate {
            0 => world().accept[0] = Connect::Refuse,
            1 | 2 => {
                arrive(i, 0);
                m.accept[a] = Done(Vec::new());
                world().connects[world().connected.len()] = if fate == 1 { Connect::Refuse } else { Connect::Wait };
            }
            3 | 4 => {
                arrive(i, 0);
                m.accept[a] = if fate == 3 { Fail } else { Wait };
            }
            5 => {
                arrive(i, 0);
                connection(i);
                m.accept[a] = Done(Vec::new());
                m.connect[c] = Fail;
            }
            // Sessions that end, sessions that do not.
            6 | 7 => {
                let mut x = session(i, tls);
                alive(&mut x);
                sock(2 * i + (fate - 6) as usize).eof = true;
            }
            _ => open.push(session(i, tls)),
        }
        rest();
        nd::check(ended().is_none(), "the program must go on");
        nd::check(matches!(fate, 0 | 2 | 4 | 8) || closed(i), "the connection must be closed");
    }
    let mut y = session(MANY - 1, tls);
    alive(&mut y);
    for x in open.iter_mut() {
        alive(x);
    }
    nd::cover(fate as u32 + 1);
}

/// Very many.
fn p_crowd() {
    crowd(260)
}
fn p_crowd_t() {
    crowd(1030)
}
fn crowd(n: usize) {
    launch(&config(PLAIN));
    orders(0);
    let fate = nd::choose(4);
    for i in 0..n {
        match fate {
            0 => {
                arrive(i, 0);
                world().connects[world().connected.len()] = Connect::Refuse;
            }
            1 | 2 => {
                let _x = session(i, PLAIN);
                sock(2 * i + fate as usize - 1).eof = true;
            }
            _ => {
                let _x = session(i, PLAIN);
            }
        }
        rest();
        nd::check(ended().is_none(), "the program must go on");
        nd::check(fate == 3 || closed(i), "the connection must be closed");
    }
    let mut y = session(n, PLAIN);
    alive(&mut y);
    nd::cover(fate as u32 + 1);
}

// ---------------------------------------------------------------------------------- encryption
const IMAP: &[u8] = b"imap";
fn client_config(n: usize, host: &[u8], roots: &[u8]) {
    let (c, name) = &tokio_rustls::model().connected[n];
    nd::check(name.as_bytes().eq_ignore_ascii_case(host), "the server's certificate is checked for another name");
    nd::check(c.alpn_protocols.len() == 1 && c.alpn_protocols[0] == IMAP, "ALPN of the connection to the server");
    let mut i = 0;
    for r in roots {
        if nd::fork((*r == 0xff) as u8) == 0 {
            nd::check(i < c.roots.len() && c.roots[i].len() == 1 && c.roots[i][0] == *r, "trusted root certificates");
            i += 1;
        }
    }
    nd::check(i == c.roots.len(), "only the system's root certificates are trusted");
}
/// Each connection is encrypted exactly if it is configured so, with what is configured.
fn p_tls() {
    let tls = (nd::flip(), nd::flip());
    let certs = [nd::u8(), nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let n = [1, 2, 3, 5][nd::choose(4) as usize];
    let key = nd::u8();
    let mut chain = Vec::new();
    for c in &certs[..n] {
        chain.extend_from_slice(&[b'c', *c]);
    }
    file("chain", &chain);
    file("key", &[b'k', key]);
    let roots = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    let roots: &'static [u8] = Vec::leak(roots[..[0, 1, 2, 4][nd::choose(4) as usize]].to_vec());
    rustls_native_certs::set(roots);
    launch(&config(tls));
    orders(0);
    let mut x = session(0, tls);
    alive(&mut x);
    let m = tokio_rustls::model();
    nd::check(m.accepted.len() == tls.0 as usize, "TLS with the client exactly if configured");
    nd::check(m.connected.len() == tls.1 as usize, "TLS with the server exactly if configured");
    if tls.0 {
        let c = &m.accepted[0];
        nd::check(c.chain.len() == n, "the whole certificate chain");
        for i in 0..n {
            nd::check(c.chain[i].0.len() == 1 && c.chain[i].0[0] == certs[i], "the certificate chain in order");
        }
        nd::check(c.key.len() == 1 && c.key[0] == key, "the configured key");
        nd::check(c.alpn_protocols.len() == 1 && c.alpn_protocols[0] == IMAP, "ALPN of the connection to the client");
    }
    if tls.1 {
        client_config(0, b"s", roots);
    }
    nd::cover(1 + tls.0 as u32 + 2 * tls.1 as u32);
}
/// Without a usable identity nothing is sent to a client.
fn p_identity() {
    let tls = (true, nd::flip());
    let b = nd::u8();
    let chain: Option<Vec<u8>> = match nd::choose(6) {
        0 => Some(Vec::new()),
        1 => Some(vec![b'c', b]),
        2 => Some(vec![b'c', b, b'x']),
        3 => Some(vec![b'k', b]),
        4 => Some(vec![b'k', 9, b'c', b]),
        _ => None,
    };
    let good_chain = matches!(chain.as_ref().map(|c| c.len()), Some(2 | 4)) && !matches!(&chain, Some(c) if c.len() == 2 && c[0] == b'k');
    let key: Option<Vec<u8>> = match nd::choose(7) {
        0 => Some(Vec::new()),
        1 => Some(vec![b'k', b]),
        2 => Some(vec![b'k', b, b'k', 7]),
        3 => Some(vec![b'c', 7, b'k', b]),
        4 => Some(vec![b'c', b]),
        5 => Some(vec![b'k', b, b'?']),
        _ => None,
    };
    let good_key = matches!(&key, Some(k) if k.len() == 2 && k[0] == b'k' || k.len() == 4 && k[0] == b'c');
    match &chain {
        Some(c) => file("chain", c),
        None if nd::flip() => broken_file("chain"),
        None => {}
    }
    match &key {
        Some(k) => file("key", k),
        None if nd::flip() => broken_file("key"),
        None => {}
    }
    launch(&config(tls));
    orders(0);
    let m = tokio_rustls::model();
    if good_chain && good_key {
        let mut x = session(0, tls);
        alive(&mut x);
        let c = &m.accepted[0];
        nd::check(c.chain.len() == 1 && c.chain[0].0.len() == 1 && c.chain[0].0[0] == b, "the certificate");
        nd::check(c.key.len() == 1 && c.key[0] == b, "the key");
        nd::cover(1);
    } else {
        let _ = open(0, tls);
        sock(0).rx.extend(line(id(), 0xA0));
        sock(1).rx.extend(line(id(), 0x42));
        rest();
        nd::check(!sock(0).owned, "the connection must be closed");
        nd::check(sock(0).tx.is_empty() && sock(1).tx.is_empty(), "nothing may be sent");
        nd::cover(2);
    }
}
/// Each service uses TLS as configured for it, whichever is used first and how often.
fn p_tls_two() {
    let roots: &'static [u8] = &[3];
    rustls_native_certs::set(roots);
    let tls = [(nd::flip(), nd::flip()), (nd::flip(), nd::flip())];
    let certs = [nd::u8(), nd::u8(), nd::u8(), nd::u8()];
    file("chain", &[b'c', certs[0]]);
    file("key", &[b'k', certs[1]]);
    file("chain2", &[b'c', certs[2]]);
    file("key2", &[b'k', certs[3]]);
    let mut c = config(tls[0]);
    let d = config(tls[1]);
    let d = replace(&d, b"host = \"h\"", b"host = \"i\"");
    let d = replace(&d, b"host = \"s\"", b"host = \"t\"");
    let d = if tls[1].0 { replace(&replace(&d, b"\"chain\"", b"\"chain2\""), b"\"key\"", b"\"key2\"") } else { d };
    c.extend_from_slice(&if nd::flip() { d } else { replace(&d, b"\"a\"", b"\"b\"") });
    launch(&c);
    orders(0);
    let m = tokio_rustls::model();
    for n in 0..3 {
        let s = nd::choose(2) as usize;
        let (a, b) = (m.accepted.len(), m.connected.len());
        let mut x = open_at(n, s, tls[s]);
        x.pass(line(id(), 0x42));
        rest();
        x.judge(true);
        alive(&mut x);
        nd::check(m.accepted.len() == a + tls[s].0 as usize, "TLS with the client exactly if configured");
        nd::check(m.connected.len() == b + tls[s].1 as usize, "TLS with the server exactly if configured");
        if tls[s].0 {
            let c = &m.accepted[a];
            nd::check(c.chain.len() == 1 && c.chain[0].0.len() == 1 && c.chain[0].0[0] == certs[2 * s], "the service's own certificate");
            nd::check(c.key.len() == 1 && c.key[0] == certs[2 * s + 1], "the service's own key");
        }
        if tls[s].1 {
            client_config(b, [b"s", b"t"][s], roots);
        }
    }
    nd::cover(1);
}
/// The name expected of a TLS server is the configured host.
fn p_names() {
    let roots: &'static [u8] = &[3];
    rustls_native_certs::set(roots);
    let n = nd::choose(10) as usize;
    let host = [
        "mail.example.org",
        "127.0.0.1",
        "ex ample",
        "",
        "m",
        "www.example.org",
        "localhost",
        "imap-1.eu.xn--mller-kva.co.uk",
        "::1",
        "10.0.0.143",
    ][n];
    let mut c = b"[[services]]\nname = \"a\"\n[services.bind]\nencryption = \"Insecure\"\nhost = \"h\"\n[services.connect]\nencryption = \"Tls\"\nhost = \"".to_vec();
    c.extend_from_slice(host.as_bytes());
    c.extend_from_slice(b"\"\n");
    launch(&c);
    orders(0);
    if n == 2 || n == 3 {
        let _ = open(0, (false, true));
        sock(0).rx.extend(line(id(), 0xA0));
        rest();
        nd::check(sock(0).tx.is_empty() && sock(1).tx.is_empty(), "nothing may be sent");
        nd::check(closed(0), "the connection must be closed");
        nd::check(ended().is_none(), "the program must go on");
        nd::cover(1);
    } else {
        let mut x = session(0, (false, true));
        alive(&mut x);
        client_config(0, host.as_bytes(), roots);
        let to = world().connected[0].as_bytes();
        nd::check(to.starts_with(host.as_bytes()) && &to[host.len()..] == b":993", "the connection goes somewhere else");
        nd::cover(2);
    }
}

// --------------------------------------------------------------------------------- configuration
fn push(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(s);
}
/// One end of a service in the configuration file.
fn end(o: &mut Vec<u8>, side: &[u8], tls: bool, host: &[u8], port: Option<&[u8]>) {
    push(o, b"[services.");
    push(o, side);
    push(o, if tls { b"]\nencryption = \"Tls\"\nhost = \"" } else { b"]\nencryption = \"Insecure\"\nhost = \"" });
    push(o, host);
    push(o, b"\"\n");
    if let Some(p) = port {
        push(o, b"port = ");
        push(o, p);
        push(o, b"\n");
    }
    if tls && side == b"bind" {
        push(o, b"[services.bind.identity]\ntype = \"CertificateChainAndLeafKey\"\ncertificate_chain_path = \"chain\"\nleaf_key_path = \"key\"\n");
    }
}
/// Numbers of ports.
fn p_port() {
    let n = 1 + nd::choose(5) as usize;
    let mut d = Vec::new();
    let mut v = 0u32;
    for i in 0..n {
        let x = nd::below(10);
        if i == 0 && n > 1 {
            nd::assume(x > 0);
        }
        v = v * 10 + x as u32;
        d.push(b'0' + x);
    }
    let good = nd::fork((v <= 65535) as u8) == 1;
    let (side, tls) = (nd::flip(), nd::flip());
    let mut o = b"[[services]]\nname = \"a\"\n".to_vec();
    end(&mut o, b"bind", tls && !side, b"h", if side { None } else { Some(&d) });
    end(&mut o, b"connect", tls && side, b"s", if side { Some(&d) } else { None });
    file("chain", b"c1");
    file("key", b"k2");
    launch(&o);
    let w = world();
    if !good {
        nd::check(*ended() == Some(false), "an invalid port is an error");
        nd::check(w.bound.is_empty() && out().is_empty(), "no service is started");
        nd::cover(1);
        return;
    }
    nd::check(ended().is_none() && w.bound.len() == 1, "the service must run");
    let _ = open(0, (tls && !side, tls && side));
    // The number of the port has nothing to do with encryption.
    let m = tokio_rustls::model();
    nd::check(m.accepted.len() == (tls && !side) as usize, "TLS with the client exactly if configured");
    nd::check(m.connected.len() == (tls && side) as usize, "TLS with the server exactly if configured");
    let a = if side { &w.connected[0] } else { &w.bound[0] };
    nd::check(a.len() == 2 + n, "the port is another one");
    let a = a.as_bytes();
    nd::check(a[0] == if side { b's' } else { b'h' } && a[1] == b':', "the host is another one");
    for i in 0..n {
        nd::check(a[2 + i] == d[i], "the port is another one");
    }
    nd::cover(2);
}
/// What the configuration says is what is done.
fn p_config() {
    let path = match nd::choose(3) {
        0 => "config.toml",
        n => {
            argh::set("config", "x/y.toml");
            if n == 1 {
                "x/y.toml"
            } else {
                // Only the default one exists.
                "config.toml"
            }
        }
    };
    let bad_path = path == "config.toml" && argh::value("config", "").is_some();
    let (tls_b, tls_c) = (nd::flip(), nd::flip());
    let (port_b, port_c) = (nd::flip(), nd::flip());
    let (hb, hc) = ([letter(), letter()], [letter(), letter()]);
    let name = [letter(), b' ', letter()];
    let mut o = b"[[services]]\nname = \"".to_vec();
    push(&mut o, &name);
    push(&mut o, b"\"\n");
    end(&mut o, b"bind", tls_b, &hb, port_b.then_some(b"1143"));
    end(&mut o, b"connect", tls_c, &hc, port_c.then_some(b"25"));
    let broken = nd::choose(7);
    match broken {
        0 => {}
        // something is missing, unknown or malformed
        1 => o = replace(&o, b"name", b"nome"),
        2 => o = replace(&o, b"connect]", b"konnect]"),
        3 => o = replace(&o, b"\nencryption = \"", b"\nencryption = \"X"),
        4 => o = replace(&o, b"\nhost", b"\nhust"),
        5 => push(&mut o, b"port"),
        _ => {
            nd::assume(tls_b);
            o = replace(&o, b"leaf_key_path", b"leef_key_path");
        }
    }
    file(path, &o);
    start();
    rest();
    orders(0);
    let w = world();
    if broken > 0 || bad_path {
        nd::check(*ended() == Some(false), "an invalid configuration is an error");
        nd::check(w.bound.is_empty() && out().is_empty(), "no service is started");
        nd::cover(1);
        return;
    }
    nd::check(ended().is_none(), "the program must go on");
    let pb: &[u8] = if port_b {
        b"1143"
    } else if tls_b {
        b"993"
    } else {
        b"143"
    };
    let pc: &[u8] = if port_c {
        b"25"
    } else if tls_c {
        b"993"
    } else {
        b"143"
    };
    let mut at = hb.to_vec();
    push(&mut at, b":");
    push(&mut at, pb);
    nd::check(w.bound.len() == 1 && w.bound[0].as_bytes() == &at[..], "the address to listen at");
    // Users are told.
    nd::check(out().len() == 2 && out()[0].len() == 5 && &out()[0].as_bytes()[2..] == &name[..], "the name of the service is printed");
    let mut to = hc.to_vec();
    push(&mut to, b":");
    push(&mut to, pc);
    let mut t = Vec::new();
    push(&mut t, if tls_b { b"imaps://" } else { b"imap://" });
    push(&mut t, &at);
    push(&mut t, if tls_b { b" (TLS) -> " } else { b" (insecure) -> " });
    push(&mut t, if tls_c { b"imaps://" } else { b"imap://" });
    push(&mut t, &to);
    push(&mut t, if tls_c { b" (TLS)" } else { b" (insecure)" });
    nd::check(out()[1].trim_end().as_bytes() == &t[..], "the addresses are printed");
    file("chain", b"c1");
    file("key", b"k2");
    let mut x = session(0, (tls_b, tls_c));
    alive(&mut x);
    nd::check(w.connected.len() == 1 && w.connected[0].as_bytes() == &to[..], "the address to connect to");
    nd::cover(2);
}
fn letter() -> u8 {
    let c = nd::u8();
    nd::assume(c >= b'a' && c <= b'z');
    c
}
/// `o` with the first `a` replaced.
fn replace(o: &[u8], a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + a.len() <= o.len() {
        let mut same = true;
        for j in 0..a.len() {
            if nd::fork((o[i + j] == a[j]) as u8) == 0 {
                same = false;
                break;
            }
        }
        if same {
            let mut r = o[..i].to_vec();
            push(&mut r, b);
            push(&mut r, &o[i + a.len()..]);
            return r;
        }
        i += 1;
    }
    unreachable!()
}

/// Several services run side by side; one that cannot start does not affect the others.
fn services(n: u8) -> Vec<u8> {
    let mut o = Vec::new();
    for i in 0..n {
        push(&mut o, b"[[services]]\nname = \"n\"\n");
        end(&mut o, b"bind", false, &[b'b', b'A' + i], None);
        end(&mut o, b"connect", false, &[b'c', b'A' + i], None);
    }
    o
}
fn p_service() {
    service(2)
}
fn p_service_t() {
    service(3)
}
fn service(clients: usize) {
    let n = 1 + nd::choose(3);
    let mut fails = [false; 20];
    for i in 0..n {
        fails[i as usize] = nd::flip();
    }
    serve(n, &fails, clients)
}
/// Many services.
fn p_services() {
    let n = 20;
    let mut fails = [false; 20];
    match nd::choose(3) {
        // all but one, none but one, half of them
        0 => {
            fails = [true; 20];
            fails[nd::choose(n) as usize] = false;
        }
        1 => fails[nd::choose(n) as usize] = true,
        _ => fails[..10].fill(true),
    }
    serve(n, &fails, 1)
}
fn serve(n: u8, fails: &[bool; 20], clients: usize) {
    world().bind_fails = *fails;
    launch(&services(n));
    orders(0);
    let w = world();
    nd::check(w.bound.len() == n as usize, "every service is started");
    for i in 0..n as usize {
        nd::check(w.bound[i].as_bytes()[..3] == [b'b', b'A' + i as u8, b':'], "each service listens at its own address");
        nd::check(w.listening[i] == !fails[i], "every service that can run runs");
    }
    if fails[..n as usize].iter().all(|f| *f) {
        nd::check(*ended() == Some(true), "the program ends when no service is left");
        nd::cover(1);
        return;
    }
    nd::check(ended().is_none(), "the program must go on");
    for client in 0..clients {
        let l = nd::choose(n);
        nd::assume(!fails[l as usize]);
        let mut x = session_at(client, l as usize);
        nd::check(w.connected[client].as_bytes()[..3] == [b'c', b'A' + l, b':'], "clients are connected to their own server");
        alive(&mut x);
    }
    nd::check(ended().is_none(), "the program must go on");
    nd::cover(2);
}
fn session_at(n: usize, listener: usize) -> Session {
    arrive(n, listener);
    connection(n);
    rest();
    let mut x = Session::new(Wire::new(2 * n, false, true), Wire::new(2 * n + 1, false, false));
    x.pass(line(id(), 0x42));
    rest();
    x.judge(true);
    x
}
/// Two sessions at once do not mix.
fn p_two() {
    two(3)
}
fn p_two_t() {
    two(4)
}
fn two(n: u8) {
    launch(&config(PLAIN));
    orders(0);
    let mut a = session(0, PLAIN);
    let mut b = session(1, PLAIN);
    for _ in 0..n {
        let x = if nd::flip() { &mut a } else { &mut b };
        if x.turn != Turn::Wait && nd::flip() {
            x.client(&[0, 3, 4, 6]);
        } else {
            x.server(&[0, 3, 4]);
        }
        rest();
        a.judge(true);
        b.judge(true);
    }
    nd::cover(1);
}
