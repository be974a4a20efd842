//! The two peers of a session, and what a session is expected to do.
use crate::vp_world::*;
use rustls::record::{self, Sealer};
use std::collections::VecDeque;
use tokio::net::{sock, world, Connect};
use tokio_rustls::{model, Handshake};

/// One end of a connection, seen from the peer: plain or over TLS.
pub struct Wire {
    pub sock: usize,
    pub tls: bool,
    tx: Sealer,
    rx: Sealer,
    parsed: usize,
    /// What the proxy sent here, in plain.
    pub got: Vec<u8>,
    /// How far `got` was judged.
    pub seen: usize,
    /// How often a delivery may be cut.
    pub cuts: u8,
}
impl Wire {
    /// `client`: the peer is a client.
    pub fn new(sock: usize, tls: bool, client: bool) -> Self {
        let (tx, rx) = if client {
            (record::KEY_CLIENT, record::KEY_SERVER)
        } else {
            (record::KEY_SERVER, record::KEY_CLIENT)
        };
        Wire {
            sock,
            tls,
            tx: Sealer { seq: 0, key: tx },
            rx: Sealer { seq: 0, key: rx },
            parsed: 0,
            got: Vec::with_capacity(64),
            seen: 0,
            cuts: 0,
        }
    }
    /// The bytes to deliver for these plain bytes.
    pub fn seal(&mut self, data: &[u8]) -> Vec<u8> {
        if !self.tls {
            return data.to_vec();
        }
        let mut out = Vec::with_capacity(64);
        for c in data.chunks(7) {
            out.extend(self.tx.seal(record::DATA, c));
        }
        out
    }
    pub fn deliver(&mut self, data: &[u8]) {
        let b = self.seal(data);
        let s = sock(self.sock);
        let mut at = 0;
        if self.cuts > 0 && b.len() > 1 && nd::flip() {
            self.cuts -= 1;
            at = 1 + nd::choose(b.len() as u8 - 1) as usize;
            s.rx.extend(&b[..at]);
            wait();
        }
        s.rx.extend(&b[at..]);
    }
    /// Takes in what the proxy sent.
    pub fn receive(&mut self) {
        let s = sock(self.sock);
        if !self.tls {
            self.got.extend_from_slice(&s.tx[self.parsed..]);
            self.parsed = s.tx.len();
            return;
        }
        while self.parsed < s.tx.len() {
            let head = nd::fork(s.tx[self.parsed]);
            let n = (head & 0xf) as usize;
            nd::check(
                head == record::CLOSE || head & 0xf0 == record::DATA && n > 0,
                "unprotected bytes on a TLS connection",
            );
            if self.parsed + 1 + n > s.tx.len() {
                return;
            }
            let mut d = s.tx[self.parsed + 1..self.parsed + 1 + n].to_vec();
            self.rx.open(&mut d);
            self.got.extend_from_slice(&d);
            self.parsed += 1 + n;
        }
    }
}

/// Symbolic byte of a text.
pub fn id() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 0x20);
    v
}

/// Expected next on the client's side.
#[derive(Clone)]
pub enum Exp {
    Bytes(Vec<u8>),
    /// A continuation request made by the proxy.
    Go,
    /// `BAD` for this tag made by the proxy: no code, not this text.
    Bad(u8, u8),
}

/// What a client command makes the proxy's server side expect.
#[derive(Clone)]
pub enum Cmd {
    /// Parts separated by points where the server's permission is needed.
    Plain(u8, VecDeque<Vec<u8>>),
    Auth(u8, Vec<u8>),
    Idle(u8, Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Stage {
    /// Nothing being sent to the server.
    Free,
    /// Waiting for permission to send the rest.
    Literal(u8),
    /// The server has to answer.
    Auth(u8),
    /// The client has to answer.
    AuthData(u8),
    IdleWait(u8),
    Idling(u8),
}

/// What the client has to do next.
#[derive(Clone, PartialEq, Eq)]
pub enum Turn {
    Any,
    /// Send the announced literal and the rest of the command.
    Literal(Vec<u8>),
    /// Wait for the server.
    Wait,
    Data,
    Done,
}

/// A session: the expected behaviour next to the real one.
pub struct Session {
    pub c: Wire,
    pub s: Wire,
    pub want_s: Vec<u8>,
    pub want_c: VecDeque<Exp>,
    pub queue: VecDeque<Cmd>,
    rest: VecDeque<Vec<u8>>,
    pub stage: Stage,
    pub turn: Turn,
    pub tags: u8,
    /// Statuses with codes.
    pub codes: bool,
    /// What can be chosen is taken in turn.
    pub fixed: Option<u32>,
    /// The command whose literal the client is being asked for.
    pending: Option<Cmd>,
}

pub fn line(id: u8, k: u8) -> Vec<u8> {
    vec![id, k, b'\r', b'\n']
}
fn join(v: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::with_capacity(24);
    for x in v {
        o.extend_from_slice(x);
    }
    o
}

impl Session {
    pub fn new(c: Wire, s: Wire) -> Self {
        Session {
            c,
            s,
            want_s: Vec::with_capacity(64),
            want_c: VecDeque::new(),
            queue: VecDeque::new(),
            rest: VecDeque::new(),
            stage: Stage::Free,
            turn: Turn::Any,
            tags: 0,
            codes: false,
            fixed: None,
            pending: None,
        }
    }
    fn tag(&mut self) -> u8 {
        self.tags = self.tags.wrapping_add(1);
        self.tags.wrapping_sub(1) & 3
    }
    fn pick(&mut self, n: u8) -> u8 {
        match &mut self.fixed {
            None => nd::choose(n),
            Some(i) => {
                *i += 1;
                (*i % n as u32) as u8
            }
        }
    }
    fn below(&mut self, n: u8) -> u8 {
        match self.fixed {
            None => nd::below(n),
            Some(_) => self.pick(n),
        }
    }
    fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// What no decoder accepts: a bad line, one without CR.
    fn malformed(&mut self) -> Vec<u8> {
        if self.flip() {
            line(id(), 1)
        } else {
            vec![id(), 0xA0, b'\n']
        }
    }
    /// Starts commands while the server's side is free.
    fn pump(&mut self) {
        while self.stage == Stage::Free {
            match self.queue.pop_front() {
                None => return,
                Some(Cmd::Plain(t, mut parts)) => {
                    self.want_s.extend(parts.pop_front().unwrap());
                    if !parts.is_empty() {
                        self.rest = parts;
                        self.stage = Stage::Literal(t);
                    }
                }
                Some(Cmd::Auth(t, b)) => {
                    self.want_s.extend(b);
                    self.stage = Stage::Auth(t);
                }
                Some(Cmd::Idle(t, b)) => {
                    self.want_s.extend(b);
                    self.stage = Stage::IdleWait(t);
                }
            }
        }
    }

    // ---- what the client does
    pub fn client(&mut self, kinds: &[u8]) {
        // Malformed messages change nothing, also in the course of AUTHENTICATE and IDLE.
        if matches!(self.turn, Turn::Data | Turn::Done) && kinds.contains(&6) && self.flip() {
            let b = self.malformed();
            self.c.deliver(&b);
            return;
        }
        match self.turn.clone() {
            Turn::Any => {
                let k = kinds[self.pick(kinds.len() as u8) as usize];
                self.client_command(k);
            }
            Turn::Literal(b) => {
                self.c.deliver(&b);
                self.turn = Turn::Any;
                let p = self.pending.take().unwrap();
                self.queue.push_back(p);
            }
            Turn::Wait => nd::assume(false),
            Turn::Data => {
                let b = if self.flip() { line(id(), 0x80) } else { line(b'*', 0x60) };
                self.c.deliver(&b);
                self.want_s.extend(b);
                let Stage::AuthData(t) = self.stage else { unreachable!() };
                self.stage = Stage::Auth(t);
                self.turn = Turn::Wait;
            }
            Turn::Done => {
                let b = line(b'D', 0x80);
                self.c.deliver(&b);
                self.want_s.extend(b);
                self.stage = Stage::Free;
                self.turn = Turn::Any;
            }
        }
        self.pump();
    }
    /// The kinds of messages a client sends.
    fn client_command(&mut self, kind: u8) {
        match kind {
            // a command with arguments
            0 => {
                let t = self.tag();
                let b = line(id(), 0xA0 | t << 3 | self.below(8));
                self.c.deliver(&b);
                self.queue.push_back(Cmd::Plain(t, VecDeque::from([b])));
            }
            // a command without
            1 => {
                let t = self.tag();
                let (n, k) = [(b'N', 0), (b'L', 1), (b'C', 2)][self.pick(3) as usize];
                let b = line(n, 0x80 | t << 3 | k);
                self.c.deliver(&b);
                self.queue.push_back(Cmd::Plain(t, VecDeque::from([b])));
            }
            // a literal that needs no permission
            2 => {
                let t = self.tag();
                let b = join(&[&line(id(), 0x22 | t << 3), &[nd::u8(), nd::u8()], &line(id(), 0xA0 | t << 3)]);
                self.c.deliver(&b);
                self.queue.push_back(Cmd::Plain(t, VecDeque::from([b])));
            }
            // a literal that needs permission
            3 => {
                let t = self.tag();
                let n = self.pick(2);
                let a = line(id(), 0x24 | t << 3 | n + 1);
                let mut b = vec![nd::u8()];
                if n == 1 {
                    b.push(nd::u8());
                }
                let b = join(&[&b, &line(id(), 0xA0 | t << 3)]);
                self.c.deliver(&a);
                self.want_c.push_back(Exp::Go);
                self.turn = Turn::Literal(b.clone());
                self.pending = Some(Cmd::Plain(t, VecDeque::from([a, b])));
            }
            // AUTHENTICATE
            4 => {
                let t = self.tag();
                let m = self.below(2);
                let b = if self.flip() { line(b'a', 0x40 | t << 3 | m) } else { line(id(), 0x44 | t << 3 | m) };
                self.c.deliver(&b);
                self.queue.push_back(Cmd::Auth(t, b));
                self.turn = Turn::Wait;
            }
            // IDLE
            5 => {
                let t = self.tag();
                let b = line(b'i', 0x60 | t << 3);
                self.c.deliver(&b);
                self.queue.push_back(Cmd::Idle(t, b));
                self.turn = Turn::Wait;
            }
            // a malformed message
            6 => {
            let b = self.malformed();
            self.c.deliver(&b)
            },
            // two literals
            7 => {
                let t = self.tag();
                let a = line(id(), 0x21 | t << 3);
                let b = line(id(), 0x25 | t << 3);
                let first = join(&[&a, &[nd::u8()], &b]);
                let then = join(&[&[nd::u8()], &line(id(), 0xA0 | t << 3)]);
                self.c.deliver(&first);
                self.want_c.push_back(Exp::Go);
                self.turn = Turn::Literal(then.clone());
                self.pending = Some(Cmd::Plain(t, VecDeque::from([first, then])));
            }
            // a literal that is too long
            8 => {
                let t = self.tag();
                self.c.deliver(&line(id(), 0x27 | t << 3));
                self.want_c.push_back(Exp::Bad(t, 0));
            }
            _ => unreachable!(),
        }
    }

    // ---- what the server does
    pub fn server(&mut self, kinds: &[u8]) {
        let k = kinds[self.pick(kinds.len() as u8) as usize];
        self.server_response(k);
        self.pump();
    }
    fn status(&mut self, tag: u8, kind: u8, code: u8) {
        let text = id();
        let mut b = vec![text];
        if code == 2 {
            b.push(0x80 | nd::u8());
        }
        let c = if code > 0 { 0x10 } else { 0 };
        b.extend_from_slice(&[0x80 | c | kind << 2 | tag, b'\r', b'\n']);
        self.s.deliver(&b);
        if self.stage == Stage::Literal(tag) && kind == 2 {
            // The command was refused: the client has sent it all and must get the answer.
            self.rest.clear();
            self.stage = Stage::Free;
            if code == 1 {
                self.want_c.push_back(Exp::Bytes(b));
            } else {
                self.want_c.push_back(Exp::Bad(tag, text));
            }
            return;
        }
        self.want_c.push_back(Exp::Bytes(b));
        match self.stage {
            Stage::Auth(t) | Stage::AuthData(t) if t == tag => {
                self.stage = Stage::Free;
                self.turn = Turn::Any;
            }
            Stage::IdleWait(t) if t == tag => {
                self.stage = Stage::Free;
                self.turn = Turn::Any;
            }
            _ => {}
        }
    }
    fn any_status(&mut self, tag: u8) {
        // What the proxy may tell apart is told apart here, the rest is left open.
        if self.stage == Stage::Literal(tag) {
            let kind = self.pick(3);
            let code = if kind == 2 { self.pick(3) } else { 0 };
            self.status(tag, kind, code);
        } else {
            let code = if self.codes { self.pick(3) } else { 0 };
            let kind = self.below(3);
            self.status(tag, kind, code);
        }
    }
    fn server_response(&mut self, kind: u8) {
        match kind {
            0 => {
                let b = line(id(), 0xE0 | self.below(16));
                self.pass(b)
            }
            // data with a literal
            1 => self.pass(join(&[&line(id(), 0x22), &[nd::u8(), nd::u8()], &line(id(), 0xE0)])),
            // a status with any tag (also of no command), any kind, with or without a code
            2 => {
                let t = self.pick(3);
                // A server that answers IDLE after accepting it breaks the protocol.
                nd::assume(self.stage != Stage::Idling(t));
                self.any_status(t);
            }
            // what the current command needs: a status for its tag
            3 => {
                let t = match self.stage {
                    Stage::Literal(t) | Stage::Auth(t) | Stage::AuthData(t) | Stage::IdleWait(t) => t,
                    _ => {
                        nd::assume(false);
                        0
                    }
                };
                self.any_status(t);
            }
            // a continuation request
            4 => {
                let b = match self.pick(if self.codes { 4 } else { 2 }) {
                    0 => line(id(), 0x60),
                    1 => line(id(), 0x61),
                    // with a code
                    2 => line(id(), 0x71),
                    _ => vec![id(), 0x80 | nd::u8(), 0x71, b'\r', b'\n'],
                };
                match self.stage {
                    Stage::Literal(_) => {
                        self.s.deliver(&b);
                        let r = self.rest.pop_front().unwrap();
                        self.want_s.extend(r);
                        if self.rest.is_empty() {
                            self.stage = Stage::Free;
                        }
                        return;
                    }
                    Stage::Auth(t) => {
                        self.stage = Stage::AuthData(t);
                        self.turn = Turn::Data;
                    }
                    Stage::IdleWait(t) => {
                        self.stage = Stage::Idling(t);
                        self.turn = Turn::Done;
                    }
                    _ => {}
                }
                self.pass(b)
            }
            // status without a tag
            5 => {
                let b = line(id(), 0xA0 | self.below(2) << 4 | self.below(3) << 2);
                self.pass(b)
            }
            // BYE
            6 => {
                let b = line(id(), 0xC0 | self.below(2) << 4);
                self.pass(b)
            }
            // a malformed message
            7 => {
            let b = self.malformed();
            self.s.deliver(&b)
            },
            _ => unreachable!(),
        }
    }
    pub fn pass(&mut self, b: Vec<u8>) {
        self.s.deliver(&b);
        self.want_c.push_back(Exp::Bytes(b));
    }

    // ---- judgement
    /// Compares what arrived with what is expected; at rest, everything expected must be there.
    pub fn judge(&mut self, complete: bool) {
        self.s.receive();
        let got = &self.s.got[self.s.seen..];
        nd::check(got.len() <= self.want_s.len(), "the server got more than the client sent");
        let mut d = 0;
        for i in 0..got.len() {
            d |= got[i] ^ self.want_s[i];
        }
        nd::check(d == 0, "the server got something else than the client sent");
        nd::check(!complete || got.len() == self.want_s.len(), "the server did not get what the client sent");
        let n = got.len();
        self.want_s.drain(..n);
        self.s.seen += n;

        self.c.receive();
        loop {
            let got = &self.c.got[self.c.seen..];
            match self.want_c.front_mut() {
                None => {
                    nd::check(got.is_empty(), "the client got something the server did not send");
                    return;
                }
                Some(Exp::Bytes(b)) => {
                    let n = got.len().min(b.len());
                    let mut d = 0;
                    for i in 0..n {
                        d |= got[i] ^ b[i];
                    }
                    nd::check(d == 0, "the client got something else than the server sent");
                    self.c.seen += n;
                    if n < b.len() {
                        b.drain(..n);
                        nd::check(!complete, "the client did not get what the server sent");
                        return;
                    }
                }
                Some(e) => {
                    let Some(n) = ending(got) else {
                        nd::check(!complete, "the client did not get the proxy's answer");
                        return;
                    };
                    let k = nd::fork(got[n - 3]);
                    match *e {
                        Exp::Go => nd::check(k == 0x61, "a continuation request expected"),
                        Exp::Bad(t, text) => {
                            nd::check(k == 0x88 | t, "BAD for the refused command expected");
                            nd::check(n > 4 || got[0] != text, "the text must not be the server's");
                        }
                        _ => unreachable!(),
                    }
                    self.c.seen += n;
                }
            }
            self.want_c.pop_front();
        }
    }
}
/// Length of the first line.
fn ending(b: &[u8]) -> Option<usize> {
    let mut i = 3;
    while i < b.len() {
        if nd::fork((b[i] == b'\n') as u8) == 1 {
            return Some(i + 1);
        }
        i += 1;
    }
    None
}

// ---------------------------------------------------------------------------------------- setups
/// The configuration file of a program with one service.
pub fn config(tls: (bool, bool)) -> Vec<u8> {
    let mut o = b"[[services]]\nname = \"a\"\nbind = { encryption = ".to_vec();
    o.extend_from_slice(if tls.0 {
        b"\"Tls\", identity = { type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"chain\", leaf_key_path = \"key\" }"
    } else {
        b"\"Insecure\""
    });
    o.extend_from_slice(b", host = \"h\", port = 1 }\nconnect = { encryption = ");
    o.extend_from_slice(if tls.1 { b"\"Tls\"" } else { b"\"Insecure\"" });
    o.extend_from_slice(b", host = \"s\", port = 2 }\n");
    o
}
/// Starts the program with this configuration.
pub fn launch(config: &[u8]) {
    file("config.toml", config);
    start();
    rest();
}
/// The n-th client (socket 2n) reaches the listener; the server's side will be socket 2n + 1.
pub fn arrive(n: usize, listener: usize) {
    world().accept[listener] = Connect::Accept(2 * n);
    sock(2 * n).window = 1000;
    sock(2 * n + 1).window = 1000;
}
/// The next connection to a server is made, for the n-th client.
pub fn connection(n: usize) {
    world().connects[world().connected.len()] = Connect::Accept(2 * n + 1);
}
/// A session before the greeting.
pub fn open(n: usize, tls: (bool, bool)) -> Session {
    open_at(n, 0, tls)
}
pub fn open_at(n: usize, listener: usize, tls: (bool, bool)) -> Session {
    arrive(n, listener);
    connection(n);
    let m = model();
    if tls.0 {
        let i = m.accepted.len();
        m.accept[i] = Handshake::Done(Vec::new());
    }
    if tls.1 {
        let i = m.connected.len();
        m.connect[i] = Handshake::Done(Vec::new());
    }
    rest();
    Session::new(Wire::new(2 * n, tls.0, true), Wire::new(2 * n + 1, tls.1, false))
}
/// A session after the greeting.
pub fn session(n: usize, tls: (bool, bool)) -> Session {
    let mut x = open(n, tls);
    x.pass(line(id(), 0x42));
    rest();
    x.judge(true);
    x
}
/// The session is alive: a command and a response get through.
pub fn alive(x: &mut Session) {
    let b = line(id(), 0xA0);
    x.c.deliver(&b);
    x.want_s.extend(b);
    rest();
    x.judge(true);
    x.pass(line(id(), 0xE0));
    rest();
    x.judge(true);
}
/// The session is over: both connections are closed.
pub fn closed(n: usize) -> bool {
    !sock(2 * n).owned && !sock(2 * n + 1).owned
}
