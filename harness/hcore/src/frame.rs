//! Framing of received bytes: an independent reference receiver that sees the whole byte stream at
//! once, against the real client or server which gets it in arbitrary pieces.
use imap_codec::{
    decode::*,
    encode::Encoder,
    imap_types::{
        command::{Command, CommandBody},
        core::{LiteralMode, Text},
        model::Raw,
        response::*,
    },
    CommandCodec, GreetingCodec, ResponseCodec,
};
use imap_next::{client, server, Interrupt, Io, State};
use std::collections::VecDeque;

/// What a receiver reports.
#[derive(PartialEq)]
pub enum Item {
    Greeting(Greeting<'static>),
    Response(Response<'static>),
    Command(Command<'static>),
    Malformed(Vec<u8>),
    BareLf(Vec<u8>),
    LiteralTooLong(Vec<u8>),
    TooLong(Vec<u8>),
    /// Bytes a server sends on its own.
    Output(Vec<u8>),
}

pub enum Line {
    /// A line ends (exclusively) here.
    At(usize),
    BareLf(usize),
    More,
    TooLong(usize),
}
/// The line that starts at `from` of the message that starts at `start`.
pub fn line(s: &[u8], start: usize, from: usize, relaxed: bool, max: Option<usize>) -> Line {
    let limit = match max {
        Some(m) if s.len() - start >= m => start + m,
        _ => s.len(),
    };
    let mut i = from;
    while i < limit {
        if s[i] == b'\n' {
            return if relaxed || (i > from && s[i - 1] == b'\r') {
                Line::At(i + 1)
            } else {
                Line::BareLf(i + 1)
            };
        }
        i += 1;
    }
    if limit < s.len() || max == Some(limit - start) {
        Line::TooLong(limit)
    } else {
        Line::More
    }
}
/// Where a literal of `len` bytes ends.
pub fn literal(s: &[u8], start: usize, from: usize, len: u32, max: Option<usize>) -> Line {
    let limit = match max {
        Some(m) if s.len() - start >= m => start + m,
        _ => s.len(),
    };
    if (limit - from) as u64 >= len as u64 {
        Line::At(from + len as usize)
    } else if max == Some(limit - start) {
        Line::TooLong(limit)
    } else {
        Line::More
    }
}

/// Everything a client must report for the stream `s`.
pub fn client_items(s: &[u8], relaxed: bool) -> VecDeque<Item> {
    let mut items = VecDeque::with_capacity(16);
    let (mut start, mut from, mut greeted) = (0, 0, false);
    loop {
        match line(s, start, from, relaxed, None) {
            Line::More => return items,
            Line::TooLong(_) => unreachable!(),
            Line::BareLf(e) => {
                items.push_back(Item::BareLf(s[start..e].to_vec()));
                start = e;
                from = e;
            }
            Line::At(e) => {
                let m = &s[start..e];
                if !greeted {
                    match GreetingCodec::default().decode(m) {
                        Ok((_, g)) => {
                            items.push_back(Item::Greeting(g.into_static()));
                            greeted = true;
                        }
                        Err(_) => items.push_back(Item::Malformed(m.to_vec())),
                    }
                    start = e;
                    from = e;
                    continue;
                }
                match ResponseCodec::default().decode(m) {
                    Ok((_, r)) => items.push_back(Item::Response(r.into_static())),
                    Err(ResponseDecodeError::LiteralFound { length }) => {
                        match literal(s, start, e, length, None) {
                            Line::At(l) => {
                                from = l;
                                continue;
                            }
                            _ => return items,
                        }
                    }
                    Err(_) => items.push_back(Item::Malformed(m.to_vec())),
                }
                start = e;
                from = e;
            }
        }
    }
}

fn client_result(r: Result<client::Event, Interrupt<client::Error>>) -> Option<Item> {
    use client::{Error, Event};
    Some(match r {
        Ok(Event::GreetingReceived { greeting }) => Item::Greeting(greeting),
        Ok(Event::DataReceived { data }) => Item::Response(Response::Data(data)),
        Ok(Event::StatusReceived { status }) => Item::Response(Response::Status(status)),
        Ok(Event::ContinuationRequestReceived { continuation_request }) => {
            Item::Response(Response::CommandContinuationRequest(continuation_request))
        }
        Ok(_) => nd::fail("event about a command although none was enqueued"),
        Err(Interrupt::Io(Io::NeedMoreInput)) => return None,
        Err(Interrupt::Io(Io::Output(_))) => nd::fail("output although nothing was enqueued"),
        Err(Interrupt::Error(Error::ExpectedCrlfGotLf { discarded_bytes })) => {
            Item::BareLf(discarded_bytes.declassify().to_vec())
        }
        Err(Interrupt::Error(Error::MalformedMessage { discarded_bytes })) => {
            Item::Malformed(discarded_bytes.declassify().to_vec())
        }
    })
}

fn expect(want: &mut VecDeque<Item>, got: Item) {
    match &got {
        Item::Greeting(_) => nd::cover(1),
        Item::Response(_) => nd::cover(2),
        Item::Command(_) => nd::cover(3),
        Item::Malformed(_) => nd::cover(4),
        Item::BareLf(_) => nd::cover(5),
        Item::LiteralTooLong(_) => nd::cover(6),
        Item::TooLong(_) => nd::cover(7),
        Item::Output(_) => nd::cover(8),
    }
    match want.pop_front() {
        Some(w) => nd::check(w == got, "received bytes are reported differently"),
        None => nd::fail("something is reported that was not received"),
    }
}

/// `n` symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    let mut s = Vec::with_capacity(n);
    for _ in 0..n {
        s.push(nd::u8());
    }
    s
}

/// Where the stream is cut: everywhere independently, or in at most that many places.
#[derive(Clone, Copy)]
pub enum Cuts {
    Any,
    AtMost(u8),
}
fn cut_here(left: &mut Cuts) -> bool {
    match left {
        Cuts::Any => nd::flip(),
        Cuts::AtMost(0) => false,
        Cuts::AtMost(n) => {
            let c = nd::flip();
            *n -= c as u8;
            c
        }
    }
}

/// All streams of `pre` followed by `n` arbitrary bytes, in all ways of cutting the latter.
pub fn client(pre: &[u8], n: usize, relaxed: bool) {
    let mut s = pre.to_vec();
    s.extend(bytes(n));
    client_stream(s, pre.len(), relaxed, Cuts::Any)
}

/// The stream `s`, cut only after `pre` bytes.
pub fn client_stream(s: Vec<u8>, pre: usize, relaxed: bool, mut cuts: Cuts) {
    let mut o = client::Options::default();
    o.crlf_relaxed = relaxed;
    let mut c = client::Client::new(o);
    let mut want = client_items(&s, relaxed);
    let mut fed = 0;
    for end in pre + 1..=s.len() {
        if end < s.len() && !cut_here(&mut cuts) {
            continue;
        }
        c.enqueue_input(&s[fed..end]);
        fed = end;
        // What can be reported so far, and no more.
        let mut calls = 0;
        while let Some(got) = client_result(c.next()) {
            expect(&mut want, got);
            calls += 1;
            nd::check(calls <= s.len(), "client does not come to rest");
        }
        nd::check(
            client_items(&s[..fed], relaxed).len() + want.len() == client_items(&s, relaxed).len(),
            "a complete message is withheld",
        );
    }
    nd::check(want.is_empty(), "received message not reported");
}

pub struct ServerCfg {
    pub n: usize,
    pub relaxed: bool,
    pub max_literal: u32,
    pub max_command: u32,
    /// Commands may be AUTHENTICATE or IDLE.
    pub flows: bool,
}

pub fn accept() -> Vec<u8> {
    let t = Text::unvalidated("...");
    let r = CommandContinuationRequest::basic(None, t).unwrap();
    ResponseCodec::default().encode(&Response::CommandContinuationRequest(r)).dump()
}

/// Everything a server must report (and send on its own) for the stream `s` of commands.
pub fn server_items(s: &[u8], cfg: &ServerCfg) -> VecDeque<Item> {
    let mut items = VecDeque::with_capacity(16);
    let max = Some(cfg.max_command as usize);
    let (mut start, mut from) = (0, 0);
    loop {
        let end = match line(s, start, from, cfg.relaxed, max) {
            Line::More => return items,
            Line::TooLong(e) => {
                items.push_back(Item::TooLong(s[start..e].to_vec()));
                e
            }
            Line::BareLf(e) => {
                items.push_back(Item::BareLf(s[start..e].to_vec()));
                e
            }
            Line::At(e) => {
                let m = &s[start..e];
                match CommandCodec::default().decode(m) {
                    Ok((_, c)) => items.push_back(Item::Command(c.into_static())),
                    Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                        if length > cfg.max_literal {
                            items.push_back(Item::LiteralTooLong(m.to_vec()));
                            if mode == LiteralMode::Sync {
                                let t = Text::unvalidated("...");
                                let bad = Status::bad(Some(tag.into_static()), None, t).unwrap();
                                items.push_back(Item::Output(
                                    ResponseCodec::default().encode(&Response::Status(bad)).dump(),
                                ));
                            }
                        } else {
                            if mode == LiteralMode::Sync {
                                items.push_back(Item::Output(accept()));
                            }
                            match literal(s, start, e, length, max) {
                                Line::At(l) => {
                                    from = l;
                                    continue;
                                }
                                Line::TooLong(l) => {
                                    items.push_back(Item::TooLong(s[start..l].to_vec()));
                                    start = l;
                                    from = l;
                                    continue;
                                }
                                _ => return items,
                            }
                        }
                    }
                    Err(_) => items.push_back(Item::Malformed(m.to_vec())),
                }
                e
            }
        };
        start = end;
        from = end;
    }
}
use bounded_static::IntoBoundedStatic;

fn server_result(r: Result<server::Event, Interrupt<server::Error>>) -> Option<Item> {
    use server::{Error, Event};
    Some(match r {
        Ok(Event::CommandReceived { command }) => Item::Command(command),
        Ok(Event::CommandAuthenticateReceived { command_authenticate }) => {
            Item::Command(command_authenticate.into())
        }
        Ok(Event::IdleCommandReceived { tag }) => {
            Item::Command(Command { tag, body: CommandBody::Idle })
        }
        Ok(_) => nd::fail("unexpected event"),
        Err(Interrupt::Io(Io::NeedMoreInput)) => return None,
        Err(Interrupt::Io(Io::Output(b))) => Item::Output(b),
        Err(Interrupt::Error(e)) => match e {
            Error::ExpectedCrlfGotLf { discarded_bytes } => {
                Item::BareLf(discarded_bytes.declassify().to_vec())
            }
            Error::MalformedMessage { discarded_bytes } => {
                Item::Malformed(discarded_bytes.declassify().to_vec())
            }
            Error::LiteralTooLong { discarded_bytes } => {
                Item::LiteralTooLong(discarded_bytes.declassify().to_vec())
            }
            Error::CommandTooLong { discarded_bytes } => {
                Item::TooLong(discarded_bytes.declassify().to_vec())
            }
        },
    })
}

pub fn greeting() -> Greeting<'static> {
    Greeting { kind: GreetingKind::Ok, code: None, text: Text::model(Raw::one(b'g')) }
}
/// A server that has sent its greeting.
pub fn greeted(o: server::Options) -> server::Server {
    let mut s = server::Server::new(o, greeting());
    match s.next() {
        Err(Interrupt::Io(Io::Output(b))) => {
            nd::check(b == GreetingCodec::default().encode(&greeting()).dump(), "wrong greeting")
        }
        _ => nd::fail("greeting not sent first"),
    }
    match s.next() {
        Ok(server::Event::GreetingSent { greeting: g }) => {
            nd::check(g == greeting(), "wrong greeting reported")
        }
        _ => nd::fail("greeting not reported"),
    }
    s
}

pub fn server(cfg: &ServerCfg) {
    server_stream(bytes(cfg.n), cfg, Cuts::Any)
}
pub fn server_stream(s: Vec<u8>, cfg: &ServerCfg, mut cuts: Cuts) {
    let mut o = server::Options::default();
    o.crlf_relaxed = cfg.relaxed;
    o.max_literal_size = cfg.max_literal;
    o.max_command_size = cfg.max_command;
    let mut srv = greeted(o);
    let mut want = server_items(&s, cfg);
    for w in &want {
        // AUTHENTICATE and IDLE change what is expected next: see the flow checks.
        if let Item::Command(c) = w {
            nd::assume(!matches!(c.body, CommandBody::Authenticate { .. } | CommandBody::Idle));
        }
    }
    let total = want.len();
    let mut fed = 0;
    for end in 1..=s.len() {
        if end < s.len() && !cut_here(&mut cuts) {
            continue;
        }
        srv.enqueue_input(&s[fed..end]);
        fed = end;
        let mut calls = 0;
        while let Some(got) = server_result(srv.next()) {
            expect(&mut want, got);
            calls += 1;
            nd::check(calls <= 2 * s.len(), "server does not come to rest");
        }
        nd::check(
            server_items(&s[..fed], cfg).len() + want.len() == total,
            "a complete message is withheld",
        );
    }
    nd::check(want.is_empty(), "received message not reported");
}

/// A stream made of `n` well-formed or broken messages: every literal is followed by its data (any
/// bytes, line endings included) and the rest of the line.
pub fn messages(n: usize, lits: u8, server: bool, relaxed: bool, last: u8) -> Vec<u8> {
    let mut s = Vec::with_capacity(64);
    for i in 0..n {
        // Code bytes: data/command, literal, malformed.
        let literals = nd::choose(lits + 1);
        s.push(id());
        for _ in 0..literals {
            let len = nd::choose(3);
            let mut k = 0x20 | len | nd::below(8) << 2;
            if !server {
                k = 0x20 | len;
            }
            s.push(k);
            if !relaxed || nd::flip() {
                s.push(b'\r');
            }
            s.push(b'\n');
            for _ in 0..len {
                s.push(nd::u8());
            }
        }
        let k = match nd::choose(if i + 1 == n { last } else { 2 }) {
            0 => 0xE0 | nd::below(32),
            1 => nd::below(2),
            _ => 0x80 | nd::below(64),
        };
        s.push(k);
        if nd::choose(4) != 0 || relaxed {
            s.push(b'\r');
        }
        s.push(b'\n');
    }
    s
}
use crate::util::id;
