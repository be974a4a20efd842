//! A real client and a real server, each behind a real `Stream`, connected by a network that holds
//! only a few bytes per direction. Whatever the order in which the two are polled, everything
//! arrives and the two never block each other.
use bounded_static::IntoBoundedStatic;
use imap_codec::{
    encode::Encoder,
    imap_types::{
        command::{Command, CommandBody},
        core::{Tag, Text},
        model::Raw,
        response::*,
    },
    CommandCodec, ResponseCodec,
};
use imap_next::{
    client::{self, Client},
    server::{self, Server},
    stream::Stream,
};
use rustls::{ClientConnection, ServerConnection};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
use tokio::net::{sock, TcpStream};
use tokio_rustls::TlsStream;

pub struct Cfg {
    pub tls: bool,
    /// Commands of the client, all enqueued at once.
    pub cmds: u8,
    /// Responses of the server, enqueued before the first command arrives.
    pub datas: u8,
    /// Bytes that fit on each direction of the network.
    pub capacity: usize,
    /// Turns in arbitrary order (afterwards the two alternate).
    pub turns: u8,
    pub orders: u32,
}

/// What happened so far.
struct Log {
    commands: Vec<Command<'static>>,
    received: usize,
    sent: usize,
    datas: Vec<u8>,
    heard: usize,
    answered: usize,
    dones: usize,
}
static mut LOG: Log =
    Log { commands: Vec::new(), received: 0, sent: 0, datas: Vec::new(), heard: 0, answered: 0, dones: 0 };
#[allow(static_mut_refs)]
fn log() -> &'static mut Log {
    unsafe { &mut LOG }
}

fn text(b: u8) -> Text<'static> {
    Text::model(Raw::one(b))
}
fn id() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 0x20);
    v
}

async fn client_side(mut stream: Stream, mut c: Client) {
    use client::Event;
    loop {
        match stream.next(&mut c).await {
            Ok(Event::GreetingReceived { .. }) => nd::cover(1),
            Ok(Event::CommandSent { command, .. }) => {
                let l = log();
                nd::check(l.sent < l.commands.len() && l.commands[l.sent] == command, "wrong command reported");
                l.sent += 1;
            }
            Ok(Event::DataReceived { data: Data::Model(raw) }) => {
                let l = log();
                // The first byte identifies the response.
                nd::check(l.heard < l.datas.len() && l.datas[l.heard] == raw.buf[0], "wrong data received");
                l.heard += 1;
            }
            Ok(Event::StatusReceived { .. }) => {
                log().dones += 1;
            }
            Ok(_) => nd::fail("unexpected event"),
            Err(_) => nd::fail("client does not understand the server"),
        }
    }
}
async fn server_side(mut stream: Stream, mut s: Server) {
    use server::Event;
    loop {
        match stream.next(&mut s).await {
            Ok(Event::GreetingSent { .. }) => nd::cover(2),
            Ok(Event::CommandReceived { command }) => {
                let l = log();
                nd::check(l.received < l.commands.len(), "a command arrived that was not sent");
                let want = &l.commands[l.received];
                let all = CommandCodec::default().encode(want).dump();
                let same = match &command.body {
                    CommandBody::Model { raw } => (command.tag == want.tag) & (*raw == Raw::of(&all)),
                    _ => command == *want,
                };
                nd::check(same, "a different command arrived");
                l.received += 1;
                let body = StatusBody { kind: StatusKind::Ok, code: None, text: text(b'd') };
                s.enqueue_status(Status::Tagged(Tagged { tag: command.tag, body }));
            }
            Ok(Event::ResponseSent { .. }) => log().answered += 1,
            Ok(_) => nd::fail("unexpected event"),
            Err(_) => nd::fail("server does not understand the client"),
        }
    }
}

/// Moves bytes from one socket to the other; afterwards the network has room again for what was
/// read.
fn carry(capacity: usize) -> bool {
    let mut any = false;
    for (from, to) in [(0, 1), (1, 0)] {
        let (a, b) = (sock(from), sock(to));
        any |= !a.tx.is_empty();
        let bytes = std::mem::take(&mut a.tx);
        b.rx.extend(bytes);
        nd::check(b.rx.len() <= capacity, "network overflows");
        a.window = capacity - b.rx.len();
    }
    any
}

pub fn run(cfg: &Cfg) {
    *tokio::rt::orders() = cfg.orders;
    let greeting = Greeting { kind: GreetingKind::Ok, code: None, text: text(b'g') };
    let mut s = Server::new(server::Options::default(), greeting);
    let mut c = Client::new(client::Options::default());
    let l = log();
    for i in 0..cfg.cmds {
        let body = match if cfg.cmds > 4 { i % 3 } else { nd::choose(3) } {
            0 => CommandBody::Noop,
            k => {
                let mut raw = Raw::one(id());
                // One synchronizing literal; two non-synchronizing ones.
                raw.buf[1] = if k == 1 { 0b000101 } else { 0b000010 };
                raw.len = 2;
                CommandBody::Model { raw }
            }
        };
        let command = Command { tag: Tag::model(i & 3), body };
        c.enqueue_command(command.clone());
        l.commands.push(command);
    }
    for _ in 0..cfg.datas {
        let mut raw = Raw::one(id());
        raw.len = 2;
        l.datas.push(ResponseCodec::default().encode(&Response::Data(Data::Model(raw))).dump()[0]);
        s.enqueue_data(Data::Model(raw));
    }
    let (a, b) = (TcpStream::model(0), TcpStream::model(1));
    let (a, b) = if cfg.tls {
        (
            Stream::tls(TlsStream::Client(tokio_rustls::client::TlsStream { io: a, session: ClientConnection::model(&[]) })),
            Stream::tls(TlsStream::Server(tokio_rustls::server::TlsStream { io: b, session: ServerConnection::model(&[]) })),
        )
    } else {
        (Stream::insecure(a), Stream::insecure(b))
    };
    let mut sides: [Pin<Box<dyn Future<Output = ()>>>; 2] =
        [Box::pin(client_side(a, c)), Box::pin(server_side(b, s))];
    let waker = tokio::rt::waker();
    let mut cx = Context::from_waker(&waker);
    carry(cfg.capacity);
    let mut quiet = 0;
    let mut turn = 0;
    let mut n = 0;
    while quiet < 2 {
        if n < cfg.turns as u32 {
            turn = nd::choose(2) as usize;
        } else {
            turn = 1 - turn;
        }
        let taken = sock(turn).taken;
        match sides[turn].as_mut().poll(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(()) => nd::fail("connection ended"),
        }
        let moved = carry(cfg.capacity) || sock(turn).taken != taken;
        quiet = if moved || n < cfg.turns as u32 { 0 } else { quiet + 1 };
        n += 1;
        nd::check(n < 2000, "the two do not come to rest");
    }
    let l = log();
    nd::check(l.received == l.commands.len() && l.sent == l.commands.len(), "a command got stuck");
    nd::check(l.heard == l.datas.len() && l.dones == l.commands.len(), "a response got stuck");
    nd::check(l.answered == l.datas.len() + l.commands.len(), "a sent response is not reported");
    nd::cover(3);
}
#[allow(unused_imports)]
use IntoBoundedStatic as _;
