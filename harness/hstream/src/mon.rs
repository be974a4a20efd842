//! The network and the state machine around a `Stream`, both nondeterministic, and what must hold
//! after every poll.
use imap_next::{
    stream::{Error, Stream},
    Interrupt, Io, State,
};
use rustls::{record, record::Sealer, ClientConnection, ServerConnection};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
use tokio::net::{sock, TcpStream, Tx};
use tokio_rustls::TlsStream;

pub use record::{ASK, CLOSE, DATA, NOTE};
/// A record that cannot be deciphered.
pub const BAD: u8 = 0xF0;

#[derive(Clone, Copy, PartialEq)]
pub enum Tls {
    No,
    /// Either side of a TLS connection.
    Any,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub tls: Tls,
    /// Polls after which nothing new happens.
    pub polls: u8,
    /// Results of the state machine other than "needs more input".
    pub steps: u8,
    /// Bytes that may arrive per poll (TLS: pieces of a record).
    pub deliver: u8,
    /// Bytes the network may accept per poll.
    pub window: u8,
    /// ... in total.
    pub bytes: u8,
    pub room: u8,
    /// Longest output.
    pub outs: u8,
    /// Events and errors of the state machine.
    pub results: bool,
    pub errors: bool,
    /// How often a pending operation is dropped.
    pub cancels: u8,
    /// How often `flush` is called.
    pub flushes: u8,
    pub rx_faults: bool,
    pub tx_faults: bool,
    pub spurious: u8,
    pub partials: u8,
    /// Kinds of TLS records.
    pub kinds: &'static [u8],
    /// Records received together with the end of the handshake (at most).
    pub early: u8,
    /// At the end, the stream is flushed and turned back into its socket.
    pub convert: bool,
    /// How many bytes `deliver`, `window` and `outs` count (and records, `early`).
    pub unit: usize,
}

/// What the state machine returned last.
#[derive(Clone, Copy, PartialEq)]
enum Last {
    Nothing,
    More,
    Output,
    Event(u8),
    Error(u8),
}
struct Machine {
    cfg: Cfg,
    left: u8,
    input: Vec<u8>,
    outs: Vec<u8>,
    last: Last,
    /// Calls of `next`.
    calls: u32,
}
static mut MACHINE: Option<Machine> = None;
#[allow(static_mut_refs)]
fn machine() -> &'static mut Machine {
    unsafe { MACHINE.as_mut().unwrap() }
}
/// The state machine a stream is used with.
struct Mock;
impl State for Mock {
    type Event = u8;
    type Error = u8;
    fn enqueue_input(&mut self, bytes: &[u8]) {
        machine().input.extend_from_slice(bytes);
    }
    fn next(&mut self) -> Result<u8, Interrupt<u8>> {
        let m = machine();
        m.calls += 1;
        nd::check(m.calls < 60 || m.cfg.unit > 1, "stream does not come to rest");
        let kinds = 1 + (m.cfg.outs > 0) as u8 + m.cfg.results as u8 + m.cfg.errors as u8;
        // In bulk, only the first and a few of the later calls have results.
        let mut k = if m.left == 0 || m.cfg.unit > 1 && m.calls > 3 && (m.calls % 8 != 0 || m.cfg.unit > 10_000) { 0 } else { nd::choose(kinds) };
        if k == 0 {
            m.last = Last::More;
            return Err(Interrupt::Io(Io::NeedMoreInput));
        }
        m.left -= 1;
        if k >= 1 && m.cfg.outs == 0 {
            k += 1;
        }
        if k >= 2 && !m.cfg.results {
            k += 1;
        }
        match k {
            1 => {
                nd::cover(1);
                // (The largest outputs grow.)
                let n = if m.cfg.outs > 8 { m.cfg.outs } else if m.cfg.unit > 10_000 { m.cfg.steps - m.left } else { 1 + nd::choose(m.cfg.outs) };
                let mut b = Vec::with_capacity(16);
                for _ in 0..n as usize * m.cfg.unit {
                    b.push(nd::u8());
                }
                m.outs.extend_from_slice(&b);
                m.last = Last::Output;
                Err(Interrupt::Io(Io::Output(b)))
            }
            2 => {
                let e = nd::u8();
                m.last = Last::Event(e);
                Ok(e)
            }
            _ => {
                let e = nd::u8();
                m.last = Last::Error(e);
                Err(Interrupt::Error(e))
            }
        }
    }
}

struct Record {
    /// Kind and content.
    kind: u8,
    data: Vec<u8>,
    /// Number of bytes on the wire up to its end.
    end: usize,
}
struct Peer {
    cfg: Cfg,
    /// Bytes put on the wire towards the stream, and those of them not delivered.
    wire: Vec<u8>,
    delivered: usize,
    records: Vec<Record>,
    seal: Sealer,
    open: Sealer,
    eof: bool,
    /// Left of the totals.
    bytes: u8,
    room: u8,
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
impl Peer {
    /// A record of one of the configured kinds.
    fn record(&mut self) {
        let kind = self.cfg.kinds[nd::choose(self.cfg.kinds.len() as u8) as usize];
        let n = match kind {
            DATA if self.cfg.unit > 1 => 8,
            DATA => 1 + nd::choose(2),
            _ => 0,
        };
        let mut data = Vec::with_capacity(8);
        for _ in 0..n {
            data.push(nd::u8());
        }
        let bytes = self.seal.seal(kind, &data);
        self.wire.extend_from_slice(&bytes);
        self.records.push(Record { kind, data, end: self.wire.len() });
    }
    /// What the network does before a poll.
    fn act(&mut self) {
        let s = sock(0);
        if !self.eof {
            let most = self.cfg.deliver.min(self.bytes);
            let n = nd::choose(most + 1 + 2 * self.cfg.rx_faults as u8);
            if n > most {
                self.eof = true;
                if n == most + 1 {
                    s.eof = true;
                } else {
                    s.rx_err = true;
                }
            } else {
                self.bytes -= n;
                for _ in 0..n as usize * self.cfg.unit {
                    if self.delivered == self.wire.len() {
                        if self.cfg.tls == Tls::No {
                            self.wire.push(nd::u8());
                        } else {
                            self.record();
                        }
                    }
                    s.rx.push_back(self.wire[self.delivered]);
                    self.delivered += 1;
                }
            }
        }
        if s.tx_mode == Tx::Open {
            let most = self.cfg.window.min(self.room);
            let n = nd::choose(most + 1 + 2 * self.cfg.tx_faults as u8);
            if n > most {
                s.window = 0;
                s.tx_mode = if n == most + 1 { Tx::Zero } else { Tx::Broken };
            } else {
                self.room -= n;
                s.window += n as usize * self.cfg.unit;
            }
        }
    }
    /// What must have been handed to the state machine when `taken` bytes were read; answers to send; a bad record.
    fn input(&self, taken: usize) -> (Vec<u8>, usize, bool) {
        if self.cfg.tls == Tls::No {
            return (self.wire[..taken].to_vec(), 0, false);
        }
        let (mut b, mut asks) = (Vec::with_capacity(16), 0);
        for r in &self.records {
            // A bad record shows with its first byte.
            if r.end > taken && !(r.kind == BAD && r.end - 1 < taken) {
                break;
            }
            match r.kind {
                DATA => b.extend_from_slice(&r.data),
                ASK => {
                    nd::cover(13);
                    asks += 1
                }
                CLOSE => {
                    nd::cover(14);
                    break;
                }
                BAD => return (b, asks, true),
                _ => {}
            }
        }
        (b, asks, false)
    }
    /// Content of what was written: output, answers; whether it ends with a whole record.
    fn output(&self) -> (Vec<u8>, usize, bool) {
        let tx = &sock(0).tx;
        if self.cfg.tls == Tls::No {
            return (tx.clone(), 0, true);
        }
        let (mut b, mut replies, mut i) = (Vec::with_capacity(16), 0, 0);
        let mut open = self.open;
        while i < tx.len() {
            let n = (tx[i] & 0xf) as usize;
            if i + 1 + n > tx.len() {
                return (b, replies, false);
            }
            let mut data = [0; 8];
            nd::check(n <= 8, "not a record");
            for k in 0..n {
                data[k] = tx[i + 1 + k];
            }
            open.open(&mut data[..n]);
            match tx[i] & 0xf0 {
                DATA => b.extend_from_slice(&data[..n]),
                record::REPLY => replies += 1,
                _ => nd::fail("unexpected record sent"),
            }
            i += 1 + n;
        }
        (b, replies, true)
    }

    /// What holds after every poll. Returns what is missing in the output.
    fn invariants(&self, pending_next: bool) -> (usize, bool) {
        let (s, m) = (sock(0), machine());
        let (want, asks, _) = self.input(s.taken);
        // Input: exactly the bytes received, in order; all of them when waiting for more.
        nd::check(m.input.len() <= want.len(), "more input than was received");
        nd::check(same(&m.input, &want[..m.input.len()]), "received bytes were changed, lost or reordered");
        if pending_next {
            nd::check(m.input.len() == want.len(), "received bytes are withheld");
        }
        // Output: exactly the bytes the machine gave, in order.
        let (sent, replies, whole) = self.output();
        nd::check(sent.len() <= m.outs.len(), "more output than was given");
        nd::check(same(&sent, &m.outs[..sent.len()]), "output was changed, lost or reordered");
        nd::check(replies <= asks, "TLS message sent unasked");
        let missing = (m.outs.len() - sent.len()) + (asks - replies);
        if missing == 0 {
            nd::cover(2);
        }
        (missing, whole)
    }
}

pub fn run(cfg: &Cfg) {
    let mut peer = Peer {
        cfg: *cfg,
        wire: Vec::with_capacity(32),
        delivered: 0,
        records: Vec::with_capacity(16),
        seal: Sealer::default(),
        open: Sealer::default(),
        eof: false,
        bytes: cfg.bytes,
        room: cfg.room,
    };
    unsafe {
        MACHINE = Some(Machine {
            cfg: *cfg,
            left: cfg.steps,
            input: Vec::with_capacity(32),
            outs: Vec::with_capacity(32),
            last: Last::Nothing,
            calls: 0,
        });
    }
    if cfg.unit > 1 {
        *tokio::rt::orders() = 3;
    }
    if cfg.rx_faults || cfg.tx_faults {
        *tokio::net::kinds() = 10;
    }
    let s = sock(0);
    s.spurious = cfg.spurious;
    s.partial = cfg.partials > 0;
    s.partials = cfg.partials;
    let tcp = TcpStream::model(0);
    let mut stream = if cfg.tls == Tls::No {
        Stream::insecure(tcp)
    } else {
        let client = nd::flip();
        peer.seal.key = if client { record::KEY_SERVER } else { record::KEY_CLIENT };
        peer.open.key = if client { record::KEY_CLIENT } else { record::KEY_SERVER };
        for _ in 0..nd::choose(cfg.early + 1) as usize * cfg.unit {
            peer.record();
        }
        let early = std::mem::take(&mut peer.wire);
        for r in peer.records.iter_mut() {
            nd::cover(15);
            r.end = 0;
        }
        Stream::tls(if client {
            TlsStream::Client(tokio_rustls::client::TlsStream { io: tcp, session: ClientConnection::model(&early) })
        } else {
            TlsStream::Server(tokio_rustls::server::TlsStream { io: tcp, session: ServerConnection::model(&early) })
        })
    };

    let mut polls = cfg.polls;
    let (mut cancels, mut flushes) = (cfg.cancels, cfg.flushes);
    loop {
        // At the end nothing is in the way.
        if polls == 0 && sock(0).tx_mode == Tx::Open {
            sock(0).window = 100 * cfg.unit;
        }
        let flush = flushes > 0 && nd::flip();
        if flush {
            flushes -= 1;
            if operation(&mut peer, stream.flush(), true, &mut polls, &mut cancels, |_| None) == End::Stop {
                break;
            }
        } else if operation(&mut peer, stream.next(Mock), false, &mut polls, &mut cancels, |r| r) == End::Stop {
            break;
        }
    }
    if cfg.convert {
        sock(0).window = 100 * cfg.unit;
        if operation(&mut peer, stream.flush(), true, &mut 0, &mut 0, |_| None) == End::Done {
            nd::cover(20);
            let tcp = TcpStream::from(stream);
            let s = sock(0);
            nd::check(s.owned && !s.shutdown, "the socket was closed");
            nd::check(same(&machine().input, &peer.wire[..s.taken]), "received bytes are lost with the stream");
            nd::check(same(&s.tx, &machine().outs), "output is lost with the stream");
            drop(tcp);
        }
    }
}

#[derive(PartialEq)]
enum End {
    /// The operation ended or was dropped.
    Done,
    /// Nothing more to explore.
    Stop,
}
trait Value {
    fn event(self) -> Option<u8>;
}
impl Value for u8 {
    fn event(self) -> Option<u8> {
        Some(self)
    }
}
impl Value for () {
    fn event(self) -> Option<u8> {
        None
    }
}

fn operation<T: Value, E: Copy>(
    peer: &mut Peer,
    op: impl Future<Output = Result<T, Error<E>>>,
    flush: bool,
    polls: &mut u8,
    cancels: &mut u8,
    state_error: fn(Option<E>) -> Option<E>,
) -> End
where
    Option<E>: AsByte,
{
    let mut op = op;
    // Not moved afterwards.
    let mut op = unsafe { Pin::new_unchecked(&mut op) };
    let waker = tokio::rt::waker();
    loop {
        let s = sock(0);
        let last = *polls == 0;
        if !last {
            *polls -= 1;
            peer.act();
        } else {
            s.spurious = 0;
            if s.tx_mode == Tx::Open {
                s.window = 100 * peer.cfg.unit;
            }
        }
        s.wait_read = false;
        s.wait_write = false;
        let told = (s.told_eof, s.told_err, s.told_zero);
        nd::check(told == (false, false, false), "a failure of the connection was not reported");
        let m = machine();
        m.last = Last::Nothing;
        let calls = m.calls;
        let taken = s.taken;
        let r = op.as_mut().poll(&mut Context::from_waker(&waker));
        if flush {
            nd::check(machine().calls == calls, "flush drives the state machine");
        }
        let m = machine();
        let (missing, whole) = peer.invariants(r.is_pending() && !flush);
        let (_, _, bad) = peer.input(s.taken);
        let told = s.told_eof || s.told_err || s.told_zero;
        match r {
            Poll::Pending => {
                nd::check(!told, "a failure of the connection was not reported");
                nd::check(!bad || flush, "a TLS failure was not reported");
                if flush {
                    nd::cover(3);
                    nd::check(s.wait_write, "flush waits for nothing");
                    nd::check(missing > 0 || !whole, "flush waits although everything is sent");
                } else {
                    nd::cover(4);
                    nd::check(
                        matches!(m.last, Last::More | Last::Output) || calls == m.calls,
                        "a result of the state machine is withheld",
                    );
                    nd::check(m.last != Last::Nothing || s.taken == taken, "received bytes are withheld");
                    nd::check(s.wait_read, "stream does not wait for input");
                    if missing > 0 || !whole {
                        nd::cover(5);
                        nd::check(s.wait_write, "stream does not wait for sending its output");
                    }
                }
                if last {
                    nd::check(s.rx.is_empty(), "stream rests although there is input");
                    nd::check(s.window == 0 || missing == 0 && whole, "stream rests although there is output");
                    return End::Stop;
                }
                if *cancels > 0 && nd::flip() {
                    nd::cover(6);
                    *cancels -= 1;
                    return End::Done;
                }
            }
            Poll::Ready(Ok(v)) => {
                nd::check(!told, "a failure of the connection was not reported");
                if flush {
                    nd::cover(7);
                    nd::check(missing == 0 && whole, "flushed, but output is not sent");
                } else {
                    nd::cover(8);
                    nd::check(m.last == Last::Event(v.event().unwrap()), "wrong event returned");
                }
                return End::Done;
            }
            Poll::Ready(Err(Error::State(e))) => {
                nd::cover(9);
                match state_error(Some(e)).byte() {
                    Some(e) => nd::check(m.last == Last::Error(e), "wrong error returned"),
                    None => nd::fail("flush returns an error of the state machine"),
                }
                nd::check(!told, "a failure of the connection was not reported");
                return End::Done;
            }
            Poll::Ready(Err(Error::Closed)) => {
                nd::cover(10);
                nd::check(s.told_eof || s.told_zero, "closed reported although it is not");
                nd::check(!s.told_err, "an error was not reported");
                return End::Stop;
            }
            Poll::Ready(Err(Error::Io(e))) => {
                nd::cover(11);
                nd::check(Some(e.kind()) == s.told_kind, "another I/O error was reported");
                nd::check(s.told_err, "I/O error reported although there was none");
                return End::Stop;
            }
            Poll::Ready(Err(Error::Tls(_))) => {
                nd::cover(12);
                nd::check(bad, "TLS error reported although there was none");
                return End::Stop;
            }
        }
        if last && flush && s.tx_mode != Tx::Open {
            return End::Stop;
        }
    }
}
pub trait AsByte {
    fn byte(self) -> Option<u8>;
}
impl AsByte for Option<u8> {
    fn byte(self) -> Option<u8> {
        self
    }
}
impl AsByte for Option<std::convert::Infallible> {
    fn byte(self) -> Option<u8> {
        None
    }
}
