//! Model of `tokio::net`. Sockets live in a table that the harness plays the network with: it delivers
//! bytes, closes, injects errors and opens the send window; how many of the available bytes a read or
//! write transfers is nondeterministic.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::{
    collections::VecDeque,
    io::{self, ErrorKind, IoSlice},
    net::{Ipv4Addr, SocketAddr, SocketAddrV4},
    pin::Pin,
    task::{Context, Poll},
};

/// What a write does when the window is closed.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tx {
    /// Wait.
    Open,
    /// Accept no more bytes (`Ok(0)`).
    Zero,
    /// Fail.
    Broken,
}

pub struct Sock {
    /// Bytes that arrived and were not read yet.
    pub rx: VecDeque<u8>,
    /// The peer closed its side.
    pub eof: bool,
    /// Reading fails (after the bytes that arrived before).
    pub rx_err: bool,
    /// Number of bytes read.
    pub taken: usize,
    /// Bytes accepted for sending.
    pub tx: Vec<u8>,
    /// How many more bytes the network accepts now.
    pub window: usize,
    pub tx_mode: Tx,
    /// How often reads/writes may report "not ready" although they are.
    pub spurious: u8,
    /// Reads and writes transfer any number of bytes (otherwise as many as possible).
    pub partial: bool,
    /// How often a partial transfer may happen.
    pub partials: u8,
    /// Set when a read/write reported "not ready": the task will be woken when that changes.
    pub wait_read: bool,
    pub wait_write: bool,
    /// The program was told about end of file / errors.
    pub told_eof: bool,
    pub told_err: bool,
    /// Of what kind it was.
    pub told_kind: Option<ErrorKind>,
    pub told_zero: bool,
    /// Shut down by the program.
    pub shutdown: bool,
    /// The program still owns the socket.
    pub owned: bool,
}
impl Sock {
    const fn new() -> Self {
        Sock {
            rx: VecDeque::new(),
            eof: false,
            rx_err: false,
            taken: 0,
            tx: Vec::new(),
            window: 0,
            tx_mode: Tx::Open,
            spurious: 0,
            partial: false,
            partials: 255,
            wait_read: false,
            wait_write: false,
            told_eof: false,
            told_err: false,
            told_kind: None,
            told_zero: false,
            shutdown: false,
            owned: false,
        }
    }
}
static mut SOCKS: Vec<Box<Sock>> = Vec::new();

/// Access for the harness.
#[allow(static_mut_refs)]
pub fn sock(id: usize) -> &'static mut Sock {
    unsafe {
        while SOCKS.len() <= id {
            SOCKS.push(Box::new(Sock::new()));
        }
        &mut SOCKS[id]
    }
}
/// How many there are.
#[allow(static_mut_refs)]
pub fn sockets() -> usize {
    unsafe { SOCKS.len() }
}

fn amount(s: &mut Sock, max: usize) -> usize {
    if s.partial && s.partials > 0 && max > 1 {
        let n = 1 + nd::choose(max.min(250) as u8) as usize;
        if n < max {
            s.partials -= 1;
        }
        n
    } else {
        max
    }
}
fn spurious(s: &mut Sock) -> bool {
    if s.spurious > 0 && nd::flip() {
        s.spurious -= 1;
        true
    } else {
        false
    }
}
/// Failures are the usual one or one of the first so many of other kinds.
pub fn kinds() -> &'static mut u8 {
    static mut KINDS: u8 = 0;
    #[allow(static_mut_refs)]
    unsafe {
        &mut KINDS
    }
}
pub fn any(usual: ErrorKind) -> io::Error {
    use ErrorKind::*;
    let others = [
        UnexpectedEof, TimedOut, Other, ConnectionAborted, BrokenPipe, ConnectionReset, NotConnected, HostUnreachable,
        PermissionDenied, InvalidData,
    ];
    match nd::choose(*kinds() + 1) {
        0 => usual.into(),
        n => others[n as usize - 1].into(),
    }
}
fn failure(s: &mut Sock, usual: ErrorKind) -> io::Error {
    s.told_err = true;
    let e = any(usual);
    s.told_kind = Some(e.kind());
    e
}

fn do_read(id: usize, out: &mut [u8]) -> io::Result<usize> {
    let s = sock(id);
    if out.is_empty() {
        return Ok(0);
    }
    if s.rx.is_empty() {
        if s.rx_err {
            return Err(failure(s, ErrorKind::ConnectionReset));
        }
        if s.eof {
            s.told_eof = true;
            return Ok(0);
        }
        return Err(ErrorKind::WouldBlock.into());
    }
    if spurious(s) {
        return Err(ErrorKind::WouldBlock.into());
    }
    let n = amount(s, s.rx.len().min(out.len()));
    for o in out[..n].iter_mut() {
        *o = s.rx.pop_front().unwrap();
    }
    s.taken += n;
    Ok(n)
}
fn do_write(id: usize, data: &[u8]) -> io::Result<usize> {
    let s = sock(id);
    if s.shutdown {
        return Err(ErrorKind::BrokenPipe.into());
    }
    if data.is_empty() {
        return Ok(0);
    }
    if s.window == 0 {
        return match s.tx_mode {
            Tx::Open => Err(ErrorKind::WouldBlock.into()),
            Tx::Zero => {
                s.told_zero = true;
                Ok(0)
            }
            Tx::Broken => Err(failure(s, ErrorKind::ConnectionReset)),
        };
    }
    if spurious(s) {
        return Err(ErrorKind::WouldBlock.into());
    }
    let n = amount(s, s.window.min(data.len()));
    s.window -= n;
    s.tx.extend_from_slice(&data[..n]);
    Ok(n)
}
fn blocked(e: &io::Error) -> bool {
    e.kind() == ErrorKind::WouldBlock
}

fn poll_read(id: usize, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    match do_read(id, buf.initialize_unfilled()) {
        Ok(n) => {
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
        Err(e) if blocked(&e) => {
            sock(id).wait_read = true;
            Poll::Pending
        }
        Err(e) => Poll::Ready(Err(e)),
    }
}
fn poll_write(id: usize, data: &[u8]) -> Poll<io::Result<usize>> {
    match do_write(id, data) {
        Err(e) if blocked(&e) => {
            sock(id).wait_write = true;
            Poll::Pending
        }
        r => Poll::Ready(r),
    }
}
fn readable(id: usize) -> bool {
    let s = sock(id);
    !s.rx.is_empty() || s.eof || s.rx_err
}
fn writable(id: usize) -> bool {
    let s = sock(id);
    s.window > 0 || s.tx_mode != Tx::Open || s.shutdown
}

macro_rules! reader {
    ($($t:ty),*) => {$(
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                poll_read(self.id(), buf)
            }
        }
        impl $t {
            pub async fn readable(&self) -> io::Result<()> {
                std::future::poll_fn(|_| {
                    if readable(self.id()) {
                        Poll::Ready(Ok(()))
                    } else {
                        sock(self.id()).wait_read = true;
                        Poll::Pending
                    }
                })
                .await
            }
            pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                do_read(self.id(), buf)
            }
            pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                let max = buf.remaining_mut().min(sock(self.id()).rx.len().max(1));
                let mut tmp = vec![0; max];
                let n = do_read(self.id(), &mut tmp)?;
                buf.put_slice(&tmp[..n]);
                Ok(n)
            }
            pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
                self.readable().await?;
                let s = sock(self.id());
                let n = s.rx.len().min(buf.len());
                for i in 0..n {
                    buf[i] = s.rx[i];
                }
                Ok(n)
            }
        }
    )*};
}
macro_rules! writer {
    ($($t:ty),*) => {$(
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
                poll_write(self.id(), data)
            }
            fn poll_write_vectored(self: Pin<&mut Self>, _: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
                let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
                poll_write(self.id(), &all)
            }
            fn is_write_vectored(&self) -> bool {
                true
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                sock(self.id()).shutdown = true;
                Poll::Ready(Ok(()))
            }
        }
        impl $t {
            pub async fn writable(&self) -> io::Result<()> {
                std::future::poll_fn(|_| {
                    if writable(self.id()) {
                        Poll::Ready(Ok(()))
                    } else {
                        sock(self.id()).wait_write = true;
                        Poll::Pending
                    }
                })
                .await
            }
            pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                do_write(self.id(), buf)
            }
            pub fn try_write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
                let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
                do_write(self.id(), &all)
            }
        }
    )*};
}

/// A connection.
#[derive(Debug)]
pub struct TcpStream {
    id: usize,
}
impl TcpStream {
    fn id(&self) -> usize {
        self.id
    }
    /// The socket with this number (for the harness).
    pub fn model(id: usize) -> Self {
        sock(id).owned = true;
        TcpStream { id }
    }
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let w = world();
        let n = w.connected.len();
        w.connected.push(addr.text());
        std::future::poll_fn(|_| match world().connects[n] {
            Connect::Wait => Poll::Pending,
            Connect::Refuse => Poll::Ready(Err(any(ErrorKind::ConnectionRefused))),
            Connect::Accept(id) => Poll::Ready(Ok(TcpStream::model(id))),
        })
        .await
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(self), tcp::WriteHalf(self))
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = std::sync::Arc::new(self);
        (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(1000 + self.id as u16))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(143))
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
        std::future::poll_fn(|_| {
            let r = Ready {
                read: interest.read && readable(self.id),
                write: interest.write && writable(self.id),
            };
            if r.read || r.write {
                return Poll::Ready(Ok(r));
            }
            let s = sock(self.id);
            s.wait_read |= interest.read;
            s.wait_write |= interest.write;
            Poll::Pending
        })
        .await
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        sock(self.id).owned = false;
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Interest {
    read: bool,
    write: bool,
}
impl Interest {
    pub const READABLE: Interest = Interest { read: true, write: false };
    pub const WRITABLE: Interest = Interest { read: false, write: true };
    pub const fn add(self, o: Interest) -> Interest {
        Interest { read: self.read || o.read, write: self.write || o.write }
    }
}
impl std::ops::BitOr for Interest {
    type Output = Interest;
    fn bitor(self, o: Interest) -> Interest {
        self.add(o)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ready {
    read: bool,
    write: bool,
}
impl Ready {
    pub fn is_readable(self) -> bool {
        self.read
    }
    pub fn is_writable(self) -> bool {
        self.write
    }
}

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(super) std::sync::Arc<TcpStream>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(super) std::sync::Arc<TcpStream>);
    macro_rules! id {
        ($($t:ty),*) => {$(impl $t {
            pub(super) fn id(&self) -> usize { self.0.id }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { self.0.peer_addr() }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { self.0.local_addr() }
        })*};
    }
    id!(ReadHalf<'_>, WriteHalf<'_>, OwnedReadHalf, OwnedWriteHalf);
}
reader!(TcpStream, tcp::ReadHalf<'_>, tcp::OwnedReadHalf);
writer!(TcpStream, tcp::WriteHalf<'_>, tcp::OwnedWriteHalf);

fn addr(port: u16) -> SocketAddr {
    SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(127, 0, 0, 1), port))
}

/// Anything that names an address.
pub trait ToSocketAddrs {
    #[doc(hidden)]
    fn text(&self) -> String;
}
impl ToSocketAddrs for str {
    fn text(&self) -> String {
        self.to_owned()
    }
}
impl ToSocketAddrs for String {
    fn text(&self) -> String {
        self.clone()
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn text(&self) -> String {
        (**self).text()
    }
}
impl ToSocketAddrs for (&str, u16) {
    fn text(&self) -> String {
        let mut s = self.0.to_owned();
        s.push(':');
        s.push_str(&decimal(self.1));
        s
    }
}
impl ToSocketAddrs for (String, u16) {
    fn text(&self) -> String {
        (self.0.as_str(), self.1).text()
    }
}
impl ToSocketAddrs for SocketAddr {
    fn text(&self) -> String {
        self.to_string()
    }
}
fn decimal(mut v: u16) -> String {
    let mut d = Vec::new();
    loop {
        d.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            return String::from_utf8(d).unwrap();
        }
    }
}

/// Connections made and accepted.
#[derive(Clone, Copy)]
pub enum Connect {
    Wait,
    Refuse,
    Accept(usize),
}
pub const LISTENERS: usize = 20;
pub const CONNECTS: usize = 1100;
pub struct World {
    /// Outcome of the n-th connection attempt.
    pub connects: [Connect; CONNECTS],
    /// Where to.
    pub connected: Vec<String>,
    /// Whether the n-th attempt to listen fails.
    pub bind_fails: [bool; LISTENERS],
    /// Where (including failed attempts).
    pub bound: Vec<String>,
    /// What the next accept of the n-th listener gives; `Wait` afterwards.
    pub accept: [Connect; LISTENERS],
    pub accepts: usize,
    /// Which listeners are still there.
    pub listening: [bool; LISTENERS],
}
static mut WORLD: World = World {
    connects: [Connect::Wait; CONNECTS],
    connected: Vec::new(),
    bind_fails: [false; LISTENERS],
    bound: Vec::new(),
    accept: [Connect::Wait; LISTENERS],
    accepts: 0,
    listening: [false; LISTENERS],
};
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}

#[derive(Debug)]
pub struct TcpListener {
    n: usize,
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let w = world();
        let n = w.bound.len();
        w.bound.push(addr.text());
        if w.bind_fails[n] {
            return Err(any(ErrorKind::AddrInUse));
        }
        w.listening[n] = true;
        Ok(TcpListener { n })
    }
    pub fn poll_accept(&self, _: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let w = world();
        match std::mem::replace(&mut w.accept[self.n], Connect::Wait) {
            Connect::Wait => Poll::Pending,
            Connect::Refuse => {
                w.accepts += 1;
                Poll::Ready(Err(any(ErrorKind::ConnectionAborted)))
            }
            Connect::Accept(id) => {
                w.accepts += 1;
                Poll::Ready(Ok((TcpStream::model(id), addr(1000 + id as u16))))
            }
        }
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(143))
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        world().listening[self.n] = false;
    }
}
