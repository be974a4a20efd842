
// ---- Streams over sockets that live in a table (`tokio::net::sock`).
pub use imap_next::stream::{Error, Stream};
pub use rustls::record::{self, Sealer};
pub use std::{future::Future, pin::{pin, Pin}, task::{Context, Poll}};
pub use tokio::net::{sock, TcpStream, Tx};

/// A state machine that gives the listed results and otherwise wants more input.
pub struct Script {
    pub steps: std::collections::VecDeque<Result<u8, Interrupt<u8>>>,
    pub input: Vec<u8>,
}
pub fn out(b: &[u8]) -> Result<u8, Interrupt<u8>> {
    Err(Interrupt::Io(Io::Output(b.to_vec())))
}
pub fn more() -> Result<u8, Interrupt<u8>> {
    Err(Interrupt::Io(Io::NeedMoreInput))
}
pub fn script(steps: Vec<Result<u8, Interrupt<u8>>>) -> Script {
    Script { steps: steps.into(), input: vec![] }
}
impl State for Script {
    type Event = u8;
    type Error = u8;
    fn enqueue_input(&mut self, bytes: &[u8]) {
        self.input.extend(bytes);
    }
    fn next(&mut self) -> Result<u8, Interrupt<u8>> {
        self.steps.pop_front().unwrap_or_else(more)
    }
}
/// Polls once.
pub fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = tokio::rt::waker();
    f.poll(&mut Context::from_waker(&w))
}
pub fn plain() -> Stream {
    Stream::insecure(TcpStream::model(0))
}
/// The client's side of a TLS connection and the peer's view: sealing towards it, opening from it.
pub fn tls() -> (Stream, Sealer, Sealer) {
    let s = tokio_rustls::client::TlsStream { io: TcpStream::model(0), session: rustls::ClientConnection::model(&[]) };
    (
        Stream::tls(tokio_rustls::TlsStream::Client(s)),
        Sealer { seq: 0, key: record::KEY_SERVER },
        Sealer { seq: 0, key: record::KEY_CLIENT },
    )
}
