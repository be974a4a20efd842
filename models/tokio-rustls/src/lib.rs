//! Model of `tokio-rustls`: the handshake is one step whose outcome the harness decides.
pub use rustls;
use rustls::{pki_types::ServerName, ClientConfig, ClientConnection, ServerConfig, ServerConnection};
use std::{
    fmt,
    future::Future,
    io,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite};

/// Outcome of handshakes.
#[derive(Clone)]
pub enum Handshake {
    Wait,
    Fail,
    /// Completes; the given bytes arrived together with the end of the handshake.
    Done(Vec<u8>),
}
pub const HANDSHAKES: usize = 1100;
pub struct Model {
    /// Outcome of the n-th handshake as a server / as a client.
    pub accept: [Handshake; HANDSHAKES],
    pub connect: [Handshake; HANDSHAKES],
    /// Their configurations, in order, and the names the server is expected to have.
    pub accepted: Vec<Arc<ServerConfig>>,
    pub connected: Vec<(Arc<ClientConfig>, String)>,
}
use Handshake::Wait;
static mut MODEL: Model = Model {
    accept: [const { Wait }; HANDSHAKES],
    connect: [const { Wait }; HANDSHAKES],
    accepted: Vec::new(),
    connected: Vec::new(),
};
#[allow(static_mut_refs)]
pub fn model() -> &'static mut Model {
    unsafe { &mut MODEL }
}

pub mod client {
    use super::*;
    pub struct TlsStream<IO> {
        pub io: IO,
        pub session: ClientConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn into_inner(self) -> (IO, ClientConnection) {
            (self.io, self.session)
        }
        pub fn get_ref(&self) -> (&IO, &ClientConnection) {
            (&self.io, &self.session)
        }
        pub fn get_mut(&mut self) -> (&mut IO, &mut ClientConnection) {
            (&mut self.io, &mut self.session)
        }
    }
}
pub mod server {
    use super::*;
    pub struct TlsStream<IO> {
        pub io: IO,
        pub session: ServerConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn into_inner(self) -> (IO, ServerConnection) {
            (self.io, self.session)
        }
        pub fn get_ref(&self) -> (&IO, &ServerConnection) {
            (&self.io, &self.session)
        }
        pub fn get_mut(&mut self) -> (&mut IO, &mut ServerConnection) {
            (&mut self.io, &mut self.session)
        }
    }
}

pub enum TlsStream<IO> {
    Client(client::TlsStream<IO>),
    Server(server::TlsStream<IO>),
}
impl<IO> From<client::TlsStream<IO>> for TlsStream<IO> {
    fn from(s: client::TlsStream<IO>) -> Self {
        Self::Client(s)
    }
}
impl<IO> From<server::TlsStream<IO>> for TlsStream<IO> {
    fn from(s: server::TlsStream<IO>) -> Self {
        Self::Server(s)
    }
}

#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(c: Arc<ServerConfig>) -> Self {
        TlsAcceptor(c)
    }
}
impl TlsAcceptor {
    pub fn accept<IO: AsyncRead + AsyncWrite + Unpin>(&self, io: IO) -> Accept<IO> {
        model().accepted.push(self.0.clone());
        Accept(Some(io), model().accepted.len() - 1)
    }
}
#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(c: Arc<ClientConfig>) -> Self {
        TlsConnector(c)
    }
}
impl TlsConnector {
    pub fn connect<IO: AsyncRead + AsyncWrite + Unpin>(&self, domain: ServerName<'static>, io: IO) -> Connect<IO> {
        model().connected.push((self.0.clone(), domain.0));
        Connect(Some(io), model().connected.len() - 1)
    }
}
pub struct Accept<IO>(Option<IO>, usize);
pub struct Connect<IO>(Option<IO>, usize);
impl<IO: Unpin> Future for Accept<IO> {
    type Output = io::Result<server::TlsStream<IO>>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match model().accept[self.1].clone() {
            Handshake::Wait => Poll::Pending,
            Handshake::Fail => Poll::Ready(Err(tokio::net::any(io::ErrorKind::InvalidData))),
            Handshake::Done(early) => Poll::Ready(Ok(server::TlsStream {
                io: self.0.take().unwrap(),
                session: ServerConnection::model(&early),
            })),
        }
    }
}
impl<IO: Unpin> Future for Connect<IO> {
    type Output = io::Result<client::TlsStream<IO>>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match model().connect[self.1].clone() {
            Handshake::Wait => Poll::Pending,
            Handshake::Fail => Poll::Ready(Err(tokio::net::any(io::ErrorKind::InvalidData))),
            Handshake::Done(early) => Poll::Ready(Ok(client::TlsStream {
                io: self.0.take().unwrap(),
                session: ClientConnection::model(&early),
            })),
        }
    }
}
impl<IO> fmt::Debug for TlsStream<IO> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
