//! Model of `rustls` after a completed handshake. Buffering, flow control, end-of-stream and error
//! behaviour follow rustls 0.23 (`conn.rs`, `common_state.rs`, `vecbuf.rs`); the record protection is
//! replaced by a byte-wise transformation that depends on direction and position.
use std::{
    collections::VecDeque,
    fmt,
    io::{self, IoSlice, Read, Write},
    ops::{Deref, DerefMut},
};

#[non_exhaustive]
#[derive(Clone, PartialEq, Eq)]
pub enum Error {
    DecryptError,
    DecodeError,
    PeerSentOversizedRecord,
    HandshakeNotComplete,
    General(String),
}
impl fmt::Debug for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}

/// Record types of the model.
pub mod record {
    /// Application data.
    pub const DATA: u8 = 0x10;
    /// Needs an answer (e.g. a key update request).
    pub const ASK: u8 = 0x20;
    /// Needs no answer (e.g. a session ticket).
    pub const NOTE: u8 = 0x30;
    /// End of the peer's data.
    pub const CLOSE: u8 = 0x40;
    /// The answer to `ASK`.
    pub const REPLY: u8 = 0x50;

    /// Sends records: plain bytes in, protected bytes out.
    #[derive(Clone, Copy, Default)]
    pub struct Sealer {
        pub seq: u8,
        pub key: u8,
    }
    impl Sealer {
        pub fn seal(&mut self, kind: u8, data: &[u8]) -> Vec<u8> {
            let mut out = Vec::with_capacity(16);
            out.push(kind | data.len() as u8);
            for b in data {
                out.push(*b ^ self.mask());
            }
            self.seq = self.seq.wrapping_add(1);
            out
        }
        fn mask(&self) -> u8 {
            self.key ^ (self.seq << 4)
        }
        /// Inverse: payload of the record, `None` if it is not a valid record.
        pub fn open(&mut self, data: &mut [u8]) {
            for b in data {
                *b ^= self.mask();
            }
            self.seq = self.seq.wrapping_add(1);
        }
    }
    pub const KEY_CLIENT: u8 = 0x05;
    pub const KEY_SERVER: u8 = 0x0A;
}
use record::*;

/// Sizes of the model (small stand-ins for rustls' constants).
pub mod limits {
    /// Plaintext per record (16 KiB).
    pub static mut FRAGMENT: usize = 2;
    /// Bytes read from the transport by one `read_tls` (4 KiB).
    pub static mut READ: usize = 4;
    /// Bytes that may wait in the output buffer (64 KiB).
    pub static mut BUFFER: usize = 6;
}

#[derive(Default)]
pub struct ConnectionCommon {
    received: VecDeque<u8>,
    deframer: VecDeque<u8>,
    sendable: VecDeque<Vec<u8>>,
    limit: Option<usize>,
    seen_eof: bool,
    close_notify: bool,
    sent_close: bool,
    error: Option<Error>,
    tx: Sealer,
    rx: Sealer,
}

#[derive(Debug, PartialEq, Eq)]
pub struct IoState {
    to_write: usize,
    to_read: usize,
    peer_closed: bool,
}
impl IoState {
    pub fn tls_bytes_to_write(&self) -> usize {
        self.to_write
    }
    pub fn plaintext_bytes_to_read(&self) -> usize {
        self.to_read
    }
    pub fn peer_has_closed(&self) -> bool {
        self.peer_closed
    }
}

impl ConnectionCommon {
    fn new(client: bool) -> Self {
        let (tx, rx) = if client { (KEY_CLIENT, KEY_SERVER) } else { (KEY_SERVER, KEY_CLIENT) };
        ConnectionCommon {
            limit: Some(unsafe { limits::BUFFER }),
            tx: Sealer { seq: 0, key: tx },
            rx: Sealer { seq: 0, key: rx },
            ..Default::default()
        }
    }
    pub fn wants_read(&self) -> bool {
        self.received.is_empty() && !self.close_notify
    }
    pub fn wants_write(&self) -> bool {
        !self.sendable.is_empty()
    }
    pub fn is_handshaking(&self) -> bool {
        false
    }
    pub fn set_buffer_limit(&mut self, limit: Option<usize>) {
        self.limit = limit;
    }
    fn io_state(&self) -> IoState {
        IoState {
            to_write: self.sendable.iter().map(|c| c.len()).sum(),
            to_read: self.received.len(),
            peer_closed: self.close_notify,
        }
    }
    pub fn read_tls(&mut self, rd: &mut dyn Read) -> io::Result<usize> {
        if self.close_notify {
            return Ok(0);
        }
        let mut buf = [0; 4096];
        let max = unsafe { limits::READ };
        let n = rd.read(&mut buf[..max])?;
        self.deframer.extend(&buf[..n]);
        if n == 0 {
            self.seen_eof = true;
        }
        Ok(n)
    }
    pub fn process_new_packets(&mut self) -> Result<IoState, Error> {
        if let Some(e) = &self.error {
            return Err(e.clone());
        }
        while !self.close_notify && !self.deframer.is_empty() {
            // The shape of records is decided per path.
            let head = nd::fork(self.deframer[0]);
            let n = (head & 0xf) as usize;
            let kind = head & 0xf0;
            let ok = match kind {
                DATA => n >= 1 && n <= 8,
                ASK | NOTE | CLOSE | REPLY => n == 0,
                _ => false,
            };
            if !ok {
                self.error = Some(Error::DecryptError);
                return Err(Error::DecryptError);
            }
            if self.deframer.len() < 1 + n {
                break;
            }
            self.deframer.pop_front();
            let mut data = [0; 8];
            for d in data[..n].iter_mut() {
                *d = self.deframer.pop_front().unwrap();
            }
            self.rx.open(&mut data[..n]);
            match kind {
                DATA => self.received.extend(&data[..n]),
                ASK => {
                    let r = self.tx.seal(REPLY, &[]);
                    self.sendable.push_back(r);
                }
                CLOSE => self.close_notify = true,
                _ => {}
            }
        }
        Ok(self.io_state())
    }
    pub fn write_tls(&mut self, wr: &mut dyn Write) -> io::Result<usize> {
        let Some(c) = self.sendable.front_mut() else { return Ok(0) };
        let n = wr.write(c)?;
        if n == c.len() {
            self.sendable.pop_front();
        } else {
            c.drain(..n);
        }
        Ok(n)
    }
    pub fn send_close_notify(&mut self) {
        if !self.sent_close {
            self.sent_close = true;
            let r = self.tx.seal(CLOSE, &[]);
            self.sendable.push_back(r);
        }
    }
    pub fn reader(&mut self) -> Reader<'_> {
        Reader { c: self }
    }
    pub fn writer(&mut self) -> Writer<'_> {
        Writer { c: self }
    }
    pub fn alpn_protocol(&self) -> Option<&[u8]> {
        None
    }
    fn write(&mut self, buf: &[u8]) -> usize {
        let used: usize = self.sendable.iter().map(|c| c.len()).sum();
        let n = match self.limit {
            Some(l) => buf.len().min(l.saturating_sub(used)),
            None => buf.len(),
        };
        for f in buf[..n].chunks(unsafe { limits::FRAGMENT }) {
            let r = self.tx.seal(DATA, f);
            self.sendable.push_back(r);
        }
        n
    }
}

pub struct Reader<'a> {
    c: &'a mut ConnectionCommon,
}
impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.c.received.len());
        for b in buf[..n].iter_mut() {
            *b = self.c.received.pop_front().unwrap();
        }
        if n > 0 || buf.is_empty() {
            return Ok(n);
        }
        if self.c.close_notify {
            Ok(0)
        } else if self.c.seen_eof {
            Err(io::ErrorKind::UnexpectedEof.into())
        } else {
            Err(io::ErrorKind::WouldBlock.into())
        }
    }
}
pub struct Writer<'a> {
    c: &'a mut ConnectionCommon,
}
impl Write for Writer<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        Ok(self.c.write(buf))
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        Ok(self.c.write(&all))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

macro_rules! side {
    ($t:ident, $client:expr) => {
        pub struct $t {
            inner: ConnectionCommon,
        }
        impl $t {
            /// Connection after the handshake; `early` was received with the end of the handshake.
            pub fn model(early: &[u8]) -> Self {
                let mut inner = ConnectionCommon::new($client);
                inner.deframer.extend(early);
                let _ = inner.process_new_packets();
                $t { inner }
            }
        }
        impl Deref for $t {
            type Target = ConnectionCommon;
            fn deref(&self) -> &ConnectionCommon {
                &self.inner
            }
        }
        impl DerefMut for $t {
            fn deref_mut(&mut self) -> &mut ConnectionCommon {
                &mut self.inner
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
    };
}
pub mod client {
    use super::*;
    side!(ClientConnection, true);
    pub use super::ClientConfig;
}
pub mod server {
    use super::*;
    side!(ServerConnection, false);
    pub use super::ServerConfig;
}
pub use client::ClientConnection;
pub use server::ServerConnection;

#[derive(Debug)]
pub enum Connection {
    Client(ClientConnection),
    Server(ServerConnection),
}
impl Deref for Connection {
    type Target = ConnectionCommon;
    fn deref(&self) -> &ConnectionCommon {
        match self {
            Self::Client(c) => c,
            Self::Server(c) => c,
        }
    }
}
impl DerefMut for Connection {
    fn deref_mut(&mut self) -> &mut ConnectionCommon {
        match self {
            Self::Client(c) => c,
            Self::Server(c) => c,
        }
    }
}
impl From<ClientConnection> for Connection {
    fn from(c: ClientConnection) -> Self {
        Self::Client(c)
    }
}
impl From<ServerConnection> for Connection {
    fn from(c: ServerConnection) -> Self {
        Self::Server(c)
    }
}

pub mod pki_types {
    use std::marker::PhantomData;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CertificateDer<'a>(pub Vec<u8>, PhantomData<&'a ()>);
    impl From<Vec<u8>> for CertificateDer<'_> {
        fn from(v: Vec<u8>) -> Self {
            CertificateDer(v, PhantomData)
        }
    }
    impl CertificateDer<'_> {
        pub fn into_owned(self) -> CertificateDer<'static> {
            CertificateDer(self.0, PhantomData)
        }
    }
    impl std::ops::Deref for CertificateDer<'_> {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }
    impl AsRef<[u8]> for CertificateDer<'_> {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    macro_rules! keys {
        ($($t:ident $get:ident),*) => {$(
            #[derive(Debug, PartialEq, Eq)]
            pub struct $t<'a>(pub Vec<u8>, PhantomData<&'a ()>);
            impl From<Vec<u8>> for $t<'_> {
                fn from(v: Vec<u8>) -> Self {
                    $t(v, PhantomData)
                }
            }
            impl $t<'_> {
                pub fn $get(&self) -> &[u8] {
                    &self.0
                }
                pub fn clone_key(&self) -> $t<'static> {
                    $t(self.0.clone(), PhantomData)
                }
            }
        )*};
    }
    keys!(PrivatePkcs8KeyDer secret_pkcs8_der, PrivatePkcs1KeyDer secret_pkcs1_der, PrivateSec1KeyDer secret_sec1_der);
    #[non_exhaustive]
    #[derive(Debug, PartialEq, Eq)]
    pub enum PrivateKeyDer<'a> {
        Pkcs1(PrivatePkcs1KeyDer<'a>),
        Sec1(PrivateSec1KeyDer<'a>),
        Pkcs8(PrivatePkcs8KeyDer<'a>),
    }
    impl PrivateKeyDer<'_> {
        pub fn secret_der(&self) -> &[u8] {
            match self {
                Self::Pkcs1(k) => &k.0,
                Self::Sec1(k) => &k.0,
                Self::Pkcs8(k) => &k.0,
            }
        }
        pub fn clone_key(&self) -> PrivateKeyDer<'static> {
            match self {
                Self::Pkcs1(k) => PrivateKeyDer::Pkcs1(k.clone_key()),
                Self::Sec1(k) => PrivateKeyDer::Sec1(k.clone_key()),
                Self::Pkcs8(k) => PrivateKeyDer::Pkcs8(k.clone_key()),
            }
        }
    }
    impl<'a> From<PrivatePkcs8KeyDer<'a>> for PrivateKeyDer<'a> {
        fn from(k: PrivatePkcs8KeyDer<'a>) -> Self {
            Self::Pkcs8(k)
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ServerName<'a>(pub String, PhantomData<&'a ()>);
    #[derive(Debug)]
    pub struct InvalidDnsNameError;
    impl std::fmt::Display for InvalidDnsNameError {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for InvalidDnsNameError {}
    impl TryFrom<String> for ServerName<'static> {
        type Error = InvalidDnsNameError;
        fn try_from(s: String) -> Result<Self, InvalidDnsNameError> {
            // A host name or an IP address.
            let ok = |b: u8| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b'.' | b':');
            if s.is_empty() || !s.bytes().all(ok) {
                Err(InvalidDnsNameError)
            } else {
                Ok(ServerName(s, PhantomData))
            }
        }
    }
    impl ServerName<'_> {
        pub fn to_owned(&self) -> ServerName<'static> {
            ServerName(self.0.clone(), PhantomData)
        }
    }
    impl<'a> TryFrom<&'a str> for ServerName<'a> {
        type Error = InvalidDnsNameError;
        fn try_from(s: &'a str) -> Result<Self, InvalidDnsNameError> {
            ServerName::try_from(s.to_owned())
        }
    }
}
use pki_types::*;

#[derive(Clone, Debug)]
pub struct RootCertStore {
    pub roots: Vec<Vec<u8>>,
}
impl RootCertStore {
    pub fn empty() -> Self {
        RootCertStore { roots: Vec::new() }
    }
    /// A certificate that starts with 0xFF can't be parsed.
    pub fn add(&mut self, c: CertificateDer<'_>) -> Result<(), Error> {
        if c.0.first() == Some(&0xff) {
            return Err(Error::General(String::new()));
        }
        self.roots.push(c.0);
        Ok(())
    }
    pub fn add_parsable_certificates<'a>(
        &mut self,
        certs: impl IntoIterator<Item = CertificateDer<'a>>,
    ) -> (usize, usize) {
        let (mut good, mut bad) = (0, 0);
        for c in certs {
            match self.add(c) {
                Ok(()) => good += 1,
                Err(_) => bad += 1,
            }
        }
        (good, bad)
    }
    pub fn len(&self) -> usize {
        self.roots.len()
    }
    pub fn is_empty(&self) -> bool {
        self.roots.is_empty()
    }
}
#[derive(Clone, Debug)]
pub struct ServerConfig {
    pub alpn_protocols: Vec<Vec<u8>>,
    pub chain: Vec<CertificateDer<'static>>,
    pub key: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct ClientConfig {
    pub alpn_protocols: Vec<Vec<u8>>,
    pub roots: Vec<Vec<u8>>,
}
pub struct ServerBuilder;
impl ServerConfig {
    pub fn builder() -> ServerBuilder {
        ServerBuilder
    }
}
impl ServerBuilder {
    pub fn with_no_client_auth(self) -> Self {
        self
    }
    pub fn with_single_cert(
        self,
        chain: Vec<CertificateDer<'static>>,
        key: PrivateKeyDer<'static>,
    ) -> Result<ServerConfig, Error> {
        let key = key.secret_der().to_vec();
        if chain.is_empty() || key.is_empty() {
            return Err(Error::General(String::new()));
        }
        Ok(ServerConfig { alpn_protocols: Vec::new(), chain, key })
    }
}
pub struct ClientBuilder(Vec<Vec<u8>>);
impl ClientConfig {
    pub fn builder() -> ClientBuilder {
        ClientBuilder(Vec::new())
    }
}
impl ClientBuilder {
    pub fn with_root_certificates(self, r: impl Into<std::sync::Arc<RootCertStore>>) -> Self {
        ClientBuilder(r.into().roots.clone())
    }
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig { alpn_protocols: Vec::new(), roots: self.0 }
    }
}
