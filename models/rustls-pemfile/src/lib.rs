//! Model of `rustls-pemfile`. A file is a sequence of two-byte items: `c` + a byte is a certificate, `k` + a
//! byte a PKCS #8 key, `r` + a byte another kind of key; anything else is malformed.
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
use std::io::{self, BufRead, ErrorKind};

fn item(rd: &mut dyn BufRead) -> Option<io::Result<(u8, u8)>> {
    let mut b = [0; 2];
    let mut n = 0;
    while n < 2 {
        match rd.read(&mut b[n..]) {
            Ok(0) => break,
            Ok(m) => n += m,
            Err(e) => return Some(Err(e)),
        }
    }
    match n {
        0 => None,
        2 if matches!(b[0], b'c' | b'k' | b'r' | b's') => Some(Ok((b[0], b[1]))),
        _ => Some(Err(ErrorKind::InvalidData.into())),
    }
}
fn items(rd: &mut dyn BufRead, kind: u8) -> impl Iterator<Item = io::Result<Vec<u8>>> + '_ {
    std::iter::from_fn(move || loop {
        match item(rd)? {
            Err(e) => return Some(Err(e)),
            Ok((k, v)) if k == kind => return Some(Ok(vec![v])),
            Ok(_) => {}
        }
    })
}
pub fn certs(rd: &mut dyn BufRead) -> impl Iterator<Item = io::Result<CertificateDer<'static>>> + '_ {
    items(rd, b'c').map(|r| r.map(CertificateDer::from))
}
pub fn pkcs8_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = io::Result<PrivatePkcs8KeyDer<'static>>> + '_ {
    items(rd, b'k').map(|r| r.map(PrivatePkcs8KeyDer::from))
}
pub fn rsa_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = io::Result<PrivatePkcs1KeyDer<'static>>> + '_ {
    items(rd, b'r').map(|r| r.map(PrivatePkcs1KeyDer::from))
}
pub fn ec_private_keys(rd: &mut dyn BufRead) -> impl Iterator<Item = io::Result<PrivateSec1KeyDer<'static>>> + '_ {
    items(rd, b's').map(|r| r.map(PrivateSec1KeyDer::from))
}
/// The first key of any kind.
pub fn private_key(rd: &mut dyn BufRead) -> io::Result<Option<PrivateKeyDer<'static>>> {
    loop {
        return Ok(match item(rd).transpose()? {
            None => None,
            Some((b'k', v)) => Some(PrivateKeyDer::Pkcs8(vec![v].into())),
            Some((b'r', v)) => Some(PrivateKeyDer::Pkcs1(vec![v].into())),
            Some((b's', v)) => Some(PrivateKeyDer::Sec1(vec![v].into())),
            Some(_) => continue,
        });
    }
}
