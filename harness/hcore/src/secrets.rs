//! What errors, events and states print must not depend on the bytes they keep secret: each exchange
//! is run with two sets of arbitrary bytes, and everything printed must be the same.
use crate::util::*;
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::Tag,
    model::Raw,
    secret::Secret,
};
use imap_next::{
    client::{self, Client},
    server::{self, Server},
    Interrupt, Io, State,
};
use std::{borrow::Cow, fmt::Debug};

fn show<T: Debug>(out: &mut String, t: &T) {
    out.push_str(&format!("{t:?}"));
    out.push_str(&format!("{t:#?}"));
}
fn equal(a: &str, b: &str) {
    nd::check(same(a.as_bytes(), b.as_bytes()), "what is printed depends on secret bytes");
}
fn byte() -> u8 {
    let v = nd::u8();
    nd::assume(v != b'\r' && v != b'\n');
    v
}

/// Advances the state machine until it needs input, and prints everything on the way.
fn server(s: &mut Server, input: &[u8], out: &mut String, state: bool) {
    let (first, second) = input.split_at(input.len() / 2);
    for part in [first, second] {
        s.enqueue_input(part);
        for _ in 0..6 {
            match s.next() {
                Ok(event) => {
                    show(out, &event);
                    nd::cover(1);
                }
                Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                Err(Interrupt::Io(Io::Output(_))) => (),
                Err(Interrupt::Error(e)) => {
                    show(out, &e);
                    out.push_str(&format!("{e}{e:#}"));
                    show(out, &Interrupt::Error(e));
                    nd::cover(2);
                }
            }
        }
        if state {
            show(out, s);
        }
    }
}

/// The last bytes (from the code byte on) that select what the message is.
const COMMANDS: [(u8, bool); 8] = [
    // Malformed, incomplete, line ending without CR, an ordinary command,
    (0x01, true),
    (0x00, true),
    (0xa0, false),
    (0xa0, true),
    // a literal that is refused (announced as synchronizing or not), AUTHENTICATE with an initial
    // response and without.
    (0x27, true),
    (0x23, true),
    (0x41, true),
    (0x40, true),
];
fn line(code: u8, crlf: bool, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|_| byte()).collect();
    v.push(code);
    v.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    v
}
fn new_server(max_command_size: u32) -> Server {
    let mut o = server::Options::default();
    o.max_literal_size = 2;
    o.max_command_size = max_command_size;
    Server::new(o, greeting())
}
fn greeting() -> imap_codec::imap_types::response::Greeting<'static> {
    imap_codec::imap_types::response::Greeting {
        kind: imap_codec::imap_types::response::GreetingKind::Ok,
        code: None,
        text: imap_codec::imap_types::core::Text::unvalidated("x"),
    }
}

pub fn run_server() {
    let kind = nd::choose(11);
    if kind < 8 {
        // Two servers, events and errors only; or one after the other on the same server (its state
        // is printed as well). A server in AUTHENTICATE prints the same as one that is not.
        let (code, crlf) = COMMANDS[kind as usize];
        let (a, b) = (line(code, crlf, 4), line(code, crlf, 4));
        let (mut x, mut y) = (String::new(), String::new());
        if kind < 6 {
            let mut s = new_server(100);
            server(&mut s, &[], &mut String::new(), false);
            server(&mut s, &a, &mut x, true);
            server(&mut s, &b, &mut y, true);
        } else {
            server(&mut new_server(100), &a, &mut x, false);
            server(&mut new_server(100), &b, &mut y, false);
        }
        equal(&x, &y);
        nd::cover(3);
        return;
    }
    let (mut x, mut y) = (String::new(), String::new());
    if kind == 8 {
        // A command that is too long
        let mut s = new_server(6);
        server(&mut s, &[], &mut String::new(), false);
        let (a, b) = (line(0xa0, true, 3), line(0xa0, true, 3));
        for (v, o) in [(a, &mut x), (b, &mut y)] {
            // Six bytes without a line ending
            let mut w = v[..4].to_vec();
            w.extend_from_slice(&v[..2]);
            server(&mut s, &w, o, true);
        }
        nd::cover(4);
    } else {
        // Data for AUTHENTICATE: well-formed or malformed
        let mut s = new_server(100);
        server(&mut s, &line(0x41, true, 1), &mut String::new(), false);
        let (code, crlf) = if kind == 9 { (0xa0, true) } else { (0x01, nd::flip()) };
        let (a, b) = (line(code, crlf, 4), line(code, crlf, 4));
        server(&mut s, &a, &mut x, true);
        server(&mut s, &b, &mut y, true);
        nd::cover(5);
    }
    equal(&x, &y);
}

fn client(c: &mut Client, input: &[u8], out: &mut String, state: bool) {
    let (first, second) = input.split_at(input.len() / 2);
    for part in [first, second] {
        c.enqueue_input(part);
        for _ in 0..6 {
            match c.next() {
                // Handles tell the client apart; they are not secret.
                Ok(client::Event::AuthenticateStatusReceived { command_authenticate, .. }) => {
                    show(out, &command_authenticate);
                    nd::cover(6);
                }
                Ok(client::Event::CommandRejected { command, .. }) => show(out, &command),
                Ok(client::Event::CommandSent { command, .. }) => show(out, &command),
                Ok(client::Event::AuthenticateStarted { .. }) => nd::cover(7),
                Ok(client::Event::AuthenticateContinuationRequestReceived { .. }) => nd::cover(8),
                Ok(client::Event::IdleCommandSent { .. }) => (),
                Ok(client::Event::IdleAccepted { .. }) => (),
                Ok(client::Event::IdleRejected { .. }) => (),
                Ok(client::Event::IdleDoneSent { .. }) => (),
                Ok(event) => show(out, &event),
                Err(Interrupt::Io(Io::NeedMoreInput)) => break,
                Err(Interrupt::Io(Io::Output(_))) => (),
                Err(Interrupt::Error(e)) => {
                    show(out, &e);
                    out.push_str(&format!("{e}{e:#}"));
                    show(out, &Interrupt::Error(e));
                    nd::cover(2);
                }
            }
        }
        if state {
            show(out, c);
        }
    }
}
fn authenticate(secret: u8) -> Command<'static> {
    Command {
        tag: Tag::model(1),
        body: CommandBody::Authenticate {
            mechanism: AuthMechanism::Plain,
            initial_response: Some(Secret::new(Cow::Owned(vec![secret]))),
        },
    }
}

pub fn run_client() {
    let (mut x, mut y) = (String::new(), String::new());
    let hello = [0x20, 0xa0, b'\r', b'\n'];
    match nd::choose(3) {
        // Discarded responses, line endings without CR, ordinary responses
        0 => {
            let (code, crlf) = [(0x01, true), (0x00, true), (0xf0, false), (0xe0, true)][nd::choose(4) as usize];
            let mut c = Client::new(client::Options::default());
            client(&mut c, &hello, &mut String::new(), false);
            let (a, b) = (line(code, crlf, 4), line(code, crlf, 4));
            client(&mut c, &a, &mut x, true);
            client(&mut c, &b, &mut y, true);
            nd::cover(3);
        }
        // The initial response of AUTHENTICATE, until the end of the exchange (`k & 3` is the tag)
        1 => {
            for o in [&mut x, &mut y] {
                let mut c = Client::new(client::Options::default());
                c.enqueue_command(authenticate(nd::u8()));
                client(&mut c, &hello, &mut String::new(), false);
                client(&mut c, &[0x30, 0x81, b'\r', b'\n'], o, false);
            }
            nd::cover(4);
        }
        // Data for AUTHENTICATE while it is sent
        _ => {
            let mut c = Client::new(client::Options::default());
            c.enqueue_command(authenticate(nd::u8()));
            client(&mut c, &hello, &mut String::new(), false);
            for o in [&mut x, &mut y] {
                client(&mut c, &[0x30, 0x60, b'\r', b'\n'], &mut String::new(), false);
                let data = AuthenticateData::Model(Raw::of(&[nd::u8(), nd::u8()]));
                if c.set_authenticate_data(data).is_ok() {
                    nd::cover(5);
                }
                show(o, &c);
                client(&mut c, &[], o, true);
            }
        }
    }
    equal(&x, &y);
}
