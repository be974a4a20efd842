//! Literals of any length.
use crate::{frame, util::*};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use imap_codec::{
    decode::Decoder,
    encode::Encoder,
    imap_types::{core::Tag, response::*},
    CommandCodec, ResponseCodec,
};
use imap_next::{
    client::{self, Client},
    server::{self, Error, Event},
    Interrupt, Io, State,
};

fn waits<S: State>(s: &mut S) {
    match s.next() {
        Err(Interrupt::Io(Io::NeedMoreInput)) => {}
        _ => nd::fail("something is done before the literal has arrived"),
    }
}
/// Contents of a literal: line endings, what looks like an announcement or a command.
fn contents(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"\r\n\n\x27\r\nx\xa0\r\n"[i % 10]).collect()
}
fn sends(s: &mut server::Server, r: Response<'static>) {
    match s.next() {
        Err(Interrupt::Io(Io::Output(b))) => {
            nd::check(same(&b, &ResponseCodec::default().encode(&r).dump()), "wrong answer to a literal")
        }
        _ => nd::fail("no answer to a literal"),
    }
}

/// Short lengths and those around which something might change (memory of that size is allocated,
/// so each is on its own path).
fn any() -> u32 {
    const SMALL: [u32; 12] = [0, 1, 2, 3, 4, 5, 6, 39, 1000, 10_000, 25 << 20, u32::MAX];
    if nd::flip() {
        SMALL[nd::choose(SMALL.len() as u8) as usize]
    } else {
        (1u32 << (3 + nd::choose(29))) - 1 + nd::choose(3) as u32
    }
}

pub fn server_sizes() {
    let (length, max) = (any(), nd::u32());
    let small = nd::flip();
    let sync = nd::flip();
    let mut o = server::Options::default();
    o.max_literal_size = max;
    o.max_command_size = if small { 50 } else { u32::MAX };
    let (accept, reject) = (o.literal_accept_text().to_static(), o.literal_reject_text().to_static());
    let mut s = frame::greeted(o);
    *imap_codec::model::announced() = Some(length);
    let code = 0x20 | (sync as u8) << 2 | nd::below(4) << 3;
    let first = [id(), code, b'\r', b'\n'];
    s.enqueue_input(&first);
    if nd::fork((length > max) as u8) == 1 {
        nd::cover(1);
        match s.next() {
            Err(Interrupt::Error(Error::LiteralTooLong { discarded_bytes })) => {
                nd::check(same(discarded_bytes.declassify(), &first), "discarded bytes of a too long literal")
            }
            _ => nd::fail("too long literal not reported"),
        }
        if sync {
            let tag = Tag::model(imap_codec::model::tag_of_literal(code));
            sends(&mut s, Response::Status(Status::bad(Some(tag), None, reject).unwrap()));
        }
        waits(&mut s);
    } else {
        if sync {
            sends(&mut s, Response::CommandContinuationRequest(CommandContinuationRequest::basic(None, accept).unwrap()));
        }
        waits(&mut s);
        // How much of it arrives?
        let mut sent = first.to_vec();
        let mut feed = |s: &mut server::Server, b: &[u8]| {
            s.enqueue_input(b);
            sent.extend_from_slice(b);
        };
        if length > 46 {
            feed(&mut s, &contents(45));
            waits(&mut s);
            feed(&mut s, b"\n");
            if small {
                nd::cover(2);
                match s.next() {
                    Err(Interrupt::Error(Error::CommandTooLong { discarded_bytes })) => {
                        nd::check(same(discarded_bytes.declassify(), &sent), "discarded bytes of a too long command")
                    }
                    _ => nd::fail("too long command not reported"),
                }
            } else {
                nd::cover(3);
                waits(&mut s);
                return;
            }
        } else {
            let n = length as usize;
            if n > 0 {
                feed(&mut s, &contents(n - 1));
                waits(&mut s);
                feed(&mut s, b"x");
            }
            waits(&mut s);
            feed(&mut s, &[0xa0, b'\r', b'\n']);
            let Ok((_, want)) = CommandCodec::default().decode(&sent) else { unreachable!() };
            match s.next() {
                Ok(Event::CommandReceived { command }) => {
                    nd::check(command == want.into_static(), "another command received");
                    nd::cover(4);
                }
                _ => nd::fail("command with literal not received"),
            }
        }
    }
    // What follows is received as ever.
    let next = [id(), 0xa0, b'\r', b'\n'];
    s.enqueue_input(&next);
    let Ok((_, want)) = CommandCodec::default().decode(&next) else { unreachable!() };
    match s.next() {
        Ok(Event::CommandReceived { command }) => nd::check(command == want.into_static(), "another command received"),
        _ => nd::fail("the next command is lost"),
    }
    waits(&mut s);
    nd::cover(5);
}

pub fn client_sizes() {
    let length = any();
    let mut c = Client::new(client::Options::default());
    c.enqueue_input(b"g\x40\r\n");
    match c.next() {
        Ok(client::Event::GreetingReceived { .. }) => {}
        _ => nd::fail("greeting not received"),
    }
    *imap_codec::model::announced() = Some(length);
    let mut sent = vec![id(), 0x20, b'\r', b'\n'];
    c.enqueue_input(&sent);
    waits(&mut c);
    if length > 39 {
        c.enqueue_input(&contents(39));
        waits(&mut c);
        nd::cover(1);
        return;
    }
    let n = length as usize;
    let mut rest = contents(n);
    rest.extend_from_slice(&[0xe0, b'\r', b'\n']);
    sent.extend_from_slice(&rest);
    if n > 0 {
        c.enqueue_input(&rest[..n - 1]);
        waits(&mut c);
        c.enqueue_input(&rest[n - 1..]);
    } else {
        c.enqueue_input(&rest);
    }
    let Ok((_, want)) = ResponseCodec::default().decode(&sent) else { unreachable!() };
    match (c.next(), want.into_static()) {
        (Ok(client::Event::DataReceived { data }), Response::Data(d)) => {
            nd::check(data == d, "other data received");
            nd::cover(2);
        }
        _ => nd::fail("data with literal not received"),
    }
    waits(&mut c);
}
