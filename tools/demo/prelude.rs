//! Drives client and server by hand.
#![allow(dead_code, unused_imports)]
pub use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{LiteralMode, Tag, Text},
    extensions::idle::IdleDone,
    model::Raw,
    response::*,
};
pub use imap_next::{
    client::{self, Client},
    server::{self, Server},
    Interrupt, Io, State,
};

/// What happened until the state machine came to rest.
pub struct Ran<E, X> {
    pub output: Vec<u8>,
    pub events: Vec<E>,
    pub errors: Vec<X>,
}
/// Runs until more input is needed.
pub fn rest<S: State>(s: &mut S) -> Ran<S::Event, S::Error> {
    let mut r = Ran { output: vec![], events: vec![], errors: vec![] };
    for _ in 0..1000 {
        match s.next() {
            Ok(e) => r.events.push(e),
            Err(Interrupt::Io(Io::NeedMoreInput)) => return r,
            Err(Interrupt::Io(Io::Output(b))) => r.output.extend(b),
            Err(Interrupt::Error(e)) => r.errors.push(e),
        }
    }
    panic!("never comes to rest");
}
pub fn raw(b: &[u8]) -> Raw {
    Raw::of(b)
}
/// Command of the model codec; `shape`: bits 0-1 number of literals, then per literal sync, empty.
pub fn command(tag: u8, id: u8, shape: u8) -> Command<'static> {
    Command { tag: Tag::model(tag), body: CommandBody::Model { raw: raw(&[id, shape]) } }
}
pub fn plain(tag: u8, body: CommandBody<'static>) -> Command<'static> {
    Command { tag: Tag::model(tag), body }
}
pub fn authenticate(tag: u8) -> Command<'static> {
    plain(tag, CommandBody::Authenticate { mechanism: AuthMechanism::Plain, initial_response: None })
}
pub fn data(id: u8) -> Data<'static> {
    Data::Model(Raw::one(id))
}
/// Client that already received the greeting.
pub fn greeted() -> Client {
    let mut c = Client::new(client::Options::default());
    c.enqueue_input(b"g\x40\r\n");
    assert_eq!(rest(&mut c).events.len(), 1);
    c
}
/// Server that already sent the greeting.
pub fn greeting() -> Greeting<'static> {
    Greeting { kind: GreetingKind::Ok, code: None, text: Text::model(Raw::one(b'g')) }
}
pub fn server(o: server::Options) -> Server {
    let mut s = Server::new(o, greeting());
    assert_eq!(rest(&mut s).events.len(), 1);
    s
}
pub fn cont() -> CommandContinuationRequest<'static> {
    CommandContinuationRequest::basic(None, "go").unwrap()
}
pub fn ok(tag: u8) -> Status<'static> {
    Status::ok(Some(Tag::model(tag)), None, "ok").unwrap()
}
pub fn options(max_command_size: u32, max_literal_size: u32) -> server::Options {
    let mut o = server::Options::default();
    o.max_command_size = max_command_size;
    o.max_literal_size = max_literal_size;
    o
}
