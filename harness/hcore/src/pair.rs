//! A real client and a real server connected to each other: whatever the order in which they run
//! and however the bytes between them are cut, every command arrives exactly as it was enqueued, in
//! order, every exchange comes to its end, and the two never wait for each other forever.
use crate::util::*;
use imap_codec::{
    encode::Encoder,
    imap_types::{
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::{Tag, Text},
        model::Raw,
        response::*,
        secret::Secret,
    },
    CommandCodec,
};
use imap_next::{
    client::{self, Client, CommandHandle},
    server::{self, Server},
    Interrupt, Io, State,
};
use std::{borrow::Cow, collections::VecDeque};

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Model(u8),
    Noop,
    Auth,
    Idle,
}
pub struct Cfg {
    pub kinds: &'static [Kind],
    pub cmds: u8,
    /// Largest literal the server accepts.
    pub max_literal: u32,
    /// Responses the server enqueues at arbitrary moments.
    pub extra: u8,
    /// ... among the first `turns` turns.
    pub turns: u8,
    /// Transfers that may be cut in two.
    pub cuts: u8,
    /// Authentication data requests per AUTHENTICATE.
    pub auth_rounds: u8,
    /// Calls of `next` it may take to come to rest, turns until nothing moves any more.
    pub limit: u32,
    pub most: u8,
}
/// For few messages.
pub const FEW: Cfg = Cfg { kinds: &[], cmds: 0, max_literal: 1, extra: 0, turns: 0, cuts: 0, auth_rounds: 0, limit: 60, most: 100 };

struct Pair<'a> {
    cfg: &'a Cfg,
    c: Client,
    s: Server,
    c2s: Vec<u8>,
    s2c: Vec<u8>,
    /// Commands the server is still to receive.
    sent: VecDeque<Command<'static>>,
    /// Commands the client is still to report.
    open: VecDeque<(CommandHandle, Command<'static>)>,
    auth_data: VecDeque<AuthenticateData<'static>>,
    auth_tag: Option<Tag<'static>>,
    rounds: u8,
    extra: u8,
    /// Responses the client is still to report, in order.
    to_client: VecDeque<Raw>,
    idle_accepted: bool,
    cuts: u8,
}

fn text(b: u8) -> Text<'static> {
    Text::model(Raw::one(b))
}
fn ccr(b: u8) -> CommandContinuationRequest<'static> {
    CommandContinuationRequest::Basic(CommandContinuationRequestBasic::model(None, text(b)))
}
fn status(tag: Tag<'static>, kind: StatusKind, b: u8) -> Status<'static> {
    Status::Tagged(Tagged { tag, body: StatusBody { kind, code: None, text: text(b) } })
}

impl Pair<'_> {
    /// Part or all of the bytes under way.
    fn deliver(&mut self, to_server: bool) {
        let wire = if to_server { &mut self.c2s } else { &mut self.s2c };
        let n = wire.len();
        if n == 0 {
            return;
        }
        let k = if self.cuts < self.cfg.cuts && n > 1 && nd::flip() {
            self.cuts += 1;
            1 + nd::choose(n as u8 - 1) as usize
        } else {
            n
        };
        let part: Vec<u8> = wire.drain(..k).collect();
        if to_server {
            self.s.enqueue_input(&part)
        } else {
            self.c.enqueue_input(&part)
        }
    }

    /// Runs the client until it needs input. Returns whether anything happened.
    fn run_client(&mut self) -> bool {
        let mut any = false;
        for _ in 0..self.cfg.limit {
            match self.c.next() {
                Err(Interrupt::Io(Io::NeedMoreInput)) => return any,
                Err(Interrupt::Io(Io::Output(b))) => self.c2s.extend(b),
                Err(Interrupt::Error(_)) => nd::fail("client does not understand the server"),
                Ok(e) => self.client_event(e),
            }
            any = true;
        }
        nd::fail("client does not come to rest")
    }
    fn done(&mut self, handle: CommandHandle) -> Command<'static> {
        match self.open.pop_front() {
            Some((h, c)) => {
                nd::check(h == handle, "commands completed out of order");
                c
            }
            None => nd::fail("command completed twice"),
        }
    }
    fn heard(&mut self, raw: &Raw) {
        match self.to_client.pop_front() {
            Some(r) => nd::check(r.key() == raw.key(), "response out of order"),
            None => nd::fail("response not sent by the server"),
        }
    }
    fn client_event(&mut self, e: client::Event) {
        use client::Event::*;
        match e {
            GreetingReceived { .. } => {}
            CommandSent { handle, command } => {
                nd::cover(1);
                let c = self.done(handle);
                nd::check(c == command, "wrong command");
            }
            CommandRejected { handle, command, .. } => {
                nd::cover(2);
                let c = self.done(handle);
                nd::check(c == command, "wrong command");
                // The server must not see it.
                match self.sent.pop_front() {
                    Some(s) => nd::check(s == c, "rejected command was taken for complete"),
                    None => nd::fail("rejected command was taken for complete"),
                }
            }
            AuthenticateStarted { .. } => {}
            AuthenticateContinuationRequestReceived { handle, continuation_request } => {
                nd::cover(3);
                if let CommandContinuationRequest::Basic(b) = &continuation_request {
                    let raw = b.text().raw;
                    self.heard(&raw);
                }
                let d = if nd::flip() {
                    AuthenticateData::Cancel
                } else {
                    AuthenticateData::Model(Raw::one(id()))
                };
                nd::check(
                    self.c.set_authenticate_data(d.clone()) == Ok(handle),
                    "requested authentication data refused",
                );
                self.auth_data.push_back(d);
            }
            AuthenticateStatusReceived { handle, status, .. } => {
                nd::cover(4);
                self.done(handle);
                let raw = status.text().raw;
                self.heard(&raw);
            }
            IdleCommandSent { .. } => {}
            IdleAccepted { handle, continuation_request } => {
                nd::cover(5);
                if let CommandContinuationRequest::Basic(b) = &continuation_request {
                    let raw = b.text().raw;
                    self.heard(&raw);
                }
                nd::check(self.c.set_idle_done() == Some(handle), "idle done refused");
            }
            IdleRejected { handle, status } => {
                nd::cover(6);
                self.done(handle);
                let raw = status.text().raw;
                self.heard(&raw);
            }
            IdleDoneSent { handle } => {
                nd::cover(7);
                self.done(handle);
            }
            DataReceived { data } => {
                nd::cover(8);
                match data {
                    Data::Model(raw) => self.heard(&raw),
                    _ => nd::fail("wrong data"),
                }
            }
            StatusReceived { .. } => nd::fail("status that nothing accounts for"),
            ContinuationRequestReceived { .. } => {
                nd::fail("continuation request that nothing accounts for")
            }
        }
    }

    fn run_server(&mut self) -> bool {
        let mut any = false;
        for _ in 0..self.cfg.limit {
            match self.s.next() {
                Err(Interrupt::Io(Io::NeedMoreInput)) => return any,
                Err(Interrupt::Io(Io::Output(b))) => self.s2c.extend(b),
                Err(Interrupt::Error(server::Error::LiteralTooLong { .. })) => nd::cover(10),
                Err(Interrupt::Error(_)) => nd::fail("server does not understand the client"),
                Ok(e) => self.server_event(e),
            }
            any = true;
        }
        nd::fail("server does not come to rest")
    }
    fn arrived(&mut self, c: &Command<'static>) {
        match self.sent.pop_front() {
            Some(s) => {
                // The decoder model keeps all bytes of regular commands.
                let same_command = match &c.body {
                    CommandBody::Model { raw } => {
                        let all = CommandCodec::default().encode(&s).dump();
                        (c.tag == s.tag) & (*raw == Raw::of(&all))
                    }
                    _ => *c == s,
                };
                nd::check(same_command, "a different command arrived");
            }
            None => nd::fail("a command arrived that was not enqueued"),
        }
    }
    fn auth_next(&mut self) {
        let key = id();
        if self.rounds < self.cfg.auth_rounds && nd::flip() {
            self.rounds += 1;
            nd::check(self.s.authenticate_continue(ccr(key)).is_ok(), "refused");
        } else {
            let tag = self.auth_tag.take().unwrap();
            let kind = if nd::flip() { StatusKind::Ok } else { StatusKind::No };
            nd::check(self.s.authenticate_finish(status(tag, kind, key)).is_ok(), "refused");
        }
        self.to_client.push_back(Raw::one(key));
    }
    fn server_event(&mut self, e: server::Event) {
        use server::Event::*;
        match e {
            GreetingSent { .. } | ResponseSent { .. } => {}
            CommandReceived { command } => {
                nd::cover(11);
                self.arrived(&command);
            }
            CommandAuthenticateReceived { command_authenticate } => {
                nd::cover(12);
                self.auth_tag = Some(command_authenticate.tag.clone());
                self.arrived(&command_authenticate.into());
                self.rounds = 0;
                self.auth_next();
            }
            AuthenticateDataReceived { authenticate_data } => {
                nd::cover(13);
                let ok = match (self.auth_data.pop_front(), authenticate_data) {
                    (Some(AuthenticateData::Cancel), AuthenticateData::Cancel) => true,
                    (Some(AuthenticateData::Model(a)), AuthenticateData::Model(b)) => {
                        a.key() == b.key()
                    }
                    _ => false,
                };
                nd::check(ok, "different authentication data arrived");
                self.auth_next();
            }
            IdleCommandReceived { tag } => {
                nd::cover(14);
                self.arrived(&Command { tag: tag.clone(), body: CommandBody::Idle });
                let key = id();
                self.to_client.push_back(Raw::one(key));
                if nd::flip() {
                    nd::check(self.s.idle_accept(ccr(key)).is_ok(), "refused");
                    self.idle_accepted = true;
                } else {
                    let st = status(tag, StatusKind::No, key);
                    nd::check(self.s.idle_reject(st).is_ok(), "refused");
                }
            }
            IdleDoneReceived => {
                nd::cover(15);
                nd::check(self.idle_accepted, "DONE without IDLE");
                self.idle_accepted = false;
            }
        }
    }
}

pub fn run(cfg: &Cfg) {
    let mut o = server::Options::default();
    o.max_literal_size = cfg.max_literal;
    let mut p = Pair {
        cfg,
        c: Client::new(client::Options::default()),
        s: Server::new(o, crate::frame::greeting()),
        c2s: Vec::new(),
        s2c: Vec::new(),
        sent: VecDeque::new(),
        open: VecDeque::new(),
        auth_data: VecDeque::new(),
        auth_tag: None,
        rounds: 0,
        extra: 0,
        to_client: VecDeque::new(),
        idle_accepted: false,
        cuts: 0,
    };
    let mut n = 0;
    for _ in 0..cfg.cmds {
        let tag = Tag::model(n & 3);
        n += 1;
        let body = match cfg.kinds[nd::choose(cfg.kinds.len() as u8) as usize] {
            Kind::Model(shape) => {
                let mut raw = Raw::one(id());
                raw.buf[1] = shape;
                CommandBody::Model { raw }
            }
            Kind::Noop => CommandBody::Noop,
            Kind::Auth => CommandBody::Authenticate {
                mechanism: AuthMechanism::Login,
                initial_response: Some(Secret::new(Cow::Owned(vec![id()]))),
            },
            Kind::Idle => CommandBody::Idle,
        };
        let c = Command { tag, body };
        let h = p.c.enqueue_command(c.clone());
        p.sent.push_back(c.clone());
        p.open.push_back((h, c));
    }
    let mut turn = nd::flip();
    let mut quiet = 0;
    for t in 0..cfg.most {
        if t < cfg.turns && p.extra < cfg.extra && nd::flip() {
            let key = id();
            let mut raw = Raw::one(key);
            raw.buf[1] = 0;
            p.s.enqueue_data(Data::Model(raw));
            p.to_client.push_back(raw);
            p.extra += 1;
            quiet = 0;
        }
        p.deliver(turn);
        let any = if turn { p.run_server() } else { p.run_client() };
        let wires = p.c2s.len() + p.s2c.len();
        quiet = if any || wires > 0 { 0 } else { quiet + 1 };
        if quiet >= 2 && (p.extra == cfg.extra || t >= cfg.turns) {
            break;
        }
        // The other side only has something to do if bytes are under way or it did not run yet.
        turn = !turn;
    }
    nd::check(quiet >= 2, "client and server do not come to rest");
    nd::check(p.open.is_empty(), "a command is neither completed nor rejected: deadlock");
    nd::check(p.sent.is_empty(), "a command did not arrive");
    nd::check(p.to_client.is_empty(), "a response did not arrive");
    nd::cover(20);
}
