//! Client flows: an independent monitor of what a client may send and must report, checked against
//! the real client for every interleaving of calls within the bounds of the configuration.
use crate::util::*;
use imap_codec::{
    decode::{Decoder, ResponseDecodeError},
    encode::{Encoder, Fragment},
    imap_types::{
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::Tag,
        extensions::idle::IdleDone,
        model::Raw,
        response::*,
        secret::Secret,
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use imap_next::{
    client::{Client, CommandHandle, Error, Event, Options},
    Interrupt, Io, State,
};
use std::{borrow::Cow, collections::VecDeque};

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// Regular command with the given fragment shape.
    Model(u8),
    /// Command of any kind of which only the contents matter, with the given fragment shape.
    Any(u8),
    Noop,
    Auth,
    Idle,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    /// Commands that may be enqueued (at most `cmds`, in any order and multiplicity).
    pub kinds: &'static [Kind],
    pub cmds: u8,
    /// Classes of responses the server may send (at most `msgs`).
    pub classes: &'static [u8],
    pub msgs: u8,
    /// User calls at most this often one of the named functions (bit 0:
    /// `set_authenticate_data`, bit 1: `set_idle_done`).
    pub user: u8,
    pub calls: u8,
    /// Rounds of user actions and arriving responses.
    pub rounds: u8,
    /// Run the client until it needs input in every round, instead of one call of `next`.
    pub drain: bool,
    /// Start with the greeting already exchanged.
    pub greeted: bool,
}

// Shapes of regular commands (see the encoder model).
pub const PLAIN: u8 = 0;
pub const SYNC1: u8 = 0b000101;
pub const NONSYNC1: u8 = 0b000001;
pub const SYNC1_EMPTY: u8 = 0b001101;
pub const SYNC_SYNC: u8 = 0b010110;
pub const NONSYNC_SYNC: u8 = 0b010010;
pub const SYNC_NONSYNC: u8 = 0b000110;

pub const BAD: u8 = 0;
pub const CCR: u8 = 3;
pub const TAGGED: u8 = 4;
pub const UNTAGGED: u8 = 5;
pub const BYE: u8 = 6;
pub const DATA: u8 = 7;

struct Cur {
    handle: CommandHandle,
    command: Command<'static>,
    auth: bool,
    idle: bool,
    /// Regular: unused. Auth: 0 sending, 1 waiting for the server, 2 data requested, 3 sending data.
    /// Idle: 0 sending, 1 waiting for the server, 2 accepted, 3 sending DONE.
    phase: u8,
    /// Bytes that may be sent now.
    out: VecDeque<u8>,
    /// Synchronizing literal that waits for a continuation request.
    barrier: Option<Vec<u8>>,
    rest: VecDeque<Fragment>,
}
pub struct Mon {
    pub c: Client,
    greeted: bool,
    handles: Vec<CommandHandle>,
    queue: VecDeque<(CommandHandle, Command<'static>)>,
    cur: Option<Cur>,
    pend: VecDeque<Vec<u8>>,
    /// Calls of `next` it may take to come to rest.
    pub limit: u32,
}

fn ccr_is(m: &[u8]) -> bool {
    matches!(
        ResponseCodec::default().decode(m),
        Ok((_, Response::CommandContinuationRequest(_)))
    )
}

impl Mon {
    pub fn new() -> Self {
        Mon {
            c: Client::new(Options::default()),
            greeted: false,
            handles: Vec::new(),
            queue: VecDeque::new(),
            cur: None,
            pend: VecDeque::new(),
            limit: 40,
        }
    }

    pub fn enqueue(&mut self, kind: Kind) {
        self.enqueue_tagged(kind, Tag::model(nd::below(4)))
    }
    pub fn enqueue_tagged(&mut self, kind: Kind, tag: Tag<'static>) {
        let body = match kind {
            Kind::Model(shape) | Kind::Any(shape) => {
                let mut raw = Raw::one(id());
                raw.buf[1] = shape;
                raw.len = 2;
                match kind {
                    Kind::Model(_) => CommandBody::Model { raw },
                    _ => CommandBody::of_kind(nd::choose(CommandBody::KINDS), raw),
                }
            }
            Kind::Noop => CommandBody::Noop,
            Kind::Auth if nd::flip() => CommandBody::Authenticate { mechanism: AuthMechanism::Plain, initial_response: None },
            Kind::Auth => CommandBody::Authenticate {
                mechanism: AuthMechanism::Login,
                initial_response: Some(Secret::new(Cow::Owned(vec![id()]))),
            },
            Kind::Idle => CommandBody::Idle,
        };
        let command = Command { tag, body };
        let handle = self.c.enqueue_command(command.clone());
        for h in &self.handles {
            nd::check(*h != handle, "a command handle was given out twice");
        }
        self.handles.push(handle);
        self.queue.push_back((handle, command));
    }

    pub fn feed(&mut self, m: Vec<u8>) {
        self.c.enqueue_input(&m);
        self.pend.push_back(m);
    }
    /// Several messages in one piece.
    pub fn feed_all(&mut self, all: Vec<Vec<u8>>) {
        self.c.enqueue_input(&all.concat());
        self.pend.extend(all);
    }
    /// Commands that are neither completed nor rejected.
    pub fn open(&self) -> usize {
        self.queue.len() + self.cur.is_some() as usize
    }

    pub fn set_authenticate_data(&mut self) {
        let cancel = nd::flip();
        self.authenticate(cancel)
    }
    pub fn authenticate(&mut self, cancel: bool) {
        let data = if cancel {
            AuthenticateData::Cancel
        } else {
            AuthenticateData::Model(Raw::one(id()))
        };
        let got = self.c.set_authenticate_data(data.clone());
        match (&mut self.cur, got) {
            (Some(cur), got) if cur.auth && cur.phase == 2 => {
                nd::check(got == Ok(cur.handle), "requested authentication data not accepted");
                nd::cover(20);
                cur.phase = 3;
                cur.out.extend(AuthenticateDataCodec::default().encode(&data).dump());
            }
            (_, Err(back)) => {
                nd::check(back == data, "refused authentication data not returned unchanged");
                nd::cover(21);
            }
            (_, Ok(_)) => nd::fail("authentication data accepted although not requested"),
        }
    }

    pub fn set_idle_done(&mut self) {
        let got = self.c.set_idle_done();
        match &mut self.cur {
            Some(cur) if cur.idle && cur.phase == 2 => {
                nd::check(got == Some(cur.handle), "idle done not accepted during IDLE");
                nd::cover(22);
                cur.phase = 3;
                cur.out.extend(IdleDoneCodec::default().encode(&IdleDone).dump());
            }
            _ => {
                nd::check(got.is_none(), "idle done accepted outside of IDLE");
                nd::cover(23);
            }
        }
    }

    fn start_next(&mut self) {
        if self.cur.is_some() || !self.greeted {
            return;
        }
        let Some((handle, command)) = self.queue.pop_front() else { return };
        let mut rest = fragments(CommandCodec::default().encode(&command));
        let mut out = VecDeque::new();
        let barrier = until_sync(&mut rest, &mut out);
        let auth = matches!(command.body, CommandBody::Authenticate { .. });
        let idle = matches!(command.body, CommandBody::Idle);
        self.cur = Some(Cur { handle, command, auth, idle, phase: 0, out, barrier, rest });
    }

    /// The message that the event must be about.
    fn message(&mut self) -> Vec<u8> {
        match self.pend.pop_front() {
            Some(m) => m,
            None => nd::fail("a response was reported that was not received"),
        }
    }
    fn status(&mut self, got: &Status<'static>) {
        let m = self.message();
        match ResponseCodec::default().decode(&m) {
            Ok((_, Response::Status(s))) => {
                nd::check(s == *got, "status reported out of order or changed")
            }
            _ => nd::fail("status reported that was not received"),
        }
    }
    fn ccr(&mut self, got: &CommandContinuationRequest<'static>) {
        let m = self.message();
        match ResponseCodec::default().decode(&m) {
            Ok((_, Response::CommandContinuationRequest(s))) => {
                nd::check(s == *got, "continuation request reported out of order or changed")
            }
            _ => nd::fail("continuation request reported that was not received"),
        }
    }
    /// Does this status end the current flow?
    fn ends(&self, s: &Status) -> bool {
        match (&self.cur, s) {
            (Some(cur), Status::Tagged(t)) => {
                t.tag == cur.command.tag
                    && (cur.auth || cur.idle || t.body.kind == StatusKind::Bad)
            }
            _ => false,
        }
    }

    pub fn rest(&mut self) {
        let mut n = 0;
        while self.step() {
            n += 1;
            nd::check(n < self.limit, "client does not come to rest");
        }
    }

    /// One call of `next`. Returns false if more input is needed.
    pub fn step(&mut self) -> bool {
        self.start_next();
        let released = match (&self.cur, self.pend.front()) {
            (Some(cur), Some(m)) if cur.barrier.is_some() && cur.out.is_empty() => ccr_is(m),
            _ => false,
        };
        let r = self.c.next();
        if let Err(Interrupt::Io(Io::Output(b))) = r {
            nd::cover(1);
            nd::check(self.greeted, "bytes sent before the greeting was received");
            nd::check(!b.is_empty(), "empty output");
            let Some(cur) = &mut self.cur else { nd::fail("output although nothing is to be sent") };
            if released {
                nd::cover(2);
                self.pend.pop_front();
                cur.out.extend(cur.barrier.take().unwrap());
                cur.barrier = until_sync(&mut cur.rest, &mut cur.out);
            }
            nd::check(
                take_prefix(&mut cur.out, &b),
                "output is not the continuation of the current command",
            );
            if cur.auth && cur.phase == 3 && cur.out.is_empty() {
                cur.phase = 1; // data was sent, the server's turn again
            }
            return true;
        }
        nd::check(!released, "continuation request did not release the literal it was for");
        match r {
            Err(Interrupt::Io(Io::Output(_))) => {}
            Err(Interrupt::Io(Io::NeedMoreInput)) => {
                nd::cover(3);
                nd::check(self.pend.is_empty(), "complete response not processed");
                match &self.cur {
                    Some(cur) => {
                        nd::check(cur.out.is_empty(), "bytes that may be sent are withheld");
                        nd::check(!(cur.auth && cur.phase == 3), "authentication data stuck");
                        if cur.auth {
                            nd::check(cur.phase == 1 || cur.phase == 2, "AUTHENTICATE stuck");
                        } else if cur.idle {
                            nd::check(cur.phase == 1 || cur.phase == 2, "IDLE stuck");
                        } else {
                            nd::check(cur.barrier.is_some(), "command neither sent nor waiting");
                        }
                    }
                    None => nd::check(
                        !self.greeted || self.queue.is_empty(),
                        "queued command not sent although nothing is in the way",
                    ),
                }
                return false;
            }
            Err(Interrupt::Error(e)) => {
                nd::cover(4);
                let m = self.message();
                match e {
                    Error::MalformedMessage { discarded_bytes } => {
                        let bad = if self.greeted {
                            matches!(
                                ResponseCodec::default().decode(&m),
                                Err(ResponseDecodeError::Failed | ResponseDecodeError::Incomplete)
                            )
                        } else {
                            GreetingCodec::default().decode(&m).is_err()
                        };
                        nd::check(bad, "well-formed message reported as malformed");
                        nd::check(
                            same(discarded_bytes.declassify(), &m),
                            "discarded bytes are not the malformed message",
                        );
                    }
                    Error::ExpectedCrlfGotLf { .. } => nd::fail("wrong error"),
                }
            }
            Ok(event) => self.event(event),
        }
        true
    }

    fn event(&mut self, event: Event) {
        match event {
            Event::GreetingReceived { greeting } => {
                nd::cover(5);
                nd::check(!self.greeted, "second greeting");
                let m = self.message();
                match GreetingCodec::default().decode(&m) {
                    Ok((_, g)) => nd::check(g == greeting, "greeting changed"),
                    Err(_) => nd::fail("malformed greeting accepted"),
                }
                self.greeted = true;
            }
            Event::CommandSent { handle, command } => {
                nd::cover(6);
                let Some(cur) = self.cur.take() else { nd::fail("no command was being sent") };
                nd::check(!cur.auth && !cur.idle, "wrong kind of completion");
                nd::check(
                    cur.out.is_empty() && cur.barrier.is_none(),
                    "command reported as sent before all of it was sent",
                );
                nd::check(
                    (handle == cur.handle) & (command == cur.command),
                    "wrong command reported as sent",
                );
            }
            Event::CommandRejected { handle, command, status } => {
                nd::cover(7);
                nd::check(self.ends(&status), "command rejected by a status that does not reject it");
                self.status(&status);
                let Some(cur) = self.cur.take() else { nd::fail("no command was being sent") };
                nd::check(!cur.auth && !cur.idle, "wrong kind of rejection");
                nd::check(
                    (handle == cur.handle) & (command == cur.command),
                    "wrong command reported as rejected",
                );
            }
            Event::AuthenticateStarted { handle } => {
                nd::cover(8);
                let Some(cur) = &mut self.cur else { nd::fail("no AUTHENTICATE in progress") };
                nd::check(
                    cur.auth && cur.phase == 0 && cur.out.is_empty(),
                    "AUTHENTICATE reported as started before it was sent, or twice",
                );
                nd::check(handle == cur.handle, "wrong handle for AUTHENTICATE");
                cur.phase = 1;
            }
            Event::AuthenticateContinuationRequestReceived { handle, continuation_request } => {
                nd::cover(9);
                self.ccr(&continuation_request);
                let Some(cur) = &mut self.cur else { nd::fail("no AUTHENTICATE in progress") };
                nd::check(cur.auth && cur.phase == 1, "authentication data requested out of turn");
                nd::check(handle == cur.handle, "wrong handle for AUTHENTICATE");
                cur.phase = 2;
            }
            Event::AuthenticateStatusReceived { handle, command_authenticate, status } => {
                nd::cover(10);
                nd::check(self.ends(&status), "AUTHENTICATE ended by a status of another command");
                self.status(&status);
                let Some(cur) = self.cur.take() else { nd::fail("no AUTHENTICATE in progress") };
                nd::check(cur.auth, "wrong kind of completion");
                nd::check(
                    (handle == cur.handle) & (Command::from(command_authenticate) == cur.command),
                    "wrong AUTHENTICATE reported as finished",
                );
            }
            Event::IdleCommandSent { handle } => {
                nd::cover(11);
                let Some(cur) = &mut self.cur else { nd::fail("no IDLE in progress") };
                nd::check(
                    cur.idle && cur.phase == 0 && cur.out.is_empty(),
                    "IDLE reported as sent before it was, or twice",
                );
                nd::check(handle == cur.handle, "wrong handle for IDLE");
                cur.phase = 1;
            }
            Event::IdleAccepted { handle, continuation_request } => {
                nd::cover(12);
                self.ccr(&continuation_request);
                let Some(cur) = &mut self.cur else { nd::fail("no IDLE in progress") };
                nd::check(cur.idle && cur.phase == 1, "IDLE accepted out of turn");
                nd::check(handle == cur.handle, "wrong handle for IDLE");
                cur.phase = 2;
            }
            Event::IdleRejected { handle, status } => {
                nd::cover(13);
                nd::check(self.ends(&status), "IDLE ended by a status of another command");
                self.status(&status);
                let Some(cur) = self.cur.take() else { nd::fail("no IDLE in progress") };
                nd::check(cur.idle, "wrong kind of rejection");
                nd::check(handle == cur.handle, "wrong handle for IDLE");
            }
            Event::IdleDoneSent { handle } => {
                nd::cover(14);
                let Some(cur) = self.cur.take() else { nd::fail("no IDLE in progress") };
                nd::check(
                    cur.idle && cur.phase == 3 && cur.out.is_empty(),
                    "DONE reported as sent before it was",
                );
                nd::check(handle == cur.handle, "wrong handle for IDLE");
            }
            Event::DataReceived { data } => {
                nd::cover(15);
                nd::check(self.greeted, "data before greeting");
                let m = self.message();
                match ResponseCodec::default().decode(&m) {
                    Ok((_, Response::Data(d))) => {
                        nd::check(d == data, "data reported out of order or changed")
                    }
                    _ => nd::fail("data reported that was not received"),
                }
            }
            Event::StatusReceived { status } => {
                nd::cover(16);
                nd::check(self.greeted, "status before greeting");
                nd::check(!self.ends(&status), "status that ends the current flow was not recognised");
                self.status(&status);
            }
            Event::ContinuationRequestReceived { continuation_request } => {
                nd::cover(17);
                nd::check(self.greeted, "continuation request before greeting");
                if let Some(cur) = &mut self.cur {
                    nd::check(
                        !((cur.auth || cur.idle) && cur.phase == 1),
                        "continuation request not recognised as part of the current flow",
                    );
                }
                self.ccr(&continuation_request);
            }
        }
    }
}

pub fn greeting() -> Vec<u8> {
    vec![id(), 0x42, b'\r', b'\n']
}

pub fn run(cfg: &Cfg) {
    let mut m = Mon::new();
    let (mut cmds, mut msgs, mut user) = (0, 0, 0);
    if cfg.greeted {
        m.feed(greeting());
        nd::check(m.step(), "greeting not reported");
    }
    let mut waiting = false;
    for _ in 0..cfg.rounds {
        let mut idle = true;
        if cmds < cfg.cmds && nd::flip() {
            m.enqueue(cfg.kinds[nd::choose(cfg.kinds.len() as u8) as usize]);
            cmds += 1;
            idle = false;
        }
        if msgs < cfg.msgs && nd::flip() {
            let class = cfg.classes[nd::choose(cfg.classes.len() as u8) as usize];
            m.feed(message(class));
            msgs += 1;
            idle = false;
        }
        if user < cfg.user {
            let act = match cfg.calls {
                3 => nd::choose(3),
                c => nd::choose(2) * c,
            };
            match act {
                0 => {}
                1 => m.set_authenticate_data(),
                _ => m.set_idle_done(),
            }
            if act != 0 {
                user += 1;
                idle = false;
            }
        }
        if waiting && idle {
            break; // nothing new: calling again tells nothing new
        }
        if cfg.drain {
            m.rest();
            waiting = true;
        } else {
            waiting = !m.step();
        }
    }
    m.rest();
}
