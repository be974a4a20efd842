//! Server flows: an independent monitor of what a server may send and must report, checked against
//! the real server for every interleaving of calls within the bounds of the configuration.
use crate::{
    frame::{self, Line},
    util::*,
};
use bounded_static::IntoBoundedStatic;
use imap_codec::{
    decode::{CommandDecodeError, Decoder},
    encode::Encoder,
    imap_types::{
        auth::AuthenticateData,
        command::{Command, CommandBody},
        core::{LiteralMode, Tag, Text},
        model::Raw,
        response::*,
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use imap_next::{
    server::{Error, Event, Options, ResponseHandle, Server},
    Interrupt, Io, State,
};
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq)]
pub enum Resp {
    /// Data of any kind.
    Any,
    Data,
    DataLiteral,
    Status,
    Ccr,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    /// Responses that may be enqueued (at most `resps`).
    pub kinds: &'static [Resp],
    pub resps: u8,
    /// Class of the first message, if any.
    pub first: &'static [u8],
    /// Classes of messages the client may send (at most `msgs`).
    pub classes: &'static [u8],
    pub msgs: u8,
    /// User calls at most this often one of: `authenticate_continue`, `authenticate_finish`,
    /// `idle_accept`, `idle_reject` (bits 0..=3).
    pub user: u8,
    pub calls: &'static [u8],
    pub rounds: u8,
    pub drain: bool,
    pub greeted: bool,
    pub max_literal: u32,
    pub max_command: u32,
    pub relaxed: bool,
    /// Responses of all kinds and with codes.
    pub wide: bool,
}

pub const BAD: u8 = 0;
pub const LITERAL: u8 = 1;
pub const AUTH: u8 = 2;
pub const IDLE: u8 = 3;
pub const MISC: u8 = 4;
pub const MODEL: u8 = 5;
/// Not a message, but up to four arbitrary bytes.
pub const RAW: u8 = 0x10;

#[derive(PartialEq, Clone, Copy)]
enum St {
    Command,
    Auth,
    IdleAccept,
    IdleDone,
}
struct Out {
    handle: Option<ResponseHandle>,
    /// `None`: greeting.
    response: Option<Response<'static>>,
    bytes: VecDeque<u8>,
}
/// What the bytes received so far amount to.
enum Next {
    More,
    Command(Command<'static>),
    AuthData(AuthenticateData<'static>),
    Done,
    Malformed,
    BareLf,
    TooLong,
    LiteralTooLong(Tag<'static>, LiteralMode),
    Literal(u32, LiteralMode),
}
pub struct Mon {
    pub s: Server,
    cfg: Cfg,
    st: St,
    inp: Vec<u8>,
    start: usize,
    from: usize,
    /// Literal that is being received.
    lit: Option<u32>,
    outq: VecDeque<Out>,
    handles: Vec<ResponseHandle>,
    /// Calls of `next` it may take to come to rest.
    pub limit: u32,
}

fn text(b: u8) -> Text<'static> {
    Text::model(Raw::one(b))
}

impl Mon {
    pub fn new(cfg: &Cfg) -> Self {
        let mut o = Options::default();
        o.max_literal_size = cfg.max_literal;
        o.max_command_size = cfg.max_command;
        o.crlf_relaxed = cfg.relaxed;
        nd::check(o.set_literal_accept_text("accept".into()).is_ok(), "text refused");
        nd::check(o.set_literal_reject_text("reject".into()).is_ok(), "text refused");
        let g = frame::greeting();
        let bytes = GreetingCodec::default().encode(&g).dump().into();
        let mut outq = VecDeque::new();
        outq.push_back(Out { handle: None, response: None, bytes });
        Mon {
            s: Server::new(o, g),
            cfg: *cfg,
            st: St::Command,
            inp: Vec::new(),
            start: 0,
            from: 0,
            lit: None,
            outq,
            handles: Vec::new(),
            limit: 60,
        }
    }
    fn push(&mut self, handle: Option<ResponseHandle>, response: Response<'static>) {
        if let Some(h) = handle {
            for o in &self.handles {
                nd::check(*o != h, "a response handle was given out twice");
            }
            self.handles.push(h);
        }
        let bytes = ResponseCodec::default().encode(&response).dump().into();
        self.outq.push_back(Out { handle, response: Some(response), bytes });
    }
    fn any_status(&self) -> Status<'static> {
        if self.cfg.wide {
            let code = [None, Some(Code::Alert)][nd::choose(2) as usize].clone();
            match nd::choose(4) {
                0 => return Status::Bye(Bye { code, text: text(id()) }),
                1 => return Status::Untagged(StatusBody { kind: StatusKind::Ok, code, text: text(id()) }),
                2 => {
                    let body = StatusBody { kind: StatusKind::Bad, code, text: text(id()) };
                    return Status::Tagged(Tagged { tag: Tag::model(nd::below(4)), body });
                }
                _ => (),
            }
        }
        let kind = match nd::below(3) {
            0 => StatusKind::Ok,
            1 => StatusKind::No,
            _ => StatusKind::Bad,
        };
        let body = StatusBody { kind, code: None, text: text(id()) };
        Status::Tagged(Tagged { tag: Tag::model(nd::below(4)), body })
    }
    fn any_ccr(&self) -> CommandContinuationRequest<'static> {
        if self.cfg.wide && nd::flip() {
            return CommandContinuationRequest::Base64(Raw::one(id()));
        }
        CommandContinuationRequest::Basic(CommandContinuationRequestBasic::model(None, text(id())))
    }
    pub fn enqueue(&mut self, k: Resp) {
        match k {
            Resp::Any => {
                let mut raw = Raw::one(id());
                raw.len = 2;
                let d = Data::of_kind(nd::choose(Data::KINDS), raw);
                let h = self.s.enqueue_data(d.clone());
                self.push(Some(h), Response::Data(d));
            }
            Resp::Data | Resp::DataLiteral => {
                let mut raw = Raw::one(id());
                raw.buf[1] = (k == Resp::DataLiteral) as u8;
                raw.len = 2;
                let d = if self.cfg.wide && k == Resp::Data && nd::flip() { Data::of_kind(0, raw) } else { Data::Model(raw) };
                let h = self.s.enqueue_data(d.clone());
                self.push(Some(h), Response::Data(d));
            }
            Resp::Status => {
                let st = self.any_status();
                let h = self.s.enqueue_status(st.clone());
                self.push(Some(h), Response::Status(st));
            }
            Resp::Ccr => {
                let c = self.any_ccr();
                let h = self.s.enqueue_continuation_request(c.clone());
                self.push(Some(h), Response::CommandContinuationRequest(c));
            }
        }
    }
    pub fn feed(&mut self, m: &[u8]) {
        self.s.enqueue_input(m);
        self.inp.extend(m);
    }
    /// The receiver now expects something else.
    fn switch(&mut self, st: St) {
        self.st = st;
        self.from = self.start;
        self.lit = None;
    }
    pub fn call(&mut self, which: u8) {
        match which {
            0 => {
                let c = self.any_ccr();
                match self.s.authenticate_continue(c.clone()) {
                    Ok(h) => {
                        nd::cover(20);
                        nd::check(self.st == St::Auth, "authenticate_continue accepted out of turn");
                        self.push(Some(h), Response::CommandContinuationRequest(c));
                    }
                    Err(back) => {
                        nd::cover(21);
                        nd::check(self.st != St::Auth, "authenticate_continue refused");
                        nd::check(back == c, "continuation request not returned unchanged");
                    }
                }
            }
            1 => {
                let st = self.any_status();
                match self.s.authenticate_finish(st.clone()) {
                    Ok(h) => {
                        nd::cover(22);
                        nd::check(self.st == St::Auth, "authenticate_finish accepted out of turn");
                        self.push(Some(h), Response::Status(st));
                        self.switch(St::Command);
                    }
                    Err(back) => {
                        nd::cover(23);
                        nd::check(self.st != St::Auth, "authenticate_finish refused");
                        nd::check(back == st, "status not returned unchanged");
                    }
                }
            }
            2 => {
                let c = self.any_ccr();
                match self.s.idle_accept(c.clone()) {
                    Ok(h) => {
                        nd::cover(24);
                        nd::check(self.st == St::IdleAccept, "idle_accept accepted out of turn");
                        self.push(Some(h), Response::CommandContinuationRequest(c));
                        self.switch(St::IdleDone);
                    }
                    Err(back) => {
                        nd::cover(25);
                        nd::check(self.st != St::IdleAccept, "idle_accept refused");
                        nd::check(back == c, "continuation request not returned unchanged");
                    }
                }
            }
            _ => {
                let st = self.any_status();
                match self.s.idle_reject(st.clone()) {
                    Ok(h) => {
                        nd::cover(26);
                        nd::check(self.st == St::IdleAccept, "idle_reject accepted out of turn");
                        self.push(Some(h), Response::Status(st));
                        self.switch(St::Command);
                    }
                    Err(back) => {
                        nd::cover(27);
                        nd::check(self.st != St::IdleAccept, "idle_reject refused");
                        nd::check(back == st, "status not returned unchanged");
                    }
                }
            }
        }
    }

    /// Reads on in the current message; `self.from` is moved to the end of what was read.
    fn read(&mut self) -> Next {
        let max = Some(self.cfg.max_command as usize);
        if let Some(len) = self.lit {
            match frame::literal(&self.inp, self.start, self.from, len, max) {
                Line::At(e) => {
                    self.from = e;
                    self.lit = None;
                }
                Line::TooLong(e) => {
                    self.from = e;
                    return Next::TooLong;
                }
                _ => return Next::More,
            }
        }
        if self.st == St::IdleAccept {
            return Next::More;
        }
        match frame::line(&self.inp, self.start, self.from, self.cfg.relaxed, max) {
            Line::More => Next::More,
            Line::TooLong(e) => {
                self.from = e;
                Next::TooLong
            }
            Line::BareLf(e) => {
                self.from = e;
                Next::BareLf
            }
            Line::At(e) => {
                self.from = e;
                let m = &self.inp[self.start..e];
                match self.st {
                    St::Command => match CommandCodec::default().decode(m) {
                        Ok((_, c)) => Next::Command(c.into_static()),
                        Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                            if length > self.cfg.max_literal {
                                Next::LiteralTooLong(tag.into_static(), mode)
                            } else {
                                Next::Literal(length, mode)
                            }
                        }
                        Err(_) => Next::Malformed,
                    },
                    St::Auth => match AuthenticateDataCodec::default().decode(m) {
                        Ok((_, d)) => Next::AuthData(d.into_static()),
                        Err(_) => Next::Malformed,
                    },
                    St::IdleDone => match IdleDoneCodec::default().decode(m) {
                        Ok(_) => Next::Done,
                        Err(_) => Next::Malformed,
                    },
                    St::IdleAccept => unreachable!(),
                }
            }
        }
    }
    fn consumed(&mut self) -> Vec<u8> {
        let m = self.inp[self.start..self.from].to_vec();
        self.start = self.from;
        self.lit = None;
        m
    }
    fn discarded(&mut self, got: &[u8]) {
        let m = self.consumed();
        nd::check(same(got, &m), "discarded bytes are not the bytes of the refused message");
    }

    /// One call of `next`. Returns false if more input is needed.
    pub fn step(&mut self) -> bool {
        // Responses the server made itself are done once they are written.
        while matches!(self.outq.front(), Some(o) if o.handle.is_none() && o.response.is_some() && o.bytes.is_empty())
        {
            self.outq.pop_front();
        }
        // Announced literals within the limits are accepted without telling the user.
        let mut next = Next::More;
        if self.outq.is_empty() {
            loop {
                next = self.read();
                if let Next::Literal(len, mode) = next {
                    self.lit = Some(len);
                    if mode == LiteralMode::NonSync {
                        nd::cover(2);
                        continue;
                    }
                    nd::cover(3);
                    let t = Text::try_from("accept").unwrap();
                    self.push(
                        None,
                        Response::CommandContinuationRequest(
                            CommandContinuationRequest::basic(None, t).unwrap(),
                        ),
                    );
                    next = Next::More;
                }
                break;
            }
        }
        match self.s.next() {
            Err(Interrupt::Io(Io::Output(b))) => {
                nd::cover(1);
                nd::check(!b.is_empty(), "empty output");
                match self.outq.front_mut() {
                    Some(o) => nd::check(
                        take_prefix(&mut o.bytes, &b),
                        "output is not the continuation of the response to be sent",
                    ),
                    None => nd::fail("output although nothing is to be sent"),
                }
                return true;
            }
            Err(Interrupt::Io(Io::NeedMoreInput)) => {
                nd::cover(4);
                nd::check(self.outq.is_empty(), "enqueued response not sent although nothing is in the way");
                nd::check(matches!(next, Next::More), "complete message not processed");
                return false;
            }
            Ok(Event::GreetingSent { greeting }) => {
                nd::cover(5);
                match self.outq.pop_front() {
                    Some(o) if o.response.is_none() => {
                        nd::check(o.bytes.is_empty(), "greeting reported before it was sent");
                        nd::check(greeting == frame::greeting(), "greeting changed");
                    }
                    _ => nd::fail("greeting reported out of turn"),
                }
            }
            Ok(Event::ResponseSent { handle, response }) => {
                nd::cover(6);
                match self.outq.pop_front() {
                    Some(o) if o.response.is_some() => {
                        nd::check(o.bytes.is_empty(), "response reported before it was sent");
                        nd::check(
                            (o.handle == Some(handle)) & (o.response == Some(response)),
                            "wrong response reported as sent",
                        );
                    }
                    _ => nd::fail("response reported out of turn"),
                }
            }
            Ok(Event::CommandReceived { command }) => {
                nd::cover(7);
                self.consumed();
                match next {
                    Next::Command(c) => {
                        nd::check(
                            !matches!(c.body, CommandBody::Authenticate { .. } | CommandBody::Idle),
                            "AUTHENTICATE or IDLE reported as regular command",
                        );
                        nd::check(c == command, "wrong command reported");
                    }
                    _ => nd::fail("command reported that was not received"),
                }
            }
            Ok(Event::CommandAuthenticateReceived { command_authenticate }) => {
                nd::cover(8);
                self.consumed();
                match next {
                    Next::Command(c) => nd::check(
                        c == Command::from(command_authenticate),
                        "wrong AUTHENTICATE reported",
                    ),
                    _ => nd::fail("AUTHENTICATE reported that was not received"),
                }
                self.switch(St::Auth);
            }
            Ok(Event::AuthenticateDataReceived { authenticate_data }) => {
                nd::cover(9);
                self.consumed();
                match next {
                    Next::AuthData(d) => {
                        nd::check(d == authenticate_data, "wrong authentication data reported")
                    }
                    _ => nd::fail("authentication data reported that was not received"),
                }
            }
            Ok(Event::IdleCommandReceived { tag }) => {
                nd::cover(10);
                self.consumed();
                match next {
                    Next::Command(Command { tag: t, body: CommandBody::Idle }) => {
                        nd::check(t == tag, "wrong tag of IDLE reported")
                    }
                    _ => nd::fail("IDLE reported that was not received"),
                }
                self.switch(St::IdleAccept);
            }
            Ok(Event::IdleDoneReceived) => {
                nd::cover(11);
                self.consumed();
                nd::check(matches!(next, Next::Done), "DONE reported that was not received");
                self.switch(St::Command);
            }
            Err(Interrupt::Error(e)) => match e {
                Error::MalformedMessage { discarded_bytes } => {
                    nd::cover(12);
                    nd::check(matches!(next, Next::Malformed), "wrong error: malformed");
                    self.discarded(discarded_bytes.declassify());
                }
                Error::ExpectedCrlfGotLf { discarded_bytes } => {
                    nd::cover(13);
                    nd::check(matches!(next, Next::BareLf), "wrong error: bare LF");
                    self.discarded(discarded_bytes.declassify());
                }
                Error::CommandTooLong { discarded_bytes } => {
                    nd::cover(14);
                    nd::check(matches!(next, Next::TooLong), "wrong error: too long");
                    self.discarded(discarded_bytes.declassify());
                }
                Error::LiteralTooLong { discarded_bytes } => {
                    nd::cover(15);
                    self.discarded(discarded_bytes.declassify());
                    match next {
                        Next::LiteralTooLong(_, LiteralMode::NonSync) => {}
                        Next::LiteralTooLong(tag, LiteralMode::Sync) => {
                            nd::cover(16);
                            let t = Text::try_from("reject").unwrap();
                            self.push(
                                None,
                                Response::Status(Status::bad(Some(tag), None, t).unwrap()),
                            );
                        }
                        _ => nd::fail("wrong error: literal too long"),
                    }
                }
            },
        }
        true
    }
    pub fn rest(&mut self) {
        let mut n = 0;
        while self.step() {
            n += 1;
            nd::check(n < self.limit, "server does not come to rest");
        }
    }
}

pub fn run(cfg: &Cfg) {
    let mut m = Mon::new(cfg);
    let (mut resps, mut msgs, mut user) = (0, 0, 0);
    if cfg.greeted {
        m.rest();
    }
    let mut waiting = cfg.greeted;
    for _ in 0..cfg.rounds {
        let mut idle = true;
        for _ in 0..1 + cfg.wide as u8 {
            if resps == cfg.resps || !nd::flip() {
                break;
            }
            m.enqueue(cfg.kinds[nd::choose(cfg.kinds.len() as u8) as usize]);
            resps += 1;
            idle = false;
        }
        if msgs < cfg.msgs && nd::flip() {
            let c = if msgs == 0 && !cfg.first.is_empty() { cfg.first } else { cfg.classes };
            let class = c[nd::choose(c.len() as u8) as usize];
            if class == RAW {
                m.feed(&frame::bytes(1 + nd::choose(4) as usize));
            } else {
                m.feed(&message(class));
            }
            msgs += 1;
            idle = false;
        }
        if user < cfg.user {
            let c = nd::choose(cfg.calls.len() as u8 + 1);
            if c > 0 {
                m.call(cfg.calls[c as usize - 1]);
                user += 1;
                idle = false;
            }
        }
        if waiting && idle {
            break;
        }
        if cfg.drain {
            m.rest();
            waiting = true;
        } else {
            waiting = !m.step();
        }
    }
    m.rest();
}

/// `set_literal_accept_text`, `set_literal_reject_text`: valid texts are taken over and sent,
/// invalid ones are given back and change nothing.
pub fn texts() {
    let mut o = Options::default();
    let mut texts = [Text::unvalidated("..."), Text::unvalidated("...")];
    for _ in 0..2 {
        let n = nd::choose(3);
        let mut t = String::new();
        for _ in 0..n {
            let b = nd::u8();
            nd::assume(b < 0x80);
            t.push(b as char);
        }
        let which = nd::flip() as usize;
        let valid = CommandContinuationRequestBasic::new(None, t.as_str()).is_ok();
        let copy = t.clone();
        let r = if which == 0 { o.set_literal_accept_text(t) } else { o.set_literal_reject_text(t) };
        match r {
            Ok(()) => {
                nd::cover(30);
                nd::check(valid, "invalid text accepted");
                texts[which] = Text::unvalidated(copy);
            }
            Err(back) => {
                nd::cover(31);
                nd::check(!valid, "valid text refused");
                nd::check(same(back.as_bytes(), copy.as_bytes()), "refused text not returned unchanged");
            }
        }
        nd::check(*o.literal_accept_text() == texts[0], "wrong text for accepting literals");
        nd::check(*o.literal_reject_text() == texts[1], "wrong text for rejecting literals");
    }
    o.max_literal_size = 1;
    let mut s = frame::greeted(o);
    let k = 0x20 | nd::below(32);
    s.enqueue_input(&[id(), k, b'\r', b'\n']);
    let m = [0x20, k, b'\r', b'\n'];
    let Err(CommandDecodeError::LiteralFound { tag, length, mode }) = CommandCodec::default().decode(&m) else {
        unreachable!()
    };
    if length > 1 {
        match s.next() {
            Err(Interrupt::Error(Error::LiteralTooLong { .. })) => {}
            _ => nd::fail("too long literal not reported"),
        }
    }
    let want = match (mode, length > 1) {
        (LiteralMode::NonSync, _) => None,
        (LiteralMode::Sync, false) => {
            nd::cover(32);
            let [t, _] = texts;
            Some(Response::CommandContinuationRequest(
                CommandContinuationRequest::basic(None, t).unwrap(),
            ))
        }
        (LiteralMode::Sync, true) => {
            nd::cover(33);
            let [_, t] = texts;
            Some(Response::Status(Status::bad(Some(tag), None, t).unwrap()))
        }
    };
    match (s.next(), want) {
        (Err(Interrupt::Io(Io::NeedMoreInput)), None) => {}
        (Err(Interrupt::Io(Io::Output(b))), Some(r)) => {
            nd::check(same(&b, &ResponseCodec::default().encode(&r).dump()), "literal answered with the wrong text")
        }
        _ => nd::fail("literal not answered"),
    }
}
