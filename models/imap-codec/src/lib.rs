//! Model of `imap-codec` (the pinned git revision is not available offline).
//!
//! Decoders are deterministic functions of *all* bytes they are given: the byte before the line
//! ending of the last line (the "code byte") selects the outcome (every outcome the real decoders
//! document is selectable), and a successful message carries a copy of every byte. So a caller
//! that passes too few, too many, reordered or stale bytes gets an observably different message.
//!
//! Encoders are injective and produce the fragment shapes the real ones document.

pub use imap_types;
use imap_types::model::Raw;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct GreetingCodec;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct CommandCodec;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AuthenticateDataCodec;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ResponseCodec;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct IdleDoneCodec;

impl GreetingCodec {
    pub fn new() -> Self {
        Self
    }
}
impl CommandCodec {
    pub fn new() -> Self {
        Self
    }
}
impl AuthenticateDataCodec {
    pub fn new() -> Self {
        Self
    }
}
impl ResponseCodec {
    pub fn new() -> Self {
        Self
    }
}
impl IdleDoneCodec {
    pub fn new() -> Self {
        Self
    }
}

pub mod model {
    use super::*;

    /// The byte before the final line ending (`\n` or `\r\n`), 0 if there is none.
    pub fn code_byte(input: &[u8]) -> u8 {
        let n = input.len();
        if n >= 2 && input[n - 2] != b'\r' {
            input[n - 2]
        } else if n >= 3 {
            input[n - 3]
        } else {
            0
        }
    }

    /// What a code byte means.
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum Class {
        Failed,
        Incomplete,
        Literal,
        Other(u8),
    }
    pub fn class(k: u8) -> Class {
        match k >> 5 {
            0 if k & 1 == 1 => Class::Failed,
            0 => Class::Incomplete,
            1 => Class::Literal,
            c => Class::Other(c),
        }
    }
    /// Announced literal length: 0, 1, 2 (or `long`) or `u32::MAX`.
    pub fn literal_length(k: u8) -> u32 {
        if let Some(n) = announced() {
            return *n;
        }
        // Each length on its own path, so that offsets into buffers stay concrete.
        match nd::fork(k & 3) {
            3 => u32::MAX,
            2 => *long(),
            n => n as u32,
        }
    }
    /// Announces this length whatever the code byte says.
    pub fn announced() -> &'static mut Option<u32> {
        static mut LENGTH: Option<u32> = None;
        unsafe { &mut *(&raw mut LENGTH) }
    }
    /// Length of the longest literal that can be received.
    pub fn long() -> &'static mut u32 {
        static mut LONG: u32 = 2;
        unsafe { &mut *(&raw mut LONG) }
    }
    pub fn literal_sync(k: u8) -> bool {
        k & 4 != 0
    }
    pub fn tag_of_literal(k: u8) -> u8 {
        (k >> 3) & 3
    }

    /// From here on, the first byte of a message (or code) may tell its kind.
    pub const KIND: u8 = 0xC0;
    /// Whether it does.
    pub fn kinds() -> &'static mut bool {
        static mut ON: bool = false;
        unsafe { &mut *(&raw mut ON) }
    }
    /// Kind (below `n`) according to the first byte; `n` if any.
    pub fn kind_of(first: u8, n: u8) -> u8 {
        if *kinds() && first >= KIND && first - KIND < n {
            nd::fork(first - KIND)
        } else {
            n
        }
    }
    /// The contents of a message of a kind.
    pub fn told(mut raw: Raw, kind: u8, n: u8) -> Raw {
        if kind < n && *kinds() {
            raw.buf[0] = KIND + kind;
        }
        raw
    }
    pub use imap_types::model::Raw as R;
    pub fn raw(input: &[u8]) -> Raw {
        Raw::of(input)
    }
}

pub mod decode {
    use super::{
        model::{class, code_byte, Class},
        *,
    };
    use bounded_static::IntoBoundedStatic;
    use imap_types::{
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::{LiteralMode, Tag, Text},
        extensions::idle::IdleDone,
        response::*,
        secret::Secret,
    };
    use std::{borrow::Cow, fmt};

    pub trait Decoder {
        type Message<'a>: Sized;
        type Error<'a>;
        #[allow(clippy::type_complexity)]
        fn decode<'a>(
            &self,
            input: &'a [u8],
        ) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;
        fn decode_static<'a>(
            &self,
            input: &'a [u8],
        ) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
        where
            Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
            Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
        {
            match self.decode(input) {
                Ok((r, m)) => Ok((r, m.into_static())),
                Err(e) => Err(e.into_static()),
            }
        }
    }

    macro_rules! plain_error {
        ($($t:ident),*) => {$(
            #[derive(Clone, PartialEq, Eq)]
            pub enum $t { Incomplete, Failed }
            impl fmt::Debug for $t {
                fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
            }
            impl IntoBoundedStatic for $t {
                type Static = $t;
                fn into_static(self) -> $t { self }
            }
        )*};
    }
    plain_error!(GreetingDecodeError, AuthenticateDataDecodeError, IdleDoneDecodeError);

    #[derive(Clone, PartialEq, Eq)]
    pub enum CommandDecodeError<'a> {
        Incomplete,
        LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode },
        Failed,
    }
    impl fmt::Debug for CommandDecodeError<'_> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl IntoBoundedStatic for CommandDecodeError<'_> {
        type Static = CommandDecodeError<'static>;
        fn into_static(self) -> CommandDecodeError<'static> {
            match self {
                Self::Incomplete => CommandDecodeError::Incomplete,
                Self::Failed => CommandDecodeError::Failed,
                Self::LiteralFound { tag, length, mode } => {
                    CommandDecodeError::LiteralFound { tag: tag.into_static(), length, mode }
                }
            }
        }
    }
    #[derive(Clone, PartialEq, Eq)]
    pub enum ResponseDecodeError {
        Incomplete,
        LiteralFound { length: u32 },
        Failed,
    }
    impl fmt::Debug for ResponseDecodeError {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl IntoBoundedStatic for ResponseDecodeError {
        type Static = ResponseDecodeError;
        fn into_static(self) -> Self {
            self
        }
    }

    fn rest(input: &[u8]) -> &[u8] {
        &input[input.len()..]
    }
    fn text(input: &[u8]) -> Text<'static> {
        Text::model(if cfg!(feature = "proxy") { Raw::one(input[0]) } else { Raw::of(input) })
    }
    #[cfg(not(feature = "proxy"))]
    fn code(k: u8, _: &[u8]) -> Option<Code<'static>> {
        if k & 0x10 != 0 {
            Some(Code::Alert)
        } else {
            None
        }
    }
    /// A code is what stands between the first byte and the code byte; an alert if that is nothing.
    #[cfg(feature = "proxy")]
    fn code(k: u8, input: &[u8]) -> Option<Code<'static>> {
        if k & 0x10 == 0 {
            return None;
        }
        let c = proxy::middle(input);
        Some(if c.is_empty() {
            Code::Alert
        } else if nd::fork(c[0] >> 7) != 0 {
            match model::kind_of(c[0], Code::KINDS) {
                kind if kind < Code::EMPTY && c.len() > 1 => Code::Model(Raw::of(c)),
                kind => Code::of_kind(kind, Raw::of(c)),
            }
        } else {
            Code::Capability(proxy::capabilities(c))
        })
    }

    impl Decoder for GreetingCodec {
        type Message<'a> = Greeting<'a>;
        type Error<'a> = GreetingDecodeError;
        fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), Self::Error<'a>> {
            let k = code_byte(input);
            match class(k) {
                Class::Failed => Err(GreetingDecodeError::Failed),
                Class::Incomplete => Err(GreetingDecodeError::Incomplete),
                _ => Ok((
                    rest(input),
                    Greeting {
                        kind: match k & 3 {
                            0 => GreetingKind::PreAuth,
                            1 => GreetingKind::Bye,
                            _ => GreetingKind::Ok,
                        },
                        code: code(k, input),
                        text: text(input),
                    },
                )),
            }
        }
    }

    impl Decoder for CommandCodec {
        type Message<'a> = Command<'a>;
        type Error<'a> = CommandDecodeError<'a>;
        fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), Self::Error<'a>> {
            let k = code_byte(input);
            let c = match class(k) {
                Class::Failed => return Err(CommandDecodeError::Failed),
                Class::Incomplete => return Err(CommandDecodeError::Incomplete),
                Class::Literal => {
                    return Err(CommandDecodeError::LiteralFound {
                        tag: Tag::model(model::tag_of_literal(k)),
                        length: model::literal_length(k),
                        mode: if model::literal_sync(k) {
                            LiteralMode::Sync
                        } else {
                            LiteralMode::NonSync
                        },
                    })
                }
                Class::Other(c) => c,
            };
            let tag = Tag::model((k >> 3) & 3);
            let body = match c {
                2 => CommandBody::Authenticate {
                    mechanism: if k & 1 == 0 { AuthMechanism::Plain } else { AuthMechanism::Login },
                    // Elsewhere, each combination with the mechanism would be a path of its own.
                    initial_response: if (if cfg!(feature = "proxy") { k & 4 != 0 } else { k & 1 != 0 }) {
                        Some(Secret::new(Cow::Owned(vec![input[0]])))
                    } else {
                        None
                    },
                },
                3 => CommandBody::Idle,
                4 => match k & 7 {
                    0 => CommandBody::Noop,
                    1 => CommandBody::Logout,
                    2 => CommandBody::Capability,
                    3 => CommandBody::StartTLS,
                    _ => CommandBody::Check,
                },
                _ => CommandBody::of_kind(model::kind_of(input[0], CommandBody::KINDS), Raw::of(input)),
            };
            Ok((rest(input), Command { tag, body }))
        }
    }

    impl Decoder for AuthenticateDataCodec {
        type Message<'a> = AuthenticateData<'a>;
        type Error<'a> = AuthenticateDataDecodeError;
        fn decode<'a>(
            &self,
            input: &'a [u8],
        ) -> Result<(&'a [u8], AuthenticateData<'a>), Self::Error<'a>> {
            match class(code_byte(input)) {
                Class::Failed => Err(AuthenticateDataDecodeError::Failed),
                Class::Incomplete => Err(AuthenticateDataDecodeError::Incomplete),
                Class::Other(3) => Ok((rest(input), AuthenticateData::Cancel)),
                _ => Ok((rest(input), AuthenticateData::Model(Raw::of(input)))),
            }
        }
    }

    impl Decoder for IdleDoneCodec {
        type Message<'a> = IdleDone;
        type Error<'a> = IdleDoneDecodeError;
        fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), Self::Error<'a>> {
            match class(code_byte(input)) {
                Class::Failed | Class::Literal => Err(IdleDoneDecodeError::Failed),
                Class::Incomplete => Err(IdleDoneDecodeError::Incomplete),
                _ => Ok((rest(input), IdleDone)),
            }
        }
    }

    /// The response a code byte (and the whole message) stands for.
    fn response(k: u8, input: &[u8]) -> Response<'static> {
        let kind = match (k >> 2) & 3 {
            0 => StatusKind::Ok,
            1 => StatusKind::No,
            _ => StatusKind::Bad,
        };
        match k >> 5 {
            3 => Response::CommandContinuationRequest(if k & 1 == 1 {
                CommandContinuationRequest::Basic(CommandContinuationRequestBasic::model(
                    if cfg!(feature = "proxy") { code(k, input) } else { None },
                    text(input),
                ))
            } else {
                CommandContinuationRequest::Base64(Raw::of(input))
            }),
            4 => Response::Status(Status::Tagged(Tagged {
                tag: Tag::model(k & 3),
                body: StatusBody { kind, code: code(k, input), text: text(input) },
            })),
            5 => Response::Status(Status::Untagged(StatusBody { kind, code: code(k, input), text: text(input) })),
            6 => Response::Status(Status::Bye(Bye { code: code(k, input), text: text(input) })),
            #[cfg(feature = "proxy")]
            _ if k & 0x10 != 0 => Response::Data(Data::Capability(proxy::capabilities(proxy::middle(input)))),
            _ => Response::Data(match model::kind_of(input[0], Data::KINDS) {
                0 | 1 if input.len() != 4 => Data::Model(Raw::of(input)),
                kind => Data::of_kind(kind, Raw::of(input)),
            }),
        }
    }

    impl Decoder for ResponseCodec {
        type Message<'a> = Response<'a>;
        type Error<'a> = ResponseDecodeError;
        fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), Self::Error<'a>> {
            let k = code_byte(input);
            match class(k) {
                Class::Failed => Err(ResponseDecodeError::Failed),
                Class::Incomplete => Err(ResponseDecodeError::Incomplete),
                Class::Literal => {
                    Err(ResponseDecodeError::LiteralFound { length: model::literal_length(k) })
                }
                _ => Ok((rest(input), response(k, input))),
            }
        }
    }
}

pub mod encode {
    use super::*;
    use imap_types::{
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::{LiteralMode, Text},
        extensions::idle::IdleDone,
        response::*,
    };
    use std::{collections::VecDeque, fmt};

    #[derive(Clone, PartialEq, Eq)]
    pub enum Fragment {
        Line { data: Vec<u8> },
        Literal { data: Vec<u8>, mode: LiteralMode },
    }
    impl fmt::Debug for Fragment {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }

    #[derive(Clone)]
    pub struct Encoded {
        pub items: VecDeque<Fragment>,
    }
    impl fmt::Debug for Encoded {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl Encoded {
        pub fn dump(self) -> Vec<u8> {
            let mut out = Vec::new();
            for f in self {
                match f {
                    Fragment::Line { mut data } | Fragment::Literal { mut data, .. } => {
                        out.append(&mut data)
                    }
                }
            }
            out
        }
    }
    impl Iterator for Encoded {
        type Item = Fragment;
        fn next(&mut self) -> Option<Fragment> {
            self.items.pop_front()
        }
    }

    pub trait Encoder {
        type Message<'a>;
        fn encode(&self, message: &Self::Message<'_>) -> Encoded;
    }

    /// One line: payload byte, code byte, line ending.
    fn line(id: u8, k: u8) -> Fragment {
        Fragment::Line { data: vec![id, k, b'\r', b'\n'] }
    }
    fn single(id: u8, k: u8) -> Encoded {
        let mut items = VecDeque::with_capacity(8);
        items.push_back(line(id, k));
        Encoded { items }
    }
    /// Second byte of a literal's data (the first is the message's payload byte).
    pub const LITERAL: u8 = 0xC0;

    /// The line of a text with a code.
    #[cfg(not(feature = "proxy"))]
    fn text(t: &Text<'_>, _: Option<&Code<'_>>, k: u8) -> Encoded {
        single(t.raw.key(), k)
    }
    #[cfg(feature = "proxy")]
    fn text(t: &Text<'_>, c: Option<&Code<'_>>, k: u8) -> Encoded {
        let n = (t.raw.len as usize).min(imap_types::model::RAW);
        let mut data = Vec::with_capacity(32);
        data.extend_from_slice(&t.raw.buf[..n]);
        match c {
            Some(Code::Capability(c)) => data.extend(c.as_ref().iter().map(proxy::of_capability)),
            Some(c) if c.kind() < Code::EMPTY => data.push(model::KIND + c.kind()),
            Some(c) => {
                if let Some(r) = c.raw() {
                    let r = model::told(*r, c.kind(), Code::KINDS);
                    data.extend_from_slice(&r.buf[..r.len as usize])
                }
            }
            None => {}
        }
        data.extend_from_slice(&[k, b'\r', b'\n']);
        one(data)
    }
    fn one(data: Vec<u8>) -> Encoded {
        let mut items = VecDeque::with_capacity(8);
        items.push_back(Fragment::Line { data });
        Encoded { items }
    }

    /// Adds the line announcing a literal, and the literal. Bits of `s`: 0 = synchronizing, 1 = empty.
    fn literal(items: &mut VecDeque<Fragment>, n: u8, s: u8, id: u8, tag: u8) {
        let (sync, empty) = (s & 1, s & 2 != 0);
        items.push_back(line(id, 0x20 | tag << 3 | sync << 2 | if empty { 0 } else { 2 }));
        let mut data = if empty { Vec::new() } else { vec![id, LITERAL + n] };
        if !empty && *crate::model::long() > 2 {
            // Every byte is another.
            for i in 2..*crate::model::long() {
                data.push(id.wrapping_add(i as u8));
            }
        }
        items.push_back(Fragment::Literal {
            data,
            mode: if sync != 0 { LiteralMode::Sync } else { LiteralMode::NonSync },
        });
    }

    impl Encoder for GreetingCodec {
        type Message<'a> = Greeting<'a>;
        fn encode(&self, m: &Greeting<'_>) -> Encoded {
            let kind = match m.kind {
                GreetingKind::PreAuth => 0,
                GreetingKind::Bye => 1,
                GreetingKind::Ok => 2,
            };
            text(&m.text, m.code.as_ref(), 0x40 | code(&m.code) | kind)
        }
    }
    /// Which code a message carries (so that dropping or changing it is visible in the bytes).
    fn code(c: &Option<Code<'_>>) -> u8 {
        match c {
            None => 0,
            Some(Code::Alert) => 0x10,
            Some(_) => 0x10,
        }
    }

    impl Encoder for CommandCodec {
        type Message<'a> = Command<'a>;
        /// `CommandBody::Model`: `raw.buf[0]` is the identity, `raw.buf[1]` the fragment shape:
        /// bits 0-1 number of literals (0..=2), bits 2-3 first literal, bits 4-5 second literal.
        fn encode(&self, m: &Command<'_>) -> Encoded {
            let tag = m.tag.id();
            match &m.body {
                b if b.raw().is_some() => {
                    let raw = model::told(*b.raw().unwrap(), b.kind(), CommandBody::KINDS);
                    if cfg!(feature = "proxy") && raw.len >= 4 {
                        return proxy::verbatim(&raw);
                    }
                    let (id, shape) = (raw.buf[0], raw.buf[1]);
                    let mut items = VecDeque::with_capacity(8);
                    let n = shape & 3;
                    if n >= 1 {
                        literal(&mut items, 0, shape >> 2, id, tag);
                    }
                    if n >= 2 {
                        literal(&mut items, 1, shape >> 4, id, tag);
                    }
                    items.push_back(line(id, 0xA0 | tag << 3));
                    Encoded { items }
                }
                CommandBody::Authenticate { mechanism, initial_response: Some(r) } => single(
                    r.declassify().first().copied().unwrap_or(0),
                    0x44 | tag << 3 | if let AuthMechanism::Plain = mechanism { 0 } else { 1 },
                ),
                CommandBody::Authenticate { mechanism, initial_response: None } => single(
                    b'a',
                    0x40 | tag << 3 | if let AuthMechanism::Plain = mechanism { 0 } else { 1 },
                ),
                CommandBody::Idle => single(b'i', 0x60 | tag << 3),
                b => single(
                    b.name().as_bytes()[0],
                    0x80 | tag << 3
                        | match b {
                            CommandBody::Noop => 0,
                            CommandBody::Logout => 1,
                            CommandBody::Capability => 2,
                            CommandBody::StartTLS => 3,
                            _ => 4,
                        },
                ),
            }
        }
    }

    impl Encoder for AuthenticateDataCodec {
        type Message<'a> = AuthenticateData<'a>;
        fn encode(&self, m: &AuthenticateData<'_>) -> Encoded {
            match m {
                AuthenticateData::Cancel => single(b'*', 0x60),
                AuthenticateData::Model(r) if cfg!(feature = "proxy") && r.len >= 4 => proxy::line(r),
                AuthenticateData::Model(r) => single(r.key(), 0x80),
                AuthenticateData::Continue(d) => {
                    single(d.declassify().first().copied().unwrap_or(0), 0x82)
                }
            }
        }
    }

    impl Encoder for IdleDoneCodec {
        type Message<'a> = IdleDone;
        fn encode(&self, _: &IdleDone) -> Encoded {
            single(b'D', 0x80)
        }
    }

    impl Encoder for ResponseCodec {
        type Message<'a> = Response<'a>;
        fn encode(&self, m: &Response<'_>) -> Encoded {
            fn kind(k: StatusKind) -> u8 {
                match k {
                    StatusKind::Ok => 0,
                    StatusKind::No => 4,
                    StatusKind::Bad => 8,
                }
            }
            match m {
                Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
                    text(b.text(), b.code(), 0x61 | code(&b.code().cloned()))
                }
                Response::CommandContinuationRequest(CommandContinuationRequest::Base64(r)) => {
                    if cfg!(feature = "proxy") && r.len >= 4 {
                        return proxy::line(r);
                    }
                    single(r.key(), 0x60)
                }
                Response::Data(d) if d.raw().is_some() => {
                    let r = model::told(d.raw().unwrap(), d.kind(), Data::KINDS);
                    if cfg!(feature = "proxy") && r.len >= 4 {
                        return proxy::verbatim(&r);
                    }
                    let mut items = VecDeque::with_capacity(4);
                    if r.buf[1] & 0xE1 == 1 {
                        literal(&mut items, 0, r.buf[1] >> 1, r.key(), 0);
                    }
                    items.push_back(line(r.key(), 0xE0 | if d.kind() < Data::KINDS { 1 + d.kind() } else { 0 }));
                    Encoded { items }
                }
                #[cfg(feature = "proxy")]
                Response::Data(Data::Capability(c)) => {
                    let mut data = vec![b'C'];
                    data.extend(c.as_ref().iter().map(proxy::of_capability));
                    data.extend_from_slice(&[0xF0, b'\r', b'\n']);
                    one(data)
                }
                #[cfg(not(feature = "proxy"))]
                Response::Data(Data::Capability(c)) => single(c.len() as u8, 0xEA),
                Response::Data(_) => unreachable!(),
                Response::Status(s) => {
                    let c = code(&s.code().cloned());
                    let k = match s {
                        Status::Untagged(b) => 0xA0 | c | kind(b.kind),
                        Status::Tagged(t) => 0x80 | c | kind(t.body.kind) | t.tag.id(),
                        Status::Bye(_) => 0xC0 | c,
                    };
                    text(s.text(), s.code(), k)
                }
            }
        }
    }
}

pub mod proxy {
    //! Contents of messages, for programs that relay them.
    use super::{
        encode::{Encoded, Fragment},
        model,
    };
    use imap_types::{
        auth::{AuthMechanism, AuthMechanismOther},
        core::{LiteralMode, Vec1},
        extensions::quota::Resource,
        model::Raw,
        response::{Capability, CapabilityOther},
    };
    use std::{collections::VecDeque, marker::PhantomData};

    /// What stands between the first byte and the code byte.
    pub fn middle(input: &[u8]) -> &[u8] {
        let n = input.len();
        let end = if n >= 3 && input[n - 2] == b'\r' { n - 3 } else { n.saturating_sub(2) };
        if end <= 1 {
            &[]
        } else {
            &input[1..end]
        }
    }
    /// Capabilities are bytes from `FIRST` on.
    pub const CAPABILITIES: u8 = 38;
    pub const FIRST: u8 = 0x20;
    pub fn capability(b: u8) -> Capability<'static> {
        use Capability::*;
        match nd::fork(b.wrapping_sub(FIRST)) {
            0 => Imap4Rev1,
            1 => LoginDisabled,
            2 => StartTls,
            3 => Idle,
            4 => MailboxReferrals,
            5 => LoginReferrals,
            6 => SaslIr,
            7 => Enable,
            8 => Compress,
            9 => Quota,
            10 => QuotaRes(Resource::Storage),
            11 => QuotaRes(Resource::Message),
            12 => QuotaSet,
            13 => LiteralPlus,
            14 => LiteralMinus,
            15 => Move,
            16 => Id,
            17 => Unselect,
            18 => Sort(None),
            19 => Thread(0),
            20 => Metadata,
            21 => MetadataServer,
            22 => Binary,
            23 => UidPlus,
            24 => CondStore,
            25 => QResync,
            26 => Auth(AuthMechanism::Plain),
            27 => Auth(AuthMechanism::Login),
            28 => Auth(AuthMechanism::OAuthBearer),
            29 => Auth(AuthMechanism::XOAuth2),
            30 => Auth(AuthMechanism::ScramSha1),
            31 => Auth(AuthMechanism::ScramSha1Plus),
            32 => Auth(AuthMechanism::ScramSha256),
            33 => Auth(AuthMechanism::ScramSha256Plus),
            34 => Auth(AuthMechanism::ScramSha3_512),
            35 => Auth(AuthMechanism::ScramSha3_512Plus),
            36 => Auth(AuthMechanism::Other(AuthMechanismOther(0, PhantomData))),
            b => Other(CapabilityOther(b, PhantomData)),
        }
    }
    pub fn of_capability(c: &Capability<'_>) -> u8 {
        number(c).wrapping_add(FIRST)
    }
    fn number(c: &Capability<'_>) -> u8 {
        use Capability::*;
        match c {
            Imap4Rev1 => 0,
            LoginDisabled => 1,
            StartTls => 2,
            Idle => 3,
            MailboxReferrals => 4,
            LoginReferrals => 5,
            SaslIr => 6,
            Enable => 7,
            Compress => 8,
            Quota => 9,
            QuotaRes(Resource::Storage) => 10,
            QuotaRes(Resource::Message) => 11,
            QuotaSet => 12,
            LiteralPlus => 13,
            LiteralMinus => 14,
            Move => 15,
            Id => 16,
            Unselect => 17,
            Sort(_) => 18,
            Thread(_) => 19,
            Metadata => 20,
            MetadataServer => 21,
            Binary => 22,
            UidPlus => 23,
            CondStore => 24,
            QResync => 25,
            Auth(AuthMechanism::Plain) => 26,
            Auth(AuthMechanism::Login) => 27,
            Auth(AuthMechanism::OAuthBearer) => 28,
            Auth(AuthMechanism::XOAuth2) => 29,
            Auth(AuthMechanism::ScramSha1) => 30,
            Auth(AuthMechanism::ScramSha1Plus) => 31,
            Auth(AuthMechanism::ScramSha256) => 32,
            Auth(AuthMechanism::ScramSha256Plus) => 33,
            Auth(AuthMechanism::ScramSha3_512) => 34,
            Auth(AuthMechanism::ScramSha3_512Plus) => 35,
            Auth(_) => 36,
            Other(o) => o.0,
            _ => 255,
        }
    }
    pub fn capabilities(c: &[u8]) -> Vec1<Capability<'static>> {
        let mut v = Vec::with_capacity(4);
        for b in c {
            v.push(capability(*b));
        }
        Vec1::try_from(v).unwrap_or(Vec1::from(Capability::Imap4Rev1))
    }
    /// The line a decoded message was made of.
    pub fn line(r: &Raw) -> Encoded {
        let data = r.buf[..(r.len as usize).min(imap_types::model::RAW)].to_vec();
        Encoded { items: VecDeque::from([Fragment::Line { data }]) }
    }
    /// The fragments a decoded message was made of.
    pub fn verbatim(r: &Raw) -> Encoded {
        let bytes = &r.buf[..(r.len as usize).min(imap_types::model::RAW)];
        let mut items = VecDeque::with_capacity(8);
        let mut i = 0;
        while i < bytes.len() {
            let mut e = i;
            while e < bytes.len() && nd::fork((bytes[e] == b'\n') as u8) == 0 {
                e += 1;
            }
            e = (e + 1).min(bytes.len());
            let k = model::code_byte(&bytes[i..e]);
            items.push_back(Fragment::Line { data: bytes[i..e].to_vec() });
            i = e;
            if let model::Class::Literal = model::class(k) {
                let n = (model::literal_length(k) as usize).min(bytes.len() - i);
                items.push_back(Fragment::Literal {
                    data: bytes[i..i + n].to_vec(),
                    mode: if model::literal_sync(k) { LiteralMode::Sync } else { LiteralMode::NonSync },
                });
                i += n;
            }
        }
        Encoded { items }
    }
}
