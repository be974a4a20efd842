//! Model of `imap-types` (the pinned git revision is not available offline).
//!
//! The shapes and constructors used by the repository are kept; the *contents* of messages are
//! reduced to a small fixed-size byte payload (`model::Raw`), because the code under verification
//! never looks inside them. Tags are one of four strings chosen to be pairwise distinct but
//! similar (different case, common prefix).

pub use bounded_static;

use std::fmt::{self, Debug, Display, Formatter};

/// Formatting is not part of any property decided with this model: empty bodies.
macro_rules! no_debug {
    ($($(#[$m:meta])* $t:ty),* $(,)?) => {$(
        impl Debug for $t { fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result { Ok(()) } }
    )*};
}
pub mod model {
    use super::*;
    /// Byte payload of a modelled message.
    pub const RAW: usize = 16;

    #[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
    pub struct Raw {
        pub len: u8,
        pub buf: [u8; RAW],
    }
    impl Raw {
        pub const fn one(b: u8) -> Self {
            let mut buf = [0; RAW];
            buf[0] = b;
            Raw { len: 1, buf }
        }
        /// Copy of (the first `RAW` bytes of) `bytes`; `len` is the full length. Of what is longer, the last byte
        /// is a digest of the rest that depends on each of its bytes and their order.
        pub fn of(bytes: &[u8]) -> Self {
            let mut buf = [0; RAW];
            let mut i = 0;
            while i < RAW {
                if i < bytes.len() {
                    buf[i] = bytes[i];
                }
                i += 1;
            }
            while i < bytes.len() {
                buf[RAW - 1] = buf[RAW - 1].wrapping_mul(5).wrapping_add(bytes[i]);
                i += 1;
            }
            Raw { len: bytes.len() as u8, buf }
        }
        /// First byte: the identity of a message made by a harness.
        pub fn key(&self) -> u8 {
            self.buf[0]
        }
    }
    no_debug!(Raw);
}

use model::Raw;

pub mod core {
    use super::*;
    use std::{borrow::Cow, marker::PhantomData};

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    pub enum LiteralMode {
        Sync,
        NonSync,
    }
    no_debug!(LiteralMode);

    pub const TAGS: [&str; 4] = ["A1", "a1", "A11", "1A1"];

    /// Tag: index into `TAGS`.
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Tag<'a> {
        id: u8,
        p: PhantomData<&'a ()>,
    }
    no_debug!(Tag<'_>);
    impl<'a> Tag<'a> {
        pub const fn model(id: u8) -> Self {
            Tag { id, p: PhantomData }
        }
        pub fn id(&self) -> u8 {
            self.id
        }
        pub fn inner(&self) -> &str {
            TAGS[(self.id & 3) as usize]
        }
        pub fn unvalidated<C: Into<Cow<'a, str>>>(inner: C) -> Self {
            Self::try_from(&*inner.into()).ok().unwrap()
        }
    }
    impl AsRef<str> for Tag<'_> {
        fn as_ref(&self) -> &str {
            self.inner()
        }
    }
    impl Display for Tag<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str(self.inner())
        }
    }
    impl<'a> TryFrom<&str> for Tag<'a> {
        type Error = ();
        fn try_from(s: &str) -> Result<Self, ()> {
            let mut id = 0;
            while id < 4 {
                if TAGS[id as usize] == s {
                    return Ok(Self::model(id));
                }
                id += 1;
            }
            Err(())
        }
    }
    impl<'a> TryFrom<String> for Tag<'a> {
        type Error = error::ValidationError;
        fn try_from(s: String) -> Result<Self, Self::Error> {
            Self::try_from(s.as_str()).map_err(|_| error::ValidationError)
        }
    }
    impl<'a> TryFrom<Cow<'a, str>> for Tag<'a> {
        type Error = error::ValidationError;
        fn try_from(s: Cow<'a, str>) -> Result<Self, Self::Error> {
            Self::try_from(&*s).map_err(|_| error::ValidationError)
        }
    }
    impl bounded_static::IntoBoundedStatic for Tag<'_> {
        type Static = Tag<'static>;
        fn into_static(self) -> Tag<'static> {
            Tag::model(self.id)
        }
    }
    impl bounded_static::ToBoundedStatic for Tag<'_> {
        type Static = Tag<'static>;
        fn to_static(&self) -> Tag<'static> {
            Tag::model(self.id)
        }
    }

    /// Text: the bytes of the text (at most `model::RAW` are kept, plus the length).
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Text<'a> {
        pub raw: Raw,
        p: PhantomData<&'a ()>,
    }
    no_debug!(Text<'_>);
    impl<'a> Text<'a> {
        pub const fn model(raw: Raw) -> Self {
            Text { raw, p: PhantomData }
        }
        pub fn unvalidated<C: Into<Cow<'a, str>>>(inner: C) -> Self {
            Self::model(Raw::of(inner.into().as_bytes()))
        }
        pub fn inner(&self) -> &str {
            let n = (self.raw.len as usize).min(model::RAW);
            std::str::from_utf8(&self.raw.buf[..n]).unwrap_or("")
        }
        pub fn into_inner(self) -> Cow<'a, str> {
            Cow::Owned(self.inner().to_owned())
        }
    }
    impl AsRef<str> for Text<'_> {
        fn as_ref(&self) -> &str {
            self.inner()
        }
    }
    impl Display for Text<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str(self.inner())
        }
    }
    /// The documented validity of text: not empty, no CR or LF.
    fn text(b: &[u8]) -> Result<Raw, error::ValidationError> {
        if b.is_empty() || b[0] == b'\r' || b[0] == b'\n' {
            Err(error::ValidationError)
        } else {
            Ok(Raw::of(b))
        }
    }
    impl<'a> TryFrom<&'a str> for Text<'a> {
        type Error = error::ValidationError;
        fn try_from(s: &'a str) -> Result<Self, Self::Error> {
            text(s.as_bytes()).map(Self::model)
        }
    }
    impl<'a> TryFrom<String> for Text<'a> {
        type Error = error::ValidationError;
        fn try_from(s: String) -> Result<Self, Self::Error> {
            text(s.as_bytes()).map(Self::model)
        }
    }
    impl<'a> TryFrom<Cow<'a, str>> for Text<'a> {
        type Error = error::ValidationError;
        fn try_from(s: Cow<'a, str>) -> Result<Self, Self::Error> {
            text(s.as_bytes()).map(Self::model)
        }
    }
    impl<'a> TryFrom<Vec<u8>> for Text<'a> {
        type Error = error::ValidationError;
        fn try_from(s: Vec<u8>) -> Result<Self, Self::Error> {
            text(&s).map(Self::model)
        }
    }
    impl bounded_static::IntoBoundedStatic for Text<'_> {
        type Static = Text<'static>;
        fn into_static(self) -> Text<'static> {
            Text::model(self.raw)
        }
    }
    impl bounded_static::ToBoundedStatic for Text<'_> {
        type Static = Text<'static>;
        fn to_static(&self) -> Text<'static> {
            Text::model(self.raw)
        }
    }

    /// Non-empty vector.
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Vec1<T>(pub(crate) Vec<T>);
    impl<T> Debug for Vec1<T> {
        fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl<T> Vec1<T> {
        pub fn validate(value: &[T]) -> Result<(), error::ValidationError> {
            if value.is_empty() {
                Err(error::ValidationError)
            } else {
                Ok(())
            }
        }
        pub fn unvalidated(inner: Vec<T>) -> Self {
            Vec1(inner)
        }
        pub fn into_inner(self) -> Vec<T> {
            self.0
        }
    }
    impl<T> From<T> for Vec1<T> {
        fn from(v: T) -> Self {
            Vec1(vec![v])
        }
    }
    impl<T> TryFrom<Vec<T>> for Vec1<T> {
        type Error = error::ValidationError;
        fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
            if v.is_empty() {
                Err(error::ValidationError)
            } else {
                Ok(Vec1(v))
            }
        }
    }
    impl<T> IntoIterator for Vec1<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<T> AsRef<[T]> for Vec1<T> {
        fn as_ref(&self) -> &[T] {
            &self.0
        }
    }
    impl<T> std::ops::Deref for Vec1<T> {
        type Target = [T];
        fn deref(&self) -> &[T] {
            &self.0
        }
    }
}

pub mod error {
    use super::*;
    pub struct ValidationError;
    no_debug!(ValidationError);
    impl Display for ValidationError {
        fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for ValidationError {}
}

pub mod secret {
    use super::*;
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Secret<T>(T);
    impl<T> Debug for Secret<T> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str("/* REDACTED */")
        }
    }
    impl<T> Secret<T> {
        pub fn new(v: T) -> Self {
            Secret(v)
        }
        pub fn declassify(&self) -> &T {
            &self.0
        }
        pub fn into_inner(self) -> T {
            self.0
        }
    }
    impl<T> From<T> for Secret<T> {
        fn from(v: T) -> Self {
            Secret(v)
        }
    }
}

pub mod auth {
    use super::{secret::Secret, *};
    use std::{borrow::Cow, marker::PhantomData};

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct AuthMechanismOther<'a>(pub u8, pub PhantomData<&'a ()>);

    #[non_exhaustive]
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum AuthMechanism<'a> {
        Plain,
        Login,
        OAuthBearer,
        XOAuth2,
        ScramSha1,
        ScramSha1Plus,
        ScramSha256,
        ScramSha256Plus,
        ScramSha3_512,
        ScramSha3_512Plus,
        Other(AuthMechanismOther<'a>),
    }
    no_debug!(AuthMechanism<'_>);
    impl bounded_static::ToBoundedStatic for AuthMechanism<'_> {
        type Static = AuthMechanism<'static>;
        fn to_static(&self) -> Self::Static {
            AuthMechanism::to_static(self)
        }
    }
    impl bounded_static::IntoBoundedStatic for AuthMechanism<'_> {
        type Static = AuthMechanism<'static>;
        fn into_static(self) -> Self::Static {
            AuthMechanism::to_static(&self)
        }
    }
    impl AsRef<str> for AuthMechanism<'_> {
        fn as_ref(&self) -> &str {
            use AuthMechanism::*;
            match self {
                Plain => "PLAIN",
                Login => "LOGIN",
                OAuthBearer => "OAUTHBEARER",
                XOAuth2 => "XOAUTH2",
                ScramSha1 => "SCRAM-SHA-1",
                ScramSha1Plus => "SCRAM-SHA-1-PLUS",
                ScramSha256 => "SCRAM-SHA-256",
                ScramSha256Plus => "SCRAM-SHA-256-PLUS",
                ScramSha3_512 => "SCRAM-SHA3-512",
                ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
                Other(_) => "OTHER",
            }
        }
    }
    impl Display for AuthMechanism<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str(self.as_ref())
        }
    }
    impl AuthMechanism<'_> {
        pub fn to_static(&self) -> AuthMechanism<'static> {
            use AuthMechanism::*;
            match self {
                Plain => Plain,
                Login => Login,
                OAuthBearer => OAuthBearer,
                XOAuth2 => XOAuth2,
                ScramSha1 => ScramSha1,
                ScramSha1Plus => ScramSha1Plus,
                ScramSha256 => ScramSha256,
                ScramSha256Plus => ScramSha256Plus,
                ScramSha3_512 => ScramSha3_512,
                ScramSha3_512Plus => ScramSha3_512Plus,
                Other(o) => Other(AuthMechanismOther(o.0, PhantomData)),
            }
        }
    }

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum AuthenticateData<'a> {
        Continue(Secret<Cow<'a, [u8]>>),
        Cancel,
        /// Modelled payload (no heap).
        Model(Raw),
    }
    no_debug!(AuthenticateData<'_>);
    impl<'a> AuthenticateData<'a> {
        pub fn r#continue<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
            AuthenticateData::Continue(Secret::new(data.into()))
        }
    }
    impl bounded_static::IntoBoundedStatic for AuthenticateData<'_> {
        type Static = AuthenticateData<'static>;
        fn into_static(self) -> AuthenticateData<'static> {
            match self {
                Self::Continue(s) => AuthenticateData::Continue(Secret::new(Cow::Owned(
                    s.declassify().clone().into_owned(),
                ))),
                Self::Cancel => AuthenticateData::Cancel,
                Self::Model(r) => AuthenticateData::Model(r),
            }
        }
    }
}

pub mod extensions {
    pub mod idle {
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        pub struct IdleDone;
        impl std::fmt::Debug for IdleDone {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        impl bounded_static::IntoBoundedStatic for IdleDone {
            type Static = IdleDone;
            fn into_static(self) -> IdleDone {
                self
            }
        }
    }
    pub mod quota {
        #[non_exhaustive]
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        pub enum Resource {
            Storage,
            Message,
            Mailbox,
            AnnotationStorage,
        }
    }
}

pub mod command {
    use super::{auth::AuthMechanism, core::Tag, secret::Secret, *};
    use std::borrow::Cow;

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Command<'a> {
        pub tag: Tag<'a>,
        pub body: CommandBody<'a>,
    }
    no_debug!(Command<'_>, CommandBody<'_>);
    impl<'a> Command<'a> {
        pub fn new<T: TryInto<Tag<'a>>>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error> {
            Ok(Command { tag: tag.try_into()?, body })
        }
        pub fn name(&self) -> &'static str {
            self.body.name()
        }
    }

    #[non_exhaustive]
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum CommandBody<'a> {
        Capability,
        Noop,
        Logout,
        StartTLS,
        Authenticate {
            mechanism: AuthMechanism<'a>,
            initial_response: Option<Secret<Cow<'a, [u8]>>>,
        },
        Check,
        Close,
        Expunge,
        Unselect,
        Idle,
        // The first field stands for the contents.
        Login { username: Raw, password: () },
        Select { mailbox: Raw },
        Examine { mailbox: Raw },
        Create { mailbox: Raw },
        Delete { mailbox: Raw },
        Rename { from: Raw, to: () },
        Subscribe { mailbox: Raw },
        Unsubscribe { mailbox: Raw },
        List { reference: Raw, mailbox_wildcard: () },
        Lsub { reference: Raw, mailbox_wildcard: () },
        Status { mailbox: Raw, item_names: () },
        Append { message: Raw, mailbox: (), flags: (), date: () },
        Search { criteria: Raw, charset: (), uid: () },
        Fetch { sequence_set: Raw, macro_or_item_names: (), uid: () },
        Store { sequence_set: Raw, kind: (), response: (), flags: (), uid: () },
        Copy { sequence_set: Raw, mailbox: (), uid: () },
        Move { sequence_set: Raw, mailbox: (), uid: () },
        Enable { capabilities: Raw },
        Compress { algorithm: Raw },
        GetQuota { root: Raw },
        GetQuotaRoot { mailbox: Raw },
        SetQuota { root: Raw, quotas: () },
        Id { parameters: Raw },
        /// Any other command (payload and, for encoding, fragment shape).
        Model {
            raw: Raw,
        },
    }
    impl<'a> CommandBody<'a> {
        /// Number of kinds of commands of which only the contents matter.
        pub const KINDS: u8 = 23;
        pub fn of_kind(kind: u8, raw: Raw) -> CommandBody<'a> {
            match kind {
                0 => CommandBody::Login { username: raw, password: () },
                1 => CommandBody::Select { mailbox: raw },
                2 => CommandBody::Examine { mailbox: raw },
                3 => CommandBody::Create { mailbox: raw },
                4 => CommandBody::Delete { mailbox: raw },
                5 => CommandBody::Rename { from: raw, to: () },
                6 => CommandBody::Subscribe { mailbox: raw },
                7 => CommandBody::Unsubscribe { mailbox: raw },
                8 => CommandBody::List { reference: raw, mailbox_wildcard: () },
                9 => CommandBody::Lsub { reference: raw, mailbox_wildcard: () },
                10 => CommandBody::Status { mailbox: raw, item_names: () },
                11 => CommandBody::Append { message: raw, mailbox: (), flags: (), date: () },
                12 => CommandBody::Search { criteria: raw, charset: (), uid: () },
                13 => CommandBody::Fetch { sequence_set: raw, macro_or_item_names: (), uid: () },
                14 => CommandBody::Store { sequence_set: raw, kind: (), response: (), flags: (), uid: () },
                15 => CommandBody::Copy { sequence_set: raw, mailbox: (), uid: () },
                16 => CommandBody::Move { sequence_set: raw, mailbox: (), uid: () },
                17 => CommandBody::Enable { capabilities: raw },
                18 => CommandBody::Compress { algorithm: raw },
                19 => CommandBody::GetQuota { root: raw },
                20 => CommandBody::GetQuotaRoot { mailbox: raw },
                21 => CommandBody::SetQuota { root: raw, quotas: () },
                22 => CommandBody::Id { parameters: raw },
                _ => CommandBody::Model { raw },
            }
        }
        pub fn kind(&self) -> u8 {
            match self {
                CommandBody::Login { .. } => 0,
                CommandBody::Select { .. } => 1,
                CommandBody::Examine { .. } => 2,
                CommandBody::Create { .. } => 3,
                CommandBody::Delete { .. } => 4,
                CommandBody::Rename { .. } => 5,
                CommandBody::Subscribe { .. } => 6,
                CommandBody::Unsubscribe { .. } => 7,
                CommandBody::List { .. } => 8,
                CommandBody::Lsub { .. } => 9,
                CommandBody::Status { .. } => 10,
                CommandBody::Append { .. } => 11,
                CommandBody::Search { .. } => 12,
                CommandBody::Fetch { .. } => 13,
                CommandBody::Store { .. } => 14,
                CommandBody::Copy { .. } => 15,
                CommandBody::Move { .. } => 16,
                CommandBody::Enable { .. } => 17,
                CommandBody::Compress { .. } => 18,
                CommandBody::GetQuota { .. } => 19,
                CommandBody::GetQuotaRoot { .. } => 20,
                CommandBody::SetQuota { .. } => 21,
                CommandBody::Id { .. } => 22,
                _ => Self::KINDS,
            }
        }
        pub fn raw(&self) -> Option<&Raw> {
            match self {
                CommandBody::Model { raw }
                | CommandBody::Login { username: raw, .. }
                | CommandBody::Select { mailbox: raw, .. }
                | CommandBody::Examine { mailbox: raw, .. }
                | CommandBody::Create { mailbox: raw, .. }
                | CommandBody::Delete { mailbox: raw, .. }
                | CommandBody::Rename { from: raw, .. }
                | CommandBody::Subscribe { mailbox: raw, .. }
                | CommandBody::Unsubscribe { mailbox: raw, .. }
                | CommandBody::List { reference: raw, .. }
                | CommandBody::Lsub { reference: raw, .. }
                | CommandBody::Status { mailbox: raw, .. }
                | CommandBody::Append { message: raw, .. }
                | CommandBody::Search { criteria: raw, .. }
                | CommandBody::Fetch { sequence_set: raw, .. }
                | CommandBody::Store { sequence_set: raw, .. }
                | CommandBody::Copy { sequence_set: raw, .. }
                | CommandBody::Move { sequence_set: raw, .. }
                | CommandBody::Enable { capabilities: raw, .. }
                | CommandBody::Compress { algorithm: raw, .. }
                | CommandBody::GetQuota { root: raw, .. }
                | CommandBody::GetQuotaRoot { mailbox: raw, .. }
                | CommandBody::SetQuota { root: raw, .. }
                | CommandBody::Id { parameters: raw, .. }
                => Some(raw),
                _ => None,
            }
        }
        pub fn name(&self) -> &'static str {
            match self {
                CommandBody::Capability => "CAPABILITY",
                CommandBody::Noop => "NOOP",
                CommandBody::Logout => "LOGOUT",
                CommandBody::StartTLS => "STARTTLS",
                CommandBody::Authenticate { .. } => "AUTHENTICATE",
                CommandBody::Check => "CHECK",
                CommandBody::Close => "CLOSE",
                CommandBody::Expunge => "EXPUNGE",
                CommandBody::Unselect => "UNSELECT",
                CommandBody::Idle => "IDLE",
                CommandBody::Login { .. } => "LOGIN",
                CommandBody::Select { .. } => "SELECT",
                CommandBody::Examine { .. } => "EXAMINE",
                CommandBody::Create { .. } => "CREATE",
                CommandBody::Delete { .. } => "DELETE",
                CommandBody::Rename { .. } => "RENAME",
                CommandBody::Subscribe { .. } => "SUBSCRIBE",
                CommandBody::Unsubscribe { .. } => "UNSUBSCRIBE",
                CommandBody::List { .. } => "LIST",
                CommandBody::Lsub { .. } => "LSUB",
                CommandBody::Status { .. } => "STATUS",
                CommandBody::Append { .. } => "APPEND",
                CommandBody::Search { .. } => "SEARCH",
                CommandBody::Fetch { .. } => "FETCH",
                CommandBody::Store { .. } => "STORE",
                CommandBody::Copy { .. } => "COPY",
                CommandBody::Move { .. } => "MOVE",
                CommandBody::Enable { .. } => "ENABLE",
                CommandBody::Compress { .. } => "COMPRESS",
                CommandBody::GetQuota { .. } => "GETQUOTA",
                CommandBody::GetQuotaRoot { .. } => "GETQUOTAROOT",
                CommandBody::SetQuota { .. } => "SETQUOTA",
                CommandBody::Id { .. } => "ID",
                CommandBody::Model { .. } => "MODEL",
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for Command<'_> {
        type Static = Command<'static>;
        fn into_static(self) -> Command<'static> {
            Command { tag: Tag::model(self.tag.id()), body: self.body.into_static() }
        }
    }
    use bounded_static::IntoBoundedStatic;
    impl IntoBoundedStatic for CommandBody<'_> {
        type Static = CommandBody<'static>;
        fn into_static(self) -> CommandBody<'static> {
            match self {
                CommandBody::Capability => CommandBody::Capability,
                CommandBody::Noop => CommandBody::Noop,
                CommandBody::Logout => CommandBody::Logout,
                CommandBody::StartTLS => CommandBody::StartTLS,
                CommandBody::Authenticate { mechanism, initial_response } => CommandBody::Authenticate {
                    mechanism: mechanism.to_static(),
                    initial_response: initial_response
                        .map(|s| Secret::new(Cow::Owned(s.declassify().to_vec()))),
                },
                CommandBody::Check => CommandBody::Check,
                CommandBody::Close => CommandBody::Close,
                CommandBody::Expunge => CommandBody::Expunge,
                CommandBody::Unselect => CommandBody::Unselect,
                CommandBody::Idle => CommandBody::Idle,
                CommandBody::Model { raw } => CommandBody::Model { raw },
                b => CommandBody::of_kind(b.kind(), *b.raw().unwrap()),
            }
        }
    }
}

pub mod response {
    use super::{
        auth::AuthMechanism,
        core::{Tag, Text, Vec1},
        extensions::quota::Resource,
        *,
    };
    use std::marker::PhantomData;

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum Response<'a> {
        CommandContinuationRequest(CommandContinuationRequest<'a>),
        Data(Data<'a>),
        Status(Status<'a>),
    }

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    pub enum GreetingKind {
        Ok,
        PreAuth,
        Bye,
    }

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Greeting<'a> {
        pub kind: GreetingKind,
        pub code: Option<Code<'a>>,
        pub text: Text<'a>,
    }
    impl<'a> Greeting<'a> {
        pub fn new<T: TryInto<Text<'a>>>(
            kind: GreetingKind,
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            Ok(Greeting { kind, code, text: text.try_into()? })
        }
        pub fn ok<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> {
            Self::new(GreetingKind::Ok, code, text)
        }
        pub fn bye<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> {
            Self::new(GreetingKind::Bye, code, text)
        }
        pub fn preauth<T: TryInto<Text<'a>>>(
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            Self::new(GreetingKind::PreAuth, code, text)
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    pub enum StatusKind {
        Ok,
        No,
        Bad,
    }
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct StatusBody<'a> {
        pub kind: StatusKind,
        pub code: Option<Code<'a>>,
        pub text: Text<'a>,
    }
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Tagged<'a> {
        pub tag: Tag<'a>,
        pub body: StatusBody<'a>,
    }
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Bye<'a> {
        pub code: Option<Code<'a>>,
        pub text: Text<'a>,
    }
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum Status<'a> {
        Untagged(StatusBody<'a>),
        Tagged(Tagged<'a>),
        Bye(Bye<'a>),
    }
    impl<'a> Status<'a> {
        pub fn new<T: TryInto<Text<'a>>>(
            tag: Option<Tag<'a>>,
            kind: StatusKind,
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            let body = StatusBody { kind, code, text: text.try_into()? };
            Ok(match tag {
                Some(tag) => Status::Tagged(Tagged { tag, body }),
                None => Status::Untagged(body),
            })
        }
        pub fn ok<T: TryInto<Text<'a>>>(
            tag: Option<Tag<'a>>,
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            Self::new(tag, StatusKind::Ok, code, text)
        }
        pub fn no<T: TryInto<Text<'a>>>(
            tag: Option<Tag<'a>>,
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            Self::new(tag, StatusKind::No, code, text)
        }
        pub fn bad<T: TryInto<Text<'a>>>(
            tag: Option<Tag<'a>>,
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, T::Error> {
            Self::new(tag, StatusKind::Bad, code, text)
        }
        pub fn bye<T: TryInto<Text<'a>>>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error> {
            Ok(Status::Bye(Bye { code, text: text.try_into()? }))
        }
        pub fn tag(&self) -> Option<&Tag<'a>> {
            match self {
                Status::Tagged(Tagged { tag, .. }) => Some(tag),
                _ => None,
            }
        }
        pub fn code(&self) -> Option<&Code<'a>> {
            match self {
                Status::Untagged(b) | Status::Tagged(Tagged { body: b, .. }) => b.code.as_ref(),
                Status::Bye(b) => b.code.as_ref(),
            }
        }
        pub fn text(&self) -> &Text<'a> {
            match self {
                Status::Untagged(b) | Status::Tagged(Tagged { body: b, .. }) => &b.text,
                Status::Bye(b) => &b.text,
            }
        }
    }

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct CommandContinuationRequestBasic<'a> {
        code: Option<Code<'a>>,
        text: Text<'a>,
    }
    pub enum ContinueError<E> {
        Ambiguity,
        Text(E),
    }
    impl<E> Debug for ContinueError<E> {
        fn fmt(&self, _: &mut Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl<'a> CommandContinuationRequestBasic<'a> {
        /// As documented: without a code, the text must not be mistakable for Base64
        /// (modelled: must not start with `=`).
        pub fn new<T: TryInto<Text<'a>>>(
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, ContinueError<T::Error>> {
            let text = text.try_into().map_err(ContinueError::Text)?;
            if code.is_none() && text.raw.buf[0] == b'=' {
                return Err(ContinueError::Ambiguity);
            }
            Ok(Self { code, text })
        }
        pub fn model(code: Option<Code<'a>>, text: Text<'a>) -> Self {
            Self { code, text }
        }
        pub fn code(&self) -> Option<&Code<'a>> {
            self.code.as_ref()
        }
        pub fn text(&self) -> &Text<'a> {
            &self.text
        }
    }
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum CommandContinuationRequest<'a> {
        Basic(CommandContinuationRequestBasic<'a>),
        Base64(Raw),
    }
    impl<'a> CommandContinuationRequest<'a> {
        pub fn base64<D: Into<std::borrow::Cow<'a, [u8]>>>(data: D) -> Self {
            Self::Base64(Raw::of(&data.into()))
        }
        pub fn basic<T: TryInto<Text<'a>>>(
            code: Option<Code<'a>>,
            text: T,
        ) -> Result<Self, ContinueError<T::Error>> {
            Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?))
        }
    }

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct CapabilityOther<'a>(pub u8, pub PhantomData<&'a ()>);

    #[non_exhaustive]
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum Capability<'a> {
        Imap4Rev1,
        Auth(AuthMechanism<'a>),
        LoginDisabled,
        StartTls,
        Idle,
        MailboxReferrals,
        LoginReferrals,
        SaslIr,
        Enable,
        Compress,
        Quota,
        QuotaRes(Resource),
        QuotaSet,
        LiteralPlus,
        LiteralMinus,
        Move,
        Id,
        Unselect,
        Sort(Option<u8>),
        Thread(u8),
        Metadata,
        MetadataServer,
        Binary,
        UidPlus,
        CondStore,
        QResync,
        Other(CapabilityOther<'a>),
    }

    #[non_exhaustive]
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum Code<'a> {
        Alert,
        Capability(Vec1<Capability<'a>>),
        Parse,
        ReadOnly,
        ReadWrite,
        TryCreate,
        CompressionActive,
        OverQuota,
        TooBig,
        UnknownCte,
        UidNotSticky,
        // The first field stands for the contents.
        BadCharset { allowed: Raw },
        PermanentFlags(Raw),
        UidNext(Raw),
        UidValidity(Raw),
        Unseen(Raw),
        Referral(Raw),
        Metadata(Raw),
        AppendUid { uid_validity: Raw, uid: () },
        CopyUid { uid_validity: Raw, source: (), destination: () },
        Other(Raw),
        Model(Raw),
    }

    #[non_exhaustive]
    #[derive(Clone, PartialEq, Eq, Hash)]
    pub enum Data<'a> {
        Capability(Vec1<Capability<'a>>),
        Exists(u32),
        Recent(u32),
        // The first field stands for the contents.
        Expunge(Raw),
        Search(Raw),
        Flags(Raw),
        Sort(Raw),
        Thread(Raw),
        List { mailbox: Raw, items: (), delimiter: () },
        Lsub { mailbox: Raw, items: (), delimiter: () },
        Status { mailbox: Raw, items: () },
        Fetch { items: Raw, seq: () },
        Enabled { capabilities: Raw },
        Quota { root: Raw, quotas: () },
        QuotaRoot { mailbox: Raw, roots: () },
        Id { parameters: Raw },
        /// Any other data response (payload and, for encoding, fragment shape).
        Model(Raw),
    }

    impl<'a> Code<'a> {
        /// Number of kinds of codes without, and of those of which only the contents matter.
        pub const EMPTY: u8 = 9;
        pub const KINDS: u8 = 19;
        pub fn of_kind(kind: u8, raw: Raw) -> Code<'a> {
            match kind {
                0 => Code::Parse,
                1 => Code::ReadOnly,
                2 => Code::ReadWrite,
                3 => Code::TryCreate,
                4 => Code::CompressionActive,
                5 => Code::OverQuota,
                6 => Code::TooBig,
                7 => Code::UnknownCte,
                8 => Code::UidNotSticky,
                9 => Code::BadCharset { allowed: raw },
                10 => Code::PermanentFlags(raw),
                11 => Code::UidNext(raw),
                12 => Code::UidValidity(raw),
                13 => Code::Unseen(raw),
                14 => Code::Referral(raw),
                15 => Code::Metadata(raw),
                16 => Code::AppendUid { uid_validity: raw, uid: () },
                17 => Code::CopyUid { uid_validity: raw, source: (), destination: () },
                18 => Code::Other(raw),
                _ => Code::Model(raw),
            }
        }
        pub fn kind(&self) -> u8 {
            match self {
                Code::Parse => 0,
                Code::ReadOnly => 1,
                Code::ReadWrite => 2,
                Code::TryCreate => 3,
                Code::CompressionActive => 4,
                Code::OverQuota => 5,
                Code::TooBig => 6,
                Code::UnknownCte => 7,
                Code::UidNotSticky => 8,
                Code::BadCharset { .. } => 9,
                Code::PermanentFlags(_) => 10,
                Code::UidNext(_) => 11,
                Code::UidValidity(_) => 12,
                Code::Unseen(_) => 13,
                Code::Referral(_) => 14,
                Code::Metadata(_) => 15,
                Code::AppendUid { .. } => 16,
                Code::CopyUid { .. } => 17,
                Code::Other(_) => 18,
                _ => Self::KINDS,
            }
        }
        pub fn raw(&self) -> Option<&Raw> {
            match self {
                Code::Model(raw)
                | Code::BadCharset { allowed: raw, .. }
                | Code::PermanentFlags(raw)
                | Code::UidNext(raw)
                | Code::UidValidity(raw)
                | Code::Unseen(raw)
                | Code::Referral(raw)
                | Code::Metadata(raw)
                | Code::AppendUid { uid_validity: raw, .. }
                | Code::CopyUid { uid_validity: raw, .. }
                | Code::Other(raw)
                => Some(raw),
                _ => None,
            }
        }
    }
    impl<'a> Data<'a> {
        /// Number of kinds of data of which only the contents matter.
        pub const KINDS: u8 = 15;
        pub fn of_kind(kind: u8, raw: Raw) -> Data<'a> {
            match kind {
                0 => Data::Exists(u32::from_be_bytes([0, raw.len, raw.buf[0], raw.buf[1]])),
                1 => Data::Recent(u32::from_be_bytes([0, raw.len, raw.buf[0], raw.buf[1]])),
                2 => Data::Expunge(raw),
                3 => Data::Search(raw),
                4 => Data::Flags(raw),
                5 => Data::Sort(raw),
                6 => Data::Thread(raw),
                7 => Data::List { mailbox: raw, items: (), delimiter: () },
                8 => Data::Lsub { mailbox: raw, items: (), delimiter: () },
                9 => Data::Status { mailbox: raw, items: () },
                10 => Data::Fetch { items: raw, seq: () },
                11 => Data::Enabled { capabilities: raw },
                12 => Data::Quota { root: raw, quotas: () },
                13 => Data::QuotaRoot { mailbox: raw, roots: () },
                14 => Data::Id { parameters: raw },
                _ => Data::Model(raw),
            }
        }
        pub fn kind(&self) -> u8 {
            match self {
                Data::Exists(_) => 0,
                Data::Recent(_) => 1,
                Data::Expunge(_) => 2,
                Data::Search(_) => 3,
                Data::Flags(_) => 4,
                Data::Sort(_) => 5,
                Data::Thread(_) => 6,
                Data::List { .. } => 7,
                Data::Lsub { .. } => 8,
                Data::Status { .. } => 9,
                Data::Fetch { .. } => 10,
                Data::Enabled { .. } => 11,
                Data::Quota { .. } => 12,
                Data::QuotaRoot { .. } => 13,
                Data::Id { .. } => 14,
                _ => Self::KINDS,
            }
        }
        pub fn raw(&self) -> Option<Raw> {
            match self {
                Data::Exists(n) | Data::Recent(n) => {
                    let mut raw = Raw::default();
                    raw.len = (n >> 16) as u8;
                    raw.buf[0] = (n >> 8) as u8;
                    raw.buf[1] = *n as u8;
                    // What follows in a line that was received.
                    if raw.len >= 4 {
                        raw.buf[2] = b'\r';
                        raw.buf[3] = b'\n';
                    }
                    Some(raw)
                }
                Data::Model(raw)
                | Data::Expunge(raw)
                | Data::Search(raw)
                | Data::Flags(raw)
                | Data::Sort(raw)
                | Data::Thread(raw)
                | Data::List { mailbox: raw, .. }
                | Data::Lsub { mailbox: raw, .. }
                | Data::Status { mailbox: raw, .. }
                | Data::Fetch { items: raw, .. }
                | Data::Enabled { capabilities: raw, .. }
                | Data::Quota { root: raw, .. }
                | Data::QuotaRoot { mailbox: raw, .. }
                | Data::Id { parameters: raw, .. }
                => Some(*raw),
                Data::Capability(_) => None,
            }
        }
    }
    no_debug!(
        Response<'_>,
        GreetingKind,
        Greeting<'_>,
        StatusKind,
        StatusBody<'_>,
        Tagged<'_>,
        Bye<'_>,
        Status<'_>,
        CommandContinuationRequestBasic<'_>,
        CommandContinuationRequest<'_>,
        Capability<'_>,
        Code<'_>,
        Data<'_>,
    );

    fn capability_static(c: Capability<'_>) -> Capability<'static> {
        use Capability::*;
        match c {
            Imap4Rev1 => Imap4Rev1,
            Auth(m) => Auth(m.to_static()),
            LoginDisabled => LoginDisabled,
            StartTls => StartTls,
            Idle => Idle,
            MailboxReferrals => MailboxReferrals,
            LoginReferrals => LoginReferrals,
            SaslIr => SaslIr,
            Enable => Enable,
            Compress => Compress,
            Quota => Quota,
            QuotaRes(r) => QuotaRes(r),
            QuotaSet => QuotaSet,
            LiteralPlus => LiteralPlus,
            LiteralMinus => LiteralMinus,
            Move => Move,
            Id => Id,
            Unselect => Unselect,
            Sort(s) => Sort(s),
            Thread(t) => Thread(t),
            Metadata => Metadata,
            MetadataServer => MetadataServer,
            Binary => Binary,
            UidPlus => UidPlus,
            CondStore => CondStore,
            QResync => QResync,
            Other(o) => Other(CapabilityOther(o.0, PhantomData)),
        }
    }
    fn capabilities_static(c: Vec1<Capability<'_>>) -> Vec1<Capability<'static>> {
        Vec1(c.0.into_iter().map(capability_static).collect())
    }
    fn code_static(code: Option<Code<'_>>) -> Option<Code<'static>> {
        Some(match code? {
            Code::Alert => Code::Alert,
            Code::Capability(c) => Code::Capability(capabilities_static(c)),
            Code::Parse => Code::Parse,
            Code::ReadOnly => Code::ReadOnly,
            Code::ReadWrite => Code::ReadWrite,
            Code::TryCreate => Code::TryCreate,
            Code::CompressionActive => Code::CompressionActive,
            Code::OverQuota => Code::OverQuota,
            Code::TooBig => Code::TooBig,
            c => Code::of_kind(c.kind(), c.raw().copied().unwrap_or_default()),
        })
    }
    fn body_static(b: StatusBody<'_>) -> StatusBody<'static> {
        StatusBody { kind: b.kind, code: code_static(b.code), text: Text::model(b.text.raw) }
    }
    impl bounded_static::IntoBoundedStatic for Greeting<'_> {
        type Static = Greeting<'static>;
        fn into_static(self) -> Greeting<'static> {
            Greeting {
                kind: self.kind,
                code: code_static(self.code),
                text: Text::model(self.text.raw),
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for Status<'_> {
        type Static = Status<'static>;
        fn into_static(self) -> Status<'static> {
            match self {
                Status::Untagged(b) => Status::Untagged(body_static(b)),
                Status::Tagged(t) => Status::Tagged(Tagged {
                    tag: Tag::model(t.tag.id()),
                    body: body_static(t.body),
                }),
                Status::Bye(b) => Status::Bye(Bye {
                    code: code_static(b.code),
                    text: Text::model(b.text.raw),
                }),
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for CommandContinuationRequest<'_> {
        type Static = CommandContinuationRequest<'static>;
        fn into_static(self) -> CommandContinuationRequest<'static> {
            match self {
                Self::Basic(b) => {
                    CommandContinuationRequest::Basic(CommandContinuationRequestBasic {
                        code: code_static(b.code),
                        text: Text::model(b.text.raw),
                    })
                }
                Self::Base64(r) => CommandContinuationRequest::Base64(r),
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for Data<'_> {
        type Static = Data<'static>;
        fn into_static(self) -> Data<'static> {
            match self {
                Data::Model(r) => Data::Model(r),
                Data::Exists(n) => Data::Exists(n),
                Data::Recent(n) => Data::Recent(n),
                Data::Capability(c) => Data::Capability(capabilities_static(c)),
                d => Data::of_kind(d.kind(), d.raw().unwrap()),
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for Response<'_> {
        type Static = Response<'static>;
        fn into_static(self) -> Response<'static> {
            match self {
                Response::CommandContinuationRequest(c) => {
                    Response::CommandContinuationRequest(c.into_static())
                }
                Response::Data(d) => Response::Data(d.into_static()),
                Response::Status(s) => Response::Status(s.into_static()),
            }
        }
    }
    impl bounded_static::IntoBoundedStatic for Capability<'_> {
        type Static = Capability<'static>;
        fn into_static(self) -> Capability<'static> {
            capability_static(self)
        }
    }
    impl bounded_static::IntoBoundedStatic for Code<'_> {
        type Static = Code<'static>;
        fn into_static(self) -> Code<'static> {
            code_static(Some(self)).unwrap()
        }
    }
    impl bounded_static::IntoBoundedStatic for StatusBody<'_> {
        type Static = StatusBody<'static>;
        fn into_static(self) -> StatusBody<'static> {
            body_static(self)
        }
    }
    use bounded_static::IntoBoundedStatic;
}

/// `to_static` is `into_static` of a clone.
mod to_static {
    macro_rules! to_static {
        ($($t:ident :: $n:ident),*) => {$(
            impl bounded_static::ToBoundedStatic for super::$t::$n<'_> {
                type Static = super::$t::$n<'static>;
                fn to_static(&self) -> Self::Static {
                    bounded_static::IntoBoundedStatic::into_static(self.clone())
                }
            }
        )*};
    }
    to_static!(
        auth::AuthenticateData, command::Command, command::CommandBody, response::Response, response::Greeting, response::Status,
        response::CommandContinuationRequest, response::Data, response::Code, response::Capability, response::StatusBody
    );
}

pub mod utils {
    pub fn escape_byte_string<B: AsRef<[u8]>>(_: B) -> String {
        String::new()
    }
}
