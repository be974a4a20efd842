//! `imap_types::core::Tag` as a validated string (the pinned git revision is not available offline).
pub mod core {
    use std::{borrow::Cow, fmt};

    #[derive(Clone, PartialEq, Eq, Hash)]
    pub struct Tag<'a>(Cow<'a, str>);
    #[derive(Debug)]
    pub struct TagError;

    impl<'a> Tag<'a> {
        pub fn unvalidated<C: Into<Cow<'a, str>>>(inner: C) -> Self {
            Tag(inner.into())
        }
        pub fn validate(value: impl AsRef<[u8]>) -> Result<(), TagError> {
            let v = value.as_ref();
            // 1*<any ASTRING-CHAR except "+">
            let bad = |b: &u8| *b <= b' ' || *b >= 0x7f || b"(){%*\"\\+".contains(b);
            if v.is_empty() || v.iter().any(bad) {
                return Err(TagError);
            }
            Ok(())
        }
        pub fn inner(&self) -> &str {
            &self.0
        }
        pub fn into_inner(self) -> Cow<'a, str> {
            self.0
        }
    }
    impl AsRef<str> for Tag<'_> {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
    impl fmt::Display for Tag<'_> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl fmt::Debug for Tag<'_> {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
    impl<'a> TryFrom<String> for Tag<'a> {
        type Error = TagError;
        fn try_from(v: String) -> Result<Self, TagError> {
            Self::validate(&v)?;
            Ok(Tag(Cow::Owned(v)))
        }
    }
    impl<'a> TryFrom<&'a str> for Tag<'a> {
        type Error = TagError;
        fn try_from(v: &'a str) -> Result<Self, TagError> {
            Self::validate(v)?;
            Ok(Tag(Cow::Borrowed(v)))
        }
    }
}
