//! Model of `tokio`: the I/O traits, extension futures, buffers and macros are the files of tokio
//! 1.54.1 unchanged; the network (`net`), the runtime and randomness are replaced by models that a
//! harness controls.
#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs)]

macro_rules! cfg_io_util { ($($i:item)*) => { $($i)* } }
macro_rules! cfg_macros { ($($i:item)*) => { $($i)* } }
macro_rules! cfg_not_coop { ($($i:item)*) => { $($i)* } }
macro_rules! cfg_coop { ($($i:item)*) => {} }
macro_rules! cfg_not_io_util { ($($i:item)*) => {} }
macro_rules! cfg_process { ($($i:item)*) => {} }

mod memchr;
mod util {
    pub(crate) use crate::memchr;
}
mod trace {
    use std::task::{Context, Poll};
    pub(crate) fn trace_leaf(_: &mut Context<'_>) -> Poll<()> {
        Poll::Ready(())
    }
}
mod future {
    pub mod maybe_done;
}
#[doc(hidden)]
pub mod macros {
    #[macro_use]
    mod pin;
    #[macro_use]
    mod select;
    #[macro_use]
    pub mod join;
    #[macro_use]
    mod try_join;
    pub mod support {
        pub use crate::future::maybe_done::maybe_done;
        pub use crate::macros::join::{BiasedRotator, Rotator, RotatorSelect, SelectBiased, SelectNormal};
        pub use std::{
            future::{poll_fn, Future, IntoFuture},
            pin::Pin,
            result::Result,
            task::{ready, Context, Poll},
        };
        /// Any of the branches may be polled first (as often as the harness allows).
        pub fn thread_rng_n(n: u32) -> u32 {
            let left = crate::rt::orders();
            if *left == 0 {
                return 0;
            }
            *left -= 1;
            nd::choose(n as u8) as u32
        }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> {
            Poll::Ready(())
        }
    }
}
#[cfg(feature = "main")]
pub use attrs::main;
pub use tokio_macros::{select_priv_clean_pattern, select_priv_declare_output_enum};

pub mod io {
    mod async_buf_read;
    pub use self::async_buf_read::AsyncBufRead;
    mod async_read;
    pub use self::async_read::AsyncRead;
    mod async_seek;
    pub use self::async_seek::AsyncSeek;
    mod async_write;
    pub use self::async_write::AsyncWrite;
    mod read_buf;
    pub use self::read_buf::ReadBuf;
    pub use std::io::{Error, ErrorKind, Result, SeekFrom};
    mod split;
    pub use split::{split, ReadHalf, WriteHalf};
    mod join;
    pub use join::{join, Join};
    pub(crate) mod seek;
    pub(crate) mod util;
    pub use crate::net::{Interest, Ready};
    pub use util::{
        empty, repeat, sink, AsyncBufReadExt, AsyncReadExt, AsyncSeekExt, AsyncWriteExt, BufReader, BufStream,
        BufWriter, Chain, Empty, Lines, Repeat, Sink, Split, Take,
    };
}

pub mod net;
pub mod rt;
pub mod sync;
pub mod time;
pub use rt::{spawn, task};
pub mod signal {
    /// Nobody interrupts the program.
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
}
pub mod fs {
    use std::path::Path;
    pub async fn read(path: impl AsRef<Path>) -> std::io::Result<Vec<u8>> {
        std::fs::read(path)
    }
    pub async fn read_to_string(path: impl AsRef<Path>) -> std::io::Result<String> {
        std::fs::read_to_string(path)
    }
}
#[cfg(test)]
fn is_unpin<T: Unpin>() {}
