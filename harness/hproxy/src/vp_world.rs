//! The world around the program: files, command line, standard output, tasks.
use std::{
    ffi::{c_char, c_int, c_void, CStr},
    future::Future,
};

/// Lines printed.
pub fn out() -> &'static mut Vec<String> {
    static mut OUT: Vec<String> = Vec::new();
    unsafe { &mut OUT }
}
pub fn printed(line: String) {
    out().push(line);
}

// ------------------------------------------------------------------------------------------ files
struct File {
    path: &'static str,
    data: Vec<u8>,
    /// Reading fails at the end.
    broken: bool,
    opened: u32,
}
fn files() -> &'static mut Vec<File> {
    static mut FILES: Vec<File> = Vec::new();
    unsafe { &mut FILES }
}
pub fn file(path: &'static str, data: &[u8]) {
    files().push(File { path, data: data.to_vec(), broken: false, opened: 0 });
}
pub fn broken_file(path: &'static str) {
    files().push(File { path, data: Vec::new(), broken: true, opened: 0 });
}
pub fn replace_file(path: &str, data: &[u8]) {
    for f in files().iter_mut() {
        if f.path == path {
            f.data = data.to_vec();
        }
    }
}
/// How often the file was opened.
pub fn opened(path: &str) -> u32 {
    files().iter().filter(|f| f.path == path).map(|f| f.opened).sum()
}

struct Open {
    file: usize,
    at: usize,
}
fn open_files() -> &'static mut Vec<Option<Open>> {
    static mut OPEN: Vec<Option<Open>> = Vec::new();
    unsafe { &mut OPEN }
}
const FIRST: c_int = 700;

static mut ERRNO: c_int = 0;
#[no_mangle]
unsafe extern "C" fn __errno_location() -> *mut c_int {
    &raw mut ERRNO
}
fn fails(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(_: c_int, t: *mut Timespec) -> c_int {
    let now = tokio::time::clock();
    unsafe { *t = Timespec { s: now.as_secs() as i64, ns: now.subsec_nanos() as i64 } };
    0
}
/// Seeds of hash tables.
#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _: u32) -> isize {
    unsafe { std::ptr::write_bytes(buf as *mut u8, 7, n) };
    n as isize
}
const ENOENT: c_int = 2;
const EIO: c_int = 5;
const ENOSYS: c_int = 38;

#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, _: c_int, _: c_int) -> c_int {
    let path = unsafe { CStr::from_ptr(path) }.to_bytes();
    let mut i = 0;
    while i < files().len() {
        if files()[i].path.as_bytes() == path {
            files()[i].opened += 1;
            open_files().push(Some(Open { file: i, at: 0 }));
            return FIRST + open_files().len() as c_int - 1;
        }
        i += 1;
    }
    fails(ENOENT)
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let Some(Some(o)) = open_files().get_mut((fd - FIRST) as usize) else { return fails(EIO) as isize };
    let f = &files()[o.file];
    let n = n.min(f.data.len() - o.at);
    if n == 0 && f.broken {
        return fails(EIO) as isize;
    }
    unsafe { std::ptr::copy_nonoverlapping(f.data.as_ptr().add(o.at), buf as *mut u8, n) };
    o.at += n;
    n as isize
}
#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(o) = open_files().get_mut((fd - FIRST) as usize) {
        *o = None;
    }
    0
}
#[no_mangle]
unsafe extern "C" fn fstat64(_: c_int, _: *mut c_void) -> c_int {
    fails(ENOSYS)
}
#[no_mangle]
unsafe extern "C" fn statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut c_void) -> c_int {
    fails(ENOSYS)
}
#[no_mangle]
unsafe extern "C" fn lseek64(_: c_int, _: i64, _: c_int) -> i64 {
    fails(ENOSYS) as i64
}

// ------------------------------------------------------------------------------------------ tasks
/// How the program ended: `None` while it runs.
pub fn ended() -> &'static mut Option<bool> {
    static mut ENDED: Option<bool> = None;
    unsafe { &mut ENDED }
}
/// Starts the program; its main task is task 0.
pub fn start() {
    tokio::rt::tasks().push(tokio::rt::Task {
        future: Some(Box::pin(run(crate::tokio_main()))),
    });
}
async fn run(f: impl Future<Output = anyhow::Result<()>>) {
    let r = f.await;
    *ended() = Some(r.is_ok());
}
/// Polls task `i` if it has not ended.
pub fn poll(i: usize) {
    tokio::rt::poll(i);
}
/// What of the program's progress can be seen from outside.
fn progress() -> usize {
    let t = tokio::rt::tasks();
    let mut n = t.len() + *tokio::rt::moves();
    for t in t.iter() {
        n += t.future.is_none() as usize;
    }
    let w = tokio::net::world();
    n += w.accepts + w.bound.len() + w.connected.len();
    let m = tokio_rustls::model();
    n += m.accepted.len() + m.connected.len();
    for i in 0..tokio::net::sockets() {
        let s = tokio::net::sock(i);
        n += s.taken + s.tx.len() + s.shutdown as usize + s.told_eof as usize + s.told_err as usize;
    }
    n
}
/// Lets every task run until none makes progress any more.
pub fn rest() {
    loop {
        let before = progress();
        let mut i = 0;
        while i < tokio::rt::tasks().len() {
            poll(i);
            i += 1;
        }
        if progress() == before {
            return;
        }
    }
}
/// A long time passes.
pub fn wait() {
    *tokio::time::clock() += std::time::Duration::from_secs(10_000_000);
    rest();
}
pub fn running(i: usize) -> bool {
    tokio::rt::tasks()[i].future.is_some()
}
