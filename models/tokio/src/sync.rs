//! Model of the synchronisation primitives: everything is polled by the harness, so nobody needs to be woken.
use crate::rt::moved;
use std::{
    cell::UnsafeCell,
    collections::VecDeque,
    fmt,
    future::{poll_fn, Future},
    ops::{Deref, DerefMut},
    pin::Pin,
    sync::{Arc, Mutex as Std},
    task::{Context, Poll},
};

macro_rules! error {
    ($($t:ident $text:literal),*) => {$(
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct $t;
        impl fmt::Debug for $t { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
        impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str($text) } }
        impl std::error::Error for $t {}
    )*};
}
error!(AcquireError "semaphore closed", TryLockError "operation would block");

// -------------------------------------------------------------------------------------- semaphore
struct Sem {
    permits: usize,
    closed: bool,
    /// Waiting, in order: a number and the permits wanted.
    queue: VecDeque<(u64, usize)>,
    next: u64,
}
pub struct Semaphore(Std<Sem>);
impl fmt::Debug for Semaphore {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
pub struct SemaphorePermit<'a> {
    sem: &'a Semaphore,
    n: usize,
}
pub struct OwnedSemaphorePermit {
    sem: Arc<Semaphore>,
    n: usize,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl fmt::Display for TryAcquireError {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for TryAcquireError {}
struct Place<'a>(&'a Semaphore, Option<u64>);
impl Drop for Place<'_> {
    fn drop(&mut self) {
        if let Some(id) = self.1 {
            self.0 .0.lock().unwrap().queue.retain(|q| q.0 != id);
        }
    }
}
impl Semaphore {
    pub const MAX_PERMITS: usize = usize::MAX >> 3;
    pub const fn new(permits: usize) -> Self {
        Self::const_new(permits)
    }
    pub const fn const_new(permits: usize) -> Self {
        Semaphore(Std::new(Sem { permits, closed: false, queue: VecDeque::new(), next: 0 }))
    }
    pub fn available_permits(&self) -> usize {
        self.0.lock().unwrap().permits
    }
    pub fn add_permits(&self, n: usize) {
        moved();
        self.0.lock().unwrap().permits += n;
    }
    pub fn close(&self) {
        moved();
        self.0.lock().unwrap().closed = true;
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().closed
    }
    async fn take(&self, n: usize) -> Result<(), AcquireError> {
        let mut place = Place(self, None);
        poll_fn(|_| {
            let mut s = self.0.lock().unwrap();
            if s.closed {
                return Poll::Ready(Err(AcquireError));
            }
            let first = match (place.1, s.queue.front()) {
                (_, None) => true,
                (Some(id), Some(q)) => q.0 == id,
                _ => false,
            };
            if first && s.permits >= n {
                s.permits -= n;
                if place.1.take().is_some() {
                    s.queue.pop_front();
                }
                moved();
                return Poll::Ready(Ok(()));
            }
            if place.1.is_none() {
                let id = s.next;
                s.next += 1;
                s.queue.push_back((id, n));
                place.1 = Some(id);
            }
            Poll::Pending
        })
        .await
    }
    fn try_take(&self, n: usize) -> Result<(), TryAcquireError> {
        let mut s = self.0.lock().unwrap();
        if s.closed {
            Err(TryAcquireError::Closed)
        } else if s.permits >= n && s.queue.is_empty() {
            s.permits -= n;
            Ok(())
        } else {
            Err(TryAcquireError::NoPermits)
        }
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.acquire_many(1).await
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.take(n as usize).await?;
        Ok(SemaphorePermit { sem: self, n: n as usize })
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        self.try_take(1)?;
        Ok(SemaphorePermit { sem: self, n: 1 })
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        self.take(1).await?;
        Ok(OwnedSemaphorePermit { sem: self, n: 1 })
    }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        self.try_take(1)?;
        Ok(OwnedSemaphorePermit { sem: self, n: 1 })
    }
}
impl SemaphorePermit<'_> {
    pub fn forget(mut self) {
        self.n = 0;
    }
}
impl OwnedSemaphorePermit {
    pub fn forget(mut self) {
        self.n = 0;
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        self.sem.add_permits(self.n);
    }
}
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        self.sem.add_permits(self.n);
    }
}

// ------------------------------------------------------------------------------------------ locks
pub struct Mutex<T: ?Sized> {
    sem: Semaphore,
    value: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for MutexGuard<'_, T> {}
pub struct OwnedMutexGuard<T: ?Sized> {
    lock: Arc<Mutex<T>>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for OwnedMutexGuard<T> {}
impl<T> Mutex<T> {
    pub const fn new(value: T) -> Self {
        Mutex { sem: Semaphore::const_new(1), value: UnsafeCell::new(value) }
    }
    pub const fn const_new(value: T) -> Self {
        Self::new(value)
    }
    pub fn into_inner(self) -> T {
        self.value.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        let _ = self.sem.take(1).await;
        MutexGuard { lock: self }
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        self.sem.try_take(1).map_err(|_| TryLockError)?;
        Ok(MutexGuard { lock: self })
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        let _ = self.sem.take(1).await;
        OwnedMutexGuard { lock: self }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.value.get_mut()
    }
}
macro_rules! guard {
    ($t:ident, $($g:tt)*) => {
        impl<$($g)* T: ?Sized> Deref for $t<$($g)* T> {
            type Target = T;
            fn deref(&self) -> &T { unsafe { &*self.lock.value.get() } }
        }
        impl<$($g)* T: ?Sized> DerefMut for $t<$($g)* T> {
            fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.lock.value.get() } }
        }
        impl<$($g)* T: ?Sized> Drop for $t<$($g)* T> {
            fn drop(&mut self) { self.lock.sem.add_permits(1) }
        }
    };
}
guard!(MutexGuard, 'a,);
guard!(OwnedMutexGuard,);

const READERS: usize = 1 << 20;
pub struct RwLock<T: ?Sized> {
    sem: Semaphore,
    value: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(value: T) -> Self {
        RwLock { sem: Semaphore::const_new(READERS), value: UnsafeCell::new(value) }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        let _ = self.sem.take(1).await;
        RwLockReadGuard(self)
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        let _ = self.sem.take(READERS).await;
        RwLockWriteGuard(self)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.value.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.sem.add_permits(1)
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.value.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.value.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.sem.add_permits(READERS)
    }
}

pub struct OnceCell<T> {
    lock: Mutex<()>,
    value: std::sync::OnceLock<T>,
}
impl<T> OnceCell<T> {
    pub const fn new() -> Self {
        OnceCell { lock: Mutex::new(()), value: std::sync::OnceLock::new() }
    }
    pub const fn const_new() -> Self {
        Self::new()
    }
    pub fn get(&self) -> Option<&T> {
        self.value.get()
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        self.value.set(value)
    }
    pub fn initialized(&self) -> bool {
        self.value.get().is_some()
    }
    pub async fn get_or_init<F: FnOnce() -> U, U: Future<Output = T>>(&self, f: F) -> &T {
        let _guard = self.lock.lock().await;
        if self.value.get().is_none() {
            let _ = self.value.set(f().await);
        }
        self.value.get().unwrap()
    }
    pub async fn get_or_try_init<E, F: FnOnce() -> U, U: Future<Output = Result<T, E>>>(&self, f: F) -> Result<&T, E> {
        let _guard = self.lock.lock().await;
        if self.value.get().is_none() {
            let _ = self.value.set(f().await?);
        }
        Ok(self.value.get().unwrap())
    }
}
impl<T> Default for OnceCell<T> {
    fn default() -> Self {
        Self::new()
    }
}

// ----------------------------------------------------------------------------------------- notify
#[derive(Default)]
struct Bell {
    permit: bool,
    /// Number of calls of `notify_waiters`.
    rounds: u64,
}
#[derive(Default)]
pub struct Notify(Std<Bell>);
pub struct Notified<'a> {
    notify: &'a Notify,
    round: u64,
}
impl Notify {
    pub const fn new() -> Self {
        Notify(Std::new(Bell { permit: false, rounds: 0 }))
    }
    pub const fn const_new() -> Self {
        Self::new()
    }
    pub fn notify_one(&self) {
        moved();
        self.0.lock().unwrap().permit = true;
    }
    pub fn notify_waiters(&self) {
        moved();
        self.0.lock().unwrap().rounds += 1;
    }
    pub fn notified(&self) -> Notified<'_> {
        Notified { notify: self, round: self.0.lock().unwrap().rounds }
    }
}
impl Future for Notified<'_> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let mut b = self.notify.0.lock().unwrap();
        if b.rounds > self.round || std::mem::take(&mut b.permit) {
            moved();
            return Poll::Ready(());
        }
        Poll::Pending
    }
}

// --------------------------------------------------------------------------------------- channels
pub mod oneshot {
    use super::*;
    struct Slot<T> {
        value: Option<T>,
        sender: bool,
        receiver: bool,
    }
    pub struct Sender<T>(Arc<Std<Slot<T>>>);
    pub struct Receiver<T>(Arc<Std<Slot<T>>>);
    pub mod error {
        use super::*;
        error!(RecvError "channel closed");
        #[derive(Debug, PartialEq, Eq, Clone, Copy)]
        pub enum TryRecvError {
            Empty,
            Closed,
        }
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let s = Arc::new(Std::new(Slot { value: None, sender: true, receiver: true }));
        (Sender(s.clone()), Receiver(s))
    }
    impl<T> Sender<T> {
        pub fn send(self, value: T) -> Result<(), T> {
            let mut s = self.0.lock().unwrap();
            if !s.receiver {
                return Err(value);
            }
            moved();
            s.value = Some(value);
            Ok(())
        }
        pub fn is_closed(&self) -> bool {
            !self.0.lock().unwrap().receiver
        }
        pub async fn closed(&mut self) {
            poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await
        }
    }
    impl<T> Receiver<T> {
        pub fn close(&mut self) {
            moved();
            self.0.lock().unwrap().receiver = false;
        }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            let mut s = self.0.lock().unwrap();
            match s.value.take() {
                Some(v) => Ok(v),
                None if s.sender => Err(error::TryRecvError::Empty),
                None => Err(error::TryRecvError::Closed),
            }
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match self.try_recv() {
                Ok(v) => {
                    moved();
                    Poll::Ready(Ok(v))
                }
                Err(error::TryRecvError::Closed) => Poll::Ready(Err(error::RecvError)),
                _ => Poll::Pending,
            }
        }
    }
    impl<T> Unpin for Receiver<T> {}
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            moved();
            self.0.lock().unwrap().sender = false;
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            moved();
            self.0.lock().unwrap().receiver = false;
        }
    }
}

pub mod mpsc {
    use super::*;
    pub mod error {
        use super::*;
        macro_rules! closed {
            ($t:ident) => {
                #[derive(PartialEq, Eq, Clone, Copy)]
                pub struct $t<T>(pub T);
                impl<T> fmt::Debug for $t<T> {
                    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                        Ok(())
                    }
                }
                impl<T> fmt::Display for $t<T> {
                    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                        Ok(())
                    }
                }
                impl<T> std::error::Error for $t<T> {}
            };
        }
        closed!(SendError);
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> fmt::Debug for TrySendError<T> {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        #[derive(Debug, PartialEq, Eq, Clone, Copy)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
    }
    struct Chan<T> {
        queue: VecDeque<T>,
        room: usize,
        senders: usize,
        receiver: bool,
    }
    macro_rules! ends {
        ($s:ident, $r:ident) => {
            pub struct $s<T>(Arc<Std<Chan<T>>>);
            pub struct $r<T>(Arc<Std<Chan<T>>>);
            impl<T> Clone for $s<T> {
                fn clone(&self) -> Self {
                    self.0.lock().unwrap().senders += 1;
                    $s(self.0.clone())
                }
            }
            impl<T> Drop for $s<T> {
                fn drop(&mut self) {
                    moved();
                    self.0.lock().unwrap().senders -= 1;
                }
            }
            impl<T> Drop for $r<T> {
                fn drop(&mut self) {
                    moved();
                    let mut c = self.0.lock().unwrap();
                    c.receiver = false;
                    c.queue.clear();
                }
            }
            impl<T> $s<T> {
                pub fn is_closed(&self) -> bool {
                    !self.0.lock().unwrap().receiver
                }
                pub async fn closed(&self) {
                    poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await
                }
            }
            impl<T> $r<T> {
                pub fn poll_recv(&mut self, _: &mut Context<'_>) -> Poll<Option<T>> {
                    let mut c = self.0.lock().unwrap();
                    match c.queue.pop_front() {
                        Some(v) => {
                            moved();
                            Poll::Ready(Some(v))
                        }
                        None if c.senders == 0 || !c.receiver => Poll::Ready(None),
                        None => Poll::Pending,
                    }
                }
                pub async fn recv(&mut self) -> Option<T> {
                    poll_fn(|cx| self.poll_recv(cx)).await
                }
                pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                    let mut c = self.0.lock().unwrap();
                    match c.queue.pop_front() {
                        Some(v) => {
                            moved();
                            Ok(v)
                        }
                        None if c.senders == 0 => Err(error::TryRecvError::Disconnected),
                        None => Err(error::TryRecvError::Empty),
                    }
                }
                pub fn close(&mut self) {
                    moved();
                    self.0.lock().unwrap().receiver = false;
                }
                pub fn is_empty(&self) -> bool {
                    self.0.lock().unwrap().queue.is_empty()
                }
                pub fn len(&self) -> usize {
                    self.0.lock().unwrap().queue.len()
                }
            }
        };
    }
    ends!(Sender, Receiver);
    ends!(UnboundedSender, UnboundedReceiver);
    fn chan<T>(room: usize) -> Arc<Std<Chan<T>>> {
        Arc::new(Std::new(Chan { queue: VecDeque::new(), room, senders: 1, receiver: true }))
    }
    pub fn channel<T>(room: usize) -> (Sender<T>, Receiver<T>) {
        assert!(room > 0, "mpsc bounded channel requires buffer > 0");
        let c = chan(room);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let c = chan(usize::MAX);
        (UnboundedSender(c.clone()), UnboundedReceiver(c))
    }
    impl<T> Sender<T> {
        pub fn try_send(&self, value: T) -> Result<(), error::TrySendError<T>> {
            let mut c = self.0.lock().unwrap();
            if !c.receiver {
                Err(error::TrySendError::Closed(value))
            } else if c.queue.len() >= c.room {
                Err(error::TrySendError::Full(value))
            } else {
                moved();
                c.queue.push_back(value);
                Ok(())
            }
        }
        pub async fn send(&self, value: T) -> Result<(), error::SendError<T>> {
            let mut value = Some(value);
            std::future::poll_fn(move |_| match self.try_send(value.take().unwrap()) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(error::TrySendError::Closed(v)) => Poll::Ready(Err(error::SendError(v))),
                Err(error::TrySendError::Full(v)) => {
                    value = Some(v);
                    Poll::Pending
                }
            })
            .await
        }
        pub fn capacity(&self) -> usize {
            let c = self.0.lock().unwrap();
            c.room - c.queue.len()
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, value: T) -> Result<(), error::SendError<T>> {
            let mut c = self.0.lock().unwrap();
            if !c.receiver {
                return Err(error::SendError(value));
            }
            moved();
            c.queue.push_back(value);
            Ok(())
        }
    }
}
