//! Model of the runtime: a list of tasks that the harness polls.
use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

fn nothing(_: *const ()) {}
fn clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VTABLE)
}
static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
/// A waker that does nothing: the harness decides when to poll.
pub fn waker() -> Waker {
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}

/// How often `select!` still starts with an arbitrary branch (then with the first).
#[allow(static_mut_refs)]
pub fn orders() -> &'static mut u32 {
    static mut ORDERS: u32 = u32::MAX;
    unsafe { &mut ORDERS }
}

pub struct Task {
    pub future: Option<Pin<Box<dyn Future<Output = ()>>>>,
}
static mut TASKS: Vec<Task> = Vec::new();
#[allow(static_mut_refs)]
pub fn tasks() -> &'static mut Vec<Task> {
    unsafe { &mut TASKS }
}
/// How often something passed between tasks.
#[allow(static_mut_refs)]
pub fn moves() -> &'static mut usize {
    static mut MOVES: usize = 0;
    unsafe { &mut MOVES }
}
pub fn moved() {
    *moves() += 1;
}
/// The task being polled.
#[allow(static_mut_refs)]
fn polled() -> &'static mut Option<usize> {
    static mut POLLED: Option<usize> = None;
    unsafe { &mut POLLED }
}
/// Polls task `i`; true if it has ended.
pub fn poll(i: usize) -> bool {
    let w = waker();
    let Some(mut f) = tasks()[i].future.take() else { return true };
    let outer = polled().replace(i);
    let r = f.as_mut().poll(&mut Context::from_waker(&w));
    *polled() = outer;
    if r.is_pending() {
        tasks()[i].future = Some(f);
    }
    r.is_ready()
}

struct Slot<T>(Arc<std::sync::Mutex<Option<T>>>);

pub fn spawn<F>(future: F) -> task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let slot = Arc::new(std::sync::Mutex::new(None));
    let out = slot.clone();
    tasks().push(Task {
        future: Some(Box::pin(async move {
            let v = future.await;
            *out.lock().unwrap() = Some(v);
        })),
    });
    task::JoinHandle { id: tasks().len() - 1, slot }
}

pub mod task {
    use super::*;
    pub use super::spawn;

    #[derive(Debug)]
    pub struct JoinError;
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            true
        }
        pub fn is_panic(&self) -> bool {
            false
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for JoinError {}

    fn abort(id: usize) {
        if tasks()[id].future.take().is_some() {
            moved();
        }
    }
    #[derive(Clone)]
    pub struct AbortHandle(usize);
    impl AbortHandle {
        pub fn abort(&self) {
            abort(self.0)
        }
        pub fn is_finished(&self) -> bool {
            tasks()[self.0].future.is_none()
        }
    }
    pub struct JoinHandle<T> {
        pub(super) id: usize,
        pub(super) slot: Arc<std::sync::Mutex<Option<T>>>,
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            abort(self.id)
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.id)
        }
        pub fn is_finished(&self) -> bool {
            tasks()[self.id].future.is_none()
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match self.slot.lock().unwrap().take() {
                Some(v) => Poll::Ready(Ok(v)),
                // Aborted (its result was never taken before).
                None if tasks()[self.id].future.is_none() && *polled() != Some(self.id) => Poll::Ready(Err(JoinError)),
                None => Poll::Pending,
            }
        }
    }
    pub fn spawn_blocking<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
        super::spawn(async move { f() })
    }

    pub struct JoinSet<T> {
        handles: Vec<JoinHandle<T>>,
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.handles {
                h.abort();
            }
        }
    }
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet { handles: Vec::new() }
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet { handles: Vec::new() }
        }
        pub fn spawn<F>(&mut self, f: F) -> AbortHandle
        where
            F: Future<Output = T> + Send + 'static,
            T: Send,
        {
            let h = super::spawn(f);
            let a = h.abort_handle();
            self.handles.push(h);
            a
        }
        pub fn len(&self) -> usize {
            self.handles.len()
        }
        pub fn is_empty(&self) -> bool {
            self.handles.is_empty()
        }
        pub fn abort_all(&mut self) {
            for h in &self.handles {
                h.abort();
            }
        }
        pub fn detach_all(&mut self) {
            self.handles.clear();
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
            if self.handles.is_empty() {
                return Poll::Ready(None);
            }
            let mut i = 0;
            while i < self.handles.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(r));
                }
                i += 1;
            }
            Poll::Pending
        }
        pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
            match self.poll_join_next(&mut Context::from_waker(&waker())) {
                Poll::Ready(r) => r,
                Poll::Pending => None,
            }
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
    }
    pub async fn yield_now() {
        let mut yielded = false;
        std::future::poll_fn(|_| {
            if yielded {
                Poll::Ready(())
            } else {
                yielded = true;
                Poll::Pending
            }
        })
        .await
    }
}
