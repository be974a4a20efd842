//! Model of time: it passes when the harness says so.
pub use std::time::Duration;
use std::{
    fmt,
    future::{Future, IntoFuture},
    ops::{Add, AddAssign, Sub},
    pin::{pin, Pin},
    task::{Context, Poll},
};

/// Now.
#[allow(static_mut_refs)]
pub fn clock() -> &'static mut Duration {
    static mut NOW: Duration = Duration::from_secs(1000);
    unsafe { &mut NOW }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Instant(*clock())
    }
    pub fn elapsed(&self) -> Duration {
        clock().saturating_sub(self.0)
    }
    pub fn duration_since(&self, other: Instant) -> Duration {
        self.0.saturating_sub(other.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}

#[derive(Debug)]
pub struct Sleep {
    deadline: Instant,
    _p: std::marker::PhantomPinned,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.deadline
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        unsafe { self.get_unchecked_mut().deadline = deadline }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { deadline, _p: std::marker::PhantomPinned }
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant(clock().saturating_add(d)))
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
    impl super::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut super::fmt::Formatter<'_>) -> super::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}
pub async fn timeout_at<F: IntoFuture>(deadline: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = pin!(f.into_future());
    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(v) => Poll::Ready(Ok(v)),
        Poll::Pending if Instant::now() >= deadline => Poll::Ready(Err(error::Elapsed(()))),
        Poll::Pending => Poll::Pending,
    })
    .await
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> impl Future<Output = Result<F::Output, error::Elapsed>> {
    timeout_at(Instant(clock().saturating_add(d)), f)
}

pub struct Interval {
    next: Instant,
    period: Duration,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(next: Instant, period: Duration) -> Interval {
    Interval { next, period }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let at = self.next;
        // One tick per passing of time.
        self.next = Instant::now() + self.period;
        at
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
