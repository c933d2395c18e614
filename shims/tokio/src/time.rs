//! Virtual time: it passes only when the harness says so (`sym::advance`).
use crate::sym::{world, Timer};
use std::future::Future;
use std::ops::{Add, Sub};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error { fn from(_: Elapsed) -> std::io::Error { std::io::ErrorKind::TimedOut.into() } }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant { Instant(world().now_ms) }
    pub fn elapsed(&self) -> Duration { Duration::from_millis(world().now_ms - self.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(ms(d)).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(ms(d)).map(Instant) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_millis) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_millis(self.0.saturating_sub(o.0)) }
}
fn ms(d: Duration) -> u64 { d.as_millis().min(u64::MAX as u128 / 4) as u64 }
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0.saturating_add(ms(d))) } }
impl std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0.saturating_sub(ms(d))) } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

pub struct Sleep { at: u64 }
impl Sleep {
    pub fn deadline(&self) -> Instant { Instant(self.at) }
    pub fn is_elapsed(&self) -> bool { world().now_ms >= self.at }
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) { self.at = i.0; }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = world();
        if w.now_ms >= self.at { return Poll::Ready(()); }
        w.timers.push(Timer { at: self.at, waker: cx.waker().clone() });
        Poll::Pending
    }
}
pub fn sleep(d: Duration) -> Sleep { Sleep { at: world().now_ms.saturating_add(ms(d)) } }
pub fn sleep_until(i: Instant) -> Sleep { Sleep { at: i.0 } }

pub async fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f.into_future());
    let mut s = std::pin::pin!(sleep(d));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) { return Poll::Ready(Ok(v)); }
        if s.as_mut().poll(cx).is_ready() { return Poll::Ready(Err(error::Elapsed(()))); }
        Poll::Pending
    }).await
}
pub async fn timeout_at<F: std::future::IntoFuture>(i: Instant, f: F) -> Result<F::Output, error::Elapsed> { timeout(i.duration_since(Instant::now()), f).await }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior { Burst, Delay, Skip }
pub struct Interval { next: u64, period: u64 }
impl Interval {
    pub async fn tick(&mut self) -> Instant { std::future::poll_fn(|cx| self.poll_tick(cx)).await }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        let at = self.next;
        if Pin::new(&mut Sleep { at }).poll(cx).is_pending() { return Poll::Pending; }
        self.next = at + self.period;
        Poll::Ready(Instant(at))
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn reset(&mut self) { self.next = world().now_ms + self.period; }
    pub fn period(&self) -> Duration { Duration::from_millis(self.period) }
}
pub fn interval(d: Duration) -> Interval { Interval { next: world().now_ms, period: ms(d).max(1) } }
pub fn interval_at(i: Instant, d: Duration) -> Interval { Interval { next: i.0, period: ms(d).max(1) } }
