//! ctrl-c is raised by the harness.
use crate::sym::world;
use std::task::Poll;
pub async fn ctrl_c() -> std::io::Result<()> {
    std::future::poll_fn(|cx| {
        let w = world();
        if w.ctrl_c { return Poll::Ready(Ok(())); }
        w.ctrl_c_wakers.push(cx.waker().clone());
        Poll::Pending
    }).await
}

/// ctrl-c is SIGINT; no other signal is ever raised
pub mod unix {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn interrupt() -> Self { SignalKind(2) }
        pub const fn terminate() -> Self { SignalKind(15) }
        pub const fn hangup() -> Self { SignalKind(1) }
        pub const fn quit() -> Self { SignalKind(3) }
        pub const fn user_defined1() -> Self { SignalKind(10) }
        pub const fn user_defined2() -> Self { SignalKind(12) }
    }
    #[derive(Debug)]
    pub struct Signal { kind: i32, seen: bool }
    pub fn signal(k: SignalKind) -> std::io::Result<Signal> { Ok(Signal { kind: k.0, seen: false }) }
    impl Signal {
        pub fn poll_recv(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Option<()>> {
            let w = world();
            if self.kind == 2 && w.ctrl_c && !self.seen { self.seen = true; return Poll::Ready(Some(())); }
            if self.kind == 2 { w.ctrl_c_wakers.push(cx.waker().clone()); }
            Poll::Pending
        }
        pub async fn recv(&mut self) -> Option<()> { std::future::poll_fn(|cx| self.poll_recv(cx)).await }
    }
}
