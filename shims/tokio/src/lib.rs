//! Stand-in for tokio used when the broker is executed symbolically.
//!
//! Real: sync (channels, locks), io traits and helpers, join!/try_join!/select! logic.
//! Replaced: executor, TCP, timers, signals - under the control of the harness through `tokio::sym`.

#[macro_use]
mod select;

pub use tokio_macros::select_priv_clean_pattern;
pub use tokio_macros::select_priv_declare_output_enum;
pub use tokio_real::{io, join, pin, sync, try_join};

pub mod macros {
    pub mod support {
        pub use std::future::{poll_fn, Future, IntoFuture};
        pub use std::pin::Pin;
        pub use std::task::{ready, Context, Poll};
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::sym::select_start(n)
        }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> {
            Poll::Ready(())
        }
    }
}

pub mod fs;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod sym;
pub mod task;
pub mod time;

pub use task::spawn;
