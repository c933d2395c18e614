//! TCP sockets made of byte queues; see `crate::sym`.
use crate::sym::{chunk, choice, conn, world};
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub use std::net::ToSocketAddrs;

pub struct TcpListener { id: usize }
impl std::fmt::Debug for TcpListener { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpListener") } }
impl TcpListener {
    pub async fn bind<A: ToString>(a: A) -> io::Result<TcpListener> {
        let w = world();
        if w.unbindable.contains(&a.to_string()) { return Err(io::ErrorKind::AddrInUse.into()); }
        w.listeners.push((a.to_string(), Default::default(), None));
        Ok(TcpListener { id: w.listeners.len() - 1 })
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let w = world();
        let waiting = if self.id < w.listeners.len() { w.listeners[self.id].1.pop_front() } else { None };
        match waiting {
            Some(crate::sym::FAILED) => Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into())),
            Some(c) => { let p = w.conns[c].peer; Poll::Ready(Ok((TcpStream::from_conn(c), p))) }
            None => { w.listeners[self.id].2 = Some(cx.waker().clone()); Poll::Pending }
        }
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { std::future::poll_fn(|cx| self.poll_accept(cx)).await }
    pub fn poll_accept_ready(&self) -> bool { !world().listeners[self.id].1.is_empty() }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(world().listeners[self.id].0.parse().unwrap_or(SocketAddr::from(([127, 0, 0, 1], 1883)))) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
}

struct ReadEnd(usize);
struct WriteEnd(usize);
impl Drop for ReadEnd { fn drop(&mut self) { conn(self.0).read_dropped = true; } }
impl Drop for WriteEnd { fn drop(&mut self) { let c = conn(self.0); c.write_dropped = true; c.closed = true; } }

fn do_read(c: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let k = conn(c);
    k.reads += 1;
    if buf.remaining() == 0 { return Poll::Ready(Ok(())); }
    if k.input.is_empty() {
        return match k.end {
            Some(false) => Poll::Ready(Ok(())),
            Some(true) => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            None => { k.read_waker = Some(cx.waker().clone()); Poll::Pending }
        };
    }
    if k.pendings > 0 {
        k.pendings -= 1;
        if choice(2, "pending") == 1 { cx.waker().wake_by_ref(); return Poll::Pending; }
    }
    let n = chunk(&mut k.read_chunk, k.input.len().min(buf.remaining()), "read");
    let d: Vec<u8> = k.input.drain(..n).collect();
    buf.put_slice(&d);
    Poll::Ready(Ok(()))
}
fn do_write(c: usize, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
    let k = conn(c);
    k.writes += 1;
    if k.broken { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
    if k.closed { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
    if k.stalled { k.write_waker = Some(cx.waker().clone()); return Poll::Pending; }
    if b.is_empty() { return Poll::Ready(Ok(0)); }
    if k.pendings > 0 {
        k.pendings -= 1;
        if choice(2, "pending") == 1 { cx.waker().wake_by_ref(); return Poll::Pending; }
    }
    let n = chunk(&mut k.write_chunk, b.len(), "write");
    k.output.extend_from_slice(&b[..n]);
    Poll::Ready(Ok(n))
}
fn do_peek(c: usize, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
    let k = conn(c);
    if !b.is_empty() && k.input.is_empty() {
        return match k.end {
            Some(false) => Poll::Ready(Ok(0)),
            Some(true) => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            None => { k.more_wakers.push(cx.waker().clone()); Poll::Pending }
        };
    }
    let n = b.len().min(k.input.len());
    for i in 0..n { b[i] = k.input[i]; }
    Poll::Ready(Ok(n))
}
fn can_read(c: usize) -> bool { let k = conn(c); !k.input.is_empty() || k.end.is_some() }
fn can_write(c: usize) -> bool { let k = conn(c); !k.stalled || k.broken || k.closed }
fn do_ready(c: usize, i: Interest, cx: &mut Context<'_>) -> Poll<Ready> {
    let r = Ready { r: i.r && can_read(c), w: i.w && can_write(c), rc: i.r && conn(c).end.is_some(), wc: i.w && conn(c).broken };
    if r.r || r.w { return Poll::Ready(r); }
    conn(c).more_wakers.push(cx.waker().clone());
    Poll::Pending
}
fn unless_pending<T>(p: Poll<io::Result<T>>) -> io::Result<T> { match p { Poll::Ready(r) => r, Poll::Pending => Err(io::ErrorKind::WouldBlock.into()) } }
fn now(c: usize, f: impl FnOnce(&mut Context<'_>) -> Poll<io::Result<usize>>) -> io::Result<usize> {
    // the waiting task must not lose its place
    let k = conn(c);
    let (r, w) = (k.read_waker.clone(), k.write_waker.clone());
    let x = unless_pending(f(&mut Context::from_waker(std::task::Waker::noop())));
    conn(c).read_waker = r;
    conn(c).write_waker = w;
    x
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Interest { r: bool, w: bool }
impl Interest {
    pub const READABLE: Interest = Interest { r: true, w: false };
    pub const WRITABLE: Interest = Interest { r: false, w: true };
    pub const fn add(self, o: Interest) -> Interest { Interest { r: self.r || o.r, w: self.w || o.w } }
}
impl std::ops::BitOr for Interest { type Output = Interest; fn bitor(self, o: Interest) -> Interest { self.add(o) } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ready { r: bool, w: bool, rc: bool, wc: bool }
impl Ready {
    pub fn is_readable(self) -> bool { self.r }
    pub fn is_writable(self) -> bool { self.w }
    pub fn is_read_closed(self) -> bool { self.rc }
    pub fn is_write_closed(self) -> bool { self.wc }
    pub fn is_empty(self) -> bool { !self.r && !self.w }
}

fn do_shutdown(c: usize) -> Poll<io::Result<()>> { conn(c).closed = true; Poll::Ready(Ok(())) }

pub struct TcpStream { r: ReadEnd, w: WriteEnd }
impl std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpStream") } }
macro_rules! common {
    ($t:ty, $f:ident) => {
        impl $t {
            pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(conn(self.$f.0).peer) }
            pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(conn(self.$f.0).local) }
        }
    };
}
common!(TcpStream, r);
common!(tcp::OwnedReadHalf, r);
common!(tcp::OwnedWriteHalf, w);
macro_rules! reads {
    ($t:ty) => {
        impl $t {
            pub async fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> { std::future::poll_fn(|cx| do_peek(self.r.0, cx, b)).await }
        }
        reads!(only $t);
    };
    (only $t:ty) => {
        impl $t {
            pub async fn readable(&self) -> io::Result<()> { self.ready(Interest::READABLE).await.map(|_| ()) }
            pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                let mut buf = ReadBuf::new(b);
                now(self.r.0, |cx| do_read(self.r.0, cx, &mut buf).map_ok(|_| 0))?;
                Ok(buf.filled().len())
            }
        }
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { do_read(self.r.0, cx, buf) }
        }
    };
}
macro_rules! writes {
    ($t:ty) => {
        impl $t {
            pub async fn writable(&self) -> io::Result<()> { self.ready(Interest::WRITABLE).await.map(|_| ()) }
            pub fn try_write(&self, b: &[u8]) -> io::Result<usize> { now(self.w.0, |cx| do_write(self.w.0, cx, b)) }
        }
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { do_write(self.w.0, cx, b) }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { do_shutdown(self.w.0) }
        }
    };
}
reads!(only TcpStream);
writes!(TcpStream);
reads!(tcp::OwnedReadHalf);
writes!(tcp::OwnedWriteHalf);

impl TcpStream {
    pub async fn peek(&self, b: &mut [u8]) -> io::Result<usize> { std::future::poll_fn(|cx| do_peek(self.r.0, cx, b)).await }
    pub async fn ready(&self, i: Interest) -> io::Result<Ready> { std::future::poll_fn(|cx| do_ready(self.r.0, i, cx).map(Ok)).await }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) { let s: &TcpStream = self; (tcp::ReadHalf { s }, tcp::WriteHalf { s }) }
    pub fn ttl(&self) -> io::Result<u32> { Ok(64) }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> { Ok(None) }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> { Ok(None) }
    pub(crate) fn from_conn(c: usize) -> TcpStream { TcpStream { r: ReadEnd(c), w: WriteEnd(c) } }
    pub async fn connect<A>(_: A) -> io::Result<TcpStream> { Err(io::ErrorKind::ConnectionRefused.into()) }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { (tcp::OwnedReadHalf { r: self.r }, tcp::OwnedWriteHalf { w: self.w }) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn nodelay(&self) -> io::Result<bool> { Ok(false) }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> { Ok(()) }
}

pub mod tcp {
    use super::{do_read, do_ready, do_shutdown, do_write, Interest, Ready, TcpStream};
    use std::io;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};
    pub struct OwnedReadHalf { pub(super) r: super::ReadEnd }
    pub struct OwnedWriteHalf { pub(super) w: super::WriteEnd }
    impl std::fmt::Debug for OwnedReadHalf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OwnedReadHalf") } }
    impl std::fmt::Debug for OwnedWriteHalf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OwnedWriteHalf") } }
    impl OwnedWriteHalf {
        pub fn forget(self) { std::mem::forget(self) }
        pub async fn ready(&self, i: Interest) -> io::Result<Ready> { std::future::poll_fn(|cx| do_ready(self.w.0, i, cx).map(Ok)).await }
        pub fn reunite(self, o: OwnedReadHalf) -> Result<TcpStream, ReuniteError> { reunite(o, self) }
    }
    impl OwnedReadHalf {
        pub async fn ready(&self, i: Interest) -> io::Result<Ready> { std::future::poll_fn(|cx| do_ready(self.r.0, i, cx).map(Ok)).await }
        pub fn reunite(self, o: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> { reunite(self, o) }
    }
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    pub(super) fn reunite(r: OwnedReadHalf, w: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
        if r.r.0 == w.w.0 { Ok(TcpStream { r: r.r, w: w.w }) } else { Err(ReuniteError(r, w)) }
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a> { pub(super) s: &'a TcpStream }
    #[derive(Debug)]
    pub struct WriteHalf<'a> { pub(super) s: &'a TcpStream }
    impl AsyncRead for ReadHalf<'_> {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { do_read(self.s.r.0, cx, buf) }
    }
    impl AsyncWrite for WriteHalf<'_> {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { do_write(self.s.w.0, cx, b) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { do_shutdown(self.s.w.0) }
    }
}
