//! Tasks on the one-threaded scheduler of `crate::sym`.
use crate::sym;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Slot<T> { value: Option<T>, finished: bool, cancelled: bool, waker: Option<Waker> }
pub struct JoinHandle<T> { slot: Arc<Mutex<Slot<T>>>, id: usize }
pub struct JoinError { cancelled: bool }
impl JoinError {
    pub fn is_cancelled(&self) -> bool { self.cancelled }
    pub fn is_panic(&self) -> bool { false }
}
impl fmt::Debug for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinError") } }
impl fmt::Display for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinError") } }
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error { fn from(_: JoinError) -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, "task was cancelled") } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Id(usize);
impl fmt::Display for Id { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinHandle") } }
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        if let Some(v) = s.value.take() { return Poll::Ready(Ok(v)); }
        if s.cancelled { return Poll::Ready(Err(JoinError { cancelled: true })); }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
#[derive(Clone)]
pub struct AbortHandle { id: usize, stop: Arc<dyn Fn()> }
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl AbortHandle {
    pub fn abort(&self) { if !sym::task_done(self.id) { (self.stop)() } }
    pub fn is_finished(&self) -> bool { sym::task_done(self.id) }
    pub fn id(&self) -> Id { Id(self.id) }
}
fn stop<T>(slot: &Arc<Mutex<Slot<T>>>, id: usize) {
    sym::abort_task(id);
    let mut s = slot.lock().unwrap();
    s.cancelled = true;
    if let Some(w) = s.waker.take() { w.wake(); }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        if !sym::task_done(self.id) { stop(&self.slot, self.id) }
    }
    pub fn abort_handle(&self) -> AbortHandle where T: 'static { let (slot, id) = (self.slot.clone(), self.id); AbortHandle { id, stop: Arc::new(move || stop(&slot, id)) } }
    pub fn is_finished(&self) -> bool { let s = self.slot.lock().unwrap(); s.finished || s.cancelled }
    pub fn id(&self) -> Id { Id(self.id) }
}

fn spawn_any<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
    let slot = Arc::new(Mutex::new(Slot { value: None, finished: false, cancelled: false, waker: None }));
    let s2 = slot.clone();
    let id = sym::spawn_local(async move {
        let v = f.await;
        let mut s = s2.lock().unwrap();
        s.value = Some(v);
        s.finished = true;
        if let Some(w) = s.waker.take() { w.wake(); }
    });
    JoinHandle { slot, id }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { spawn_any(f) }
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { spawn_any(f) }
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { spawn_any(async move { f() }) }
pub fn block_in_place<F, R>(f: F) -> R where F: FnOnce() -> R { f() }

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|cx| if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending }).await
}

pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self { JoinSet { v: Vec::new() } }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static, T: Send { let h = spawn_any(f); let a = h.abort_handle(); self.v.push(h); a }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.v.is_empty() { return None; }
        std::future::poll_fn(|cx| {
            for i in 0..self.v.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) { self.v.remove(i); return Poll::Ready(Some(r)); }
            }
            Poll::Pending
        }).await
    }
    pub fn abort_all(&mut self) { for h in &self.v { h.abort() } }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(Waker::noop());
        for i in 0..self.v.len() {
            if !self.v[i].is_finished() && !sym::task_done(self.v[i].id) { continue; }
            if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(&mut cx) { self.v.remove(i); return Some(r); }
        }
        None
    }
    pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
    pub async fn join_all(mut self) -> Vec<T> { let mut r = Vec::new(); while let Some(x) = self.join_next().await { r.push(x.unwrap()); } r }
    pub fn detach_all(&mut self) { self.v.clear() }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle where F: FnOnce() -> T + Send + 'static, T: Send { self.spawn(async move { f() }) }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.v { h.abort() } } }
impl<T> fmt::Debug for JoinSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinSet") } }
impl<T: 'static> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
