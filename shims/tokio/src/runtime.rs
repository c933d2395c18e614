//! Only what a `#[tokio::main]` would need.
use std::future::Future;
pub struct Runtime(());
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> { Ok(Runtime(())) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output { crate::sym::block_on(f).expect("everything is waiting") }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::task::spawn(f) }
}
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Builder { Builder(()) }
    pub fn new_current_thread() -> Builder { Builder(()) }
    pub fn enable_all(&mut self) -> &mut Self { self }
    pub fn enable_io(&mut self) -> &mut Self { self }
    pub fn enable_time(&mut self) -> &mut Self { self }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self { self }
    pub fn build(&mut self) -> std::io::Result<Runtime> { Runtime::new() }
}
#[derive(Clone, Debug)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle { Handle(()) }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::task::spawn(f) }
}
