//! The world the broker runs in: scheduler, sockets, clock, signals. One thread only.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

extern "C" {
    fn sym_choice(n: u64, tag: *const u8, len: usize) -> u64;
}
pub fn choice(n: u64, tag: &str) -> u64 {
    if n <= 1 { return 0; }
    unsafe { sym_choice(n, tag.as_ptr(), tag.len()) }
}

pub(crate) struct Task {
    pub fut: Option<Pin<Box<dyn Future<Output = ()> + 'static>>>,
    pub wake: Arc<Flag>,
    pub done: bool,
}
pub(crate) struct Flag { pub id: usize }
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.wake_by_ref() }
    fn wake_by_ref(self: &Arc<Self>) {
        let w = world();
        if !w.ready.contains(&self.id) && !w.starved.contains(&self.id) { w.ready.push_back(self.id); }
    }
}

/// how a socket hands over bytes
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Chunk {
    /// everything that is there
    All,
    /// at most so many bytes per call
    Bytes(usize),
    /// any split; the number is how many further calls may be short
    Any(u32),
}

pub struct Conn {
    pub input: VecDeque<u8>,
    pub end: Option<bool>, // Some(false): orderly end of input; Some(true): reset
    pub output: Vec<u8>,
    /// the broker closed its write side or dropped both halves
    pub closed: bool,
    pub read_dropped: bool,
    pub write_dropped: bool,
    /// writes fail from now on
    pub broken: bool,
    /// writes do not progress
    pub stalled: bool,
    pub read_chunk: Chunk,
    pub write_chunk: Chunk,
    /// calls that may return Pending although they could progress
    pub pendings: u32,
    pub reads: u32,
    pub writes: u32,
    pub read_waker: Option<Waker>,
    /// those who wait for readiness, or peek
    pub more_wakers: Vec<Waker>,
    pub write_waker: Option<Waker>,
    pub peer: SocketAddr,
    pub local: SocketAddr,
}

pub struct Timer { pub at: u64, pub waker: Waker }

pub struct World {
    pub(crate) tasks: Vec<Task>,
    pub ready: VecDeque<usize>,
    pub conns: Vec<Conn>,
    /// address, waiting connections (FAILED: the next accept fails), who waits
    pub listeners: Vec<(String, VecDeque<usize>, Option<Waker>)>,
    /// addresses that cannot be bound
    pub unbindable: Vec<String>,
    /// how many scheduling decisions may be taken freely
    pub sched_budget: u32,
    /// a task out of turn runs before those ahead of it (false), or those ahead of it wait until nothing else is runnable (true)
    pub starve: bool,
    starved: VecDeque<usize>,
    /// how many select! start indices may be taken freely
    pub select_budget: u32,
    pub now_ms: u64,
    pub timers: Vec<Timer>,
    pub ctrl_c: bool,
    pub ctrl_c_wakers: Vec<Waker>,
    pub polls: u64,
    pub current: usize,
}

struct Cell(UnsafeCell<Option<World>>);
unsafe impl Sync for Cell {}
static WORLD: Cell = Cell(UnsafeCell::new(None));

pub fn world() -> &'static mut World {
    let w = unsafe { &mut *WORLD.0.get() };
    w.get_or_insert_with(|| World {
        tasks: Vec::new(), ready: VecDeque::new(), conns: Vec::new(), listeners: Vec::new(), unbindable: Vec::new(), sched_budget: 0, starve: false, starved: VecDeque::new(), select_budget: 0,
        now_ms: 0, timers: Vec::new(), ctrl_c: false, ctrl_c_wakers: Vec::new(), polls: 0, current: usize::MAX,
    })
}

impl World { pub fn tasks_spawned(&self) -> usize { self.tasks.len() } }

/// let the scheduler depart from first-come-first-served `n` times, at any step and to any runnable task
pub fn free_schedule(n: u32) { world().sched_budget = n; world().starve = n > 0 && choice(2, "starve") == 1; }
/// let `n` select! start at another branch than the first, wherever
pub fn free_select(n: u32) { world().select_budget = n; }

pub(crate) fn select_start(n: u32) -> u32 {
    let w = world();
    if w.select_budget == 0 || n < 2 { return 0; }
    let k = choice(n as u64, "select") as u32;
    if k > 0 { world().select_budget -= 1; }
    k
}

pub(crate) fn spawn_raw(fut: Pin<Box<dyn Future<Output = ()> + 'static>>) -> usize {
    let w = world();
    let id = w.tasks.len();
    w.tasks.push(Task { fut: Some(fut), wake: Arc::new(Flag { id }), done: false });
    w.ready.push_back(id);
    id
}

/// put a future of the harness on the scheduler
pub fn spawn_local<F: Future<Output = ()> + 'static>(f: F) -> usize { spawn_raw(Box::pin(f)) }
pub fn task_done(id: usize) -> bool { world().tasks[id].done }
pub fn tasks_alive() -> usize { world().tasks.iter().filter(|t| !t.done).count() }
pub fn abort_task(id: usize) { let t = &mut world().tasks[id]; let f = t.fut.take(); t.done = true; drop(f); }

/// one scheduling step; false if nothing is runnable
pub fn step() -> bool {
    let w = world();
    if w.ready.is_empty() {
        match w.starved.pop_front() { Some(t) => w.ready.push_back(t), None => return false }
    }
    let n = w.ready.len();
    let k = if n > 1 && w.sched_budget > 0 { choice(n as u64, "schedule") as usize } else { 0 };
    if k > 0 {
        w.sched_budget -= 1;
        if w.starve { for _ in 0..k { let t = w.ready.pop_front().unwrap(); w.starved.push_back(t); } }
    }
    let id = w.ready.remove(if w.starve { 0 } else { k }).unwrap();
    if w.tasks[id].done { return true; }
    let Some(mut fut) = w.tasks[id].fut.take() else { return true };
    let waker = Waker::from(w.tasks[id].wake.clone());
    let mut cx = Context::from_waker(&waker);
    w.polls += 1;
    let before = w.current;
    w.current = id;
    let r = fut.as_mut().poll(&mut cx);
    let w = world();
    w.current = before;
    match r {
        Poll::Ready(()) => { w.tasks[id].done = true; drop(fut); }
        Poll::Pending => { if w.tasks[id].done { drop(fut) } else { world().tasks[id].fut = Some(fut); } }
    }
    true
}

/// run until nothing is runnable
pub fn run_until_idle() { while step() {} }

struct Own(std::sync::atomic::AtomicBool);
impl Wake for Own {
    fn wake(self: Arc<Self>) { self.0.store(true, std::sync::atomic::Ordering::Relaxed) }
}
/// drive a future of the harness; None if everything is waiting and it has not finished
pub fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let own = Arc::new(Own(std::sync::atomic::AtomicBool::new(true)));
    let waker = Waker::from(own.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        while own.0.swap(false, std::sync::atomic::Ordering::Relaxed) {
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v); }
        }
        if !step() && !own.0.load(std::sync::atomic::Ordering::Relaxed) { return None; }
    }
}

/// let virtual time pass, waking timers in order and running what becomes runnable
pub fn advance(ms: u64) {
    let target = world().now_ms + ms;
    loop {
        run_until_idle();
        let w = world();
        let next = w.timers.iter().enumerate().filter(|(_, t)| t.at <= target).min_by_key(|(_, t)| t.at).map(|(i, _)| i);
        match next {
            Some(i) => { let t = w.timers.remove(i); if t.at > w.now_ms { w.now_ms = t.at; } t.waker.wake(); }
            None => break,
        }
    }
    world().now_ms = target;
}

pub fn raise_ctrl_c() {
    let w = world();
    w.ctrl_c = true;
    for k in std::mem::take(&mut w.ctrl_c_wakers) { k.wake(); }
}

fn addr(p: u16) -> SocketAddr { SocketAddr::new(std::net::IpAddr::V4(std::net::Ipv4Addr::new(127, 0, 0, 1)), p) }

/// a connection not (yet) handed to a listener
pub fn new_conn() -> usize {
    let w = world();
    let id = w.conns.len();
    w.conns.push(Conn {
        input: VecDeque::new(), end: None, output: Vec::new(), closed: false, read_dropped: false, write_dropped: false, broken: false, stalled: false,
        read_chunk: Chunk::All, write_chunk: Chunk::All, pendings: 0, reads: 0, writes: 0, read_waker: None, more_wakers: Vec::new(), write_waker: None, peer: addr(40000 + id as u16), local: addr(1883),
    });
    id
}
/// connect to listener number `l`
pub fn connect(l: usize) -> usize {
    let c = new_conn();
    let w = world();
    w.listeners[l].1.push_back(c);
    if let Some(k) = w.listeners[l].2.take() { k.wake(); }
    c
}
/// accept fails once
pub const FAILED: usize = usize::MAX;
pub fn accept_fails(l: usize) {
    let w = world();
    w.listeners[l].1.push_back(FAILED);
    if let Some(k) = w.listeners[l].2.take() { k.wake(); }
}
pub fn stream(c: usize) -> crate::net::TcpStream { crate::net::TcpStream::from_conn(c) }
pub fn conn(c: usize) -> &'static mut Conn { &mut world().conns[c] }
pub fn feed(c: usize, b: &[u8]) {
    let k = conn(c);
    for x in b { k.input.push_back(*x); }
    k.wake_reader();
}
impl Conn {
    fn wake_reader(&mut self) {
        if let Some(w) = self.read_waker.take() { w.wake(); }
        if !self.more_wakers.is_empty() { for w in std::mem::take(&mut self.more_wakers) { w.wake(); } }
    }
    fn wake_writer(&mut self) {
        if let Some(w) = self.write_waker.take() { w.wake(); }
        if !self.more_wakers.is_empty() { for w in std::mem::take(&mut self.more_wakers) { w.wake(); } }
    }
}
/// the client ends the connection: orderly or by a reset
pub fn close(c: usize, reset: bool) {
    let k = conn(c);
    k.end = Some(reset);
    if reset { k.broken = true; }
    k.wake_reader();
    k.wake_writer();
}
pub fn stall(c: usize, on: bool) {
    let k = conn(c);
    k.stalled = on;
    if !on { k.wake_writer(); }
}
pub fn output(c: usize) -> Vec<u8> { conn(c).output.clone() }
pub fn take_output(c: usize) -> Vec<u8> { std::mem::take(&mut conn(c).output) }
/// true once the broker ended the connection towards the client
pub fn closed_by_broker(c: usize) -> bool { let k = conn(c); k.closed || (k.read_dropped && k.write_dropped) }

pub(crate) fn chunk(policy: &mut Chunk, avail: usize, tag: &str) -> usize {
    match policy {
        Chunk::All => avail,
        Chunk::Bytes(n) => avail.min(*n),
        Chunk::Any(k) => {
            if *k == 0 || avail < 2 { avail } else {
                let r = choice(avail as u64, tag) as usize;
                // 0 means everything, so that the unrestricted run is the first one
                if r == 0 { avail } else { *k -= 1; r }
            }
        }
    }
}
