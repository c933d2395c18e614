//! The interface to the engine, and its native counterpart used to replay a model.
//!
//! Under the engine the functions called `sym_*` are intercepted by name and their bodies here are not executed.
//! Natively they take the values from the replay file named on the command line.
#![allow(static_mut_refs)]
use std::io::Write;

pub struct Replay { pub inputs: Vec<(String, Vec<u64>)>, pub pos: usize, pub trace: Vec<Vec<u8>>, pub active: bool }
pub static mut REPLAY: Replay = Replay { inputs: Vec::new(), pos: 0, trace: Vec::new(), active: false };

pub fn finish(code: i32, what: &str) -> ! {
    unsafe {
        let mut o = std::io::stdout().lock();
        for t in &REPLAY.trace { let _ = writeln!(o, "TRACE {}", t.iter().map(|b| format!("{:02x}", b)).collect::<String>()); }
        let _ = writeln!(o, "RESULT {}", what);
        let _ = o.flush();
    }
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(code) }
}
/// what to check if the code under test ends the process; without it that is a violation
pub static mut ON_EXIT: Option<fn()> = None;
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_at_exit() {
    if let Some(f) = ON_EXIT { f(); sym_done() }
    sym_exited()
}
static mut PANIC_OK: bool = false;
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_panic_ok() { PANIC_OK = true }
pub fn panicked() -> bool { unsafe { std::mem::replace(&mut PANIC_OK, false) } }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_exited() {}
/// ends the path
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_done() { finish(0, "ok") }

unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }

unsafe fn next(tag: &str) -> Vec<u64> {
    let r = &mut REPLAY;
    if r.pos >= r.inputs.len() { finish(13, &format!("diverged: no value for {}", tag)); }
    let (t, v) = r.inputs[r.pos].clone();
    r.pos += 1;
    if t != tag { finish(13, &format!("diverged: {} instead of {}", tag, t)); }
    v
}

#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_bytes(p: *mut u8, n: usize, t: *const u8, tn: usize) {
    let v = next(s(t, tn));
    if v.len() != n { finish(13, "diverged: length"); }
    for i in 0..n { *p.add(i) = v[i] as u8; }
}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_choice(n: u64, t: *const u8, tn: usize) -> u64 {
    let v = next(s(t, tn))[0];
    if v >= n { finish(13, "diverged: choice out of range"); }
    v
}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_fork_bool(t: *const u8, tn: usize) -> u64 { next(s(t, tn))[0] }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_assume(b: bool) { if !b { finish(12, "assumption not met") } }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_assert(b: bool, p: *const u8, n: usize) { if !b { finish(10, &format!("assert {}", s(p, n))) } }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_cover(_p: *const u8, _n: usize) {}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_trace(p: *const u8, n: usize) { REPLAY.trace.push(std::slice::from_raw_parts(p, n).to_vec()) }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_concretize(x: u64) -> u64 { x }
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_limit(_: u64) {}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_file_put(p: *const u8, n: usize, d: *const u8, m: usize) {
    std::fs::write(s(p, n), std::slice::from_raw_parts(d, m)).expect("write file");
}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_file_get(p: *const u8, n: usize, b: *mut u8, cap: usize) -> i64 {
    match std::fs::read(s(p, n)) {
        Err(_) => -1,
        Ok(v) => { let k = v.len().min(cap); std::ptr::copy_nonoverlapping(v.as_ptr(), b, k); v.len() as i64 }
    }
}
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn sym_opaque(x: u64) -> u64 { x }

// ---- safe wrappers
pub fn bytes(tag: &str, b: &mut [u8]) { if !b.is_empty() { unsafe { sym_bytes(b.as_mut_ptr(), b.len(), tag.as_ptr(), tag.len()) } } }
pub fn vec(tag: &str, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; bytes(tag, &mut v); v }
pub fn byte(tag: &str) -> u8 { let mut b = [0u8; 1]; bytes(tag, &mut b); b[0] }
pub fn u16v(tag: &str) -> u16 { let mut b = [0u8; 2]; bytes(tag, &mut b); u16::from_le_bytes(b) }
pub fn u32v(tag: &str) -> u32 { let mut b = [0u8; 4]; bytes(tag, &mut b); u32::from_le_bytes(b) }
pub fn u64v(tag: &str) -> u64 { let mut b = [0u8; 8]; bytes(tag, &mut b); u64::from_le_bytes(b) }
/// concrete, every value is explored
pub fn choice(n: usize, tag: &str) -> usize { if n <= 1 { return 0; } unsafe { sym_choice(n as u64, tag.as_ptr(), tag.len()) as usize } }
pub fn range(lo: usize, hi: usize, tag: &str) -> usize { lo + choice(hi - lo + 1, tag) }
/// symbolic byte, 0 or 1
pub fn bit(tag: &str) -> u8 { unsafe { sym_fork_bool(tag.as_ptr(), tag.len()) as u8 } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, id: &str) { unsafe { sym_assert(b, id.as_ptr(), id.len()) } }
pub fn cover(id: &str) { unsafe { sym_cover(id.as_ptr(), id.len()) } }
pub fn trace(b: &[u8]) { unsafe { sym_trace(b.as_ptr(), b.len()) } }
pub fn trace_num(x: u64) { trace(&x.to_le_bytes()) }
pub fn concretize(x: u64) -> u64 { unsafe { sym_concretize(x) } }
/// from here on the path may execute at most so many instructions
pub fn on_exit(f: fn()) { unsafe { ON_EXIT = Some(f) } }
/// a panic is like an exit of the process
pub fn panic_ok() { unsafe { sym_panic_ok() } }
pub fn limit(steps: u64) { unsafe { sym_limit(steps) } }
pub fn file_put(path: &str, d: &[u8]) { unsafe { sym_file_put(path.as_ptr(), path.len(), d.as_ptr(), d.len()) } }
pub fn file_get(path: &str) -> Option<Vec<u8>> {
    let mut b = vec![0u8; 4096];
    let n = unsafe { sym_file_get(path.as_ptr(), path.len(), b.as_mut_ptr(), b.len()) };
    if n < 0 { None } else { b.truncate(n as usize); Some(b) }
}
/// equality without one branch per byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
