mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;
mod val;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }
fn jinputs(i: &[(String, Vec<u64>)]) -> String { format!("[{}]", i.iter().map(|(t, v)| format!("[{},[{}]]", js(t), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")) }
fn jtrace(t: &[Vec<u8>]) -> String { format!("[{}]", t.iter().map(|v| js(&v.iter().map(|b| format!("{:02x}", b)).collect::<String>())).collect::<Vec<_>>().join(",")) }

fn report(x: &exec::Exec, complete: bool, secs: f64) -> String {
    let s = &x.st;
    let mut o = String::new();
    let _ = write!(o, "{{\"complete\":{},\"paths\":{},\"assumed\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"secs\":{:.3},", complete, s.paths, s.assumed, s.forks, s.steps, s.max_path_steps, secs);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3},\"exprs\":{},", x.solver.queries, x.solver.sat, x.solver.unsat, x.solver.unknown, x.solver.cache_hits, x.solver.time, x.solver.max_time, expr::arena_len());
    let _ = write!(o, "\"asserts\":{},\"covers\":{},\"engine_errors\":{},", jmap(&s.asserts), jmap(&s.covers), jmap(&s.engine_errors));
    let _ = write!(o, "\"violations\":[{}],", s.viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"count\":{},\"inputs\":{},\"trace\":{},\"stack\":[{}],\"path\":[{}]}}", js(&v.kind), js(&v.id), v.count, jinputs(&v.inputs), jtrace(&v.trace), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.path.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", s.samples.iter().map(|v| format!("{{\"inputs\":{},\"trace\":{}}}", jinputs(&v.inputs), jtrace(&v.trace))).collect::<Vec<_>>().join(","));
    let mut f: Vec<String> = x.called.iter().enumerate().filter(|(_, c)| **c).map(|(i, _)| js(&x.m.syms[i].dem)).collect();
    f.sort();
    f.dedup();
    let _ = write!(o, "\"functions\":[{}],\"z3\":{}}}", f.join(","), js(&solver::Solver::version()));
    o
}

fn main() {
    // the interpreter recurses on deep expressions
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = h.join();
    std::process::exit(r.unwrap_or(95));
}

fn real_main() -> i32 {
    let mut ll = String::new();
    let mut entry = String::new();
    let mut jobs = 1usize;
    let mut max_time = 600.0f64;
    let mut max_steps = 50_000_000u64;
    let mut samples = 20usize;
    let mut known = vec![];
    let mut prof = false;
    let mut dump = None;
    let mut qt = 20_000u32;
    let mut seed = 1u64;
    let mut av = std::env::args().skip(1);
    while let Some(a) = av.next() {
        let mut nx = || av.next().expect("argument");
        match a.as_str() {
            "--ll" => ll = nx(), "--entry" => entry = nx(), "--jobs" => jobs = nx().parse().unwrap(), "--max-time" => max_time = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(), "--samples" => samples = nx().parse().unwrap(), "--known" => known.push(nx()), "--prof" => prof = true,
            "--dump" => dump = Some(std::path::PathBuf::from(nx())), "--query-ms" => qt = nx().parse().unwrap(), "--seed" => seed = nx().parse().unwrap(),
            a => { eprintln!("unknown argument {}", a); return 2; }
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read(&ll).expect("read ll");
    let m = ir::Module::load(text);
    let load = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec::new(m, qt);
    x.max_steps = max_steps;
    x.max_samples = samples;
    x.known_ids = known;
    x.solver.dump = dump;
    x.rng ^= seed.wrapping_mul(0x2545F4914F6CDD1D);
    if prof { x.prof = Some(Default::default()); }
    let st = match x.initial(&entry) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 3; } };
    x.work.push(st);
    let t1 = Instant::now();
    let mut complete = true;
    // breadth first until there is enough to share out
    let want = if jobs > 1 { jobs * 3 } else { 0 };
    let mut q: std::collections::VecDeque<exec::State> = std::collections::VecDeque::new();
    if jobs > 1 {
        q.push_back(x.work.pop().unwrap());
        while let Some(s) = q.pop_front() {
            // run one path; its siblings join the queue
            x.run(s);
            for s in x.work.drain(..) { q.push_back(s); }
            if x.stop_now || q.len() >= want { break; }
            if t1.elapsed().as_secs_f64() > max_time { complete = false; break; }
        }
        if complete && !x.stop_now && !q.is_empty() {
            return parallel(x, q, jobs, max_time, t1, load);
        }
    } else {
        while let Some(s) = x.work.pop() {
            x.run(s);
            if x.stop_now { break; }
            if t1.elapsed().as_secs_f64() > max_time { complete = x.work.is_empty(); break; }
        }
    }
    if x.stop_now { complete = false; }
    if let Some(p) = &x.prof {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for (s, n) in v.iter().take(40) { eprintln!("{:>12} {}", n, x.m.syms[**s as usize].dem); }
    }
    if x.want_forksites {
        let mut v: Vec<_> = x.forksites.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for (s, n) in v.iter().take(40) { eprintln!("FORK {:>8} {}", n, s); }
    }
    println!("{}", report(&x, complete, t1.elapsed().as_secs_f64()));
    eprintln!("load {:.2}s run {:.2}s paths {} queries {}", load, t1.elapsed().as_secs_f64(), x.st.paths, x.solver.queries);
    0
}

/// share the queued states among forked workers
fn parallel(mut x: exec::Exec, q: std::collections::VecDeque<exec::State>, jobs: usize, max_time: f64, t1: Instant, _load: f64) -> i32 {
    use std::sync::atomic::{AtomicU64, Ordering};
    let states: Vec<exec::State> = q.into_iter().collect();
    let n = states.len() as u64;
    // next state, stop flag, workers running
    let sh = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [AtomicU64; 3]) };
    let mut kids = vec![];
    for j in 0..jobs {
        let mut fds = [0i32; 2];
        unsafe { pipe(fds.as_mut_ptr()); }
        sh[2].fetch_add(1, Ordering::SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { close(fds[0]); }
            let mut out = fds[1];
            // the statistics so far belong to worker 0
            if j > 0 { fresh_stats(&mut x); }
            x.rng ^= (j as u64 + 1).wrapping_mul(0xD1342543DE82EF95);
            let mut complete = true;
            let mut mine: Vec<(i32, i32)> = vec![];
            let mut split = Instant::now();
            'outer: loop {
                let i = sh[0].fetch_add(1, Ordering::SeqCst);
                if i < n { x.work.push(states[i as usize].clone()); }
                else if x.work.is_empty() { break; }
                while let Some(s) = x.work.pop() {
                    x.run(s);
                    if x.stop_now { sh[1].store(1, Ordering::SeqCst); complete = false; break 'outer; }
                    if sh[1].load(Ordering::SeqCst) != 0 { complete = false; break 'outer; }
                    if t1.elapsed().as_secs_f64() > max_time { complete = false; break 'outer; }
                    // a worker has run out of states: share ours
                    if x.work.len() >= 2 && sh[2].load(Ordering::SeqCst) < jobs as u64 && sh[0].load(Ordering::SeqCst) >= n && split.elapsed().as_millis() >= 20 {
                        if sh[2].fetch_add(1, Ordering::SeqCst) >= jobs as u64 { sh[2].fetch_sub(1, Ordering::SeqCst); continue; }
                        split = Instant::now();
                        let mut fds = [0i32; 2];
                        unsafe { pipe(fds.as_mut_ptr()); }
                        let half = x.work.len() / 2;
                        let pid = unsafe { fork() };
                        if pid == 0 {
                            unsafe { close(fds[0]); close(out); for (_, fd) in mine.drain(..) { close(fd); } }
                            out = fds[1];
                            x.work.truncate(half);
                            fresh_stats(&mut x);
                            x.rng = x.rng.wrapping_mul(0xD1342543DE82EF95).wrapping_add(1);
                        } else {
                            unsafe { close(fds[1]); }
                            x.work.drain(..half);
                            mine.push((pid, fds[0]));
                        }
                    }
                }
            }
            let mut r = report(&x, complete, t1.elapsed().as_secs_f64());
            sh[2].fetch_sub(1, Ordering::SeqCst);
            for p in collect(&mine) { r.push(','); r.push_str(&p); }
            let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(out) };
            let _ = f.write_all(r.as_bytes());
            drop(f);
            unsafe { _exit(0) }
        }
        unsafe { close(fds[1]); }
        kids.push((pid, fds[0]));
    }
    let out = collect(&kids);
    let _ = kill;
    println!("{{\"parts\":[{}]}}", out.join(","));
    0
}
fn fresh_stats(x: &mut exec::Exec) {
    x.st = exec::Stats { paths: 0, assumed: 0, forks: 0, steps: 0, max_path_steps: 0, asserts: Default::default(), covers: Default::default(), engine_errors: Default::default(), viol: vec![], samples: vec![] };
    x.solver.queries = 0; x.solver.sat = 0; x.solver.unsat = 0; x.solver.unknown = 0; x.solver.cache_hits = 0; x.solver.time = 0.0; x.solver.max_time = 0.0;
}
/// the reports of child processes
fn collect(kids: &[(i32, i32)]) -> Vec<String> {
    let mut out = vec![];
    for (pid, fd) in kids {
        let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(*fd) };
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        unsafe { waitpid(*pid, &mut st, 0); }
        if st != 0 || s.is_empty() { eprintln!("worker ended with status {}", st); s = format!("{{\"complete\":false,\"worker_failed\":{}}}", st); }
        out.push(s);
    }
    out
}
