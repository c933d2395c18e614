//! Intrinsics, C library stand-ins, the sym_* interface and the few functions replaced by summaries.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::val::Val;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Body, AliasOf(u32), Nop, Zero, MinusOne, Unsupported,
    // intrinsics; the number is the operand width
    Memcpy, Memset, UAddO(u32), USubO(u32), UMulO(u32), SAddO(u32), SSubO(u32), SMulO(u32),
    UAddSat(u32), USubSat(u32), SAddSat(u32), SSubSat(u32), UMin(u32), UMax(u32), SMin(u32), SMax(u32), Abs(u32), Ctpop(u32), Ctlz(u32), Cttz(u32),
    Bswap(u32), Bitrev(u32), Fshl(u32), Fshr(u32), UCmp(u32, u32), SCmp(u32, u32), Arg0, FpSat(bool, u32, u32), FUn(u8, u32), Reduce(u8), Movemask,
    // C
    Malloc, Calloc, Realloc, MemAlign, Memalign2, Free, Memcmp, Strlen, Errno, Getrandom, Write, Writev, Abort, Exit, ClockGettime,
    Getenv, Dlsym, Setenv, Unsetenv, Open, Read, Close, Fstat, Lseek, Statx, Stat, Sysconf, Syscall, PthreadKeyCreate, One, Unlink, Rename, Ftruncate,
    // rust
    PanicFmt, HashOne, PanicAny,
    // sym_*
    SymBytes, SymChoice, SymAssume, SymAssert, SymCover, SymTrace, SymConc, SymLimit, SymFilePut, SymFileGet, SymBool, SymOpaque, SymDone, SymExited, SymPanicOk,
}

pub enum Out { Val(Val), Handled }

fn tyw(s: &str) -> u32 {
    // "i64", "p0", "v16i8" -> element width
    let s = if s.starts_with('v') { s.trim_start_matches('v').trim_start_matches(|c: char| c.is_ascii_digit()) } else { s };
    if let Some(x) = s.strip_prefix('i') { x.parse().unwrap_or(64) }
    else if let Some(x) = s.strip_prefix('f') { x.parse().unwrap_or(64) }
    else { 64 }
}

pub fn resolve(m: &Module, s: u32) -> K {
    let sym = &m.syms[s as usize];
    let n = sym.name.as_str();
    let d = sym.dem.as_str();
    if let Some(r) = n.strip_prefix("sym_") {
        match r {
            "bytes" => return K::SymBytes, "choice" => return K::SymChoice, "assume" => return K::SymAssume, "assert" => return K::SymAssert,
            "cover" => return K::SymCover, "trace" => return K::SymTrace, "concretize" => return K::SymConc, "limit" => return K::SymLimit,
            "file_put" => return K::SymFilePut, "file_get" => return K::SymFileGet, "fork_bool" => return K::SymBool, "opaque" => return K::SymOpaque, "done" => return K::SymDone, "exited" => return K::SymExited, "panic_ok" => return K::SymPanicOk,
            _ => {}
        }
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let parts: Vec<&str> = r.split('.').collect();
        let last = parts.last().copied().unwrap_or("");
        let w = tyw(last);
        let two = if parts.len() >= 2 { format!("{}.{}", parts[0], parts[1]) } else { parts[0].to_string() };
        return match parts[0] {
            "memcpy" | "memmove" => K::Memcpy,
            "memset" => K::Memset,
            "lifetime" | "assume" | "dbg" | "experimental" | "prefetch" | "invariant" | "donothing" | "sideeffect" | "va_start" | "va_end" | "stackrestore" => K::Nop,
            "expect" | "threadlocal" | "launder" | "strip" | "ptrmask" if parts[0] != "ptrmask" => K::Arg0,
            "is" | "stacksave" | "frameaddress" | "returnaddress" => K::Zero,
            "objectsize" => K::MinusOne,
            "trap" | "ubsantrap" => K::Abort,
            "umin" => K::UMin(w), "umax" => K::UMax(w), "smin" => K::SMin(w), "smax" => K::SMax(w),
            "abs" => K::Abs(w), "ctpop" => K::Ctpop(w), "ctlz" => K::Ctlz(w), "cttz" => K::Cttz(w),
            "bswap" => K::Bswap(w), "bitreverse" => K::Bitrev(w), "fshl" => K::Fshl(w), "fshr" => K::Fshr(w),
            "ucmp" => K::UCmp(tyw(parts[1]), w), "scmp" => K::SCmp(tyw(parts[1]), w),
            "fptosi" => K::FpSat(true, tyw(parts[2]), tyw(parts[3])),
            "fptoui" => K::FpSat(false, tyw(parts[2]), tyw(parts[3])),
            "floor" => K::FUn(0, w), "ceil" => K::FUn(1, w), "trunc" => K::FUn(2, w), "fabs" => K::FUn(3, w), "sqrt" => K::FUn(4, w), "rint" | "nearbyint" | "roundeven" => K::FUn(5, w), "round" => K::FUn(6, w),
            "vector" if parts.len() > 2 && parts[1] == "reduce" => K::Reduce(match parts[2] { "or" => 0, "and" => 1, "add" => 2, "umax" => 3, "umin" => 4, "xor" => 5, _ => return K::Unsupported }),
            _ => match two.as_str() {
                "uadd.with" => K::UAddO(w), "usub.with" => K::USubO(w), "umul.with" => K::UMulO(w),
                "sadd.with" => K::SAddO(w), "ssub.with" => K::SSubO(w), "smul.with" => K::SMulO(w),
                "uadd.sat" => K::UAddSat(w), "usub.sat" => K::USubSat(w), "sadd.sat" => K::SAddSat(w), "ssub.sat" => K::SSubSat(w),
                "x86.sse2" if n.contains("pmovmskb") => K::Movemask,
                "x86.sse2" if n.ends_with("pause") => K::Nop,
                _ => K::Unsupported,
            },
        };
    }
    // functions replaced although they have bodies
    if d.starts_with("core::panicking::panic_fmt") || d.starts_with("core::panicking::panic_nounwind_fmt") { return K::PanicFmt; }
    if d.starts_with("std::panicking::begin_panic") || d.starts_with("core::panicking::panic_cannot_unwind") || d.starts_with("std::process::abort") || d.starts_with("alloc::alloc::handle_alloc_error")
        || d.starts_with("std::panicking::resume_unwind") || d.starts_with("std::panic::resume_unwind") { return K::PanicAny; }
    if d.contains("BuildHasher") && (d.ends_with("::hash_one") || d.contains("::hash_one::<")) { return K::HashOne; }
    if let SymKind::Func { .. } = sym.kind { return K::Body; }
    match n {
        "malloc" => K::Malloc, "calloc" => K::Calloc, "realloc" => K::Realloc, "posix_memalign" => K::MemAlign, "aligned_alloc" | "memalign" => K::Memalign2, "free" => K::Free,
        "memcpy" | "memmove" => K::Memcpy, "memset" => K::Memset,
        "memcmp" | "bcmp" => K::Memcmp, "strlen" => K::Strlen,
        "__errno_location" => K::Errno, "getrandom" => K::Getrandom, "write" => K::Write, "writev" => K::Writev,
        "abort" => K::Abort, "exit" | "_exit" => K::Exit, "clock_gettime" => K::ClockGettime,
        "getenv" => K::Getenv, "dlsym" => K::Dlsym, "setenv" => K::Setenv, "unsetenv" => K::Unsetenv,
        "open64" | "open" => K::Open, "read" => K::Read, "close" => K::Close, "fstat64" | "fstat" => K::Fstat, "lseek64" | "lseek" => K::Lseek, "statx" => K::Statx, "stat64" | "stat" | "lstat64" => K::Stat,
        "unlink" => K::Unlink, "rename" => K::Rename, "ftruncate64" | "ftruncate" => K::Ftruncate,
        "sysconf" => K::Sysconf, "syscall" => K::Syscall, "pthread_key_create" => K::PthreadKeyCreate, "pthread_self" | "gettid" | "getpid" | "isatty" => K::One,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "sigaction" | "sigaltstack" | "signal" | "poll" | "sched_yield" | "munmap" | "mprotect"
        | "pthread_attr_init" | "pthread_attr_destroy" | "fsync" | "fdatasync" | "dl_iterate_phdr" | "getauxval" | "atexit" | "nanosleep" | "clock_nanosleep" => K::Zero,
        "sched_getaffinity" | "readlink" | "getcwd" | "mmap64" | "dup" | "realpath" => K::MinusOne,
        _ => K::Unsupported,
    }
}

pub fn asm(_x: &mut Exec, a: &str, _ret: TyId) -> R<Option<Val>> {
    if a.trim().is_empty() { return Ok(Some(Val::C(0))); }
    if a.contains("cpuid") || a.contains("xgetbv") {
        // no optional CPU features
        return Ok(Some(Val::A(Rc::new(vec![Val::C(0), Val::C(0), Val::C(0), Val::C(0)]))));
    }
    if a.contains("pause") || a.contains("nop") { return Ok(None); }
    Err(Stop::Engine(format!("inline asm {}", a)))
}

fn lanes2(a: &Val, b: &Val, f: &mut dyn FnMut(&Val, &Val) -> R<Val>) -> R<Val> {
    match (a, b) {
        (Val::A(x), Val::A(y)) => { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(f(p, q)?); } Ok(Val::A(Rc::new(r))) }
        _ => f(a, b),
    }
}
fn lanes1(a: &Val, f: &mut dyn FnMut(&Val) -> R<Val>) -> R<Val> {
    match a { Val::A(x) => { let mut r = vec![]; for p in x.iter() { r.push(f(p)?); } Ok(Val::A(Rc::new(r))) } _ => f(a) }
}
fn pair(a: Ex, b: Ex) -> Val { Val::A(Rc::new(vec![from_ex(a), from_ex(b)])) }
fn slt(a: Ex, b: Ex) -> Ex { bin(Op::Slt, a, b) }

fn bad(kind: &str, id: String) -> Stop { Stop::Bad(kind.into(), id) }

fn location(x: &mut Exec, st: &mut State, p: u64) -> String {
    // core::panic::Location { filename: NonNull<str>, line, col }
    let r = (|| -> R<String> {
        let fp = x.read_bytes(st, p, 8)?;
        let fl = x.read_bytes(st, p + 8, 8)?;
        let li = x.read_bytes(st, p + 16, 4)?;
        let rd = |v: &[Val]| -> u64 { v.iter().enumerate().map(|(i, b)| b.c() << (8 * i)).sum() };
        let name = x.read_bytes(st, rd(&fp), rd(&fl))?;
        let name: Vec<u8> = name.iter().map(|b| b.c() as u8).collect();
        let mut s = String::from_utf8_lossy(&name).trim_end_matches('\0').to_string();
        if let Some(k) = s.find("/library/") { s = s[k + 1..].to_string(); }
        Ok(format!("{}:{}", s, rd(&li)))
    })();
    r.unwrap_or_else(|_| "unknown location".into())
}

fn alloc_size(x: &mut Exec, st: &mut State, v: &Val) -> R<u64> {
    let e = match v { Val::E(e) => st.simp(*e), v => return x.conc(st, v, 64) };
    if let Some(v) = konst(e) { return Ok(v as u64); }
    for b in [16u64, 64, 256, 1024, 4096, 16384, 70000, 300_000, 4 << 20, 64 << 20] {
        match x.solver.check(&st.pc, ult(cst(64, b as u128), e)) {
            crate::solver::Res::Unsat => return Ok(b),
            crate::solver::Res::Sat(_) => {}
            crate::solver::Res::Unknown => return Err(Stop::Engine("solver answered unknown".into())),
        }
    }
    if x.decide(st, ult(cst(64, 64 << 20), e))? { return Err(Stop::Bad("alloc".into(), "allocation above 64 MiB".into())); }
    Ok(64 << 20)
}
pub fn malloc(st: &mut State, n: u64) -> R<u64> {
    if n > 64 << 20 { return Err(Stop::Bad("alloc".into(), format!("allocation of {} bytes", n))); }
    Ok(st.mem.alloc(n as usize))
}

fn set_errno(x: &mut Exec, st: &mut State, e: u64) -> R<()> { let a = st.errno_obj; x.store_bits(st, a, 4, &Val::C(e)) }

/// bytes of a file, environment entry etc. as a NUL terminated object
fn cstr_obj(x: &mut Exec, st: &mut State, b: &[Val]) -> R<u64> {
    let a = st.mem.alloc(b.len() + 1);
    x.write_bytes(st, a, b)?;
    Ok(a)
}
/// different bytes every time
fn random(x: &mut Exec, st: &mut State, p: u64, n: u64) -> R<()> {
    let mut b = vec![];
    for i in 0..n { b.push(Val::C((st.rand.wrapping_mul(0x9e3779b97f4a7c15) >> (8 * (i % 8))) & 255)); if i % 8 == 7 { st.rand += 1; } }
    st.rand += 1;
    x.write_bytes(st, p, &b)
}
fn rebuild_environ(x: &mut Exec, st: &mut State) -> R<()> {
    let env = st.env.clone();
    let arr = st.mem.alloc((env.len() + 1) * 8);
    for (i, (k, v)) in env.iter().enumerate() {
        let mut b: Vec<Val> = k.iter().map(|c| Val::C(*c as u64)).collect();
        b.push(Val::C(b'=' as u64));
        b.extend(v.iter().cloned());
        let a = cstr_obj(x, st, &b)?;
        x.store_bits(st, arr + i as u64 * 8, 8, &Val::C(a))?;
    }
    if let Some(s) = x.m.symmap.get("environ").copied() {
        x.m_extern_ptr(st, s, arr)?;
    }
    Ok(())
}

impl Exec {
    /// store a pointer into an external global (e.g. environ)
    fn m_extern_ptr(&mut self, st: &mut State, s: u32, v: u64) -> R<()> { self.store_bits(st, sym_addr(s), 8, &Val::C(v)) }
}

pub fn call(x: &mut Exec, st: &mut State, s: u32, k: K, a: Vec<Val>, at: &[(TyId, Opnd)], ret: TyId, d: Option<Reg>, normal: Option<u32>) -> R<Out> {
    macro_rules! cc { ($i:expr) => {{ let v = a[$i].clone(); x.conc(st, &v, 64)? }} }
    macro_rules! cw { ($i:expr) => {{ let w = x.m.bits(at[$i].0) as u32; let v = a[$i].clone(); x.conc(st, &v, w)? }} }
    macro_rules! val { ($e:expr) => { Ok(Out::Val($e)) } }
    let e1 = |i: usize, w: u32| to_ex(&a[i], w);
    // size of an allocation: a symbolic one is rounded up to a bound that covers every feasible value
    macro_rules! sz { ($i:expr) => {{ let v = a[$i].clone(); alloc_size(x, st, &v)? }} }
    match k {
        K::Body | K::Nop => unreachable!(),
        K::AliasOf(t) => { x.push_call(st, t, a, d, normal)?; Ok(Out::Handled) }
        K::Zero => val!(Val::C(0)),
        K::One => val!(Val::C(1)),
        K::MinusOne => { let w = x.m.bits(ret).max(1) as u32; val!(cval(w, u128::MAX)) }
        K::Unsupported => Err(Stop::Engine(format!("external function {}", x.m.syms[s as usize].name))),
        K::Arg0 => val!(a[0].clone()),
        K::Memcpy => {
            let n = cw!(2);
            let (p, q) = (cc!(0), cc!(1));
            if n > 0 {
                // fast path: concrete source
                let (o, off) = x.obj(st, q, n, "memcpy source")?;
                let o = o.clone();
                let nn = n as usize;
                let has_sym = match &o.sym { Some(s) => s[off..off + nn].iter().any(|v| *v != 0), None => false };
                let (t, to) = x.obj_mut(st, p, n, "memcpy destination")?;
                t.data[to..to + nn].copy_from_slice(&o.data[off..off + nn]);
                if has_sym {
                    let len = t.data.len();
                    let ts = t.sym.get_or_insert_with(|| vec![0u32; len].into_boxed_slice());
                    ts[to..to + nn].copy_from_slice(&o.sym.as_ref().unwrap()[off..off + nn]);
                } else { t.clear_sym(to, nn); }
            }
            val!(Val::C(p))
        }
        K::Memset => {
            let n = cw!(2);
            let p = cc!(0);
            let v = match &a[1] { Val::E(e) if width(*e) > 8 => from_ex(trunc(*e, 8)), Val::C(c) => Val::C(*c & 255), v => v.clone() };
            if n > 0 {
                let (t, to) = x.obj_mut(st, p, n, "memset")?;
                let nn = n as usize;
                match v {
                    Val::C(c) => { for b in &mut t.data[to..to + nn] { *b = c as u8; } t.clear_sym(to, nn); }
                    v => for i in 0..nn { t.set(to + i, &v); },
                }
            }
            val!(Val::C(p))
        }
        K::UAddO(w) => { let (p, q) = (e1(0, w), e1(1, w)); let r = bin(Op::Add, p, q); val!(pair(r, ovf_add(p, q, w))) }
        K::USubO(w) => { let (p, q) = (e1(0, w), e1(1, w)); val!(pair(bin(Op::Sub, p, q), ult(p, q))) }
        K::UMulO(w) => {
            let (p, q) = (e1(0, w), e1(1, w));
            let r = bin(Op::Mul, p, q);
            let (p, q) = if konst(p).is_some() { (q, p) } else { (p, q) };
            let o = match konst(q) {
                Some(0) => fl(),
                Some(k) => ult(cst(w, mask(w) / k), p),
                None => {
                    if w > 64 { return Err(Stop::Engine("umul.with.overflow i128".into())); }
                    let f = bin(Op::Mul, zext(p, 2 * w), zext(q, 2 * w));
                    not(eq(cst(w, 0), extract(f, w, w)))
                }
            };
            val!(pair(r, o))
        }
        K::SAddO(w) => { let (p, q) = (e1(0, w), e1(1, w)); let r = bin(Op::Add, p, q); let z = cst(w, 0); let o = and(eq(slt(p, z), slt(q, z)), not(eq(slt(r, z), slt(p, z)))); val!(pair(r, o)) }
        K::SSubO(w) => { let (p, q) = (e1(0, w), e1(1, w)); let r = bin(Op::Sub, p, q); let z = cst(w, 0); let o = and(not(eq(slt(p, z), slt(q, z))), not(eq(slt(r, z), slt(p, z)))); val!(pair(r, o)) }
        K::SMulO(w) => {
            let (p, q) = (e1(0, w), e1(1, w));
            if w > 64 { return Err(Stop::Engine("smul.with.overflow i128".into())); }
            let f = bin(Op::Mul, sext(p, 2 * w), sext(q, 2 * w));
            let r = trunc(f, w);
            val!(pair(r, not(eq(f, sext(r, 2 * w)))))
        }
        K::UAddSat(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); let r = bin(Op::Add, p, q); Ok(from_ex(ite(ovf_add(p, q, w), cst(w, mask(w)), r))) })?),
        K::USubSat(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); Ok(from_ex(ite(ult(p, q), cst(w, 0), bin(Op::Sub, p, q)))) })?),
        K::SAddSat(w) | K::SSubSat(w) => {
            let (p, q) = (e1(0, w), e1(1, w));
            let z = cst(w, 0);
            let (r, o) = if let K::SAddSat(_) = k { let r = bin(Op::Add, p, q); (r, and(eq(slt(p, z), slt(q, z)), not(eq(slt(r, z), slt(p, z))))) } else { let r = bin(Op::Sub, p, q); (r, and(not(eq(slt(p, z), slt(q, z))), not(eq(slt(r, z), slt(p, z))))) };
            val!(from_ex(ite(o, ite(slt(p, z), cst(w, (mask(w) >> 1) + 1), cst(w, mask(w) >> 1)), r)))
        }
        K::UMin(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); Ok(from_ex(ite(ult(p, q), p, q))) })?),
        K::UMax(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); Ok(from_ex(ite(ult(p, q), q, p))) })?),
        K::SMin(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); Ok(from_ex(ite(slt(p, q), p, q))) })?),
        K::SMax(w) => val!(lanes2(&a[0], &a[1], &mut |p, q| { let (p, q) = (to_ex(p, w), to_ex(q, w)); Ok(from_ex(ite(slt(p, q), q, p))) })?),
        K::Abs(w) => { let p = e1(0, w); val!(from_ex(ite(slt(p, cst(w, 0)), bin(Op::Sub, cst(w, 0), p), p))) }
        K::Ctpop(w) => val!(lanes1(&a[0], &mut |p| { let p = to_ex(p, w); let mut r = cst(w, 0); for i in 0..w { r = bin(Op::Add, r, zext(extract(p, i, 1), w)); } Ok(from_ex(r)) })?),
        K::Ctlz(w) => val!(lanes1(&a[0], &mut |p| { let p = to_ex(p, w); let mut r = cst(w, w as u128); for i in 0..w { r = ite(extract(p, i, 1), cst(w, (w - 1 - i) as u128), r); } Ok(from_ex(r)) })?),
        K::Cttz(w) => val!(lanes1(&a[0], &mut |p| { let p = to_ex(p, w); let mut r = cst(w, w as u128); for i in (0..w).rev() { r = ite(extract(p, i, 1), cst(w, i as u128), r); } Ok(from_ex(r)) })?),
        K::Bswap(w) => { let p = e1(0, w); let mut r = extract(p, 0, 8); for i in 1..w / 8 { r = concat(r, extract(p, i * 8, 8)); } val!(from_ex(r)) }
        K::Bitrev(w) => { let p = e1(0, w); let mut r = extract(p, 0, 1); for i in 1..w { r = concat(r, extract(p, i, 1)); } val!(from_ex(r)) }
        K::Fshl(w) | K::Fshr(w) => {
            let left = matches!(k, K::Fshl(_));
            let (p, q) = (e1(0, w), e1(1, w));
            let v = a[2].clone();
            let sh = (x.conc(st, &v, w)? % w as u64) as u32;
            let sh = if left { sh } else { (w - sh) % w };
            // concat(p,q) << sh, high half
            if sh == 0 { return val!(from_ex(if left { p } else { q })); }
            val!(from_ex(concat(extract(p, 0, w - sh), extract(q, w - sh, sh))))
        }
        K::UCmp(rw, w) => { let (p, q) = (e1(0, w), e1(1, w)); val!(from_ex(ite(ult(p, q), cst(rw, mask(rw)), ite(eq(p, q), cst(rw, 0), cst(rw, 1))))) }
        K::SCmp(rw, w) => { let (p, q) = (e1(0, w), e1(1, w)); val!(from_ex(ite(slt(p, q), cst(rw, mask(rw)), ite(eq(p, q), cst(rw, 0), cst(rw, 1))))) }
        K::FpSat(signed, tw, fw) => { let p = e1(0, fw); val!(from_ex(fop(if signed { FOp::ToS } else { FOp::ToU }, tw, p, p))) }
        K::FUn(o, w) => {
            let p = e1(0, w);
            let r = match o {
                3 => and(p, cst(w, mask(w) >> 1)),
                0 => fop(FOp::Floor, w, p, p), 1 => fop(FOp::Ceil, w, p, p), 2 => fop(FOp::Trunc, w, p, p), 4 => fop(FOp::Sqrt, w, p, p), 5 => fop(FOp::Even, w, p, p), _ => fop(FOp::Away, w, p, p),
            };
            val!(from_ex(r))
        }
        K::Reduce(o) => {
            let v = match &a[0] { Val::A(v) => v.clone(), _ => return Err(Stop::Engine("reduce".into())) };
            let w = x.m.bits(ret) as u32;
            let mut r = to_ex(&v[0], w);
            for y in v.iter().skip(1) { let y = to_ex(y, w); r = match o { 0 => or(r, y), 1 => and(r, y), 2 => bin(Op::Add, r, y), 3 => ite(ult(r, y), y, r), 4 => ite(ult(r, y), r, y), _ => bin(Op::Xor, r, y) }; }
            val!(from_ex(r))
        }
        K::Movemask => {
            let v = match &a[0] { Val::A(v) => v.clone(), _ => return Err(Stop::Engine("pmovmskb".into())) };
            let mut r: Option<Ex> = None;
            for y in v.iter() { let b = extract(to_ex(y, 8), 7, 1); r = Some(match r { None => b, Some(l) => concat(b, l) }); }
            val!(from_ex(zext(r.unwrap(), 32)))
        }

        // ------------------------------------------------------------ C library
        K::Malloc => { let n = sz!(0); val!(Val::C(malloc(st, n)?)) }
        K::Calloc => { let n = cc!(0).saturating_mul(cc!(1)); val!(Val::C(malloc(st, n)?)) }
        K::MemAlign => { let n = sz!(2); let p = malloc(st, n)?; let q = cc!(0); x.store_bits(st, q, 8, &Val::C(p))?; val!(Val::C(0)) }
        K::Memalign2 => { let n = sz!(1); val!(Val::C(malloc(st, n)?)) }
        K::Realloc => {
            let (p, n) = (cc!(0), sz!(1));
            if p == 0 { return val!(Val::C(malloc(st, n)?)); }
            if p as u32 != 0 { return Err(bad("memory", "realloc of an interior pointer".into())); }
            let old = x.obj(st, p, 0, "realloc")?.0.clone();
            let q = malloc(st, n)?;
            let k = old.data.len().min(n as usize);
            let (t, _) = x.obj_mut(st, q, 0, "realloc")?;
            t.data[..k].copy_from_slice(&old.data[..k]);
            if let Some(os) = &old.sym { let len = t.data.len(); let ts = t.sym.get_or_insert_with(|| vec![0u32; len].into_boxed_slice()); ts[..k].copy_from_slice(&os[..k]); }
            st.mem.free(p >> 32);
            val!(Val::C(q))
        }
        K::Free => {
            let p = cc!(0);
            if p != 0 {
                if p as u32 != 0 || !st.mem.is_heap(p >> 32, x.m.syms.len()) { return Err(bad("memory", format!("free of {:#x}", p))); }
                if st.mem.get(p >> 32).is_none() { return Err(bad("memory", "double free".into())); }
                st.mem.free(p >> 32);
            }
            val!(Val::C(0))
        }
        K::Memcmp => {
            let n = cc!(2);
            let (p, q) = (cc!(0), cc!(1));
            let (u, v) = (x.read_bytes(st, p, n)?, x.read_bytes(st, q, n)?);
            if x.m.syms[s as usize].name == "bcmp" {
                let mut r = tr();
                for (i, j) in u.iter().zip(v.iter()) { r = and(r, eq(to_ex(i, 8), to_ex(j, 8))); if konst(r) == Some(0) { break; } }
                return val!(from_ex(ite(r, cst(32, 0), cst(32, 1))));
            }
            let mut r = cst(32, 0);
            for (i, j) in u.iter().zip(v.iter()).rev() {
                let (i, j) = (to_ex(i, 8), to_ex(j, 8));
                r = ite(eq(i, j), r, ite(ult(i, j), cst(32, mask(32)), cst(32, 1)));
            }
            val!(from_ex(r))
        }
        K::Strlen => {
            let p = cc!(0);
            let mut n = 0;
            loop {
                let b = x.read_bytes(st, p + n, 1)?;
                let z = match &b[0] { Val::C(c) => *c == 0, v => { let c = eq(cst(8, 0), to_ex(v, 8)); x.decide(st, c)? } };
                if z { return val!(Val::C(n)); }
                n += 1;
            }
        }
        K::Errno => val!(Val::C(st.errno_obj)),
        K::Getrandom => {
            let (p, n) = (cc!(0), cc!(1));
            random(x, st, p, n)?;
            val!(Val::C(n))
        }
        K::Syscall if matches!(a.get(0), Some(Val::C(318))) => {
            let (p, n) = (cc!(1), cc!(2));
            random(x, st, p, n)?;
            val!(Val::C(n))
        }
        K::Syscall => Err(Stop::Engine(format!("syscall {:?}", a.get(0)))),
        K::Write => {
            let (fd, p, n) = (cw!(0), cc!(1), cc!(2));
            if fd >= 10 {
                let data = x.read_bytes(st, p, n)?;
                let fds = Rc::make_mut(&mut st.fds);
                if let Some(Some(f)) = fds.get_mut(fd as usize - 10) {
                    let files = Rc::make_mut(&mut st.files);
                    if let Some(node) = files.get_mut(&f.path) {
                        let d = Rc::make_mut(&mut node.data);
                        if f.append { f.pos = d.len(); }
                        for v in data { if f.pos < d.len() { d[f.pos] = v; } else { d.push(v); } f.pos += 1; }
                        return val!(Val::C(n));
                    }
                }
                set_errno(x, st, 9)?;
                return val!(Val::C(u64::MAX));
            }
            val!(Val::C(n))
        }
        K::Writev => {
            let (_fd, p, n) = (cw!(0), cc!(1), cw!(2));
            let mut t = 0u64;
            for i in 0..n { let b = x.read_bytes(st, p + i * 16 + 8, 8)?; t += b.iter().enumerate().map(|(i, b)| b.c() << (8 * i)).sum::<u64>(); }
            val!(Val::C(t))
        }
        K::Abort => Err(bad("abort", "abort".into())),
        K::Exit => {
            // the harness may want to judge the end of the process
            if st.exiting { return Err(bad("abort", "process exit".into())); }
            match x.m.symmap.get("sym_at_exit").copied() {
                Some(t) => { st.exiting = true; x.push_call(st, t, vec![], None, None)?; Ok(Out::Handled) }
                None => Err(bad("abort", "process exit".into())),
            }
        }
        K::SymDone => Err(Stop::Done),
        K::SymExited => Err(bad("abort", "process exit".into())),
        K::ClockGettime => {
            let p = cc!(1);
            x.store_bits(st, p, 8, &Val::C(1_600_000_000))?;
            x.store_bits(st, p + 8, 8, &Val::C(0))?;
            val!(Val::C(0))
        }
        K::Dlsym => {
            let p = cc!(1);
            let name = x.cstr(st, p)?;
            let s = if name.as_slice() == &b"getrandom"[..] { x.m.symmap.get("getrandom").copied() } else { None };
            val!(Val::C(s.map_or(0, crate::ir::sym_addr)))
        }
        K::Getenv => {
            let p = cc!(0);
            let name = x.cstr(st, p)?;
            let env = st.env.clone();
            match env.iter().find(|(k, _)| *k == name) { None => val!(Val::C(0)), Some((_, v)) => val!(Val::C(cstr_obj(x, st, v)?)) }
        }
        K::Setenv => {
            let (p, q) = (cc!(0), cc!(1));
            let name = x.cstr(st, p)?;
            // the value may be symbolic but its end must be known
            let mut v = vec![];
            loop {
                let b = x.read_bytes(st, q + v.len() as u64, 1)?;
                let z = match &b[0] { Val::C(c) => *c == 0, e => { let c = eq(cst(8, 0), to_ex(e, 8)); x.decide(st, c)? } };
                if z { break; }
                v.push(b[0].clone());
            }
            let env = Rc::make_mut(&mut st.env);
            env.retain(|(k, _)| *k != name);
            env.push((name, v));
            rebuild_environ(x, st)?;
            val!(Val::C(0))
        }
        K::Unsetenv => {
            let p = cc!(0);
            let name = x.cstr(st, p)?;
            Rc::make_mut(&mut st.env).retain(|(k, _)| *k != name);
            rebuild_environ(x, st)?;
            val!(Val::C(0))
        }
        K::Open => {
            let (p, fl) = (cc!(0), cw!(1));
            let path = x.cstr(st, p)?;
            let exists = st.files.get(&path).map_or(false, |f| f.exists);
            let (creat, excl, trunc, append) = (fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0);
            if !exists && !creat { set_errno(x, st, 2)?; return val!(cval(32, u128::MAX)); }
            if exists && creat && excl { set_errno(x, st, 17)?; return val!(cval(32, u128::MAX)); }
            if !exists || trunc { Rc::make_mut(&mut st.files).insert(path.clone(), FileNode { data: Rc::new(vec![]), exists: true }); }
            let fds = Rc::make_mut(&mut st.fds);
            fds.push(Some(Fd { path, pos: 0, append }));
            val!(Val::C(9 + fds.len() as u64))
        }
        K::Read => {
            let (fd, p, n) = (cw!(0), cc!(1), cc!(2));
            let fds = st.fds.clone();
            let f = match fds.get((fd as usize).wrapping_sub(10)) { Some(Some(f)) => f.clone(), _ => { set_errno(x, st, 9)?; return val!(Val::C(u64::MAX)); } };
            let data = match st.files.get(&f.path) { Some(n) => n.data.clone(), None => Rc::new(vec![]) };
            let k = (n as usize).min(data.len().saturating_sub(f.pos));
            x.write_bytes(st, p, &data[f.pos.min(data.len())..f.pos.min(data.len()) + k])?;
            if let Some(Some(f)) = Rc::make_mut(&mut st.fds).get_mut(fd as usize - 10) { f.pos += k; }
            val!(Val::C(k as u64))
        }
        K::Close => { let fd = cw!(0); if fd >= 10 { if let Some(f) = Rc::make_mut(&mut st.fds).get_mut(fd as usize - 10) { *f = None; } } val!(Val::C(0)) }
        K::Lseek => {
            let (fd, off, wh) = (cw!(0), cc!(1), cw!(2));
            let fds = st.fds.clone();
            let f = match fds.get((fd as usize).wrapping_sub(10)) { Some(Some(f)) => f.clone(), _ => { set_errno(x, st, 29)?; return val!(Val::C(u64::MAX)); } };
            let len = st.files.get(&f.path).map_or(0, |n| n.data.len());
            let np = match wh { 0 => off, 1 => (f.pos as u64).wrapping_add(off), _ => (len as u64).wrapping_add(off) };
            if let Some(Some(f)) = Rc::make_mut(&mut st.fds).get_mut(fd as usize - 10) { f.pos = np as usize; }
            val!(Val::C(np))
        }
        K::Ftruncate => {
            let (fd, n) = (cw!(0), cc!(1));
            let fds = st.fds.clone();
            if let Some(Some(f)) = fds.get((fd as usize).wrapping_sub(10)) {
                if let Some(node) = Rc::make_mut(&mut st.files).get_mut(&f.path) { Rc::make_mut(&mut node.data).resize(n as usize, Val::C(0)); }
                return val!(Val::C(0));
            }
            set_errno(x, st, 9)?;
            val!(cval(32, u128::MAX))
        }
        K::Statx => { set_errno(x, st, 38)?; val!(cval(32, u128::MAX)) }
        K::Fstat | K::Stat => {
            let len = if k == K::Fstat {
                let fd = cw!(0);
                let fds = st.fds.clone();
                match fds.get((fd as usize).wrapping_sub(10)) { Some(Some(f)) => Some(st.files.get(&f.path).map_or(0, |n| n.data.len())), _ => None }
            } else {
                let p = cc!(0);
                let path = x.cstr(st, p)?;
                match st.files.get(&path) { Some(n) if n.exists => Some(n.data.len()), _ => None }
            };
            match len {
                None => { set_errno(x, st, 2)?; val!(cval(32, u128::MAX)) }
                Some(n) => {
                    let p = cc!(1);
                    x.write_bytes(st, p, &vec![Val::C(0); 144])?;
                    x.store_bits(st, p + 24, 4, &Val::C(0o100644))?;
                    x.store_bits(st, p + 48, 8, &Val::C(n as u64))?;
                    val!(Val::C(0))
                }
            }
        }
        K::Unlink => {
            let p = cc!(0);
            let path = x.cstr(st, p)?;
            let r = Rc::make_mut(&mut st.files).remove(&path);
            if r.is_none() { set_errno(x, st, 2)?; return val!(cval(32, u128::MAX)); }
            val!(Val::C(0))
        }
        K::Rename => {
            let (p, q) = (cc!(0), cc!(1));
            let (p, q) = (x.cstr(st, p)?, x.cstr(st, q)?);
            let files = Rc::make_mut(&mut st.files);
            match files.remove(&p) { Some(n) => { files.insert(q, n); val!(Val::C(0)) } None => { set_errno(x, st, 2)?; val!(cval(32, u128::MAX)) } }
        }
        K::Sysconf => { let n = cw!(0); val!(Val::C(match n { 30 => 4096, 84 => 1, 69 | 70 => 1024, _ => u64::MAX })) }
        K::PthreadKeyCreate => { let p = cc!(0); st.rand += 1; let r = st.rand; x.store_bits(st, p, 4, &Val::C(r & 0xffff))?; val!(Val::C(0)) }

        // ------------------------------------------------------------ Rust
        K::PanicFmt | K::PanicAny if st.panic_ok && !st.exiting => {
            match x.m.symmap.get("sym_at_exit").copied() {
                Some(t) => { st.exiting = true; x.push_call(st, t, vec![], None, None)?; Ok(Out::Handled) }
                None => Err(bad("abort", "process exit".into())),
            }
        }
        K::PanicFmt => {
            let loc = match a.iter().rev().find_map(|v| if let Val::C(p) = v { if *p >> 32 != 0 { Some(*p) } else { None } } else { None }) { Some(p) => location(x, st, p), None => "unknown location".into() };
            Err(bad("panic", format!("panic at {}", loc)))
        }
        K::PanicAny => Err(bad("panic", format!("panic in {}", x.m.syms[s as usize].dem))),
        K::HashOne => val!(Val::C(0x1234_5678_9abc_def0)),

        // ------------------------------------------------------------ sym_*
        K::SymBytes => {
            let (p, n) = (cc!(0), cc!(1));
            let tag = tag(x, st, &a, 2)?;
            let f = st.fresh(&tag, n as u32, 8);
            let b: Vec<Val> = (0..n as u32).map(|i| Val::E(var(f + i, 8))).collect();
            x.write_bytes(st, p, &b)?;
            val!(Val::C(0))
        }
        K::SymBool => {
            // a symbolic bit that is not forked on until it is used
            let tag = tag(x, st, &a, 0)?;
            let f = st.fresh(&tag, 1, 8);
            let e = var(f, 8);
            st.add(ult(e, cst(8, 2)));
            val!(from_ex(e))
        }
        K::SymChoice => {
            let n = cc!(0);
            let tag = tag(x, st, &a, 1)?;
            if n == 0 { return Err(Stop::Assumed); }
            for i in (1..n).rev() {
                let mut sib = st.clone();
                Rc::make_mut(&mut sib.inputs).push(Input { tag: tag.as_str().into(), first: 0, n: 0, conc: Some(i) });
                if let Some(d) = d { sib.cur.regs[d as usize] = Val::C(i); }
                sib.decisions += 1;
                x.after_call(&mut sib, normal);
                x.work.push(sib);
                x.st.forks += 1;
            }
            Rc::make_mut(&mut st.inputs).push(Input { tag: tag.as_str().into(), first: 0, n: 0, conc: Some(0) });
            if n > 1 { st.decisions += 1; }
            val!(Val::C(0))
        }
        K::SymAssume => {
            let c = boolarg(&a[0]);
            let c = st.simp(c);
            match konst(c) { Some(0) => return Err(Stop::Assumed), Some(_) => return val!(Val::C(0)), None => {} }
            if st.eval(c) == 0 {
                match x.solver.check(&st.pc, c) {
                    crate::solver::Res::Unsat => return Err(Stop::Assumed),
                    crate::solver::Res::Unknown => return Err(Stop::Engine("solver answered unknown".into())),
                    crate::solver::Res::Sat(m) => { st_model(st, &m); }
                }
            }
            st.add(c);
            val!(Val::C(0))
        }
        K::SymAssert => {
            let id = tag(x, st, &a, 1)?;
            *x.st.asserts.entry(id.clone()).or_insert(0) += 1;
            let c = st.simp(boolarg(&a[0]));
            match konst(c) {
                Some(0) => { let m = st.model.clone(); x.violate(st, "assert", &id, &m); return Err(Stop::Assumed); }
                Some(_) => return val!(Val::C(0)),
                None => {}
            }
            match x.solver.check(&st.pc, not(c)) {
                crate::solver::Res::Unsat => {}
                crate::solver::Res::Unknown => return Err(Stop::Engine("solver answered unknown".into())),
                crate::solver::Res::Sat(m) => {
                    let mut sib = st.clone();
                    st_model(&mut sib, &m);
                    let mm = sib.model.clone();
                    x.violate(&sib, "assert", &id, &mm);
                    // go on with the values for which it holds
                    if st.eval(c) == 0 {
                        match x.solver.check(&st.pc, c) {
                            crate::solver::Res::Sat(m) => st_model(st, &m),
                            crate::solver::Res::Unsat => return Err(Stop::Assumed),
                            crate::solver::Res::Unknown => return Err(Stop::Engine("solver answered unknown".into())),
                        }
                    }
                    st.add(c);
                }
            }
            val!(Val::C(0))
        }
        K::SymCover => {
            let id = tag(x, st, &a, 0)?;
            *x.st.covers.entry(id).or_insert(0) += 1;
            val!(Val::C(0))
        }
        K::SymTrace => {
            let (p, n) = (cc!(0), cc!(1));
            let b = x.read_bytes(st, p, n)?;
            Rc::make_mut(&mut st.trace).push(Rc::new(b));
            val!(Val::C(0))
        }
        K::SymConc => { let v = a[0].clone(); let v = x.conc(st, &v, 64)?; val!(Val::C(v)) }
        K::SymPanicOk => { st.panic_ok = true; val!(Val::C(0)) }
        K::SymLimit => { let n = cc!(0); st.step_limit = st.steps + n; val!(Val::C(0)) }
        K::SymOpaque => val!(a[0].clone()),
        K::SymFilePut => {
            let (p, n, q, k2) = (cc!(0), cc!(1), cc!(2), cc!(3));
            let path: Vec<u8> = x.read_bytes(st, p, n)?.iter().map(|b| b.c() as u8).collect();
            let data = x.read_bytes(st, q, k2)?;
            Rc::make_mut(&mut st.files).insert(path, FileNode { data: Rc::new(data), exists: true });
            val!(Val::C(0))
        }
        K::SymFileGet => {
            // (path, len, buf, cap) -> length or -1
            let (p, n, q, cap) = (cc!(0), cc!(1), cc!(2), cc!(3));
            let path: Vec<u8> = x.read_bytes(st, p, n)?.iter().map(|b| b.c() as u8).collect();
            match st.files.get(&path).cloned() {
                None => val!(Val::C(u64::MAX)),
                Some(f) => { let k = f.data.len().min(cap as usize); x.write_bytes(st, q, &f.data[..k])?; val!(Val::C(f.data.len() as u64)) }
            }
        }
    }
}

fn st_model(st: &mut State, m: &[(u32, u64)]) {
    let mm = Rc::make_mut(&mut st.model);
    for (i, v) in m { while mm.len() <= *i as usize { mm.push(0); } mm[*i as usize] = *v; }
}
fn boolarg(v: &Val) -> Ex {
    match v { Val::C(c) => cst(1, (*c & 1) as u128), Val::E(e) => if width(*e) == 1 { *e } else { extract(*e, 0, 1) }, _ => panic!("bool argument") }
}
fn tag(x: &mut Exec, st: &mut State, a: &[Val], i: usize) -> R<String> {
    let (p, n) = (a[i].c(), a[i + 1].c());
    let b = x.read_bytes(st, p, n)?;
    Ok(b.iter().map(|v| match v { Val::C(c) => *c as u8 as char, _ => '?' }).collect())
}
fn ovf_add(p: Ex, q: Ex, w: u32) -> Ex {
    let (p, q) = if konst(p).is_some() { (q, p) } else { (p, q) };
    match konst(q) { Some(0) => fl(), Some(k) => ult(cst(w, mask(w) - k), p), None => ult(bin(Op::Add, p, q), q) }
}
