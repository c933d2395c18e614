//! Z3 behind a slicing query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, t: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) { eprintln!("z3 error {}", e); std::process::exit(97); }

pub type Model = Rc<Vec<u64>>;

#[derive(Clone)]
pub enum Res { Sat(Rc<Vec<(u32, u64)>>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    sol: P,
    bvs: HashMap<Ex, usize, FxB>,
    bools: HashMap<Ex, usize, FxB>,
    cache: HashMap<Vec<Ex>, Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    since_reset: u32,
    pub timeout_ms: u32,
    pub dump: Option<std::path::PathBuf>,
    pub dumped: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let mut s = Solver { ctx, sol: std::ptr::null_mut(), bvs: Default::default(), bools: Default::default(), cache: HashMap::new(),
                queries: 0, sat: 0, unsat: 0, unknown: 0, cache_hits: 0, time: 0.0, max_time: 0.0, since_reset: 0, timeout_ms, dump: None, dumped: 0 };
            s.fresh();
            s
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn fresh(&mut self) {
        unsafe {
            if !self.sol.is_null() { Z3_solver_dec_ref(self.ctx, self.sol); }
            self.sol = if std::env::var("SYMEX_SIMPLE").is_ok() { Z3_mk_simple_solver(self.ctx) } else {
                let l = CString::new(if self.fp_used() { "QF_FPBV" } else { "QF_BV" }).unwrap();
                Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.ctx, self.sol);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.sol, p);
            self.since_reset = 0;
        }
    }
    fn fp_used(&self) -> bool { FP.with(|f| f.get()) }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn bv(&mut self, e: Ex) -> P {
        if let Some(p) = self.bvs.get(&e) { return *p as P; }
        let (n, w) = node(e);
        let c = self.ctx;
        let is_bool = w == 1 && matches!(n, N::Bin(..) | N::Ite(..));
        let r = unsafe {
            if is_bool {
                let b = self.bool(e);
                Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
            } else {
                match n {
                    N::Const(v) => self.num(w, v),
                    N::Var(i) => {
                        let s = CString::new(format!("v{}_{}", i, w)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                    }
                    N::Bin(op, a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Eq | Op::Ult | Op::Slt => unreachable!(),
                        }
                    }
                    N::Ite(i, a, b) => { let (i, x, y) = (self.bool(i), self.bv(a), self.bv(b)); Z3_mk_ite(c, i, x, y) }
                    N::Extract(lo, a) => { let x = self.bv(a); Z3_mk_extract(c, lo + w - 1, lo, x) }
                    N::Concat(a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_concat(c, x, y) }
                    N::SExt(a) => { let x = self.bv(a); Z3_mk_sign_ext(c, w - width(a), x) }
                    N::F(op, a, b) => self.fp(op, w, a, b),
                }
            }
        };
        self.bvs.insert(e, r as usize);
        r
    }
    fn fsort(&self, w: u32) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort(self.ctx, 8, 24) } else { Z3_mk_fpa_sort(self.ctx, 11, 53) } } }
    fn fp(&mut self, op: FOp, w: u32, a: Ex, b: Ex) -> P {
        FP.with(|f| f.set(true));
        let c = self.ctx;
        let sw = width(a);
        let (x, y) = (self.bv(a), self.bv(b));
        unsafe {
            let rne = Z3_mk_fpa_round_nearest_ties_to_even(c);
            let fl = |s: &Self, v: P, w: u32| Z3_mk_fpa_to_fp_bv(c, v, s.fsort(w));
            match op {
                FOp::Add => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, fl(self, x, w), fl(self, y, w))),
                FOp::Sub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, fl(self, x, w), fl(self, y, w))),
                FOp::Mul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, fl(self, x, w), fl(self, y, w))),
                FOp::Div => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, fl(self, x, w), fl(self, y, w))),
                FOp::Sqrt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rne, fl(self, x, w))),
                FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Even | FOp::Away => {
                    let rm = match op { FOp::Floor => Z3_mk_fpa_round_toward_negative(c), FOp::Ceil => Z3_mk_fpa_round_toward_positive(c), FOp::Trunc => Z3_mk_fpa_round_toward_zero(c), FOp::Even => rne, _ => Z3_mk_fpa_round_nearest_ties_to_away(c) };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, fl(self, x, w)))
                }
                FOp::FromU => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, x, self.fsort(w))),
                FOp::FromS => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, x, self.fsort(w))),
                FOp::ToF32 | FOp::ToF64 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fl(self, x, sw), self.fsort(w))),
                FOp::Lt => { let p = Z3_mk_fpa_lt(c, fl(self, x, sw), fl(self, y, sw)); Z3_mk_ite(c, p, self.num(1, 1), self.num(1, 0)) }
                FOp::Le => { let p = Z3_mk_fpa_leq(c, fl(self, x, sw), fl(self, y, sw)); Z3_mk_ite(c, p, self.num(1, 1), self.num(1, 0)) }
                FOp::Eq => { let p = Z3_mk_fpa_eq(c, fl(self, x, sw), fl(self, y, sw)); Z3_mk_ite(c, p, self.num(1, 1), self.num(1, 0)) }
                FOp::ToU | FOp::ToS => {
                    let signed = op == FOp::ToS;
                    let f = fl(self, x, sw);
                    let rtz = Z3_mk_fpa_round_toward_zero(c);
                    let s = self.fsort(sw);
                    let m = crate::ir::mask(w);
                    let (max, min) = if signed { (m >> 1, (m >> 1) + 1) } else { (m, 0) };
                    let (fmax, fmin) = if signed { ((m >> 1) as f64 + 1.0, -((m >> 1) as f64) - 1.0) } else { (m as f64 + 1.0, 0.0) };
                    let hi = Z3_mk_fpa_leq(c, Z3_mk_fpa_numeral_double(c, fmax, s), f);
                    let lo = Z3_mk_fpa_leq(c, f, Z3_mk_fpa_numeral_double(c, fmin, s));
                    let conv = if signed { Z3_mk_fpa_to_sbv(c, rtz, f, w) } else { Z3_mk_fpa_to_ubv(c, rtz, f, w) };
                    let r = Z3_mk_ite(c, lo, self.num(w, min), conv);
                    let r = Z3_mk_ite(c, hi, self.num(w, max), r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(w, 0), r)
                }
            }
        }
    }
    fn bool(&mut self, e: Ex) -> P {
        if let Some(p) = self.bools.get(&e) { return *p as P; }
        let (n, w) = node(e);
        assert_eq!(w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n {
                N::Const(v) => if v != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Bin(Op::Eq, a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_eq(c, x, y) }
                N::Bin(Op::Ult, a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_bvult(c, x, y) }
                N::Bin(Op::Slt, a, b) => { let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_bvslt(c, x, y) }
                N::Bin(Op::And, a, b) => { let v = [self.bool(a), self.bool(b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::Bin(Op::Or, a, b) => { let v = [self.bool(a), self.bool(b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                N::Bin(Op::Xor, a, b) => if konst(a) == Some(1) { let y = self.bool(b); Z3_mk_not(c, y) } else { let (x, y) = (self.bool(a), self.bool(b)); Z3_mk_xor(c, x, y) },
                N::Bin(Op::Add | Op::Sub, a, b) => { let (x, y) = (self.bool(a), self.bool(b)); Z3_mk_xor(c, x, y) }
                N::Bin(Op::Mul, a, b) => { let v = [self.bool(a), self.bool(b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::Bin(..) => panic!("boolean op {:?}", n),
                N::Ite(i, a, b) => { let (i, x, y) = (self.bool(i), self.bool(a), self.bool(b)); Z3_mk_ite(c, i, x, y) }
                _ => { let v = self.bv(e); Z3_mk_eq(c, v, self.num(1, 1)) }
            }
        };
        self.bools.insert(e, r as usize);
        r
    }

    /// the constraints of `pc` that share variables (transitively) with `e`
    pub fn slice(pc: &[Ex], e: Ex) -> Vec<Ex> {
        let mut vs: std::collections::HashSet<u32, FxB> = vars(e).iter().copied().collect();
        let mut left: Vec<(Ex, Rc<Vec<u32>>)> = pc.iter().map(|x| (*x, vars(*x))).collect();
        let mut out = vec![e];
        loop {
            let n = left.len();
            left.retain(|(x, v)| {
                if v.iter().any(|i| vs.contains(i)) { for i in v.iter() { vs.insert(*i); } out.push(*x); false } else { true }
            });
            if left.len() == n { break; }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// is pc /\ e satisfiable?  (pc itself is)
    pub fn check(&mut self, pc: &[Ex], e: Ex) -> Res {
        if let Some(v) = konst(e) { return if v != 0 { Res::Sat(Rc::new(vec![])) } else { Res::Unsat }; }
        let s = Self::slice(pc, e);
        if let Some(r) = self.cache.get(&s) { self.cache_hits += 1; return r.clone(); }
        let t = Instant::now();
        let fp0 = self.fp_used();
        let asts: Vec<P> = s.iter().map(|x| self.bool(*x)).collect();
        if self.since_reset > 4000 || fp0 != self.fp_used() { self.fresh(); }
        self.since_reset += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for a in &asts { Z3_solver_assert(self.ctx, self.sol, *a); }
            let r = Z3_solver_check(self.ctx, self.sol);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.sol);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vs: Vec<u32> = s.iter().flat_map(|x| vars(*x).iter().copied().collect::<Vec<_>>()).collect();
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let p = self.bv(var_of(v));
                        let mut q: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.ctx, m, p, true, &mut q));
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(self.ctx, q, &mut u));
                        out.push((v >> 3, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(Rc::new(out))
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            if let Some(d) = &self.dump {
                if self.dumped < 400 && (self.queries % 37 == 0) {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.sol)).to_string_lossy().into_owned();
                    let f = d.join(format!("{}_{}_{}.smt2", std::process::id(), self.queries, match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }));
                    let _ = std::fs::write(f, format!("(set-logic ALL)\n{}\n(check-sat)\n", txt));
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(self.ctx, self.sol, 1);
            res
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        self.queries += 1;
        if let Res::Sat(m) = &r {
            // the model must satisfy the constraints under our own evaluator
            let mm: HashMap<u32, u64> = m.iter().copied().collect();
            let mut memo = Default::default();
            for x in &s {
                if eval(*x, &|i| *mm.get(&i).unwrap_or(&0) as u128, &mut memo) != 1 {
                    eprintln!("engine error: model does not satisfy {}", show(*x));
                    std::process::exit(96);
                }
            }
        }
        if !matches!(r, Res::Unknown) { self.cache.insert(s, r.clone()); }
        r
    }
}
thread_local! { static FP: std::cell::Cell<bool> = std::cell::Cell::new(false); }
