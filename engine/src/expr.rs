//! Hash-consed bit-vector expressions with local simplification.
//! Booleans are 1-bit vectors. Expressions are indices into an arena that lives as long as the process.
use crate::ir::mask;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp { Add, Sub, Mul, Div, FromU, FromS, ToU, ToS, Lt, Le, Eq, ToF32, ToF64, Floor, Ceil, Trunc, Even, Away, Sqrt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    /// input number i
    Var(u32),
    Bin(Op, Ex, Ex),
    Ite(Ex, Ex, Ex),
    /// low bit
    Extract(u32, Ex),
    Concat(Ex, Ex),
    SExt(Ex),
    /// floating point on IEEE bit patterns; result width is the node's
    F(FOp, Ex, Ex),
}

pub struct Node { pub n: N, pub w: u32, /* variables occurring, as an index into var sets */ pub vs: u32 }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u32), u32, FxB>,
    sets: Vec<std::rc::Rc<Vec<u32>>>,
    setmap: HashMap<std::rc::Rc<Vec<u32>>, u32>,
    unionmap: HashMap<(u32, u32), u32, FxB>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
pub type FxB = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64); }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}

impl Arena {
    fn new() -> Arena {
        let empty = std::rc::Rc::new(vec![]);
        let mut a = Arena { nodes: vec![], map: Default::default(), sets: vec![empty.clone()], setmap: HashMap::new(), unionmap: Default::default() };
        a.setmap.insert(empty, 0);
        // index 0 is reserved as "no expression"
        a.nodes.push(Node { n: N::Const(u128::MAX), w: 0, vs: 0 });
        a
    }
    fn set(&mut self, v: Vec<u32>) -> u32 {
        let r = std::rc::Rc::new(v);
        if let Some(i) = self.setmap.get(&r) { return *i; }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.setmap.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.unionmap.get(&k) { return *r; }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.set(v);
        self.unionmap.insert(k, r);
        r
    }
    fn mk(&mut self, n: N, w: u32) -> Ex {
        if let Some(i) = self.map.get(&(n, w)) { return Ex(*i); }
        let vs = match n {
            N::Const(_) => 0,
            N::Var(i) => self.set(vec![i]),
            N::Bin(_, a, b) | N::Concat(a, b) | N::F(_, a, b) => { let (x, y) = (self.vs(a), self.vs(b)); self.union(x, y) }
            N::Ite(c, a, b) => { let (x, y, z) = (self.vs(c), self.vs(a), self.vs(b)); let u = self.union(x, y); self.union(u, z) }
            N::Extract(_, a) | N::SExt(a) => self.vs(a),
        };
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { n, w, vs });
        self.map.insert((n, w), i);
        Ex(i)
    }
    fn vs(&self, e: Ex) -> u32 { self.nodes[e.0 as usize].vs }
}

thread_local! { static A: RefCell<Arena> = RefCell::new(Arena::new()); }

pub fn node(e: Ex) -> (N, u32) { A.with(|a| { let a = a.borrow(); let n = &a.nodes[e.0 as usize]; (n.n, n.w) }) }
pub fn width(e: Ex) -> u32 { A.with(|a| a.borrow().nodes[e.0 as usize].w) }
pub fn vars(e: Ex) -> std::rc::Rc<Vec<u32>> { A.with(|a| { let a = a.borrow(); a.sets[a.nodes[e.0 as usize].vs as usize].clone() }) }
pub fn varset(e: Ex) -> u32 { A.with(|a| a.borrow().nodes[e.0 as usize].vs) }
pub fn arena_len() -> usize { A.with(|a| a.borrow().nodes.len()) }
fn mk(n: N, w: u32) -> Ex { A.with(|a| a.borrow_mut().mk(n, w)) }

pub fn cst(w: u32, v: u128) -> Ex { mk(N::Const(v & mask(w)), w) }
/// input number `i` of width `w` (1, 8, 16, 32 or 64); the variable id carries both
pub fn var(i: u32, w: u32) -> Ex { mk(N::Var(i << 3 | w.trailing_zeros()), w) }
pub fn var_of(id: u32) -> Ex { mk(N::Var(id), 1 << (id & 7)) }
pub fn konst(e: Ex) -> Option<u128> { match node(e).0 { N::Const(v) => Some(v), _ => None } }

pub fn tr() -> Ex { cst(1, 1) }
pub fn fl() -> Ex { cst(1, 0) }

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y)) as u128 & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y)) as u128 & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = (b.min(w as u128 - 1)) as u32; (sx(a, w) >> s) as u128 & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
    }
}

fn f64of(v: u128, w: u32) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
/// concrete floating point; `w` result width, `sw` source width
pub fn ffold(op: FOp, w: u32, sw: u32, a: u128, b: u128) -> u128 {
    let r32 = |v: f32| v.to_bits() as u128;
    let r64 = |v: f64| v.to_bits() as u128;
    match op {
        FOp::Add | FOp::Sub | FOp::Mul | FOp::Div => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                r32(match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, _ => x / y })
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                r64(match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, _ => x / y })
            }
        }
        FOp::FromU => if w == 32 { r32(a as f32) } else { r64(a as f64) },
        FOp::FromS => { let v = sx(a, sw); if w == 32 { r32(v as f32) } else { r64(v as f64) } }
        // saturating, as the llvm.fpto?i.sat intrinsics
        FOp::ToU => { let f = f64of(a, sw); let m = mask(w); if f.is_nan() || f <= 0.0 { 0 } else if f >= m as f64 { m } else { f as u128 } }
        FOp::ToS => {
            let f = f64of(a, sw);
            let max = (mask(w) >> 1) as i128;
            let min = -max - 1;
            (if f.is_nan() { 0 } else if f >= max as f64 { max } else if f <= min as f64 { min } else { f as i128 }) as u128 & mask(w)
        }
        FOp::Lt => (f64of(a, sw) < f64of(b, sw)) as u128,
        FOp::Le => (f64of(a, sw) <= f64of(b, sw)) as u128,
        FOp::Eq => (f64of(a, sw) == f64of(b, sw)) as u128,
        FOp::ToF32 => r32(f64of(a, sw) as f32),
        FOp::ToF64 => r64(f64of(a, sw)),
        FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Even | FOp::Away | FOp::Sqrt => {
            let f = f64of(a, sw);
            let r = match op { FOp::Floor => f.floor(), FOp::Ceil => f.ceil(), FOp::Trunc => f.trunc(), FOp::Even => f.round_ties_even(), FOp::Away => f.round(), _ => if w == 32 { return r32(f32::from_bits(a as u32).sqrt()) } else { f.sqrt() } };
            if w == 32 { r32(r as f32) } else { r64(r) }
        }
    }
}

/// bits needed for an unsigned value
fn ubits(e: Ex) -> u32 {
    let (n, w) = node(e);
    match n {
        N::Const(v) => 128 - v.leading_zeros(),
        N::Concat(h, l) if konst(h) == Some(0) => ubits(l),
        N::Bin(Op::And, a, b) => ubits(a).min(ubits(b)),
        N::Bin(Op::LShr, a, b) => match konst(b) { Some(k) => ubits(a).saturating_sub(k.min(200) as u32), None => ubits(a) },
        _ => w,
    }
}
/// a floating point expression that is exactly i / 2^s for a 64-bit i >= 0 of at most so many bits
fn dyadic(e: Ex) -> Option<(Ex, u32, u32)> {
    let (n, w) = node(e);
    let prec = if w == 32 { 24 } else { 53 };
    let fit = |i: Ex, bits: u32, s: u32| if bits <= prec && s <= 40 { Some((i, bits, s)) } else { None };
    match n {
        N::Const(v) => {
            let f = f64of(v, w);
            if !f.is_finite() || f.is_sign_negative() || f >= 9007199254740992.0 { return None; }
            for s in 0..=40u32 {
                let g = f * (1u64 << s) as f64;
                if g >= 9007199254740992.0 { return None; }
                if g.fract() == 0.0 { let i = g as u64; return fit(cst(64, i as u128), 64 - i.leading_zeros(), s); }
            }
            None
        }
        N::F(FOp::FromU, x, _) => { let b = ubits(x); if b <= 53 { fit(if width(x) <= 64 { zext(x, 64) } else { trunc(x, 64) }, b, 0) } else { None } }
        N::F(FOp::FromS, x, _) => { let b = ubits(x); if b <= 53 && b < width(x) { fit(if width(x) <= 64 { zext(x, 64) } else { trunc(x, 64) }, b, 0) } else { None } }
        N::F(FOp::Mul, a, b) => {
            let ((i, x, s), (j, y, t)) = (dyadic(a)?, dyadic(b)?);
            if x + y > 63 { return None; }
            fit(bin(Op::Mul, i, j), x + y, s + t)
        }
        N::F(FOp::Add, a, b) => {
            let ((i, x, s), (j, y, t)) = (dyadic(a)?, dyadic(b)?);
            let m = s.max(t);
            let bits = (x + m - s).max(y + m - t) + 1;
            if bits > 63 { return None; }
            fit(bin(Op::Add, bin(Op::Shl, i, cst(64, (m - s) as u128)), bin(Op::Shl, j, cst(64, (m - t) as u128))), bits, m)
        }
        N::F(FOp::Div, a, b) => {
            let d = f64of(konst(b)?, w);
            if d < 1.0 || d > 65536.0 || d.log2().fract() != 0.0 { return None; }
            let (i, x, s) = dyadic(a)?;
            fit(i, x, s + d.log2() as u32)
        }
        N::F(FOp::ToF32, a, _) | N::F(FOp::ToF64, a, _) => { let (i, x, s) = dyadic(a)?; fit(i, x, s) }
        _ => None,
    }
}
pub fn fop(op: FOp, w: u32, a: Ex, b: Ex) -> Ex {
    if let (Some(x), Some(y)) = (konst(a), konst(b)) { return cst(w, ffold(op, w, width(a), x, y)); }
    match op {
        FOp::ToU | FOp::ToS => if let Some((i, bits, s)) = dyadic(a) {
            // truncation of an exact non-negative value
            if bits.saturating_sub(s) < w && bits <= 63 { let q = bin(Op::LShr, i, cst(64, s.min(63) as u128)); return if w <= 64 { trunc(q, w) } else { zext(q, w) }; }
        },
        FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Away => if let Some((i, bits, s)) = dyadic(a) {
            if bits < 63 && s < 63 {
                let add = match op { FOp::Ceil => (1u128 << s) - 1, FOp::Away if s > 0 => 1u128 << (s - 1), _ => 0 };
                let q = bin(Op::LShr, bin(Op::Add, i, cst(64, add)), cst(64, s as u128));
                let q = trunc(q, (bits + 1).saturating_sub(s).max(1));
                return fop(FOp::FromU, w, q, q);
            }
        },
        FOp::Lt | FOp::Le | FOp::Eq => if let (Some((i, b1, s)), Some((j, b2, t))) = (dyadic(a), dyadic(b)) {
            let m = s.max(t);
            if b1 + m - s <= 63 && b2 + m - t <= 63 {
                let i = bin(Op::Shl, i, cst(64, (m - s) as u128));
                let j = bin(Op::Shl, j, cst(64, (m - t) as u128));
                return match op { FOp::Lt => ult(i, j), FOp::Le => ule(i, j), _ => eq(i, j) };
            }
        },
        _ => {}
    }
    mk(N::F(op, a, b), w)
}

pub fn not(e: Ex) -> Ex {
    // boolean (1-bit) negation
    let (n, w) = node(e);
    debug_assert!(w == 1);
    match n {
        N::Const(v) => cst(1, v ^ 1),
        N::Bin(Op::Xor, a, b) if konst(a) == Some(1) => b,
        _ => mk(N::Bin(Op::Xor, cst(1, 1), e), 1),
    }
}
pub fn and(a: Ex, b: Ex) -> Ex { bin(Op::And, a, b) }
pub fn or(a: Ex, b: Ex) -> Ex { bin(Op::Or, a, b) }
pub fn eq(a: Ex, b: Ex) -> Ex { bin(Op::Eq, a, b) }
pub fn ult(a: Ex, b: Ex) -> Ex { bin(Op::Ult, a, b) }
pub fn ule(a: Ex, b: Ex) -> Ex { not(bin(Op::Ult, b, a)) }

/// an upper bound on the value
fn umax(e: Ex, d: u32) -> u128 {
    let (n, w) = node(e);
    match n {
        N::Const(v) => v,
        N::Concat(h, l) if d > 0 => {
            let lw = width(l);
            (umax(h, d - 1) << lw) | umax(l, d - 1).min(mask(lw))
        }
        N::Ite(_, a, b) if d > 0 => umax(a, d - 1).max(umax(b, d - 1)),
        N::Bin(Op::And, a, b) if d > 0 => umax(a, d - 1).min(umax(b, d - 1)),
        N::Bin(Op::URem, _, b) => match konst(b) { Some(v) if v > 0 => v - 1, _ => mask(w) },
        N::Bin(Op::Add, a, b) if d > 0 && w < 128 => {
            match umax(a, d - 1).checked_add(umax(b, d - 1)) { Some(s) if s <= mask(w) => s, _ => mask(w) }
        }
        N::Bin(Op::Mul, a, b) if d > 0 && w < 128 => {
            match umax(a, d - 1).checked_mul(umax(b, d - 1)) { Some(s) if s <= mask(w) => s, _ => mask(w) }
        }
        _ => mask(w),
    }
}
/// bounds of the signed value
fn srange(e: Ex, d: u32) -> (i128, i128) {
    let (n, w) = node(e);
    let full = (-((mask(w) >> 1) as i128) - 1, (mask(w) >> 1) as i128);
    if w > 64 { return (i128::MIN / 4, i128::MAX / 4); }
    let fit = |lo: i128, hi: i128| if lo >= full.0 && hi <= full.1 { (lo, hi) } else { full };
    if let N::Const(v) = n { let v = sx(v, w); return (v, v); }
    if d == 0 { return full; }
    match n {
        N::Ite(_, a, b) => { let (x, y) = (srange(a, d - 1), srange(b, d - 1)); (x.0.min(y.0), x.1.max(y.1)) }
        N::SExt(a) => srange(a, d - 1),
        N::Bin(Op::Add, a, b) => { let (x, y) = (srange(a, d - 1), srange(b, d - 1)); fit(x.0 + y.0, x.1 + y.1) }
        N::Bin(Op::Sub, a, b) => { let (x, y) = (srange(a, d - 1), srange(b, d - 1)); fit(x.0 - y.1, x.1 - y.0) }
        N::Bin(Op::Mul, a, b) => {
            let (x, y) = (srange(a, d - 1), srange(b, d - 1));
            let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1];
            fit(*p.iter().min().unwrap(), *p.iter().max().unwrap())
        }
        N::Bin(Op::SDiv, a, b) => match konst(b) { Some(k) if sx(k, w) > 0 => { let (x, k) = (srange(a, d - 1), sx(k, w)); (x.0 / k, x.1 / k) } _ => full },
        N::Bin(Op::SRem, a, b) => match konst(b) { Some(k) if sx(k, w) > 0 => { let (x, k) = (srange(a, d - 1), sx(k, w)); (x.0.max(1 - k).min(0), x.1.min(k - 1).max(0)) } _ => full },
        _ => { let u = upper(e, d); if u <= mask(w) >> 1 { (0, u as i128) } else { full } }
    }
}
/// bits of a signed representation of every value of both, in whole bytes
fn sbits(a: (i128, i128), b: (i128, i128)) -> u32 {
    let f = |v: i128| 129 - (if v < 0 { !v } else { v }).leading_zeros();
    let n = f(a.0).max(f(a.1)).max(f(b.0)).max(f(b.1));
    (n + 7) / 8 * 8
}
/// bits that may be non-zero
fn maybe1(e: Ex, d: u32) -> u128 {
    let (n, w) = node(e);
    match n {
        N::Const(v) => v,
        N::Concat(h, l) if d > 0 => (maybe1(h, d - 1) << width(l)) | maybe1(l, d - 1),
        N::Ite(_, a, b) if d > 0 => maybe1(a, d - 1) | maybe1(b, d - 1),
        N::Bin(Op::And, a, b) if d > 0 => maybe1(a, d - 1) & maybe1(b, d - 1),
        N::Bin(Op::Or, a, b) | N::Bin(Op::Xor, a, b) if d > 0 => maybe1(a, d - 1) | maybe1(b, d - 1),
        _ => mask(w),
    }
}

pub fn extract(e: Ex, lo: u32, w: u32) -> Ex {
    let (n, ew) = node(e);
    if lo == 0 && w == ew { return e; }
    debug_assert!(lo + w <= ew, "extract {} {} of {}", lo, w, ew);
    match n {
        N::Const(v) => cst(w, v >> lo),
        N::Extract(l2, x) => extract(x, lo + l2, w),
        N::Concat(h, l) => {
            let lw = width(l);
            if lo >= lw { extract(h, lo - lw, w) }
            else if lo + w <= lw { extract(l, lo, w) }
            else { concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo)) }
        }
        N::SExt(x) => {
            let xw = width(x);
            if lo + w <= xw { extract(x, lo, w) } else if lo == 0 { sext(x, w) } else { mk(N::Extract(lo, e), w) }
        }
        N::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => bin(op, extract(a, lo, w), extract(b, lo, w)),
        N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => bin(op, extract(a, 0, w), extract(b, 0, w)),
        N::Ite(c, a, b) if konst(a).is_some() || konst(b).is_some() => ite(c, extract(a, lo, w), extract(b, lo, w)),
        _ => mk(N::Extract(lo, e), w),
    }
}

/// merge two adjacent pieces into one if possible
fn merge(h: Ex, l: Ex) -> Option<Ex> {
    let ((hn, hw), (ln, lw)) = (node(h), node(l));
    match (hn, ln) {
        (N::Const(a), N::Const(b)) if hw + lw <= 128 => Some(cst(hw + lw, (a << lw) | b)),
        (N::Extract(hl, x), N::Extract(ll, y)) if x == y && hl == ll + lw => Some(extract(x, ll, hw + lw)),
        (N::Extract(hl, x), _) if x == l && hl == lw => None,
        (N::Ite(c, a, b), N::Ite(c2, a2, b2)) if c == c2 && konst(a).is_some() && konst(b).is_some() && konst(a2).is_some() && konst(b2).is_some() && hw + lw <= 128 =>
            Some(ite(c, concat(a, a2), concat(b, b2))),
        _ => None,
    }
}
pub fn concat(h: Ex, l: Ex) -> Ex {
    let (hn, hw) = node(h);
    let lw = width(l);
    debug_assert!(hw > 0 && lw > 0);
    if let N::Concat(a, b) = hn { return concat(a, concat(b, l)); }
    if let Some(m) = merge(h, l) { return m; }
    if let N::Concat(b, rest) = node(l).0 {
        if let Some(m) = merge(h, b) { return concat(m, rest); }
    }
    mk(N::Concat(h, l), hw + lw)
}
pub fn zext(e: Ex, w: u32) -> Ex {
    let ew = width(e);
    if w == ew { return e; }
    if let N::Ite(c, a, b) = node(e).0 { if konst(a).is_some() && konst(b).is_some() { return ite(c, zext(a, w), zext(b, w)); } }
    concat(cst(w - ew, 0), e)
}
pub fn sext(e: Ex, w: u32) -> Ex {
    let (n, ew) = node(e);
    if w == ew { return e; }
    match n {
        N::Const(v) => cst(w, sx(v, ew) as u128),
        N::Concat(h, _) if matches!(konst(h), Some(v) if v >> (width(h) - 1) & 1 == 0) => zext(e, w),
        N::Ite(c, a, b) if konst(a).is_some() && konst(b).is_some() => ite(c, sext(a, w), sext(b, w)),
        N::SExt(x) => sext(x, w),
        _ => if ew == 1 { ite(e, cst(w, mask(w)), cst(w, 0)) } else { mk(N::SExt(e), w) },
    }
}
pub fn trunc(e: Ex, w: u32) -> Ex { extract(e, 0, w) }

pub fn ite(c: Ex, a: Ex, b: Ex) -> Ex {
    if let Some(v) = konst(c) { return if v != 0 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    if let N::Bin(Op::Xor, k, x) = node(c).0 { if konst(k) == Some(1) { return ite(x, b, a); } }
    if w == 1 {
        match (konst(a), konst(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    if let N::Ite(c2, x, _) = node(a).0 { if c2 == c { return ite(c, x, b); } }
    if let N::Ite(c2, _, y) = node(b).0 { if c2 == c { return ite(c, a, y); } }
    mk(N::Ite(c, a, b), w)
}

fn segs(e: Ex, out: &mut Vec<Ex>) {
    // most significant first
    match node(e).0 { N::Concat(h, l) => { segs(h, out); segs(l, out) } _ => out.push(e) }
}

/// bitwise operation piece by piece, when at least one side is a concatenation
fn bitwise_split(op: Op, a: Ex, b: Ex) -> Option<Ex> {
    let w = width(a);
    let mut sa = vec![]; segs(a, &mut sa);
    let mut sb = vec![]; segs(b, &mut sb);
    if sa.len() == 1 && sb.len() == 1 {
        // x op const, with a constant of few runs
        let k = konst(a).or(konst(b))?;
        let x = if konst(a).is_some() { b } else { a };
        if op == Op::Xor { return None; }
        let mut runs: Vec<(u32, u32, bool)> = vec![];
        let mut i = 0;
        while i < w {
            let bit = k >> i & 1;
            let mut j = i;
            while j < w && k >> j & 1 == bit { j += 1; }
            runs.push((i, j - i, bit == 1));
            i = j;
        }
        if runs.len() > 3 || runs.len() < 2 { return None; }
        let mut r: Option<Ex> = None;
        for (lo, n, one) in runs {
            let p = match (op, one) { (Op::And, true) | (Op::Or, false) => extract(x, lo, n), (Op::And, false) => cst(n, 0), _ => cst(n, mask(n)) };
            r = Some(match r { None => p, Some(l) => concat(p, l) });
        }
        return r;
    }
    let mut cuts: Vec<u32> = vec![];
    for s in [&sa, &sb] {
        let mut p = 0;
        for x in s.iter().rev() { p += width(*x); cuts.push(p); }
    }
    cuts.sort_unstable();
    cuts.dedup();
    if cuts.len() > 24 { return None; }
    let mut r: Option<Ex> = None;
    let mut lo = 0;
    for c in cuts {
        let p = bin(op, extract(a, lo, c - lo), extract(b, lo, c - lo));
        r = Some(match r { None => p, Some(l) => concat(p, l) });
        lo = c;
    }
    let r = r?;
    Some(r)
}

pub fn bin(op: Op, a: Ex, b: Ex) -> Ex {
    let ((an, w), (bn, bw)) = (node(a), node(b));
    debug_assert!(w == bw, "width mismatch {:?} {} {}", op, w, bw);
    let rw = match op { Op::Eq | Op::Ult | Op::Slt => 1, _ => w };
    if let (N::Const(x), N::Const(y)) = (an, bn) { return cst(rw, fold(op, w, x, y)); }
    let m = mask(w);
    // constants to the left for commutative operations
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        let swap = match (an, bn) { (N::Const(_), _) => false, (_, N::Const(_)) => true, _ => a.0 > b.0 };
        if swap { return bin(op, b, a); }
    }
    let ka = if let N::Const(v) = an { Some(v) } else { None };
    let kb = if let N::Const(v) = bn { Some(v) } else { None };
    match op {
        Op::Add => {
            if ka == Some(0) { return b; }
            if let (Some(x), N::Bin(Op::Add, c, y)) = (ka, bn) { if let Some(z) = konst(c) { return bin(Op::Add, cst(w, x.wrapping_add(z)), y); } }
            // (c + y) + b -> c + (y + b)
            if let N::Bin(Op::Add, c, y) = an { if konst(c).is_some() { return bin(Op::Add, c, bin(Op::Add, y, b)); } }
            if let N::Bin(Op::Add, c, y) = bn { if konst(c).is_some() { return bin(Op::Add, c, bin(Op::Add, a, y)); } }
            if maybe1(a, 6) & maybe1(b, 6) == 0 { return bin(Op::Or, a, b); }
            if let (Some(x), N::Ite(c, p, q)) = (ka, bn) { if let (Some(p), Some(q)) = (konst(p), konst(q)) { return ite(c, cst(w, x.wrapping_add(p)), cst(w, x.wrapping_add(q))); } }
            // pull a zero extension out when the sum cannot carry into the extension
            if w > 1 {
                let (ma, mb) = (umax(a, 6), umax(b, 6));
                if let Some(s) = ma.checked_add(mb) {
                    let need = 128 - s.leading_zeros();
                    if need > 0 && need + 8 <= w { let nw = (need + 7) / 8 * 8; if nw < w { return zext(mk_add(trunc(a, nw), trunc(b, nw), nw), w); } }
                }
            }
        }
        Op::Sub => {
            if a == b { return cst(w, 0); }
            if let Some(y) = kb { return bin(Op::Add, cst(w, y.wrapping_neg()), a); }
            if let N::Bin(Op::Add, c, y) = an { if konst(c).is_some() { if y == b { return c; } return bin(Op::Add, c, bin(Op::Sub, y, b)); } if c == b { return y; } if y == b { return c; } }
            if let N::Bin(Op::Add, c, y) = bn { if let Some(k) = konst(c) { return bin(Op::Add, cst(w, k.wrapping_neg()), bin(Op::Sub, a, y)); } }
        }
        Op::Mul => {
            match ka {
                Some(0) => return a,
                Some(1) => return b,
                Some(k) if k.is_power_of_two() => return bin(Op::Shl, b, cst(w, k.trailing_zeros() as u128)),
                Some(k) => {
                    let mb = umax(b, 6);
                    if let Some(s) = mb.checked_mul(k) {
                        let need = 128 - s.leading_zeros();
                        if need > 0 && need + 8 <= w { let nw = (need + 7) / 8 * 8; if nw < w { let (x, y) = (trunc(a, nw), trunc(b, nw)); return zext(mk(N::Bin(Op::Mul, x, y), nw), w); } }
                    }
                }
                _ => {}
            }
        }
        Op::UDiv => { if kb == Some(1) { return a; } if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::LShr, a, cst(w, k.trailing_zeros() as u128)); } if umax(a, 6) < k { return cst(w, 0); } }
            if let Some(r) = narrow_div(op, a, b, w, kb) { return r; } }
        Op::URem => { if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::And, cst(w, k - 1), a); } if k > 0 && umax(a, 6) < k { return a; } }
            if let Some(r) = narrow_div(op, a, b, w, kb) { return r; } }
        Op::And => {
            if ka == Some(0) { return a; }
            if ka == Some(m) || a == b { return b; }
            if w == 1 { if not(a) == b { return fl(); } }
            else if let Some(r) = bitwise_split(op, a, b) { return r; }
        }
        Op::Or => {
            if ka == Some(0) || a == b { return b; }
            if ka == Some(m) { return a; }
            if w == 1 { if not(a) == b { return tr(); } }
            else if let Some(r) = bitwise_split(op, a, b) { return r; }
        }
        Op::Xor => {
            if a == b { return cst(w, 0); }
            if ka == Some(0) { return b; }
            if w == 1 { if ka == Some(1) { return not(b); } }
            else {
                if let (Some(x), N::Bin(Op::Xor, c, y)) = (ka, bn) { if let Some(z) = konst(c) { return bin(Op::Xor, cst(w, x ^ z), y); } }
                if matches!(an, N::Concat(..)) || matches!(bn, N::Concat(..)) { if let Some(r) = bitwise_split(op, a, b) { return r; } }
            }
        }
        Op::Shl => if let Some(k) = kb {
            if k == 0 { return a; }
            if k >= w as u128 { return cst(w, 0); }
            let k = k as u32;
            return concat(extract(a, 0, w - k), cst(k, 0));
        },
        Op::LShr => if let Some(k) = kb {
            if k == 0 { return a; }
            if k >= w as u128 { return cst(w, 0); }
            let k = k as u32;
            return zext(extract(a, k, w - k), w);
        },
        Op::AShr => if let Some(k) = kb {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1) as u32;
            return sext(extract(a, k, w - k), w);
        },
        Op::SDiv | Op::SRem => {
            // both known non-negative
            if w > 1 && umax(a, 6) <= m >> 1 && umax(b, 6) <= m >> 1 {
                return bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
            if w > 8 && w <= 64 && matches!(kb, Some(k) if k != 0 && k != m) {
                let n = sbits(srange(a, 8), srange(b, 8));
                if n < w { let (x, y) = (trunc(a, n), trunc(b, n)); return sext(mk(N::Bin(op, x, y), n), w); }
            }
        }
        Op::Eq => {
            if a == b { return tr(); }
            if w == 1 {
                return match ka { Some(1) => b, Some(_) => not(b), None => not(bin(Op::Xor, a, b)) };
            }
            if let Some(k) = ka {
                match bn {
                    N::Bin(Op::Add, c, y) => if let Some(z) = konst(c) { return eq(cst(w, k.wrapping_sub(z)), y); },
                    N::Bin(Op::Xor, c, y) => if let Some(z) = konst(c) { return eq(cst(w, k ^ z), y); },
                    N::Ite(c, p, q) => {
                        match (konst(p), konst(q)) {
                            (Some(p), Some(q)) => return match (p == k, q == k) { (true, true) => tr(), (true, false) => c, (false, true) => not(c), _ => fl() },
                            (Some(p), None) => return if p == k { or(c, eq(a, q)) } else { and(not(c), eq(a, q)) },
                            (None, Some(q)) => return if q == k { or(not(c), eq(a, p)) } else { and(c, eq(a, p)) },
                            _ => {}
                        }
                    }
                    N::Concat(h, l) => {
                        let lw = width(l);
                        let x = eq(cst(w - lw, k >> lw), h);
                        if konst(x) == Some(0) { return fl(); }
                        let y = eq(cst(lw, k), l);
                        return and(x, y);
                    }
                    N::SExt(x) => { let xw = width(x); let t = cst(xw, k); return if sx(k & mask(xw), xw) as u128 & m == k { eq(t, x) } else { fl() }; }
                    _ => { if umax(b, 6) < k { return fl(); } }
                }
            } else if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (an, bn) {
                if width(l1) == width(l2) {
                    let x = eq(h1, h2);
                    if konst(x) == Some(0) { return x; }
                    return and(x, eq(l1, l2));
                }
            }
        }
        Op::Ult => {
            if a == b { return fl(); }
            if kb == Some(0) { return fl(); }
            if ka == Some(m) { return fl(); }
            if kb == Some(1) { return eq(cst(w, 0), a); }
            if ka == Some(0) { return not(eq(a, b)); }
            if let Some(k) = kb {
                if umax(a, 6) < k { return tr(); }
                if k == m { return not(eq(b, a)); }
            }
            if let Some(k) = ka { if umax(b, 6) <= k { return fl(); } }
            // drop common zero extension
            let z = lead0(a).min(lead0(b));
            if z > 0 && z < w { return ult(trunc(a, w - z), trunc(b, w - z)); }
            if let (Some(k), N::Ite(c, p, q)) = (kb, an) { if let (Some(p), Some(q)) = (konst(p), konst(q)) { return ite(c, cst(1, (p < k) as u128), cst(1, (q < k) as u128)); } }
            if let (Some(k), N::Ite(c, p, q)) = (ka, bn) { if let (Some(p), Some(q)) = (konst(p), konst(q)) { return ite(c, cst(1, (k < p) as u128), cst(1, (k < q) as u128)); } }
            // low constant part: concat(h, 0..0) < k etc. left to the solver
        }
        Op::Slt => {
            if a == b { return fl(); }
            if w > 1 {
                let half = m >> 1;
                if umax(a, 6) <= half && umax(b, 6) <= half { return ult(a, b); }
                if w > 8 && w <= 64 {
                    let (x, y) = (srange(a, 8), srange(b, 8));
                    if x.1 < y.0 { return tr(); }
                    if x.0 >= y.1 { return fl(); }
                    let n = sbits(x, y);
                    if n < w { return bin(Op::Slt, trunc(a, n), trunc(b, n)); }
                }
                // sign test
                if kb == Some(0) { return extract(a, w - 1, 1); }
                if ka == Some(m) { return not(extract(b, w - 1, 1)); }
                if let (Some(k), N::SExt(x)) = (kb, an) { let xw = width(x); if sx(k & mask(xw), xw) as u128 & m == k { return bin(Op::Slt, x, cst(xw, k)); } }
                if let (Some(k), N::SExt(x)) = (ka, bn) { let xw = width(x); if sx(k & mask(xw), xw) as u128 & m == k { return bin(Op::Slt, cst(xw, k), x); } }
            }
            if let (Some(k), N::Ite(c, p, q)) = (kb, an) { if let (Some(p), Some(q)) = (konst(p), konst(q)) { let k = sx(k, w); return ite(c, cst(1, (sx(p, w) < k) as u128), cst(1, (sx(q, w) < k) as u128)); } }
        }
    }
    mk(N::Bin(op, a, b), rw)
}
/// unsigned division of a value that is known to be small
fn narrow_div(op: Op, a: Ex, b: Ex, w: u32, kb: Option<u128>) -> Option<Ex> {
    if w <= 8 || w > 64 || kb? == 0 { return None; }
    let u = upper(a, 8).max(kb?);
    let n = ((128 - u.leading_zeros()) + 7) / 8 * 8;
    if n == 0 || n >= w { return None; }
    let (x, y) = (trunc(a, n), trunc(b, n));
    Some(zext(mk(N::Bin(op, x, y), n), w))
}
fn mk_add(a: Ex, b: Ex, w: u32) -> Ex {
    let (a, b) = if konst(b).is_some() || (konst(a).is_none() && a.0 > b.0) { (b, a) } else { (a, b) };
    mk(N::Bin(Op::Add, a, b), w)
}
/// number of known-zero leading bits
fn lead0(e: Ex) -> u32 {
    let (n, w) = node(e);
    match n {
        N::Const(v) => (v.leading_zeros() + w).saturating_sub(128).min(w),
        N::Concat(h, _) => match konst(h) { Some(0) => width(h), Some(v) => (v.leading_zeros() + width(h)).saturating_sub(128), _ => 0 },
        _ => 0,
    }
}

/// evaluate under an assignment of the variables
pub fn eval(e: Ex, asg: &dyn Fn(u32) -> u128, memo: &mut HashMap<Ex, u128, FxB>) -> u128 {
    let (n, w) = node(e);
    match n {
        N::Const(v) => return v,
        N::Var(i) => return asg(i >> 3) & mask(w),
        _ => {}
    }
    if let Some(v) = memo.get(&e) { return *v; }
    let r = match n {
        N::Bin(op, a, b) => {
            let x = eval(a, asg, memo);
            if op == Op::And && x == 0 { 0 } else {
                let y = eval(b, asg, memo);
                fold(op, width(a), x, y)
            }
        }
        N::Ite(c, a, b) => if eval(c, asg, memo) != 0 { eval(a, asg, memo) } else { eval(b, asg, memo) },
        N::Extract(lo, a) => (eval(a, asg, memo) >> lo) & mask(w),
        N::Concat(a, b) => (eval(a, asg, memo) << width(b)) | eval(b, asg, memo),
        N::SExt(a) => sx(eval(a, asg, memo), width(a)) as u128 & mask(w),
        N::F(op, a, b) => { let (x, y) = (eval(a, asg, memo), eval(b, asg, memo)); ffold(op, w, width(a), x, y) }
        _ => unreachable!(),
    };
    memo.insert(e, r);
    r
}

/// rebuild an expression with some sub-expressions replaced by constants
pub fn subst(e: Ex, known: &HashMap<Ex, u128, FxB>, memo: &mut HashMap<Ex, Ex, FxB>) -> Ex {
    let (n, w) = node(e);
    if let N::Const(_) = n { return e; }
    if let Some(v) = known.get(&e) { return cst(w, *v); }
    if let N::Var(_) = n { return e; }
    if let Some(r) = memo.get(&e) { return *r; }
    let r = match n {
        N::Bin(op, a, b) => {
            let (x, y) = (subst(a, known, memo), subst(b, known, memo));
            if (x, y) == (a, b) { e } else { bin(op, x, y) }
        }
        N::Ite(c, a, b) => {
            let x = subst(c, known, memo);
            match konst(x) {
                Some(0) => subst(b, known, memo),
                Some(_) => subst(a, known, memo),
                None => { let (p, q) = (subst(a, known, memo), subst(b, known, memo)); if (x, p, q) == (c, a, b) { e } else { ite(x, p, q) } }
            }
        }
        N::Extract(lo, a) => { let x = subst(a, known, memo); if x == a { e } else { extract(x, lo, w) } }
        N::Concat(a, b) => { let (x, y) = (subst(a, known, memo), subst(b, known, memo)); if (x, y) == (a, b) { e } else { concat(x, y) } }
        N::SExt(a) => { let x = subst(a, known, memo); if x == a { e } else { sext(x, w) } }
        N::F(op, a, b) => { let (x, y) = (subst(a, known, memo), subst(b, known, memo)); if (x, y) == (a, b) { e } else { fop(op, w, x, y) } }
        _ => e,
    };
    memo.insert(e, r);
    r
}

pub fn show(e: Ex) -> String {
    let (n, w) = node(e);
    match n {
        N::Const(v) => format!("{:#x}:{}", v, w),
        N::Var(i) => format!("v{}:{}", i >> 3, w),
        N::Bin(op, a, b) => format!("({:?} {} {})", op, show(a), show(b)),
        N::Ite(c, a, b) => format!("(ite {} {} {})", show(c), show(a), show(b)),
        N::Extract(lo, a) => format!("{}[{}+{}]", show(a), lo, w),
        N::Concat(a, b) => format!("{}.{}", show(a), show(b)),
        N::SExt(a) => format!("(sext{} {})", w, show(a)),
        N::F(op, a, b) => format!("(f{:?}{} {} {})", op, w, show(a), show(b)),
    }
}

/// constant + rest
pub fn split_const(e: Ex) -> (u128, Ex) {
    match node(e) {
        (N::Bin(Op::Add, a, b), _) => if let Some(c) = konst(a) { (c, b) } else if let Some(c) = konst(b) { (c, a) } else { (0, e) },
        // a narrower addition that cannot wrap
        (N::Concat(z, a), w) if konst(z) == Some(0) => {
            let (c, x) = split_const(a);
            if width(a) <= 64 && c + upper(x, 8) <= mask(width(a)) { (c, zext(x, w)) } else { (0, e) }
        }
        _ => (0, e),
    }
}
/// an upper bound of the unsigned value, by structure
pub fn upper(e: Ex, depth: u32) -> u128 {
    let (n, w) = node(e);
    let m = mask(w);
    if let N::Const(c) = n { return c; }
    if depth == 0 || w > 64 { return m; }
    let u = |x| upper(x, depth - 1);
    match n {
        N::Concat(a, b) => { let k = width(b); if w > 64 { return m; } u(a) << k | u(b) }
        N::Ite(_, a, b) => u_ite(a, b),
        N::Bin(Op::And, a, b) => u(a).min(u(b)),
        N::Bin(Op::Add, a, b) if w <= 64 => { let s = u(a) + u(b); if s > m { m } else { s } }
        N::Bin(Op::Mul, a, b) if w <= 64 => { let s = u(a).saturating_mul(u(b)); if s > m { m } else { s } }
        N::Bin(Op::Or | Op::Xor, a, b) => { let s = u(a).max(u(b)); (s + 1).next_power_of_two() - 1 }
        N::Bin(Op::LShr, a, b) => match konst(b) { Some(k) if k < 128 => u(a) >> k, _ => m },
        N::Bin(Op::Shl, a, b) => match konst(b) { Some(k) if k < w as u128 && w <= 64 => { let s = u(a) << k; if s > m { m } else { s } } _ => m },
        N::Bin(Op::UDiv, a, b) => match konst(b) { Some(k) if k > 0 => u(a) / k, _ => m },
        N::Bin(Op::URem, _, b) => match konst(b) { Some(k) if k > 0 => k - 1, _ => m },
        N::Extract(0, a) => { let s = u(a); if s > m { m } else { s } }
        _ => m,
    }
}
/// long chains of conditions
fn u_ite(a: Ex, b: Ex) -> u128 {
    let mut r = upper(a, 2);
    let mut e = b;
    loop {
        match node(e).0 { N::Ite(_, a, b) => { r = r.max(upper(a, 2)); e = b; } _ => return r.max(upper(e, 4)) }
    }
}

thread_local! { static CANON: RefCell<HashMap<Ex, Ex, FxB>> = RefCell::new(HashMap::default()); }
/// a function of a single input byte, written as a chain of comparisons with that byte
pub fn canon(e: Ex) -> Ex {
    let vs = vars(e);
    if vs.len() != 1 || vs[0] & 7 != 3 { return e; }
    let simple = |x: Ex| match node(x).0 { N::Const(_) | N::Var(_) => true, N::Concat(a, b) => konst(a).is_some() && matches!(node(b).0, N::Var(_)), _ => false };
    match node(e).0 { N::Const(_) | N::Var(_) | N::Concat(..) | N::Extract(..) | N::SExt(_) => return e, N::Bin(_, a, b) if simple(a) && simple(b) => return e, _ => {} }
    if let Some(r) = CANON.with(|c| c.borrow().get(&e).copied()) { return r; }
    let (v, w) = (var_of(vs[0]), width(e));
    let mut runs: Vec<(u128, u128)> = vec![];
    for i in 0..256u128 {
        let x = eval(e, &|_| i, &mut HashMap::default());
        if runs.last().map_or(true, |r| r.1 != x) { runs.push((i, x)); }
        if runs.len() > 40 { break; }
    }
    let r = if runs.len() > 40 { e } else {
        let c = |x| cst(w, x);
        let mut r = c(runs.last().unwrap().1);
        let mut after = runs.last().unwrap().1;
        let mut i = runs.len() - 1;
        while i > 0 {
            i -= 1;
            // a single value between equal ones
            if i > 0 && runs[i + 1].0 == runs[i].0 + 1 && runs[i - 1].1 == after && runs[i + 1].1 == after {
                r = ite(eq(cst(8, runs[i].0), v), c(runs[i].1), r);
                i -= 1;
                continue;
            }
            r = ite(ult(v, cst(8, runs[i + 1].0)), c(runs[i].1), r);
            after = runs[i].1;
        }
        r
    };
    CANON.with(|c| { let mut c = c.borrow_mut(); c.insert(e, r); c.insert(r, r); });
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    struct R(u64);
    impl R { fn n(&mut self, m: u64) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) % m } }
    /// a random expression and its value, computed without simplification
    fn gen(r: &mut R, w: u32, d: u32, asg: &[u128; 4]) -> (Ex, u128) {
        let m = mask(w);
        if d == 0 || r.n(8) == 0 {
            return match r.n(3) {
                0 => { let v = match r.n(6) { 0 => r.n(10) as u128, 1 => (r.n(10) as u128).wrapping_neg(), 2 => 86400, 3 => 1000 * r.n(100) as u128, 4 => 1u128 << r.n(64), _ => r.n(1 << 30) as u128 }; (cst(w, v), v & m) }
                _ => { let i = r.n(4) as usize; if w >= 8 { let e = if r.n(2) == 0 { zext(var(i as u32, 8), w) } else { sext(var(i as u32, 8), w) }; let v = eval(e, &|i| asg[i as usize], &mut HashMap::default()); (e, v) } else { (extract(var(i as u32, 8), 0, w), asg[i] & m) } }
            };
        }
        match r.n(9) {
            0 if w > 8 => { let (e, v) = gen(r, 8, d - 1, asg); (sext(e, w), sx(v, 8) as u128 & m) }
            1 if w > 8 => { let n = [8, 16, 24][r.n(3) as usize].min(w - 1); let (e, v) = gen(r, n, d - 1, asg); (zext(e, w), v) }
            2 if w < 64 => { let (e, v) = gen(r, 64, d - 1, asg); let lo = r.n((64 - w + 1) as u64) as u32; (extract(e, lo, w), v >> lo & m) }
            3 => { let c = gen(r, 1, d - 1, asg); let (a, b) = (gen(r, w, d - 1, asg), gen(r, w, d - 1, asg)); (ite(c.0, a.0, b.0), if c.1 != 0 { a.1 } else { b.1 }) }
            4 if w == 1 => {
                let n = [8, 16, 32, 64][r.n(4) as usize];
                let (a, b) = (gen(r, n, d - 1, asg), gen(r, n, d - 1, asg));
                let op = [Op::Eq, Op::Ult, Op::Slt][r.n(3) as usize];
                (bin(op, a.0, b.0), fold(op, n, a.1, b.1))
            }
            _ => {
                let ops: &[Op] = if w == 1 { &[Op::And, Op::Or, Op::Xor] } else { &[Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr] };
                let op = ops[r.n(ops.len() as u64) as usize];
                let (a, b) = (gen(r, w, d - 1, asg), gen(r, w, d - 1, asg));
                (bin(op, a.0, b.0), fold(op, w, a.1, b.1))
            }
        }
    }
    #[test]
    fn simplification_keeps_the_value() {
        let mut r = R(7);
        for i in 0..400_000u64 {
            let asg = [r.n(256) as u128, r.n(256) as u128, [0, 127, 128, 255][r.n(4) as usize], r.n(4) as u128];
            let w = [1, 8, 16, 32, 64][r.n(5) as usize];
            let (e, v) = gen(&mut r, w, 1 + (i % 5) as u32, &asg);
            assert_eq!(eval(e, &|i| asg[i as usize], &mut HashMap::default()), v, "case {} {}", i, show(e));
        }
    }
    #[test]
    fn exact_floating_point_keeps_the_value() {
        let mut r = R(9);
        for _ in 0..100_000u64 {
            let asg = [r.n(256) as u128, r.n(256) as u128, r.n(256) as u128, 0];
            let w = [32, 64][r.n(2) as usize];
            let x = concat(var(0, 8), var(1, 8));
            let xv = asg[0] << 8 | asg[1];
            let c = [1.5f64, 0.5, 0.25, 3.0, 1.1, 0.75][r.n(6) as usize];
            let k = if w == 32 { (c as f32).to_bits() as u128 } else { c.to_bits() as u128 };
            let f = fop(FOp::FromU, w, x, x);
            let fv = ffold(FOp::FromU, w, 16, xv, xv);
            let g = fop(FOp::Mul, w, f, cst(w, k));
            let gv = ffold(FOp::Mul, w, w, fv, k);
            let op = [FOp::Floor, FOp::Ceil, FOp::Trunc, FOp::Away, FOp::Even, FOp::Sqrt][r.n(6) as usize];
            let h = fop(op, w, g, g);
            let hv = ffold(op, w, w, gv, gv);
            let i = fop(FOp::ToS, 64, h, h);
            let iv = ffold(FOp::ToS, 64, w, hv, hv);
            let mut memo = HashMap::default();
            assert_eq!(eval(h, &|i| asg[i as usize], &mut memo), hv);
            assert_eq!(eval(i, &|i| asg[i as usize], &mut memo), iv);
        }
    }
}
