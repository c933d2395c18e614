//! The symbolic interpreter.
use crate::expr::*;
use crate::ext::{self, K};
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::Val;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub body: &'static Body,
    pub sym: u32,
    pub pc: usize,
    pub blk: u32,
    pub regs: Vec<Val>,
    pub ret: Option<Reg>,
    pub normal: Option<u32>,
    pub sp: usize,
}

#[derive(Clone)]
pub struct Input { pub tag: Rc<str>, pub first: u32, pub n: u32, pub conc: Option<u64> }

#[derive(Clone)]
pub struct FileNode { pub data: Rc<Vec<Val>>, pub exists: bool }
#[derive(Clone)]
pub struct Fd { pub path: Vec<u8>, pub pos: usize, pub append: bool }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub pc: Rc<Vec<Ex>>,
    pub known: Rc<HashMap<Ex, u128, FxB>>,
    pub model: Rc<Vec<u64>>,
    pub inputs: Rc<Vec<Input>>,
    pub nvars: u32,
    pub trace: Rc<Vec<Rc<Vec<Val>>>>,
    pub steps: u64,
    pub decisions: u32,
    pub step_limit: u64,
    pub files: Rc<BTreeMap<Vec<u8>, FileNode>>,
    pub fds: Rc<Vec<Option<Fd>>>,
    pub env: Rc<Vec<(Vec<u8>, Vec<Val>)>>,
    pub environ: u64,
    pub errno_obj: u64,
    pub rand: u64,
    pub exiting: bool,
    /// a panic ends the process and is judged by sym_at_exit
    pub panic_ok: bool,
    pub memo: Memo,
}
#[derive(Default)]
pub struct Memo(pub HashMap<Ex, Ex, FxB>);
impl Clone for Memo { fn clone(&self) -> Memo { Memo::default() } }

pub enum Stop {
    /// path finished normally
    Done,
    /// an assumption failed
    Assumed,
    /// panic, abort, memory error, step limit ...
    Bad(String, String),
    /// the engine cannot go on (unsupported construct, solver unknown)
    Engine(String),
}
pub type R<T> = Result<T, Stop>;

pub struct Violation { pub kind: String, pub id: String, pub inputs: Vec<(String, Vec<u64>)>, pub trace: Vec<Vec<u8>>, pub stack: Vec<String>, pub count: u64, pub path: Vec<String> }
pub struct Sample { pub inputs: Vec<(String, Vec<u64>)>, pub trace: Vec<Vec<u8>> }

pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub asserts: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub engine_errors: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
}

pub struct Exec {
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub handlers: Vec<Option<K>>,
    pub called: Vec<bool>,
    pub max_steps: u64,
    pub max_samples: usize,
    pub known_ids: Vec<String>,
    pub stop_now: bool,
    pub depth_note: u32,
    pub rng: u64,
    pub prof: Option<HashMap<u32, u64>>,
    pub forksites: HashMap<String, u64>,
    pub want_forksites: bool,
}

macro_rules! eng { ($($a:tt)*) => { return Err(Stop::Engine(format!($($a)*))) } }

impl State {
    pub fn simp(&mut self, e: Ex) -> Ex {
        if self.known.is_empty() { return e; }
        subst(e, &self.known, &mut self.memo.0)
    }
    pub fn eval(&self, e: Ex) -> u128 {
        let m = &self.model;
        let mut memo = Default::default();
        eval(e, &|i| m.get(i as usize).copied().unwrap_or(0) as u128, &mut memo)
    }
    /// record that a boolean expression is true on this path
    pub fn add(&mut self, c: Ex) {
        if konst(c).is_some() { return; }
        if let N::Bin(Op::And, a, b) = node(c).0 { if width(c) == 1 { self.add(a); self.add(b); return; } }
        if self.known.get(&c) == Some(&1) { return; }
        Rc::make_mut(&mut self.pc).push(c);
        let k = Rc::make_mut(&mut self.known);
        k.insert(c, 1);
        match node(c).0 {
            N::Bin(Op::Eq, a, b) => { if let Some(v) = konst(a) { k.insert(b, v); Self::known_parts(k, b, v); } }
            N::Bin(Op::Xor, a, b) if konst(a) == Some(1) => {
                k.insert(b, 0);
                // not (x or y): both false
                if let N::Bin(Op::Or, x, y) = node(b).0 { k.insert(x, 0); k.insert(y, 0); }
            }
            _ => {}
        }
        self.memo.0.clear();
    }
    fn known_parts(k: &mut HashMap<Ex, u128, FxB>, e: Ex, v: u128) {
        if let N::Concat(h, l) = node(e).0 {
            let lw = width(l);
            k.insert(h, v >> lw);
            k.insert(l, v & mask(lw));
            Self::known_parts(k, h, v >> lw);
            Self::known_parts(k, l, v & mask(lw));
        }
    }
    fn set_model(&mut self, m: &[(u32, u64)]) {
        let mm = Rc::make_mut(&mut self.model);
        for (i, v) in m {
            while mm.len() <= *i as usize { mm.push(0); }
            mm[*i as usize] = *v;
        }
    }
    pub fn fresh(&mut self, tag: &str, n: u32, w: u32) -> u32 {
        let first = self.nvars;
        self.nvars += n;
        let _ = w;
        Rc::make_mut(&mut self.inputs).push(Input { tag: tag.into(), first, n, conc: None });
        first
    }
}

pub fn to_ex(v: &Val, w: u32) -> Ex {
    match v { Val::C(c) => cst(w, *c as u128), Val::W(c) => cst(w, **c), Val::E(e) => { debug_assert_eq!(width(*e), w); *e } v => panic!("to_ex {:?}", v) }
}
pub fn from_ex(e: Ex) -> Val {
    match node(e) { (N::Const(v), w) => cval(w, v), _ => Val::E(e) }
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Exec {
        Exec {
            m, solver: Solver::new(timeout_ms), work: vec![],
            st: Stats { paths: 0, assumed: 0, forks: 0, steps: 0, max_path_steps: 0, asserts: BTreeMap::new(), covers: BTreeMap::new(), engine_errors: BTreeMap::new(), viol: vec![], samples: vec![] },
            handlers: vec![], called: vec![], max_steps: 50_000_000, max_samples: 20, known_ids: vec![], stop_now: false, depth_note: 0, rng: 0x9e3779b97f4a7c15, prof: None,
            forksites: HashMap::new(), want_forksites: std::env::var("SYMEX_FORKS").is_ok(),
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let s = *self.m.symmap.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let body = self.m.body(s).ok_or_else(|| format!("no body for {}", entry))?;
        let n = self.m.syms.len() + 4096;
        let mut mem = Mem::new(n);
        let errno_obj = mem.alloc(8);
        self.called.resize(n, false);
        self.called[s as usize] = true;
        Ok(State {
            mem, frames: vec![],
            cur: Frame { body, sym: s, pc: body.blocks[body.entry as usize].start, blk: body.entry, regs: vec![Val::C(0); body.nregs as usize], ret: None, normal: None, sp: 0 },
            pc: Rc::new(vec![]), known: Rc::new(Default::default()), model: Rc::new(vec![]), inputs: Rc::new(vec![]), nvars: 0, trace: Rc::new(vec![]),
            steps: 0, decisions: 0, step_limit: self.max_steps, files: Rc::new(BTreeMap::new()), fds: Rc::new(vec![]), env: Rc::new(vec![]), environ: 0, errno_obj, rand: 1, exiting: false, panic_ok: false, memo: Memo::default(),
        })
    }

    // ---------------------------------------------------------------- decisions

    pub fn decide(&mut self, st: &mut State, cond: Ex) -> R<bool> {
        let c = canon(st.simp(cond));
        let c = st.simp(c);
        if let Some(v) = konst(c) { return Ok(v != 0); }
        let v = st.eval(c) != 0;
        let (this, other) = if v { (c, not(c)) } else { (not(c), c) };
        match self.solver.check(&st.pc, other) {
            Res::Unsat => {
                let k = Rc::make_mut(&mut st.known);
                k.insert(c, v as u128);
                if c != cond { k.insert(cond, v as u128); }
                st.memo.0.clear();
                Ok(v)
            }
            Res::Sat(m) => {
                let mut sib = st.clone();
                sib.set_model(&m);
                sib.add(other);
                sib.decisions += 1;
                if self.want_forksites { let k = self.stack(st).into_iter().take(4).collect::<Vec<_>>().join(" < "); *self.forksites.entry(k).or_insert(0) += 1; }
                self.work.push(sib);
                self.st.forks += 1;
                st.add(this);
                st.decisions += 1;
                Ok(v)
            }
            Res::Unknown => Err(Stop::Engine("solver answered unknown".into())),
        }
    }

    /// a concrete value for `v`, forking over all feasible ones
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(e) => {
                let e = st.simp(*e);
                if let Some(v) = konst(e) { return Ok(v as u64); }
                let mut n = 0;
                loop {
                    let val = st.eval(e);
                    if self.decide(st, eq(cst(w, val), e))? { return Ok(val as u64); }
                    n += 1;
                    if n > 70000 { eng!("too many values"); }
                }
            }
            Val::Z => Ok(0),
            v => eng!("conc {:?}", v),
        }
    }

    pub fn truth(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v { Val::C(c) => Ok(*c & 1 != 0), Val::E(e) => self.decide(st, *e), v => eng!("truth {:?}", v) }
    }

    // ---------------------------------------------------------------- memory

    fn materialise(&mut self, st: &mut State, id: u64) -> bool {
        if id < SYM_BASE || id >= SYM_BASE + self.m.syms.len() as u64 { return false; }
        let s = (id - SYM_BASE) as usize;
        if let SymKind::Global { ty, size, init, .. } = &self.m.syms[s].kind {
            let mut o = Obj::new(*size as usize);
            if let Some(v) = init { init_bytes(&self.m, *ty, v, &mut o.data); }
            st.mem.put(id, Rc::new(o));
            true
        } else { false }
    }
    fn miss(&self, st: &State, addr: u64, n: u64, what: &str) -> Stop {
        let id = addr >> 32;
        let d = if id == 0 { format!("null/dangling pointer {:#x}", addr) }
            else if st.mem.get(id).is_some() { format!("out of bounds offset {} size {} of object of {} bytes", addr as u32, n, st.mem.get(id).unwrap().data.len()) }
            else if st.mem.is_heap(id, self.m.syms.len()) { "use after free".to_string() }
            else if id >= SYM_BASE && id < SYM_BASE + self.m.syms.len() as u64 { format!("access to symbol {}", self.m.syms[(id - SYM_BASE) as usize].name) }
            else { format!("wild pointer {:#x}", addr) };
        if d.starts_with("access to symbol") { return Stop::Engine(format!("{} {}", what, d)); }
        Stop::Bad("memory".into(), format!("{}: {}", what, d))
    }
    pub fn obj<'a>(&mut self, st: &'a mut State, addr: u64, n: u64, what: &str) -> R<(&'a Rc<Obj>, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        if st.mem.get(id).is_none() && !self.materialise(st, id) { return Err(self.miss(st, addr, n, what)); }
        if off + n > st.mem.get(id).unwrap().data.len() as u64 { return Err(self.miss(st, addr, n, what)); }
        Ok((st.mem.get(id).unwrap(), off as usize))
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64, what: &str) -> R<(&'a mut Obj, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        if st.mem.get(id).is_none() && !self.materialise(st, id) { return Err(self.miss(st, addr, n, what)); }
        if off + n > st.mem.get(id).unwrap().data.len() as u64 { return Err(self.miss(st, addr, n, what)); }
        Ok((st.mem.get_mut(id).unwrap(), off as usize))
    }
    fn load_bits(&mut self, st: &mut State, addr: u64, n: u64, w: u32) -> R<Val> {
        let (o, off) = self.obj(st, addr, n, "load")?;
        let off = off;
        let nn = n as usize;
        let symbolic = match &o.sym { None => false, Some(s) => s[off..off + nn].iter().any(|x| *x != 0) };
        if !symbolic {
            let d = &o.data[off..off + nn];
            return Ok(match nn {
                1 => Val::C(d[0] as u64 & mask(w) as u64),
                8 => cval(w, u64::from_le_bytes(d.try_into().unwrap()) as u128),
                4 => cval(w, u32::from_le_bytes(d.try_into().unwrap()) as u128),
                2 => cval(w, u16::from_le_bytes(d.try_into().unwrap()) as u128),
                _ => { let mut b = [0u8; 16]; b[..nn].copy_from_slice(d); cval(w, u128::from_le_bytes(b)) }
            });
        }
        let o = o.clone();
        let s = o.sym.as_ref().unwrap();
        let mut r: Option<Ex> = None;
        for i in 0..nn {
            let b = if s[off + i] == 0 { cst(8, o.data[off + i] as u128) } else {
                let e = Ex(s[off + i]);
                match st.known.get(&e) { Some(v) => cst(8, *v), None => e }
            };
            r = Some(match r { None => b, Some(l) => concat(b, l) });
        }
        let r = r.unwrap();
        let r = if width(r) > w { extract(r, 0, w) } else { r };
        Ok(from_ex(r))
    }
    pub fn load(&mut self, st: &mut State, addr: u64, ty: TyId) -> R<Val> {
        match self.m.types[ty as usize].clone() {
            Ty::Int(w) => self.load_bits(st, addr, ((w + 7) / 8) as u64, w),
            Ty::Ptr => self.load_bits(st, addr, 8, 64),
            Ty::Float(w) => self.load_bits(st, addr, w as u64 / 8, w),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, t) = self.m.field_off(ty, i); v.push(self.load(st, addr + o, t)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let s = self.m.size_align(e).0;
                let mut v = vec![];
                for i in 0..n { v.push(self.load(st, addr + i * s, e)?); }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let b = self.m.bits(e);
                if b % 8 == 0 {
                    let mut v = vec![];
                    for i in 0..n as u64 { v.push(self.load(st, addr + i * (b / 8), e)?); }
                    Ok(Val::A(Rc::new(v)))
                } else { eng!("load of bit vector") }
            }
            t => eng!("load of {:?}", t),
        }
    }
    pub fn store_bits(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let e = match v { Val::E(e) => { let e = st.simp(*e); match konst(e) { Some(k) => { let k = k; let (o, off) = self.obj_mut(st, addr, n as u64, "store")?; o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]); o.clear_sym(off, n); return Ok(()); } None => Some(e) } } _ => None };
        let (o, off) = self.obj_mut(st, addr, n as u64, "store")?;
        match (v, e) {
            (Val::C(c), _) => {
                if n <= 8 { o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); }
                else { o.data[off..off + 8].copy_from_slice(&c.to_le_bytes()); for x in &mut o.data[off + 8..off + n] { *x = 0; } }
                o.clear_sym(off, n);
            }
            (Val::W(c), _) => { o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); o.clear_sym(off, n); }
            (_, Some(e)) => {
                let w = width(e);
                let e = if (w as usize) < n * 8 { zext(e, n as u32 * 8) } else { e };
                for i in 0..n {
                    let b = extract(e, i as u32 * 8, 8);
                    o.set(off + i, &from_ex(b));
                }
            }
            _ => eng!("store of {:?}", v),
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        match self.m.types[ty as usize].clone() {
            Ty::Int(w) => self.store_bits(st, addr, ((w + 7) / 8) as usize, v),
            Ty::Ptr => self.store_bits(st, addr, 8, v),
            Ty::Float(w) => self.store_bits(st, addr, w as usize / 8, v),
            Ty::Struct(f, _) => {
                if let Val::A(a) = v { for i in 0..f.len() { let (o, t) = self.m.field_off(ty, i); self.store(st, addr + o, t, &a[i])?; } Ok(()) }
                else { self.store_const(st, addr, ty, v) }
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                if let Val::A(a) = v {
                    if self.m.bits(e) % 8 != 0 { eng!("store of bit vector"); }
                    let s = if matches!(self.m.types[ty as usize], Ty::Vector(..)) { self.m.bits(e) / 8 } else { self.m.size_align(e).0 };
                    for (i, x) in a.iter().enumerate() { self.store(st, addr + i as u64 * s, e, x)?; }
                    Ok(())
                } else { self.store_const(st, addr, ty, v) }
            }
            t => eng!("store of {:?}", t),
        }
    }
    fn store_const(&mut self, st: &mut State, addr: u64, ty: TyId, v: &Val) -> R<()> {
        let n = self.m.size_align(ty).0 as usize;
        let mut b = vec![0u8; n];
        init_bytes(&self.m, ty, v, &mut b);
        let (o, off) = self.obj_mut(st, addr, n as u64, "store")?;
        o.data[off..off + n].copy_from_slice(&b);
        o.clear_sym(off, n);
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, addr, n, "read")?;
        let o = o.clone();
        Ok((0..n as usize).map(|i| match o.byte(off + i) { Val::E(e) => match st.known.get(&e) { Some(v) => Val::C(*v as u64), None => Val::E(e) }, v => v }).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[Val]) -> R<()> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, addr, b.len() as u64, "write")?;
        for (i, v) in b.iter().enumerate() { o.set(off + i, v); }
        Ok(())
    }
    pub fn cstr(&mut self, st: &mut State, addr: u64) -> R<Vec<u8>> {
        let mut v = vec![];
        loop {
            let b = self.read_bytes(st, addr + v.len() as u64, 1)?;
            let c = self.conc(st, &b[0], 8)? as u8;
            if c == 0 { return Ok(v); }
            v.push(c);
        }
    }

    /// concrete address, or a table read when the address is symbolic
    fn load_sym(&mut self, st: &mut State, e: Ex, ty: TyId) -> R<Val> {
        let e = st.simp(e);
        if let Some(v) = konst(e) { return self.load(st, v as u64, ty); }
        // base object = high half under the current model
        let a0 = st.eval(e) as u64;
        let id = a0 >> 32;
        let w = match self.m.types[ty as usize] { Ty::Int(w) => w, Ty::Ptr => 64, _ => 0 };
        if w == 0 || w > 64 { let a = self.conc(st, &Val::E(e), 64)?; return self.load(st, a, ty); }
        if st.mem.get(id).is_none() { self.materialise(st, id); }
        let n = ((w + 7) / 8) as u64;
        let size = match st.mem.get(id) { Some(o) => o.data.len() as u64, None => return Err(self.miss(st, a0, n, "load")) };
        let base = id << 32;
        // a table within a larger object: constant start plus a small value
        let (lo, x) = split_const(e);
        let lo = (lo as u64).wrapping_sub(base) as u128;
        let ub = upper(x, 8);
        let window = if lo < size as u128 && ub <= 4096 { lo as u64..=(lo + ub) as u64 } else { 0..=u64::MAX };
        if size < n || size > 2048 && *window.end() == u64::MAX { let a = self.conc(st, &Val::E(e), 64)?; return self.load(st, a, ty); }
        // in bounds?
        let off = bin(Op::Sub, e, cst(64, base as u128));
        let inb = ule(off, cst(64, (size - n) as u128));
        if !self.decide(st, inb)? {
            let a = st.eval(e) as u64;
            if a >> 32 == id { return Err(self.miss(st, a, n, "load")); }
            let a = self.conc(st, &Val::E(e), 64)?;
            return self.load(st, a, ty);
        }
        let off = st.simp(off);
        // feasible offsets: multiples of the access size unless the solver says otherwise
        let mut offs: Vec<u64> = vec![];
        let lowbits = n.trailing_zeros();
        let aligned = n.is_power_of_two() && lowbits > 0 && konst(extract(off, 0, lowbits)) == Some(0);
        let step = if aligned { n } else { 1 };
        let mut o = 0;
        while o + n <= size { if window.contains(&o) { offs.push(o); } o += step; if o > *window.end() { break; } }
        if offs.is_empty() { let a = self.conc(st, &Val::E(e), 64)?; return self.load(st, a, ty); }
        if offs.len() > 512 { let a = self.conc(st, &Val::E(e), 64)?; return self.load(st, a, ty); }
        // run-length encode
        let mut vals = vec![];
        for o in &offs { vals.push(self.load(st, base + o, ty)?); }
        let mut r = to_ex(vals.last().unwrap(), w);
        let mut i = vals.len() - 1;
        while i > 0 {
            i -= 1;
            let x = to_ex(&vals[i], w);
            let same_run = i + 1 < vals.len() && to_ex(&vals[i + 1], w) == x;
            if same_run { continue; }
            // value x holds for offsets < offs[i+1] (later runs override nothing below)
            r = ite(ult(off, cst(64, offs[i + 1] as u128)), x, r);
        }
        Ok(from_ex(canon(r)))
    }

    // ---------------------------------------------------------------- instructions

    #[inline]
    fn op(st: &State, o: &Opnd) -> Val { match o { Opnd::R(r) => st.cur.regs[*r as usize].clone(), Opnd::C(v) => v.clone() } }
    #[inline]
    fn set(st: &mut State, d: Reg, v: Val) { st.cur.regs[d as usize] = v; }

    fn jump(st: &mut State, to: u32) {
        let from = st.cur.blk;
        let b = &st.cur.body.blocks[to as usize];
        if b.phis.len() == 1 {
            let p = &b.phis[0];
            let v = p.src.iter().find(|(s, _)| *s == from).map(|(_, o)| Self::op(st, o)).expect("phi source");
            Self::set(st, p.d, v);
        } else if !b.phis.is_empty() {
            let vals: Vec<Val> = b.phis.iter().map(|p| p.src.iter().find(|(s, _)| *s == from).map(|(_, o)| Self::op(st, o)).expect("phi source")).collect();
            for (p, v) in b.phis.iter().zip(vals) { Self::set(st, p.d, v); }
        }
        st.cur.blk = to;
        st.cur.pc = b.start;
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                BinOp::AShr => (sext64(x, w) >> y.min(w as u64 - 1)) as u64,
                BinOp::UDiv => { if y == 0 { return Err(Stop::Bad("div0".into(), "division by zero".into())); } x / y }
                BinOp::URem => { if y == 0 { return Err(Stop::Bad("div0".into(), "division by zero".into())); } x % y }
                BinOp::SDiv => { if y == 0 { return Err(Stop::Bad("div0".into(), "division by zero".into())); } sext64(x, w).wrapping_div(sext64(y, w)) as u64 }
                BinOp::SRem => { if y == 0 { return Err(Stop::Bad("div0".into(), "division by zero".into())); } sext64(x, w).wrapping_rem(sext64(y, w)) as u64 }
            };
            return Ok(Val::C(r & m));
        }
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr };
        let _ = st;
        Ok(from_ex(bin(o, to_ex(a, w), to_ex(b, w))))
    }
    pub fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext64(x, w), sext64(y, w));
            return Val::C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy,
            } as u64);
        }
        let (x, y) = (to_ex(a, w), to_ex(b, w));
        from_ex(match p {
            Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)),
            Pred::Ult => ult(x, y), Pred::Ugt => ult(y, x), Pred::Ule => not(ult(y, x)), Pred::Uge => not(ult(x, y)),
            Pred::Slt => bin(Op::Slt, x, y), Pred::Sgt => bin(Op::Slt, y, x), Pred::Sle => not(bin(Op::Slt, y, x)), Pred::Sge => not(bin(Op::Slt, x, y)),
        })
    }
    fn lanes(v: &Val) -> R<Rc<Vec<Val>>> { match v { Val::A(a) => Ok(a.clone()), v => Err(Stop::Engine(format!("vector expected {:?}", v))) } }

    fn flatten_bits(&self, v: &Val, ty: TyId) -> Ex {
        match (&self.m.types[ty as usize], v) {
            (Ty::Vector(_, e), Val::A(a)) => {
                let mut r: Option<Ex> = None;
                for x in a.iter() { let b = self.flatten_bits(x, *e); r = Some(match r { None => b, Some(l) => concat(b, l) }); }
                r.unwrap()
            }
            _ => to_ex(v, self.m.bits(ty) as u32),
        }
    }
    fn unflatten_bits(&self, e: Ex, ty: TyId) -> Val {
        match &self.m.types[ty as usize] {
            Ty::Vector(n, t) => { let b = self.m.bits(*t) as u32; Val::A(Rc::new((0..*n).map(|i| from_ex(extract(e, i * b, b))).collect())) }
            _ => from_ex(e),
        }
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &Val) -> R<Val> {
        if let (Ty::Vector(_, fe), Ty::Vector(_, te)) = (self.m.types[from as usize].clone(), self.m.types[to as usize].clone()) {
            if op != CastOp::BitCast {
                let v = Self::lanes(a)?;
                let mut r = vec![];
                for x in v.iter() { r.push(self.cast(op, fe, te, x)?); }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        let (fw, tw) = (self.m.bits(from) as u32, self.m.bits(to) as u32);
        Ok(match op {
            CastOp::Trunc => match a { Val::C(c) => Val::C(*c & mask(tw) as u64), Val::W(c) => cval(tw, **c), Val::E(e) => from_ex(trunc(*e, tw)), _ => eng!("trunc") },
            CastOp::ZExt => match a { Val::C(c) => cval(tw, *c as u128), Val::W(_) => a.clone(), Val::E(e) => from_ex(zext(*e, tw)), _ => eng!("zext") },
            CastOp::SExt => match a { Val::C(c) => cval(tw, sx(*c as u128, fw) as u128), Val::W(c) => cval(tw, sx(**c, fw) as u128), Val::E(e) => from_ex(sext(*e, tw)), _ => eng!("sext") },
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw == fw { a.clone() } else { match a { Val::C(c) => cval(tw, *c as u128), Val::W(c) => cval(tw, **c), Val::E(e) => from_ex(if tw > fw { zext(*e, tw) } else { trunc(*e, tw) }), _ => eng!("ptr cast") } }
            }
            CastOp::BitCast => {
                let vecs = matches!(self.m.types[from as usize], Ty::Vector(..)) || matches!(self.m.types[to as usize], Ty::Vector(..));
                if !vecs { a.clone() } else {
                    if fw > 128 { eng!("bitcast of {} bits", fw); }
                    let e = self.flatten_bits(a, from);
                    self.unflatten_bits(e, to)
                }
            }
            CastOp::FpToUi => from_ex(fop(FOp::ToU, tw, to_ex(a, fw), to_ex(a, fw))),
            CastOp::FpToSi => from_ex(fop(FOp::ToS, tw, to_ex(a, fw), to_ex(a, fw))),
            CastOp::UiToFp => from_ex(fop(FOp::FromU, tw, to_ex(a, fw), to_ex(a, fw))),
            CastOp::SiToFp => from_ex(fop(FOp::FromS, tw, to_ex(a, fw), to_ex(a, fw))),
            CastOp::FpTrunc => from_ex(fop(FOp::ToF32, tw, to_ex(a, fw), to_ex(a, fw))),
            CastOp::FpExt => from_ex(fop(FOp::ToF64, tw, to_ex(a, fw), to_ex(a, fw))),
        })
    }

    /// a concrete pointer from an operand; symbolic pointers are concretised
    #[inline]
    fn ptr(&mut self, st: &mut State, o: &Opnd) -> R<u64> {
        match Self::op(st, o) { Val::C(c) => Ok(c), v => self.conc(st, &v, 64) }
    }

    pub fn alloca(st: &mut State, n: u64) -> u64 {
        let id = STACK_BASE + st.mem.stack.len() as u64;
        st.mem.stack.push(Rc::new(Obj::new(n as usize)));
        id << 32
    }

    pub fn push_call(&mut self, st: &mut State, s: u32, args: Vec<Val>, ret: Option<Reg>, normal: Option<u32>) -> R<()> {
        let body = match self.m.body(s) { Some(b) => b, None => eng!("call of undefined {}", self.m.syms[s as usize].dem) };
        if st.frames.len() > 3000 { return Err(Stop::Bad("stack-overflow".into(), "call depth above 3000".into())); }
        if self.called.len() <= s as usize { self.called.resize(self.m.syms.len(), false); }
        self.called[s as usize] = true;
        let mut regs = args;
        regs.resize(body.nregs as usize, Val::C(0));
        let sp = st.mem.stack.len();
        let f = Frame { body, sym: s, pc: body.blocks[body.entry as usize].start, blk: body.entry, regs, ret, normal, sp };
        let old = std::mem::replace(&mut st.cur, f);
        st.frames.push(Rc::new(old));
        Ok(())
    }
    fn do_ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        st.mem.stack.truncate(st.cur.sp);
        let (ret, normal) = (st.cur.ret, st.cur.normal);
        match st.frames.pop() {
            None => return Err(Stop::Done),
            Some(f) => st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone()),
        }
        if let (Some(r), Some(v)) = (ret, v) { Self::set(st, r, v); }
        self.after_call(st, normal);
        Ok(())
    }
    pub fn after_call(&mut self, st: &mut State, normal: Option<u32>) {
        match normal { Some(b) => Self::jump(st, b), None => st.cur.pc += 1 }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let body: &'static Body = st.cur.body;
        let ins: &'static Ins = &body.ins[st.cur.pc];
        match ins {
            Ins::Bin { op, w, n, d, a, b } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let r = if *n == 0 {
                    // symbolic divisors: zero is checked by the code before it divides
                    self.binop(st, *op, *w, &x, &y)?
                } else {
                    let (x, y) = (Self::lanes(&x)?, Self::lanes(&y)?);
                    let mut r = vec![];
                    for (p, q) in x.iter().zip(y.iter()) { r.push(self.binop(st, *op, *w, p, q)?); }
                    Val::A(Rc::new(r))
                };
                Self::set(st, *d, r);
            }
            Ins::ICmp { p, w, n, d, a, b } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let r = if *n == 0 { Self::icmp(*p, *w, &x, &y) } else {
                    let (x, y) = (Self::lanes(&x)?, Self::lanes(&y)?);
                    Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p2, q)| Self::icmp(*p, *w, p2, q)).collect()))
                };
                Self::set(st, *d, r);
            }
            Ins::FBin { op, w, d, a, b } => {
                let (x, y) = (Self::op(st, a), Self::op(st, b));
                let o = match op { FBinOp::Add => FOp::Add, FBinOp::Sub => FOp::Sub, FBinOp::Mul => FOp::Mul, FBinOp::Div => FOp::Div, FBinOp::Rem => eng!("frem") };
                let r = from_ex(fop(o, *w, to_ex(&x, *w), to_ex(&y, *w)));
                Self::set(st, *d, r);
            }
            Ins::FNeg { w, d, a } => {
                let x = Self::op(st, a);
                let r = from_ex(bin(Op::Xor, to_ex(&x, *w), cst(*w, 1 << (*w - 1))));
                Self::set(st, *d, r);
            }
            Ins::FCmp { p, w, d, a, b } => {
                let (x, y) = (to_ex(&Self::op(st, a), *w), to_ex(&Self::op(st, b), *w));
                let lt = |x, y| fop(FOp::Lt, 1, x, y);
                let le = |x, y| fop(FOp::Le, 1, x, y);
                let fe = |x, y| fop(FOp::Eq, 1, x, y);
                let ord = |x, y| and(fe(x, x), fe(y, y));
                let r = match p.as_str() {
                    "oeq" => fe(x, y), "olt" => lt(x, y), "ogt" => lt(y, x), "ole" => le(x, y), "oge" => le(y, x),
                    "one" => and(ord(x, y), not(fe(x, y))), "ord" => ord(x, y), "uno" => not(ord(x, y)),
                    "une" => not(fe(x, y)), "ueq" => or(not(ord(x, y)), fe(x, y)),
                    "ult" => not(le(y, x)), "ugt" => not(le(x, y)), "ule" => not(lt(y, x)), "uge" => not(lt(x, y)),
                    p => eng!("fcmp {}", p),
                };
                Self::set(st, *d, from_ex(r));
            }
            Ins::Cast { op, from, to, d, a } => {
                let x = Self::op(st, a);
                let r = self.cast(*op, *from, *to, &x)?;
                Self::set(st, *d, r);
            }
            Ins::Load { d, ty, p } => {
                let r = match Self::op(st, p) { Val::C(a) => self.load(st, a, *ty)?, Val::E(e) => self.load_sym(st, e, *ty)?, v => eng!("load from {:?}", v) };
                Self::set(st, *d, r);
            }
            Ins::Store { ty, v, p } => {
                let a = self.ptr(st, p)?;
                let x = Self::op(st, v);
                self.store(st, a, *ty, &x)?;
            }
            Ins::Gep { d, base, off, idx } => {
                let b = Self::op(st, base);
                let r = match b {
                    Val::C(mut c) if idx.iter().all(|(i, _, _)| matches!(Self::op(st, i), Val::C(_))) => {
                        c = c.wrapping_add(*off as u64);
                        for (i, w, s) in idx { c = c.wrapping_add((sext64(Self::op(st, i).c(), *w).wrapping_mul(*s)) as u64); }
                        Val::C(c)
                    }
                    Val::A(_) => eng!("vector gep"),
                    b => {
                        let mut e = bin(Op::Add, cst(64, *off as u64 as u128), to_ex(&b, 64));
                        for (i, w, s) in idx {
                            let x = to_ex(&Self::op(st, i), *w);
                            let x = if *w < 64 { sext(x, 64) } else { x };
                            e = bin(Op::Add, e, bin(Op::Mul, cst(64, *s as u64 as u128), x));
                        }
                        from_ex(e)
                    }
                };
                Self::set(st, *d, r);
            }
            Ins::Alloca { d, size, n } => {
                let k = match n { None => 1, Some((v, w)) => { let v = Self::op(st, v); self.conc(st, &v, *w)? } };
                let a = Self::alloca(st, size * k);
                Self::set(st, *d, Val::C(a));
            }
            Ins::Call { d, ret, f, args, normal } => {
                let s = match f {
                    Callee::Sym(s) => *s,
                    Callee::Ind(o) => {
                        let a = self.ptr(st, o)?;
                        let id = a >> 32;
                        if a as u32 != 0 || id < SYM_BASE || id >= SYM_BASE + self.m.syms.len() as u64 { return Err(Stop::Bad("memory".into(), format!("call through {:#x}", a))); }
                        (id - SYM_BASE) as u32
                    }
                    Callee::Asm(a) => {
                        let r = ext::asm(self, a, *ret)?;
                        if let (Some(d), Some(r)) = (d, r) { Self::set(st, *d, r); }
                        st.cur.pc += 1;
                        return Ok(());
                    }
                };
                let k = self.handler(s);
                match k {
                    K::Body => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| Self::op(st, o)).collect();
                        return self.push_call(st, s, av, *d, *normal);
                    }
                    K::Nop => { self.after_call(st, *normal); return Ok(()); }
                    k => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| Self::op(st, o)).collect();
                        let r = ext::call(self, st, s, k, av, args, *ret, *d, *normal)?;
                        match r {
                            ext::Out::Val(v) => { if let Some(d) = d { Self::set(st, *d, v); } self.after_call(st, *normal); }
                            ext::Out::Handled => {}
                        }
                        return Ok(());
                    }
                }
            }
            Ins::Br(b) => { Self::jump(st, *b); return Ok(()); }
            Ins::CondBr(c, a, b) => {
                let v = Self::op(st, c);
                let t = self.truth(st, &v)?;
                Self::jump(st, if t { *a } else { *b });
                return Ok(());
            }
            Ins::Switch { w, v, def, cases } => {
                let x = Self::op(st, v);
                if let Some(c) = x.conc() {
                    let t = cases.iter().find(|(k, _)| *k == c).map(|(_, b)| *b).unwrap_or(*def);
                    Self::jump(st, t);
                    return Ok(());
                }
                let e = match x { Val::E(e) => st.simp(e), _ => eng!("switch") };
                // one decision per target block
                let mut targets: Vec<(u32, Ex)> = vec![];
                for (k, b) in cases {
                    let c = eq(cst(*w, *k), e);
                    if *b == *def { continue; }
                    match targets.iter_mut().find(|(t, _)| t == b) { Some((_, x)) => *x = or(*x, c), None => targets.push((*b, c)) }
                }
                for (t, c) in targets { if self.decide(st, c)? { Self::jump(st, t); return Ok(()); } }
                Self::jump(st, *def);
                return Ok(());
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| Self::op(st, o));
                return self.do_ret(st, r);
            }
            Ins::Unreachable => return Err(Stop::Bad("unreachable".into(), "unreachable code executed".into())),
            Ins::Select { d, ty, c, a, b } => {
                let cv = Self::op(st, c);
                let r = match cv {
                    Val::C(x) => Self::op(st, if x & 1 != 0 { a } else { b }),
                    Val::A(cs) => {
                        let (x, y) = (Self::lanes(&Self::op(st, a))?, Self::lanes(&Self::op(st, b))?);
                        let w = match &self.m.types[*ty as usize] { Ty::Vector(_, e) => self.m.bits(*e) as u32, _ => eng!("select") };
                        Val::A(Rc::new(cs.iter().enumerate().map(|(i, c)| from_ex(ite(to_ex(c, 1), to_ex(&x[i], w), to_ex(&y[i], w)))).collect()))
                    }
                    Val::E(e) => {
                        let e = st.simp(e);
                        match self.m.types[*ty as usize] {
                            Ty::Int(w) if w <= 128 && konst(e).is_none() => from_ex(ite(e, to_ex(&Self::op(st, a), w), to_ex(&Self::op(st, b), w))),
                            _ => { let t = self.decide(st, e)?; Self::op(st, if t { a } else { b }) }
                        }
                    }
                    v => eng!("select on {:?}", v),
                };
                Self::set(st, *d, r);
            }
            Ins::ExtractValue { d, a, idx } => {
                let mut v = Self::op(st, a);
                for i in idx { v = match &v { Val::A(x) => x[*i as usize].clone(), v => eng!("extractvalue {:?}", v) }; }
                Self::set(st, *d, v);
            }
            Ins::InsertValue { d, a, v, idx } => {
                fn ins(t: &Val, v: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() { return v; }
                    match t { Val::A(x) => { let mut y = (**x).clone(); y[idx[0] as usize] = ins(&x[idx[0] as usize], v, &idx[1..]); Val::A(Rc::new(y)) } t => panic!("insertvalue into {:?}", t) }
                }
                let r = ins(&Self::op(st, a), Self::op(st, v), idx);
                Self::set(st, *d, r);
            }
            Ins::ExtractElement { d, a, i } => {
                let iv = Self::op(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let v = Self::lanes(&Self::op(st, a))?[i].clone();
                Self::set(st, *d, v);
            }
            Ins::InsertElement { d, a, v, i } => {
                let iv = Self::op(st, i);
                let i = self.conc(st, &iv, 64)? as usize;
                let mut x = (*Self::lanes(&Self::op(st, a))?).clone();
                x[i] = Self::op(st, v);
                Self::set(st, *d, Val::A(Rc::new(x)));
            }
            Ins::Shuffle { d, n, a, b, mask } => {
                let (x, y) = (Self::lanes(&Self::op(st, a))?, Self::lanes(&Self::op(st, b))?);
                let n = *n as i32;
                let r = mask.iter().map(|m| if *m < 0 { Val::C(0) } else if *m < n { x[*m as usize].clone() } else { y[(*m - n) as usize].clone() }).collect();
                Self::set(st, *d, Val::A(Rc::new(r)));
            }
            Ins::Rmw { op, w, d, p, v } => {
                let a = self.ptr(st, p)?;
                let n = ((*w + 7) / 8) as usize;
                let old = self.load_bits(st, a, n as u64, *w)?;
                let x = Self::op(st, v);
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.binop(st, BinOp::Add, *w, &old, &x)?,
                    RmwOp::Sub => self.binop(st, BinOp::Sub, *w, &old, &x)?,
                    RmwOp::And => self.binop(st, BinOp::And, *w, &old, &x)?,
                    RmwOp::Or => self.binop(st, BinOp::Or, *w, &old, &x)?,
                    RmwOp::Xor => self.binop(st, BinOp::Xor, *w, &old, &x)?,
                    RmwOp::Nand => { let t = self.binop(st, BinOp::And, *w, &old, &x)?; self.binop(st, BinOp::Xor, *w, &t, &cval(*w, u128::MAX))? }
                    RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                        let pr = match op { RmwOp::Max => Pred::Sgt, RmwOp::Min => Pred::Slt, RmwOp::UMax => Pred::Ugt, _ => Pred::Ult };
                        let c = Self::icmp(pr, *w, &old, &x);
                        from_ex(ite(to_ex(&c, 1), to_ex(&old, *w), to_ex(&x, *w)))
                    }
                };
                self.store_bits(st, a, n, &new)?;
                Self::set(st, *d, old);
            }
            Ins::CmpXchg { ty, d, p, c, n } => {
                let a = self.ptr(st, p)?;
                let w = self.m.bits(*ty) as u32;
                let old = self.load(st, a, *ty)?;
                let e = Self::icmp(Pred::Eq, w, &old, &Self::op(st, c));
                let t = self.truth(st, &e)?;
                if t { let v = Self::op(st, n); self.store(st, a, *ty, &v)?; }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(t as u64)])));
            }
            Ins::Copy { d, a } => { let v = Self::op(st, a); Self::set(st, *d, v); }
            Ins::Nop => {}
        }
        st.cur.pc += 1;
        Ok(())
    }

    #[inline]
    fn handler(&mut self, s: u32) -> K {
        let i = s as usize;
        if i >= self.handlers.len() { self.handlers.resize(self.m.syms.len().max(i + 1), None); }
        if let Some(k) = self.handlers[i] { return k; }
        let mut t = s;
        while let SymKind::Alias(x) = self.m.syms[t as usize].kind { t = x; }
        let k = if t != s { let k = self.handler(t); if let K::Body = k { K::AliasOf(t) } else { k } } else { ext::resolve(&self.m, s) };
        self.handlers[i] = Some(k);
        k
    }

    // ---------------------------------------------------------------- results

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.syms[st.cur.sym as usize].dem.clone()];
        for f in st.frames.iter().rev().take(40) { v.push(self.m.syms[f.sym as usize].dem.clone()); }
        v
    }
    pub fn concrete_inputs(&self, st: &State, model: &[u64]) -> Vec<(String, Vec<u64>)> {
        st.inputs.iter().map(|i| (i.tag.to_string(), match i.conc { Some(v) => vec![v], None => (i.first..i.first + i.n).map(|k| model.get(k as usize).copied().unwrap_or(0)).collect() })).collect()
    }
    pub fn concrete_trace(&self, st: &State, model: &[u64]) -> Vec<Vec<u8>> {
        let mut memo = Default::default();
        st.trace.iter().map(|t| t.iter().map(|v| match v { Val::C(c) => *c as u8, Val::E(e) => eval(*e, &|i| model.get(i as usize).copied().unwrap_or(0) as u128, &mut memo) as u8, _ => 0 }).collect()).collect()
    }
    pub fn violate(&mut self, st: &State, kind: &str, id: &str, model: &[u64]) {
        let known = self.known_ids.iter().any(|k| k == id);
        let inputs = self.concrete_inputs(st, model);
        let trace = self.concrete_trace(st, model);
        let n = self.st.viol.iter().filter(|v| v.kind == kind && v.id == id).count();
        if let Some(v) = self.st.viol.iter_mut().find(|v| v.kind == kind && v.id == id) { v.count += 1; }
        if n < 3 {
            let stack = self.stack(st);
            let path = st.pc.iter().take(60).map(|e| { let s = show(*e); s.chars().take(300).collect() }).collect();
            self.st.viol.push(Violation { kind: kind.into(), id: id.into(), inputs, trace, stack, count: 1, path });
        }
        if !known { self.stop_now = true; }
    }

    pub fn run(&mut self, mut st: State) {
        let r = loop {
            st.steps += 1;
            if let Some(p) = &mut self.prof { *p.entry(st.cur.sym).or_insert(0) += 1; }
            if st.steps > st.step_limit { break Stop::Bad("hang".into(), format!("no end within {} instructions", st.step_limit)); }
            match self.step(&mut st) { Ok(()) => {} Err(e) => break e }
            if self.stop_now { return; }
        };
        self.st.steps += st.steps;
        self.st.max_path_steps = self.st.max_path_steps.max(st.steps);
        match r {
            Stop::Done => {
                self.st.paths += 1;
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                // reservoir sample of path models
                let n = self.st.samples.len();
                let take = if n < self.max_samples { Some(n) } else if self.max_samples > 0 { let k = (self.rng >> 33) % self.st.paths; if (k as usize) < self.max_samples { Some(k as usize) } else { None } } else { None };
                if let Some(k) = take {
                    let model = st.model.clone();
                    let s = Sample { inputs: self.concrete_inputs(&st, &model), trace: self.concrete_trace(&st, &model) };
                    if k == n { self.st.samples.push(s); } else { self.st.samples[k] = s; }
                }
            }
            Stop::Assumed => self.st.assumed += 1,
            Stop::Bad(kind, id) => {
                self.st.paths += 1;
                let model = st.model.clone();
                let id = if kind == "hang" { "hang".to_string() } else { id };
                self.violate(&st, &kind, &id, &model);
            }
            Stop::Engine(e) => {
                self.st.paths += 1;
                let at = self.stack(&st).into_iter().take(6).collect::<Vec<_>>().join(" < ");
                *self.st.engine_errors.entry(format!("{} at {}", e, at)).or_insert(0) += 1;
            }
        }
    }
}
