//! Memory: objects addressed as (id << 32) + offset, copy-on-write between states.
use crate::expr::*;
use crate::ir::*;
use crate::val::Val;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, otherwise the expression (8 bits)
    pub sym: Option<Box<[u32]>>,
}
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None } }
    pub fn byte(&self, i: usize) -> Val {
        if let Some(s) = &self.sym { if s[i] != 0 { return Val::E(Ex(s[i])); } }
        Val::C(self.data[i] as u64)
    }
    pub fn set(&mut self, i: usize, v: &Val) {
        match v {
            Val::C(c) => { self.data[i] = *c as u8; if let Some(s) = &mut self.sym { s[i] = 0; } }
            Val::E(e) => {
                let n = self.data.len();
                let s = self.sym.get_or_insert_with(|| vec![0u32; n].into_boxed_slice());
                s[i] = e.0;
            }
            _ => unreachable!(),
        }
    }
    pub fn clear_sym(&mut self, a: usize, n: usize) { if let Some(s) = &mut self.sym { for x in &mut s[a..a + n] { *x = 0; } } }
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];
pub const STACK_BASE: u64 = 1 << 30;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u64,
    pub stack: Vec<Rc<Obj>>,
    empty: Rc<Chunk>,
}

fn empty_chunk() -> Rc<Chunk> { Rc::new(std::array::from_fn(|_| None)) }

pub enum Miss { Null, Freed, NotMaterialised(u32), Fn }

impl Mem {
    pub fn new(nsyms: usize) -> Mem {
        let empty = empty_chunk();
        let first = SYM_BASE as usize + nsyms;
        let n = first / CH + 1;
        Mem { chunks: vec![empty.clone(); n], next: first as u64, stack: vec![], empty }
    }
    pub fn put(&mut self, id: u64, o: Rc<Obj>) {
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(self.empty.clone()); }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(o);
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Rc::new(Obj::new(n)));
        id << 32
    }
    pub fn free(&mut self, id: u64) {
        let c = id as usize / CH;
        let ch = Rc::make_mut(&mut self.chunks[c]);
        ch[id as usize % CH] = None;
        if ch.iter().all(|x| x.is_none()) { self.chunks[c] = self.empty.clone(); }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= STACK_BASE { return self.stack.get((id - STACK_BASE) as usize); }
        match self.chunks.get(id as usize / CH) { Some(c) => c[id as usize % CH].as_ref(), None => None }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= STACK_BASE { return self.stack.get_mut((id - STACK_BASE) as usize).map(Rc::make_mut); }
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => {
                if c[id as usize % CH].is_none() { return None; }
                Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
            }
            None => None,
        }
    }
    pub fn is_heap(&self, id: u64, nsyms: usize) -> bool { id >= SYM_BASE + nsyms as u64 && id < STACK_BASE }
}

/// lay out a constant initialiser
pub fn init_bytes(m: &Module, ty: TyId, v: &Val, out: &mut [u8]) {
    match (v, &m.types[ty as usize]) {
        (Val::Z, _) => {}
        (Val::B(b), _) => out[..b.len()].copy_from_slice(b),
        (Val::C(c), Ty::Int(_) | Ty::Ptr | Ty::Float(_)) => {
            let n = m.size_align(ty).0 as usize;
            let b = c.to_le_bytes();
            let k = n.min(8);
            out[..k].copy_from_slice(&b[..k]);
        }
        (Val::W(c), Ty::Int(_)) => { let n = m.size_align(ty).0 as usize; out[..n].copy_from_slice(&c.to_le_bytes()[..n]); }
        (Val::A(vs), Ty::Struct(f, _)) => {
            for (i, x) in vs.iter().enumerate() { let (o, _) = m.field_off(ty, i); init_bytes(m, f[i], x, &mut out[o as usize..]); }
        }
        (Val::A(vs), Ty::Array(_, e) | Ty::Vector(_, e)) => {
            let s = m.size_align(*e).0 as usize;
            for (i, x) in vs.iter().enumerate() { init_bytes(m, *e, x, &mut out[i * s..]); }
        }
        (v, t) => panic!("initialiser {:?} of {:?}", v, t),
    }
}
