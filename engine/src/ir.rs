//! Parser for the textual LLVM IR that rustc + `opt` produce, lowered to a compact form.
//! Function bodies are parsed lazily, on first call.
use crate::val::Val;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
pub type Reg = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u32, TyId),
    Label,
    Meta,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(Reg),
    C(Val),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FBinOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastOp { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Callee { Sym(u32), Ind(Opnd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u32, n: u32, d: Reg, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u32, n: u32, d: Reg, a: Opnd, b: Opnd },
    FBin { op: FBinOp, w: u32, d: Reg, a: Opnd, b: Opnd },
    FCmp { p: String, w: u32, d: Reg, a: Opnd, b: Opnd },
    FNeg { w: u32, d: Reg, a: Opnd },
    Cast { op: CastOp, from: TyId, to: TyId, d: Reg, a: Opnd },
    Load { d: Reg, ty: TyId, p: Opnd },
    Store { ty: TyId, v: Opnd, p: Opnd },
    Gep { d: Reg, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Alloca { d: Reg, size: u64, n: Option<(Opnd, u32)> },
    Call { d: Option<Reg>, ret: TyId, f: Callee, args: Vec<(TyId, Opnd)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Select { d: Reg, ty: TyId, c: Opnd, a: Opnd, b: Opnd },
    ExtractValue { d: Reg, a: Opnd, idx: Vec<u32> },
    InsertValue { d: Reg, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractElement { d: Reg, a: Opnd, i: Opnd },
    InsertElement { d: Reg, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: Reg, n: u32, a: Opnd, b: Opnd, mask: Vec<i32> },
    Rmw { op: RmwOp, w: u32, d: Reg, p: Opnd, v: Opnd },
    CmpXchg { ty: TyId, d: Reg, p: Opnd, c: Opnd, n: Opnd },
    Copy { d: Reg, a: Opnd },
    Nop,
}

pub struct Phi { pub d: Reg, pub src: Vec<(u32, Opnd)> }
pub struct Block { pub start: usize, pub phis: Vec<Phi> }
pub struct Body { pub ins: Vec<Ins>, pub blocks: Vec<Block>, pub nregs: u32, pub entry: u32 }

pub enum SymKind {
    Undefined,
    Func { text: (usize, usize), params: Vec<Reg>, param_names: Vec<String>, ret: TyId, body: Option<&'static Body> },
    Decl { ret: TyId },
    Global { ty: TyId, size: u64, init: Option<Val>, constant: bool },
    Alias(u32),
}
pub struct Sym { pub name: String, pub dem: String, pub kind: SymKind }

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub syms: Vec<Sym>,
    pub symmap: HashMap<String, u32>,
}

/// symbols occupy object ids SYM_BASE.. ; address = id << 32
pub const SYM_BASE: u64 = 16;
pub fn sym_addr(s: u32) -> u64 { (SYM_BASE + s as u64) << 32 }

#[derive(Clone, PartialEq, Debug)]
enum Tok<'a> {
    Local(String),
    Global(String),
    Int(i128),
    Float(f64),
    HexFloat(u64),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Id(&'a str),
    P(u8),
    Meta,
    Attr,
    Dots,
    Label(String),
    Comdat,
    Eof,
}

struct Lex<'a> {
    b: &'a [u8],
    pos: usize,
    line: u32,
    tok: Tok<'a>,
    tline: u32,
    ptok_line: u32,
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(b: &'a [u8]) -> Self {
        let mut l = Lex { b, pos: 0, line: 1, tok: Tok::Eof, tline: 1, ptok_line: 1 };
        l.next();
        l
    }
    fn next(&mut self) -> Tok<'a> {
        self.ptok_line = self.tline;
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        let mut v = Vec::new();
        self.pos += 1;
        while self.b[self.pos] != b'"' {
            let c = self.b[self.pos];
            if c == b'\\' {
                let n = self.b[self.pos + 1];
                if n == b'\\' { v.push(b'\\'); self.pos += 2; }
                else {
                    let h = |c: u8| -> u8 { (c as char).to_digit(16).unwrap() as u8 };
                    v.push(h(n) * 16 + h(self.b[self.pos + 2]));
                    self.pos += 3;
                }
            } else { v.push(c); self.pos += 1; }
        }
        self.pos += 1;
        v
    }
    fn word(&mut self) -> &'a str {
        let s = self.pos;
        while self.pos < self.b.len() && is_idc(self.b[self.pos]) { self.pos += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.b[s..self.pos]) }
    }
    fn name(&mut self) -> String {
        if self.b[self.pos] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else { self.word().to_string() }
    }
    fn lex(&mut self) -> Tok<'a> {
        loop {
            if self.pos >= self.b.len() { self.tline = self.line; return Tok::Eof; }
            let c = self.b[self.pos];
            match c {
                b'\n' => { self.line += 1; self.pos += 1; }
                b' ' | b'\t' | b'\r' => self.pos += 1,
                b';' => { while self.pos < self.b.len() && self.b[self.pos] != b'\n' { self.pos += 1; } }
                b'#' if self.b[self.pos..].starts_with(b"#dbg") => {
                    while self.pos < self.b.len() && self.b[self.pos] != b'\n' { self.pos += 1; }
                }
                _ => break,
            }
        }
        self.tline = self.line;
        let c = self.b[self.pos];
        match c {
            b'.' | b'-' | b'$' if {
                let mut p = self.pos;
                while p < self.b.len() && is_idc(self.b[p]) { p += 1; }
                p > self.pos && self.b.get(p) == Some(&b':') && (p > self.pos + 1)
            } => {
                let w = self.word();
                self.pos += 1;
                Tok::Label(w.to_string())
            }
            b'%' => { self.pos += 1; Tok::Local(self.name()) }
            b'@' => { self.pos += 1; Tok::Global(self.name()) }
            b'$' => { self.pos += 1; self.name(); Tok::Comdat }
            b'!' => {
                self.pos += 1;
                if self.pos < self.b.len() {
                    let c = self.b[self.pos];
                    if c == b'"' { self.quoted(); }
                    else if is_idc(c) { self.word(); }
                }
                Tok::Meta
            }
            b'#' => { self.pos += 1; self.word(); Tok::Attr }
            b'"' => {
                let v = self.quoted();
                if self.pos < self.b.len() && self.b[self.pos] == b':' {
                    self.pos += 1;
                    return Tok::Label(String::from_utf8_lossy(&v).into_owned());
                }
                Tok::Str(v)
            }
            b'c' if self.b.get(self.pos + 1) == Some(&b'"') => { self.pos += 1; Tok::CStr(self.quoted()) }
            b'.' if self.b[self.pos..].starts_with(b"...") => { self.pos += 3; Tok::Dots }
            b'+' | b'-' if [&b"inf"[..], b"qnan"].iter().any(|n| self.b[self.pos + 1..].starts_with(n)) => {
                self.pos += 1;
                let v: u64 = if self.word() == "inf" { 0x7ff0 << 48 } else { 0x7ff8 << 48 };
                Tok::HexFloat(v | if c == b'-' { 1 << 63 } else { 0 })
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if self.pos < self.b.len() && self.b[self.pos] == b':' {
                    self.pos += 1;
                    return Tok::Label(w.to_string());
                }
                // floats like 1.000000e+00
                if w.starts_with("0x") {
                    let h = &w[2..];
                    return Tok::HexFloat(u64::from_str_radix(h.trim_start_matches(|c: char| "KMLHR".contains(c)), 16).unwrap_or(0));
                }
                if w.contains('.') {
                    let mut s = w.to_string();
                    if self.b[self.pos] == b'+' { self.pos += 1; s.push('+'); s.push_str(self.word()); }
                    return Tok::Float(s.parse().unwrap());
                }
                match w.parse::<i128>() {
                    Ok(v) => Tok::Int(v),
                    Err(_) => match w.parse::<u128>() { Ok(v) => Tok::Int(v as i128), Err(_) => panic!("bad int {}", w) },
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let w = self.word();
                if self.pos < self.b.len() && self.b[self.pos] == b':' {
                    self.pos += 1;
                    return Tok::Label(w.to_string());
                }
                // hex float literal forms "f0x..." (LLVM >= 22)
                if let Some(h) = w.strip_prefix("f0x") {
                    return Tok::HexFloat(u64::from_str_radix(h, 16).unwrap_or(0) | (1 << 63) >> 63 << 62 & 0);
                }
                Tok::Id(w)
            }
            _ => { self.pos += 1; Tok::P(c) }
        }
    }
    fn isp(&self, c: u8) -> bool { self.tok == Tok::P(c) }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.next(); true } else { false } }
    fn expp(&mut self, c: u8) {
        if !self.eatp(c) {
            let s = self.pos.saturating_sub(200);
            let e = (self.pos + 80).min(self.b.len());
            panic!("expected {:?} got {:?} near: {}", c as char, self.tok, String::from_utf8_lossy(&self.b[s..e]));
        }
    }
    fn isid(&self, s: &str) -> bool { matches!(&self.tok, Tok::Id(x) if *x == s) }
    fn eatid(&mut self, s: &str) -> bool { if self.isid(s) { self.next(); true } else { false } }
    fn skip_line(&mut self) {
        // skip tokens until the first token of a later line than the previously consumed token
        let l = self.ptok_line;
        while self.tok != Tok::Eof && self.tline == l { self.next_keep(); }
    }
    fn next_keep(&mut self) { let t = self.lex(); self.tok = t; }
    fn skip_parens(&mut self) {
        // current token is an opening paren
        let mut d = 0;
        loop {
            match self.tok { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => return, _ => {} }
            self.next();
            if d == 0 { return; }
        }
    }
}

pub struct FnCtx { regs: HashMap<String, Reg>, blocks: HashMap<String, u32>, nblocks: u32 }
impl FnCtx {
    fn reg(&mut self, n: &str) -> Reg {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) { return *r; }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn cval(w: u32, v: u128) -> Val {
    let v = v & mask(w);
    if w <= 64 { Val::C(v as u64) } else { Val::W(Rc::new(v)) }
}

impl Module {
    fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let i = self.types.len() as u32;
        self.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn int_ty(&mut self, w: u32) -> TyId { self.ty(Ty::Int(w)) }
    pub fn sym(&mut self, n: &str) -> u32 {
        if let Some(i) = self.symmap.get(n) { return *i; }
        let i = self.syms.len() as u32;
        let dem = format!("{:#}", rustc_demangle::demangle(n));
        self.syms.push(Sym { name: n.to_string(), dem, kind: SymKind::Undefined });
        self.symmap.insert(n.to_string(), i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.types[t as usize] {
            Ty::Void | Ty::Label | Ty::Meta => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => (*w as u64 / 8, *w as u64 / 8),
            Ty::Array(n, e) => { let (s, a) = self.size_align(*e); (s * n, a) }
            Ty::Vector(n, e) => {
                let bits = *n as u64 * self.bits(*e);
                let b = ((bits + 7) / 8).next_power_of_two();
                (b, b)
            }
            Ty::Struct(f, packed) => {
                let mut off = 0; let mut al = 1;
                for x in f {
                    let (s, a) = self.size_align(*x);
                    let a = if *packed { 1 } else { a };
                    al = al.max(a);
                    off = (off + a - 1) / a * a + s;
                }
                ((off + al - 1) / al * al, al)
            }
        }
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vector(n, e) => *n as u64 * self.bits(*e),
            _ => self.size_align(t).0 * 8,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, x) in f.iter().enumerate() {
                    let (s, a) = self.size_align(*x);
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if k == i { return (off, *x); }
                    off += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) => (self.size_align(*e).0 * i as u64, *e),
            Ty::Vector(_, e) => (self.bits(*e) / 8 * i as u64, *e),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.types[t as usize] {
            Ty::Int(w) => cval(*w, 0),
            Ty::Ptr | Ty::Float(_) => Val::C(0),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) => {
                if *n > 4096 { return Val::Z; }
                let z = self.zero(*e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vector(n, e) => { let z = self.zero(*e); Val::A(Rc::new(vec![z; *n as usize])) }
            _ => Val::C(0),
        }
    }

    fn parse_type(&mut self, l: &mut Lex) -> TyId {
        let t = match l.next() {
            Tok::Id(s) => match s {
                "void" => self.ty(Ty::Void),
                "ptr" => {
                    let r = self.ty(Ty::Ptr);
                    if l.isid("addrspace") { l.next(); l.skip_parens(); }
                    r
                }
                "float" => self.ty(Ty::Float(32)),
                "double" => self.ty(Ty::Float(64)),
                "half" | "bfloat" => self.ty(Ty::Float(16)),
                "fp128" => self.ty(Ty::Float(128)),
                "x86_fp80" => self.ty(Ty::Float(128)),
                "label" => self.ty(Ty::Label),
                "metadata" | "token" => self.ty(Ty::Meta),
                "opaque" => self.ty(Ty::Void),
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => { let w = s[1..].parse().unwrap(); self.ty(Ty::Int(w)) }
                s => panic!("type? {} near {}", s, String::from_utf8_lossy(&l.b[l.pos.saturating_sub(200)..(l.pos + 50).min(l.b.len())])),
            },
            Tok::Local(n) => match self.named.get(&n) { Some(t) => *t, None => panic!("named type {}", n) },
            Tok::P(b'[') => {
                let n = match l.next() { Tok::Int(n) => n as u64, t => panic!("array len {:?}", t) };
                assert!(l.eatid("x"));
                let e = self.parse_type(l);
                l.expp(b']');
                self.ty(Ty::Array(n, e))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                if !l.eatp(b'}') {
                    loop { f.push(self.parse_type(l)); if !l.eatp(b',') { break; } }
                    l.expp(b'}');
                }
                self.ty(Ty::Struct(f, false))
            }
            Tok::P(b'<') => {
                if l.eatp(b'{') {
                    let mut f = vec![];
                    if !l.eatp(b'}') {
                        loop { f.push(self.parse_type(l)); if !l.eatp(b',') { break; } }
                        l.expp(b'}');
                    }
                    l.expp(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = match l.next() { Tok::Int(n) => n as u32, t => panic!("vec len {:?}", t) };
                    assert!(l.eatid("x"));
                    let e = self.parse_type(l);
                    l.expp(b'>');
                    self.ty(Ty::Vector(n, e))
                }
            }
            t => panic!("type? {:?} near {}", t, String::from_utf8_lossy(&l.b[l.pos.saturating_sub(200)..(l.pos + 50).min(l.b.len())])),
        };
        t
    }

    /// parse a constant or local of the given type
    fn parse_value(&mut self, l: &mut Lex, ty: TyId, f: Option<&mut FnCtx>) -> Opnd {
        if let Tok::Local(n) = &l.tok {
            let n = n.clone();
            l.next();
            return Opnd::R(f.expect("local outside function").reg(&n));
        }
        Opnd::C(self.parse_const(l, ty))
    }
    fn parse_tyconst(&mut self, l: &mut Lex) -> (TyId, Val) {
        let t = self.parse_type(l);
        // inrange etc. not expected
        let v = self.parse_const(l, t);
        (t, v)
    }
    fn parse_const(&mut self, l: &mut Lex, ty: TyId) -> Val {
        let tt = self.types[ty as usize].clone();
        match l.next() {
            Tok::Int(v) => match tt { Ty::Int(w) => cval(w, v as u128), Ty::Ptr => Val::C(v as u64), Ty::Float(64) => Val::C((v as f64).to_bits()), _ => panic!("int const of {:?}", tt) },
            Tok::Float(v) => match tt { Ty::Float(32) => Val::C((v as f32).to_bits() as u64), _ => Val::C(v.to_bits()) },
            Tok::HexFloat(b) => match tt { Ty::Float(32) => Val::C((f64::from_bits(b) as f32).to_bits() as u64), _ => Val::C(b) },
            Tok::CStr(v) => Val::B(Rc::new(v)),
            Tok::Global(n) => Val::C(sym_addr(self.sym(&n))),
            Tok::P(b'[') | Tok::P(b'{') => {
                let mut v = vec![];
                if !(l.isp(b']') || l.isp(b'}')) {
                    loop { v.push(self.parse_tyconst(l).1); if !l.eatp(b',') { break; } }
                }
                l.next();
                Val::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                let packed = l.eatp(b'{');
                let mut v = vec![];
                if !(l.isp(b'}') || l.isp(b'>')) {
                    loop { v.push(self.parse_tyconst(l).1); if !l.eatp(b',') { break; } }
                }
                if packed { l.expp(b'}'); }
                l.expp(b'>');
                Val::A(Rc::new(v))
            }
            Tok::Id(s) => match s {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(ty),
                "splat" => {
                    l.expp(b'(');
                    let (_, v) = self.parse_tyconst(l);
                    l.expp(b')');
                    match tt { Ty::Vector(n, _) => Val::A(Rc::new(vec![v; n as usize])), _ => panic!("splat") }
                }
                "getelementptr" => {
                    while matches!(l.tok, Tok::Id("inbounds") | Tok::Id("nuw") | Tok::Id("nusw") | Tok::Id("inrange")) {
                        let r = l.isid("inrange");
                        l.next();
                        if r && l.isp(b'(') { l.skip_parens(); }
                    }
                    l.expp(b'(');
                    let t = self.parse_type(l);
                    l.expp(b',');
                    let (_, b) = self.parse_tyconst(l);
                    let mut addr = b.c();
                    let mut cur = t;
                    let mut first = true;
                    while l.eatp(b',') {
                        let (it, iv) = self.parse_tyconst(l);
                        let w = self.bits(it) as u32;
                        let i = sext64(iv.c(), w);
                        if first { addr = addr.wrapping_add((i as u64).wrapping_mul(self.size_align(cur).0)); first = false; }
                        else { let (o, nt) = self.field_off(cur, i as usize); addr = addr.wrapping_add(o); cur = nt; }
                    }
                    l.expp(b')');
                    Val::C(addr)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    l.expp(b'(');
                    let (_, v) = self.parse_tyconst(l);
                    assert!(l.eatid("to"));
                    let t = self.parse_type(l);
                    l.expp(b')');
                    let w = self.bits(t) as u32;
                    match v { Val::C(c) => cval(w, c as u128), v => v }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                    let op = s;
                    while matches!(l.tok, Tok::Id("nuw") | Tok::Id("nsw")) { l.next(); }
                    l.expp(b'(');
                    let (t, a) = self.parse_tyconst(l);
                    l.expp(b',');
                    let (_, b) = self.parse_tyconst(l);
                    l.expp(b')');
                    let w = self.bits(t) as u32;
                    let (a, b) = (a.c(), b.c());
                    let r = match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a.wrapping_mul(b) };
                    cval(w, r as u128)
                }
                s => panic!("const? {} near {}", s, String::from_utf8_lossy(&l.b[l.pos.saturating_sub(200)..(l.pos + 50).min(l.b.len())])),
            },
            t => panic!("const? {:?} near {}", t, String::from_utf8_lossy(&l.b[l.pos.saturating_sub(200)..(l.pos + 50).min(l.b.len())])),
        }
    }

    fn skip_attrs(l: &mut Lex) {
        // attributes between a type and a value (or before a type)
        loop {
            match &l.tok {
                Tok::Attr => { l.next(); }
                Tok::Str(_) => { l.next(); if l.eatp(b'=') { l.next(); } }
                Tok::Id(s) => {
                    let s = *s;
                    if matches!(s, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "sub" | "add" | "xor" | "and" | "or" | "mul" | "asm") {
                        return;
                    }
                    if is_type_word(s) { return; }
                    l.next();
                    if s == "align" && matches!(l.tok, Tok::Int(_)) { l.next(); }
                    else if l.isp(b'(') { l.skip_parens(); }
                }
                _ => return,
            }
        }
    }

    pub fn load(text: Vec<u8>) -> Module {
        let text = Rc::new(text);
        let mut m = Module { text: text.clone(), types: vec![], tymap: HashMap::new(), named: HashMap::new(), syms: vec![], symmap: HashMap::new() };
        m.ty(Ty::Void);
        m.sym("getrandom");
        // named types first (they may be used before their definition)
        let b: &[u8] = &text;
        // line-wise top level scan
        let mut pos = 0;
        let mut pending: Vec<(usize, usize)> = vec![];
        while pos < b.len() {
            let e = memchr(b, pos, b'\n');
            let line = &b[pos..e];
            if line.starts_with(b"%") { pending.push((pos, e)); }
            pos = e + 1;
        }
        for (s, e) in pending {
            let mut l = Lex::new(&b[s..e]);
            let n = match l.next() { Tok::Local(n) => n, t => panic!("{:?}", t) };
            l.expp(b'=');
            assert!(l.eatid("type"));
            let t = m.parse_type(&mut l);
            m.named.insert(n, t);
        }
        pos = 0;
        while pos < b.len() {
            let e = memchr(b, pos, b'\n');
            let line = &b[pos..e];
            if line.starts_with(b"@") { m.parse_global(line); pos = e + 1; }
            else if line.starts_with(b"define ") {
                // find the end of the body: a line consisting of "}"
                let mut q = e + 1;
                loop {
                    let e2 = memchr(b, q, b'\n');
                    if &b[q..e2] == b"}" { m.parse_header(line, Some((e + 1, q))); pos = e2 + 1; break; }
                    q = e2 + 1;
                    assert!(q < b.len());
                }
            }
            else if line.starts_with(b"declare ") { m.parse_header(line, None); pos = e + 1; }
            else { pos = e + 1; }
        }
        m
    }

    fn parse_global(&mut self, line: &[u8]) {
        let mut l = Lex::new(line);
        let n = match l.next() { Tok::Global(n) => n, t => panic!("{:?}", t) };
        let s = self.sym(&n);
        l.expp(b'=');
        let mut external = false;
        let constant;
        loop {
            match l.next() {
                Tok::Id("global") => { constant = false; break; }
                Tok::Id("constant") => { constant = true; break; }
                Tok::Id("alias") => {
                    let _t = self.parse_type(&mut l);
                    l.expp(b',');
                    let (_, v) = self.parse_tyconst(&mut l);
                    let target = ((v.c() >> 32) - SYM_BASE) as u32;
                    self.syms[s as usize].kind = SymKind::Alias(target);
                    return;
                }
                Tok::Id("external") | Tok::Id("extern_weak") => external = true,
                Tok::Id(_) => { if l.isp(b'(') { l.skip_parens(); } }
                t => panic!("global {:?}", t),
            }
        }
        let ty = self.parse_type(&mut l);
        let init = if external { None } else { Some(self.parse_const(&mut l, ty)) };
        let size = self.size_align(ty).0;
        self.syms[s as usize].kind = SymKind::Global { ty, size, init, constant };
    }

    fn parse_header(&mut self, line: &[u8], body: Option<(usize, usize)>) {
        let mut l = Lex::new(line);
        l.next(); // define / declare
        // linkage, cconv, attributes
        Self::skip_attrs(&mut l);
        let ret = self.parse_type(&mut l);
        let n = match l.next() { Tok::Global(n) => n, t => panic!("fn name {:?} in {}", t, String::from_utf8_lossy(&line[..line.len().min(200)])) };
        let s = self.sym(&n);
        l.expp(b'(');
        let mut names = vec![];
        let mut unnamed = 0;
        if !l.eatp(b')') {
            loop {
                if l.tok == Tok::Dots { l.next(); break; }
                let _t = self.parse_type(&mut l);
                Self::skip_attrs(&mut l);
                if let Tok::Local(n) = &l.tok { names.push(n.clone()); l.next(); }
                else { names.push(format!("{}", unnamed)); unnamed += 1; }
                if !l.eatp(b',') { break; }
            }
        }
        self.syms[s as usize].kind = match body {
            None => SymKind::Decl { ret },
            Some(text) => SymKind::Func { text, params: (0..names.len() as u32).collect(), param_names: names, ret, body: None },
        };
    }

    pub fn body(&mut self, s: u32) -> Option<&'static Body> {
        let (text, names) = match &self.syms[s as usize].kind {
            SymKind::Func { body: Some(b), .. } => return Some(b),
            SymKind::Func { text, param_names, .. } => (*text, param_names.clone()),
            _ => return None,
        };
        let src = self.text.clone();
        let b = self.parse_body(&src[text.0..text.1], &names);
        let b: &'static Body = Box::leak(Box::new(b));
        if let SymKind::Func { body, .. } = &mut self.syms[s as usize].kind { *body = Some(b); }
        Some(b)
    }

    fn parse_body(&mut self, text: &[u8], names: &[String]) -> Body {
        let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        for n in names { f.reg(n); }
        let mut l = Lex::new(text);
        let entry_name = match &l.tok {
            Tok::Label(n) => n.clone(),
            _ => {
                let c = names.iter().filter_map(|n| n.parse::<u32>().ok()).count();
                format!("{}", c)
            }
        };
        let entry = f.blk(&entry_name);
        let mut ins: Vec<Ins> = vec![];
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur = entry;
        blocks.insert(cur, Block { start: 0, phis: vec![] });
        loop {
            match l.tok.clone() {
                Tok::Eof => break,
                Tok::Label(n) => {
                    l.next();
                    cur = f.blk(&n);
                    blocks.insert(cur, Block { start: ins.len(), phis: vec![] });
                }
                _ => {
                    let i = self.parse_ins(&mut l, &mut f, &mut blocks.get_mut(&cur).unwrap().phis);
                    if let Some(i) = i { ins.push(i); }
                }
            }
        }
        let nb = f.nblocks as usize;
        let mut bv = Vec::with_capacity(nb);
        for i in 0..nb as u32 { bv.push(blocks.remove(&i).unwrap_or(Block { start: usize::MAX, phis: vec![] })); }
        Body { ins, blocks: bv, nregs: f.regs.len() as u32, entry }
    }

    fn tyval(&mut self, l: &mut Lex, f: &mut FnCtx) -> (TyId, Opnd) {
        let t = self.parse_type(l);
        Self::skip_attrs(l);
        let v = self.parse_value(l, t, Some(f));
        (t, v)
    }

    fn vec_or_scalar(&self, t: TyId) -> (u32, u32) {
        // (element width, lanes; 0 = scalar)
        match &self.types[t as usize] {
            Ty::Int(w) => (*w, 0),
            Ty::Ptr => (64, 0),
            Ty::Float(w) => (*w, 0),
            Ty::Vector(n, e) => (self.bits(*e) as u32, *n),
            t => panic!("scalar/vector expected: {:?}", t),
        }
    }

    fn parse_ins(&mut self, l: &mut Lex, f: &mut FnCtx, phis: &mut Vec<Phi>) -> Option<Ins> {
        let line0 = l.tline;
        let mut d: Option<Reg> = None;
        if let Tok::Local(n) = &l.tok {
            let n = n.clone();
            l.next();
            l.expp(b'=');
            d = Some(f.reg(&n));
        }
        let op = match l.next() { Tok::Id(s) => s, t => panic!("instruction? {:?} near {}", t, String::from_utf8_lossy(&l.b[l.pos.saturating_sub(100)..(l.pos + 50).min(l.b.len())])) };
        let bin = |s: &str| Some(match s { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, _ => return None });
        let res: Option<Ins> = if let Some(bo) = bin(op) {
            while matches!(l.tok, Tok::Id("nuw") | Tok::Id("nsw") | Tok::Id("exact") | Tok::Id("disjoint")) { l.next(); }
            let t = self.parse_type(l);
            let a = self.parse_value(l, t, Some(f));
            l.expp(b',');
            let b = self.parse_value(l, t, Some(f));
            let (w, n) = self.vec_or_scalar(t);
            Some(Ins::Bin { op: bo, w, n, d: d.unwrap(), a, b })
        } else {
            match op {
                "icmp" => {
                    l.eatid("samesign");
                    let p = match l.next() { Tok::Id(s) => match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, s => panic!("pred {}", s) }, t => panic!("pred {:?}", t) };
                    let t = self.parse_type(l);
                    let a = self.parse_value(l, t, Some(f));
                    l.expp(b',');
                    let b = self.parse_value(l, t, Some(f));
                    let (w, n) = self.vec_or_scalar(t);
                    Some(Ins::ICmp { p, w, n, d: d.unwrap(), a, b })
                }
                "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    while matches!(l.tok, Tok::Id(s) if !is_type_word(s)) { l.next(); }
                    let t = self.parse_type(l);
                    let a = self.parse_value(l, t, Some(f));
                    l.expp(b',');
                    let b = self.parse_value(l, t, Some(f));
                    let op = match op { "fadd" => FBinOp::Add, "fsub" => FBinOp::Sub, "fmul" => FBinOp::Mul, "fdiv" => FBinOp::Div, _ => FBinOp::Rem };
                    Some(Ins::FBin { op, w: self.bits(t) as u32, d: d.unwrap(), a, b })
                }
                "fneg" => {
                    while matches!(l.tok, Tok::Id(s) if !is_type_word(s)) { l.next(); }
                    let t = self.parse_type(l);
                    let a = self.parse_value(l, t, Some(f));
                    Some(Ins::FNeg { w: self.bits(t) as u32, d: d.unwrap(), a })
                }
                "fcmp" => {
                    let mut p = String::new();
                    while let Tok::Id(s) = &l.tok { if is_type_word(s) { break; } p = s.to_string(); l.next(); }
                    let t = self.parse_type(l);
                    let a = self.parse_value(l, t, Some(f));
                    l.expp(b',');
                    let b = self.parse_value(l, t, Some(f));
                    Some(Ins::FCmp { p, w: self.bits(t) as u32, d: d.unwrap(), a, b })
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                    while matches!(l.tok, Tok::Id("nuw") | Tok::Id("nsw") | Tok::Id("nneg")) { l.next(); }
                    let (from, a) = self.tyval(l, f);
                    assert!(l.eatid("to"));
                    let to = self.parse_type(l);
                    let op = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" | "addrspacecast" => CastOp::BitCast, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptrunc" => CastOp::FpTrunc, _ => CastOp::FpExt };
                    Some(Ins::Cast { op, from, to, d: d.unwrap(), a })
                }
                "load" => {
                    while matches!(l.tok, Tok::Id("atomic") | Tok::Id("volatile")) { l.next(); }
                    let ty = self.parse_type(l);
                    l.expp(b',');
                    let (_, p) = self.tyval(l, f);
                    Some(Ins::Load { d: d.unwrap(), ty, p })
                }
                "store" => {
                    while matches!(l.tok, Tok::Id("atomic") | Tok::Id("volatile")) { l.next(); }
                    let (ty, v) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, p) = self.tyval(l, f);
                    Some(Ins::Store { ty, v, p })
                }
                "getelementptr" => {
                    while matches!(l.tok, Tok::Id("inbounds") | Tok::Id("nuw") | Tok::Id("nusw")) { l.next(); }
                    let t = self.parse_type(l);
                    l.expp(b',');
                    let (_, base) = self.tyval(l, f);
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = t;
                    let mut first = true;
                    while l.isp(b',') {
                        // may be metadata
                        let save = (l.pos, l.line, l.tok.clone(), l.tline, l.ptok_line);
                        l.next();
                        if l.tok == Tok::Meta { l.pos = save.0; l.line = save.1; l.tok = save.2; l.tline = save.3; l.ptok_line = save.4; break; }
                        let (it, iv) = self.tyval(l, f);
                        let w = self.bits(it) as u32;
                        let (scale, nt) = if first { (self.size_align(cur).0 as i64, cur) } else {
                            match self.types[cur as usize].clone() {
                                Ty::Array(_, e) => (self.size_align(e).0 as i64, e),
                                Ty::Vector(_, e) => (self.bits(e) as i64 / 8, e),
                                Ty::Struct(..) => {
                                    let k = match &iv { Opnd::C(v) => v.c() as usize, _ => panic!("struct gep idx") };
                                    let (o, nt) = self.field_off(cur, k);
                                    off += o as i64;
                                    cur = nt;
                                    continue;
                                }
                                t => panic!("gep into {:?}", t),
                            }
                        };
                        first = false;
                        cur = nt;
                        match iv {
                            Opnd::C(v) => off = off.wrapping_add(sext64(v.c(), w).wrapping_mul(scale)),
                            v => idx.push((v, w, scale)),
                        }
                    }
                    Some(Ins::Gep { d: d.unwrap(), base, off, idx })
                }
                "alloca" => {
                    l.eatid("inalloca");
                    let t = self.parse_type(l);
                    let mut n = None;
                    let size = self.size_align(t).0;
                    if l.isp(b',') && l.tline == line0 {
                        l.next();
                        if !l.isid("align") && l.tok != Tok::Meta {
                            let (t, v) = self.tyval(l, f);
                            n = Some((v, self.bits(t) as u32));
                        }
                    }
                    Some(Ins::Alloca { d: d.unwrap(), size, n })
                }
                "tail" | "musttail" | "notail" | "call" | "invoke" => {
                    if op != "call" && op != "invoke" { assert!(l.eatid("call")); }
                    let inv = op == "invoke";
                    Self::skip_attrs(l);
                    let ret = self.parse_type(l);
                    if l.isp(b'(') { l.skip_parens(); }
                    let callee = match l.next() {
                        Tok::Global(n) => Callee::Sym(self.sym(&n)),
                        Tok::Local(n) => Callee::Ind(Opnd::R(f.reg(&n))),
                        Tok::Id("asm") => {
                            let mut s = String::new();
                            while let Tok::Id(_) = l.tok { l.next(); }
                            if let Tok::Str(x) = l.next() { s = String::from_utf8_lossy(&x).into_owned(); }
                            l.expp(b',');
                            l.next();
                            Callee::Asm(s)
                        }
                        Tok::Id("inttoptr") => {
                            l.expp(b'(');
                            let (_, v) = self.parse_tyconst(l);
                            assert!(l.eatid("to"));
                            self.parse_type(l);
                            l.expp(b')');
                            Callee::Ind(Opnd::C(v))
                        }
                        t => panic!("callee {:?}", t),
                    };
                    l.expp(b'(');
                    let mut args = vec![];
                    if !l.eatp(b')') {
                        loop {
                            let t = self.parse_type(l);
                            if self.types[t as usize] == Ty::Meta {
                                // skip metadata operand
                                let mut dep = 0;
                                loop {
                                    match l.tok { Tok::P(b'(') | Tok::P(b'{') => dep += 1, Tok::P(b'}') => dep -= 1, Tok::P(b')') => { if dep == 0 { break; } dep -= 1; } Tok::P(b',') if dep == 0 => break, _ => {} }
                                    l.next();
                                }
                                args.push((t, Opnd::C(Val::C(0))));
                            } else {
                                Self::skip_attrs(l);
                                let v = self.parse_value(l, t, Some(f));
                                args.push((t, v));
                            }
                            if !l.eatp(b',') { break; }
                        }
                        l.expp(b')');
                    }
                    let mut normal = None;
                    if inv {
                        // skip attrs / bundles until "to"
                        while !l.isid("to") { l.next(); }
                        l.next();
                        assert!(l.eatid("label"));
                        normal = Some(match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) });
                        assert!(l.eatid("unwind"));
                        assert!(l.eatid("label"));
                        if let Tok::Local(n) = l.next() { f.blk(&n); }
                    }
                    Some(Ins::Call { d, ret, f: callee, args, normal })
                }
                "br" => {
                    if l.eatid("label") {
                        let b = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                        Some(Ins::Br(b))
                    } else {
                        let (_, c) = self.tyval(l, f);
                        l.expp(b',');
                        assert!(l.eatid("label"));
                        let a = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                        l.expp(b',');
                        assert!(l.eatid("label"));
                        let b = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                        Some(Ins::CondBr(c, a, b))
                    }
                }
                "switch" => {
                    let (t, v) = self.tyval(l, f);
                    l.expp(b',');
                    assert!(l.eatid("label"));
                    let def = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                    l.expp(b'[');
                    let mut cases = vec![];
                    while !l.eatp(b']') {
                        let (_, c) = self.parse_tyconst(l);
                        l.expp(b',');
                        assert!(l.eatid("label"));
                        let b = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                        cases.push((c.c128(), b));
                    }
                    Some(Ins::Switch { w: self.bits(t) as u32, v, def, cases })
                }
                "ret" => {
                    let t = self.parse_type(l);
                    if self.types[t as usize] == Ty::Void { Some(Ins::Ret(None)) }
                    else { Some(Ins::Ret(Some(self.parse_value(l, t, Some(f))))) }
                }
                "unreachable" => Some(Ins::Unreachable),
                "resume" => Some(Ins::Unreachable),
                "landingpad" => {
                    let _ = self.parse_type(l);
                    // clauses may be on following lines
                    loop {
                        if l.eatid("cleanup") { continue; }
                        if l.isid("catch") || l.isid("filter") { l.next(); let (_t, _v) = self.tyval(l, f); continue; }
                        break;
                    }
                    Some(Ins::Unreachable)
                }
                "phi" => {
                    while matches!(l.tok, Tok::Id(s) if !is_type_word(s)) { l.next(); }
                    let t = self.parse_type(l);
                    let mut src = vec![];
                    loop {
                        l.expp(b'[');
                        let v = self.parse_value(l, t, Some(f));
                        l.expp(b',');
                        let b = match l.next() { Tok::Local(n) => f.blk(&n), t => panic!("{:?}", t) };
                        l.expp(b']');
                        src.push((b, v));
                        if l.isp(b',') && l.tline == line0 {
                            let save = (l.pos, l.line, l.tok.clone(), l.tline, l.ptok_line);
                            l.next();
                            if !l.isp(b'[') { l.pos = save.0; l.line = save.1; l.tok = save.2; l.tline = save.3; l.ptok_line = save.4; break; }
                        } else { break; }
                    }
                    phis.push(Phi { d: d.unwrap(), src });
                    None
                }
                "select" => {
                    while matches!(l.tok, Tok::Id(s) if !is_type_word(s)) { l.next(); }
                    let (_, c) = self.tyval(l, f);
                    l.expp(b',');
                    let (ty, a) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, b) = self.tyval(l, f);
                    Some(Ins::Select { d: d.unwrap(), ty, c, a, b })
                }
                "extractvalue" => {
                    let (_, a) = self.tyval(l, f);
                    let mut idx = vec![];
                    while l.isp(b',') { let save = (l.pos, l.line, l.tok.clone(), l.tline, l.ptok_line); l.next(); match l.tok.clone() { Tok::Int(i) => { l.next(); idx.push(i as u32) } _ => { l.pos = save.0; l.line = save.1; l.tok = save.2; l.tline = save.3; l.ptok_line = save.4; break } } }
                    Some(Ins::ExtractValue { d: d.unwrap(), a, idx })
                }
                "insertvalue" => {
                    let (_, a) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, v) = self.tyval(l, f);
                    let mut idx = vec![];
                    while l.isp(b',') { let save = (l.pos, l.line, l.tok.clone(), l.tline, l.ptok_line); l.next(); match l.tok.clone() { Tok::Int(i) => { l.next(); idx.push(i as u32) } _ => { l.pos = save.0; l.line = save.1; l.tok = save.2; l.tline = save.3; l.ptok_line = save.4; break } } }
                    Some(Ins::InsertValue { d: d.unwrap(), a, v, idx })
                }
                "extractelement" => {
                    let (_, a) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, i) = self.tyval(l, f);
                    Some(Ins::ExtractElement { d: d.unwrap(), a, i })
                }
                "insertelement" => {
                    let (_, a) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, v) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, i) = self.tyval(l, f);
                    Some(Ins::InsertElement { d: d.unwrap(), a, v, i })
                }
                "shufflevector" => {
                    let (t, a) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, b) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, m) = self.tyval(l, f);
                    let n = match &self.types[t as usize] { Ty::Vector(n, _) => *n, _ => panic!() };
                    let mask = match m { Opnd::C(Val::A(v)) => v.iter().map(|x| x.c() as i32).collect(), _ => panic!("shuffle mask") };
                    Some(Ins::Shuffle { d: d.unwrap(), n, a, b, mask })
                }
                "atomicrmw" => {
                    l.eatid("volatile");
                    let o = match l.next() { Tok::Id(s) => match s { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "nand" => RmwOp::Nand, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, s => panic!("rmw {}", s) }, t => panic!("{:?}", t) };
                    let (_, p) = self.tyval(l, f);
                    l.expp(b',');
                    let (t, v) = self.tyval(l, f);
                    Some(Ins::Rmw { op: o, w: self.bits(t) as u32, d: d.unwrap(), p, v })
                }
                "cmpxchg" => {
                    while matches!(l.tok, Tok::Id("weak") | Tok::Id("volatile")) { l.next(); }
                    let (_, p) = self.tyval(l, f);
                    l.expp(b',');
                    let (ty, c) = self.tyval(l, f);
                    l.expp(b',');
                    let (_, n) = self.tyval(l, f);
                    Some(Ins::CmpXchg { ty, d: d.unwrap(), p, c, n })
                }
                "fence" => Some(Ins::Nop),
                "freeze" => {
                    let (_, a) = self.tyval(l, f);
                    Some(Ins::Copy { d: d.unwrap(), a })
                }
                s => panic!("instruction {}", s),
            }
        };
        // skip trailing attributes/metadata on the instruction's last line
        l.skip_line();
        res
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    match b[from..].iter().position(|x| *x == c) { Some(p) => from + p, None => b.len() }
}
fn is_type_word(s: &str) -> bool {
    matches!(s, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "label" | "metadata" | "token" | "opaque" | "x86_fp80")
        || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()))
}
