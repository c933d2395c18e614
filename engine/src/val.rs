//! Runtime values of the interpreter.
use crate::expr::Ex;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete, at most 64 bits
    C(u64),
    /// concrete, 65..128 bits
    W(Rc<u128>),
    /// symbolic
    E(Ex),
    /// aggregate / vector
    A(Rc<Vec<Val>>),
    /// constant byte string (initialisers only)
    B(Rc<Vec<u8>>),
    /// large zero aggregate (initialisers only)
    Z,
}

impl Val {
    pub fn c(&self) -> u64 {
        match self {
            Val::C(v) => *v,
            Val::W(v) => **v as u64,
            Val::Z => 0,
            v => panic!("concrete value expected: {:?}", v),
        }
    }
    pub fn c128(&self) -> u128 {
        match self {
            Val::C(v) => *v as u128,
            Val::W(v) => **v,
            Val::Z => 0,
            v => panic!("concrete value expected: {:?}", v),
        }
    }
    #[inline]
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::C(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
}
