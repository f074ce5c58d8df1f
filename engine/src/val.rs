//! Run-time values.
use crate::expr::{self, Ex};
use std::sync::Arc;

#[derive(Clone)]
pub enum Val {
    /// Concrete scalar of at most 64 bits (zero extended).
    I(u64),
    /// Concrete scalar of more than 64 bits.
    W(Box<u128>),
    S(Ex),
    A(Arc<Vec<Val>>),
}

impl Val {
    pub fn from_ex(e: Ex) -> Val {
        match expr::as_const(&e) {
            Some(c) if e.w <= 64 => Val::I(c as u64),
            Some(c) => Val::W(Box::new(c)),
            None => Val::S(e),
        }
    }
    pub fn from_u128(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I((v & expr::mask(w)) as u64)
        } else {
            Val::W(Box::new(v & expr::mask(w)))
        }
    }
    pub fn to_ex(&self, w: u32) -> Ex {
        match self {
            Val::I(x) => expr::cst(w, *x as u128),
            Val::W(x) => expr::cst(w, **x),
            Val::S(e) => e.clone(),
            Val::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    pub fn conc(&self) -> Option<u128> {
        match self {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
}
