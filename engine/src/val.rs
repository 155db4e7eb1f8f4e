use crate::expr::E;
use std::rc::Rc;

/// A value in a virtual register.
#[derive(Clone, Debug)]
pub enum V {
    /// concrete bits
    C(u128),
    /// symbolic expression (never a constant)
    S(E),
    /// aggregate
    A(Rc<Vec<V>>),
    /// undef / poison / uninitialised
    U,
}

#[inline]
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
