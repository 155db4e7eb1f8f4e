//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::{BinOp, Pred};
use crate::val::{mask, sext, V};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Sym(u32),
    Not(E),
    Bin(B, E, E),
    Ite(E, E, E),
    Extract(E, u32),
    ZExt(E),
    SExt(E),
    Concat(E, E),
}

pub struct Arena {
    pub nodes: Vec<(N, u32)>,
    map: FxMap<(N, u32), E>,
    umax: Vec<u128>,
    xmemo: FxMap<(E, u32, u32), E>,
    bmemo: FxMap<(B, E, E), E>,
    /// nodes known to equal an integer sum of single bits
    lin: FxMap<E, std::rc::Rc<Lin>>,
}

/// `k + sum of c * bit`, an exact (not modular) value
#[derive(Clone, Default)]
pub struct Lin {
    k: i128,
    t: Vec<(E, i128)>,
}

impl Lin {
    fn range(&self) -> (i128, i128) {
        let (mut lo, mut hi) = (self.k, self.k);
        for (_, c) in &self.t {
            if *c < 0 {
                lo += c
            } else {
                hi += c
            }
        }
        (lo, hi)
    }
    fn plus(&self, o: &Lin, f: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j == o.t.len() || i < self.t.len() && self.t[i].0 < o.t[j].0 {
                t.push(self.t[i]);
                i += 1;
            } else if i == self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, f * o.t[j].1));
                j += 1;
            } else {
                let c = self.t[i].1 + f * o.t[j].1;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { k: self.k + f * o.k, t }
    }
}

pub struct Model {
    pub vals: Vec<u128>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}

impl Model {
    pub fn new(vals: Vec<u128>) -> Self {
        Model { vals, memo: Default::default() }
    }
}

fn cfold(op: B, w: u32, a: u128, b: u128) -> u128 {
    match op {
        B::Add => mask(a.wrapping_add(b), w),
        B::Sub => mask(a.wrapping_sub(b), w),
        B::Mul => mask(a.wrapping_mul(b), w),
        B::UDiv => {
            if b == 0 {
                mask(u128::MAX, w)
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                mask(if x < 0 { 1 } else { u128::MAX }, w)
            } else {
                mask(x.wrapping_div(y) as u128, w)
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                mask(x.wrapping_rem(y) as u128, w)
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                mask(a << b, w)
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            mask((sext(a, w) >> s) as u128, w)
        }
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Slt => (sext(a, w) < sext(b, w)) as u128,
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], map: Default::default(), umax: vec![], xmemo: Default::default(), bmemo: Default::default(), lin: Default::default() }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].0
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    /// A node exactly as given, with no simplification (self test only).
    pub fn raw(&mut self, n: N, w: u32) -> E {
        self.intern(n, w)
    }
    /// Upper bound the simplifier relies on (self test only).
    pub fn upper(&self, e: E) -> u128 {
        self.umax[e as usize]
    }
    fn intern(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let full = mask(u128::MAX, w);
        let um = match n {
            N::Const(c) => c,
            N::ZExt(a) => self.umax[a as usize],
            N::Ite(_, a, b) => self.umax[a as usize].max(self.umax[b as usize]),
            N::Bin(B::And, a, b) => self.umax[a as usize].min(self.umax[b as usize]),
            N::Bin(B::Or, a, b) | N::Bin(B::Xor, a, b) => {
                let m = self.umax[a as usize].max(self.umax[b as usize]);
                if m == 0 {
                    0
                } else {
                    let bits = 128 - m.leading_zeros();
                    mask(u128::MAX, bits).min(full)
                }
            }
            N::Bin(B::Add, a, b) => {
                let (s, o) = self.umax[a as usize].overflowing_add(self.umax[b as usize]);
                if o || s > full {
                    full
                } else {
                    s
                }
            }
            N::Bin(B::Mul, a, b) => match self.umax[a as usize].checked_mul(self.umax[b as usize]) {
                Some(s) if s <= full => s,
                _ => full,
            },
            N::Bin(B::UDiv, a, b) => match self.cst(b) {
                Some(c) if c > 0 => self.umax[a as usize] / c,
                _ => full,
            },
            N::Bin(B::URem, a, b) => match self.cst(b) {
                Some(c) if c > 0 => (c - 1).min(self.umax[a as usize]),
                _ => full,
            },
            N::Bin(B::LShr, a, b) => match self.cst(b) {
                Some(c) if c < w as u128 => self.umax[a as usize] >> c,
                _ => self.umax[a as usize],
            },
            N::Bin(B::Shl, a, b) => match self.cst(b) {
                Some(c) if c < w as u128 && self.umax[a as usize].leading_zeros() as u128 >= c && (self.umax[a as usize] << c) <= full => self.umax[a as usize] << c,
                _ => full,
            },
            N::Concat(h, l) => {
                let lw = self.w(l);
                (self.umax[h as usize] << lw) | mask(u128::MAX, lw)
            }
            N::Extract(a, 0) => self.umax[a as usize].min(full),
            _ => full,
        };
        self.nodes.push((n, w));
        self.umax.push(um);
        self.map.insert((n, w), e);
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.intern(N::Const(mask(v, w)), w)
    }
    pub fn sym(&mut self, id: u32, w: u32) -> E {
        self.intern(N::Sym(id), w)
    }
    pub fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.c(*c, w),
            V::S(e) => {
                debug_assert_eq!(self.w(*e), w);
                *e
            }
            V::U => self.c(0, w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn to_v(&self, e: E) -> V {
        match self.n(e) {
            N::Const(c) => V::C(c),
            _ => V::S(e),
        }
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a) {
            N::Const(c) => return self.c(!c, w),
            N::Not(x) => return x,
            _ => {}
        }
        self.intern(N::Not(a), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(c) => return self.c(c, w),
            N::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.intern(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(c) => return self.c(sext(c, aw) as u128, w),
            N::SExt(x) => return self.sext(x, w),
            N::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        self.intern(N::SExt(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        if lo == 0 && self.w(a) == w {
            return a;
        }
        if let Some(r) = self.xmemo.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.extract0(a, lo, w);
        self.xmemo.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        match self.n(a) {
            N::Const(c) => return self.c(c >> lo, w),
            N::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return self.c(0, w);
                }
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, w);
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    return self.extract(x, lo, w);
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let hi = self.extract(h, 0, lo + w - lw);
                let lo2 = self.extract(l, lo, lw - lo);
                return self.concat(hi, lo2);
            }
            N::Ite(c, x, y) => {
                if self.cst(x).is_some() || self.cst(y).is_some() || aw <= 64 {
                    let p = self.extract(x, lo, w);
                    let q = self.extract(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(op, p, q);
            }
            N::Not(x) => {
                let p = self.extract(x, lo, w);
                return self.not(p);
            }
            N::Bin(B::LShr, x, s) => {
                if let Some(k) = self.cst(s) {
                    let k = k as u32;
                    if k + lo + w <= aw {
                        return self.extract(x, lo + k, w);
                    }
                    if k + lo >= aw {
                        return self.c(0, w);
                    }
                    let y = self.extract(x, lo + k, aw - lo - k);
                    return self.zext(y, w);
                }
            }
            N::Bin(B::Shl, x, s) => {
                if let Some(k) = self.cst(s) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(x, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.c(0, w);
                    }
                }
            }
            _ => {}
        }
        if lo == 0 {
            // fully covered by known zero high bits: nothing to do
        } else if self.umax[a as usize] >> lo == 0 {
            return self.c(0, w);
        }
        self.intern(N::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        match (self.n(h), self.n(l)) {
            (N::Const(a), N::Const(b)) => return self.c((a << lw) | b, w),
            (N::Extract(x, lo1), N::Extract(y, lo2)) if x == y && lo1 == lo2 + lw => return self.extract(x, lo2, w),
            (N::Extract(x, lo1), _) if x == l && lo1 == lw => return self.extract(x, 0, w),
            (N::Const(0), _) => return self.zext(l, w),
            (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) if c1 == c2 => {
                let p = self.concat(a1, a2);
                let q = self.concat(b1, b2);
                return self.ite(c1, p, q);
            }
            (N::Ite(c1, a1, b1), N::Const(_)) if self.cst(a1).is_some() && self.cst(b1).is_some() => {
                let p = self.concat(a1, l);
                let q = self.concat(b1, l);
                return self.ite(c1, p, q);
            }
            (N::Const(_), N::Ite(c1, a1, b1)) if self.cst(a1).is_some() && self.cst(b1).is_some() => {
                let p = self.concat(h, a1);
                let q = self.concat(h, b1);
                return self.ite(c1, p, q);
            }
            (N::Extract(..), N::Concat(lh, ll)) => {
                // try to merge h with lh
                if let N::Extract(..) = self.n(lh) {
                    let m = self.concat_try(h, lh);
                    if let Some(m) = m {
                        return self.concat(m, ll);
                    }
                }
            }
            (N::ZExt(x), _) => {
                let y = self.concat(x, l);
                return self.zext(y, w);
            }
            (N::Concat(hh, hl), _) => {
                if let Some(m) = self.concat_try(hl, l) {
                    return self.concat(hh, m);
                }
            }
            _ => {}
        }
        self.intern(N::Concat(h, l), w)
    }
    fn concat_try(&mut self, h: E, l: E) -> Option<E> {
        let lw = self.w(l);
        let w = self.w(h) + lw;
        match (self.n(h), self.n(l)) {
            (N::Const(a), N::Const(b)) => Some(self.c((a << lw) | b, w)),
            (N::Extract(x, lo1), N::Extract(y, lo2)) if x == y && lo1 == lo2 + lw => Some(self.extract(x, lo2, w)),
            _ => None,
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(B::Eq, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        self.bin(B::Ult, a, b)
    }
    /// at most one bit may be set, position known: And(x, 2^k) etc.
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        if let Some(r) = self.bmemo.get(&(op, a, b)) {
            return *r;
        }
        let r = self.bin0(op, a, b);
        self.bmemo.insert((op, a, b), r);
        r
    }
    fn bin0(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let rw = match op {
            B::Eq | B::Ult | B::Slt => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(cfold(op, w, x, y), rw);
        }
        // constants to the right for commutative operators
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && (self.cst(a).is_some() || (self.cst(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        if w > 1 && matches!(op, B::Add | B::Sub | B::Eq | B::Ult) {
            if let Some(r) = self.bit_sum(op, a, b, w) {
                return r;
            }
        }
        let cb = self.cst(b);
        let ones = mask(u128::MAX, w);
        match op {
            B::Add if w == 1 => return self.bin(B::Xor, a, b),
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if let Some(k2) = self.cst(y) {
                            let c = self.c(k.wrapping_add(k2), w);
                            return self.bin(B::Add, x, c);
                        }
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cst(x).is_some() && self.cst(y).is_some() {
                            let p = self.bin(op, x, b);
                            let q = self.bin(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                } else {
                    // (x + k) + y  =>  (x + y) + k
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if self.cst(y).is_some() {
                            let s = self.bin(B::Add, x, b);
                            return self.bin(B::Add, s, y);
                        }
                    }
                    if let N::Bin(B::Add, x, y) = self.n(b) {
                        if self.cst(y).is_some() {
                            let s = self.bin(B::Add, x, a);
                            return self.bin(B::Add, s, y);
                        }
                    }
                }
            }
            B::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    let c = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(B::Add, a, c);
                }
                // (x + y) - x
                if let N::Bin(B::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    if self.cst(y).is_some() {
                        let s = self.bin(B::Sub, x, b);
                        return self.bin(B::Add, s, y);
                    }
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                    if k > self.umax[a as usize] {
                        return self.c(0, w);
                    }
                }
            }
            B::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(B::And, a, s);
                    }
                    if k > self.umax[a as usize] {
                        return a;
                    }
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(ones) {
                    return a;
                }
                if w == 1 {
                    if let N::Not(x) = self.n(a) {
                        if x == b {
                            return self.c(0, 1);
                        }
                    }
                    if let N::Not(x) = self.n(b) {
                        if x == a {
                            return self.c(0, 1);
                        }
                    }
                }
                if let Some(k) = cb {
                    // low mask: zext(extract)
                    if (k & (k + 1)) == 0 {
                        let n = 128 - k.leading_zeros();
                        if self.umax[a as usize] <= k {
                            return a;
                        }
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    match self.n(a) {
                        N::Bin(B::And, x, y) => {
                            if let Some(k2) = self.cst(y) {
                                let c = self.c(k & k2, w);
                                return self.bin(B::And, x, c);
                            }
                        }
                        N::ZExt(x) => {
                            let xw = self.w(x);
                            let c = self.c(k, xw);
                            let y = self.bin(B::And, x, c);
                            return self.zext(y, w);
                        }
                        N::Ite(c, x, y) => {
                            if self.cst(x).is_some() && self.cst(y).is_some() {
                                let p = self.bin(op, x, b);
                                let q = self.bin(op, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                    // contiguous mask: concat(0, extract, 0)
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if tz > 0 && (kk & (kk + 1)) == 0 {
                        let n = 128 - kk.leading_zeros();
                        let x = self.extract(a, tz, n);
                        let z = self.c(0, tz);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
            }
            B::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(ones) {
                    return b;
                }
                if w == 1 {
                    if let N::Not(x) = self.n(a) {
                        if x == b {
                            return self.c(1, 1);
                        }
                    }
                    if let N::Not(x) = self.n(b) {
                        if x == a {
                            return self.c(1, 1);
                        }
                    }
                }
                if let Some(e) = self.or_disjoint(a, b) {
                    return e;
                }
                if let Some(e) = self.or_disjoint(b, a) {
                    return e;
                }
                if cb.is_some() {
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cst(x).is_some() && self.cst(y).is_some() {
                            let p = self.bin(op, x, b);
                            let q = self.bin(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(ones) {
                    return self.not(a);
                }
                if let (Some(k), N::ZExt(x)) = (cb, self.n(a)) {
                    let xw = self.w(x);
                    if k <= mask(u128::MAX, xw) {
                        let c = self.c(k, xw);
                        let y = self.bin(B::Xor, x, c);
                        return self.zext(y, w);
                    }
                }
            }
            B::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let lo = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(lo, z);
                }
            }
            B::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
            }
            B::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = k.min(w as u128 - 1) as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            B::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if k > self.umax[a as usize] {
                        return self.c(0, 1);
                    }
                    match self.n(a) {
                        N::ZExt(x) => {
                            let xw = self.w(x);
                            let c = self.c(k, xw);
                            return self.bin(B::Eq, x, c);
                        }
                        N::Ite(c, x, y) => {
                            if self.cst(x).is_some() || self.cst(y).is_some() {
                                let p = self.bin(B::Eq, x, b);
                                let q = self.bin(B::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        N::Bin(B::Add, x, y) => {
                            if let Some(k2) = self.cst(y) {
                                let c = self.c(k.wrapping_sub(k2), w);
                                return self.bin(B::Eq, x, c);
                            }
                        }
                        N::Bin(B::Xor, x, y) => {
                            if let Some(k2) = self.cst(y) {
                                let c = self.c(k ^ k2, w);
                                return self.bin(B::Eq, x, c);
                            }
                        }
                        N::Not(x) => {
                            let c = self.c(!k, w);
                            return self.bin(B::Eq, x, c);
                        }
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            if self.cst(h).is_some() || self.cst(l).is_some() {
                                let c1 = self.c(k >> lw, hw);
                                let c2 = self.c(k, lw);
                                let p = self.bin(B::Eq, h, c1);
                                let q = self.bin(B::Eq, l, c2);
                                return self.bin(B::And, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                        if self.w(x) == self.w(y) {
                            return self.bin(B::Eq, x, y);
                        }
                    }
                    // (x + k) == x
                    if let N::Bin(B::Add, x, y) = self.n(a) {
                        if x == b || y == b {
                            let o = if x == b { y } else { x };
                            let z = self.c(0, w);
                            return self.bin(B::Eq, o, z);
                        }
                    }
                    if let N::Bin(B::Add, x, y) = self.n(b) {
                        if x == a || y == a {
                            let o = if x == a { y } else { x };
                            let z = self.c(0, w);
                            return self.bin(B::Eq, o, z);
                        }
                    }
                }
            }
            B::Ult => {
                if a == b {
                    return self.c(0, 1);
                }
                if cb == Some(0) {
                    return b_zero(self);
                }
                if let Some(k) = cb {
                    if self.umax[a as usize] < k {
                        return self.c(1, 1);
                    }
                    if k == 1 {
                        let z = self.c(0, w);
                        return self.bin(B::Eq, a, z);
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        let c = self.c(k, xw);
                        return self.bin(B::Ult, x, c);
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cst(x).is_some() || self.cst(y).is_some() {
                            let p = self.bin(op, x, b);
                            let q = self.bin(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
                if let Some(k) = self.cst(a) {
                    if k >= self.umax[b as usize] {
                        return self.c(0, 1);
                    }
                    if k == 0 {
                        let z = self.c(0, w);
                        let e = self.bin(B::Eq, b, z);
                        return self.not(e);
                    }
                    if let N::ZExt(x) = self.n(b) {
                        let xw = self.w(x);
                        let c = self.c(k, xw);
                        return self.bin(B::Ult, c, x);
                    }
                    if let N::Ite(c, x, y) = self.n(b) {
                        if self.cst(x).is_some() || self.cst(y).is_some() {
                            let p = self.bin(op, a, x);
                            let q = self.bin(op, a, y);
                            return self.ite(c, p, q);
                        }
                    }
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(B::Ult, x, y);
                    }
                }
            }
            B::Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                let half = 1u128 << (w - 1);
                let (ua, ub) = (self.umax[a as usize], self.umax[b as usize]);
                if ua < half && ub < half {
                    return self.bin(B::Ult, a, b);
                }
                if let (N::SExt(x), N::SExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(B::Slt, x, y);
                    }
                }
            }
            B::SDiv | B::SRem => {
                let half = 1u128 << (w - 1);
                if self.umax[a as usize] < half && self.umax[b as usize] < half {
                    return self.bin(if op == B::SDiv { B::UDiv } else { B::URem }, a, b);
                }
            }
        }
        self.intern(N::Bin(op, a, b), rw)
    }
    /// The value as an exact sum of single bits, if it is one.
    fn lin_of(&self, e: E) -> Option<Lin> {
        if let Some(l) = self.lin.get(&e) {
            return Some((**l).clone());
        }
        match self.n(e) {
            N::Const(c) if c < 1 << 64 => Some(Lin { k: c as i128, t: vec![] }),
            N::ZExt(x) => {
                if let Some(l) = self.lin.get(&x) {
                    return Some((**l).clone());
                }
                if self.w(x) != 1 {
                    return None;
                }
                Some(match self.n(x) {
                    N::Not(y) => Lin { k: 1, t: vec![(y, -1)] },
                    _ => Lin { k: 0, t: vec![(x, 1)] },
                })
            }
            _ => None,
        }
    }
    /// Every bit at the value that makes the sum largest (smallest).
    fn all_at(&mut self, l: &Lin, largest: bool) -> E {
        let mut acc = self.c(1, 1);
        for (e, c) in &l.t {
            let x = if (*c > 0) == largest { *e } else { self.not(*e) };
            acc = self.bin(B::And, acc, x);
        }
        acc
    }
    /// Sums and differences of single bits in one canonical form, so that
    /// counts computed in different orders and widths are the same term.
    fn bit_sum(&mut self, op: B, a: E, b: E, w: u32) -> Option<E> {
        let (x, y) = (self.lin_of(a)?, self.lin_of(b)?);
        if x.t.is_empty() && y.t.is_empty() {
            return None;
        }
        let l = x.plus(&y, if op == B::Add { 1 } else { -1 });
        let (lo, hi) = l.range();
        match op {
            B::Eq => {
                if l.t.is_empty() {
                    return Some(self.c((l.k == 0) as u128, 1));
                }
                if lo > 0 || hi < 0 {
                    return Some(self.c(0, 1));
                }
                if lo == 0 || hi == 0 {
                    return Some(self.all_at(&l, hi == 0));
                }
                None
            }
            B::Ult => {
                if hi < 0 {
                    return Some(self.c(1, 1));
                }
                if lo >= 0 {
                    return Some(self.c(0, 1));
                }
                let step = l.t.iter().map(|x| x.1.abs()).min().unwrap_or(1);
                if lo + step >= 0 {
                    return Some(self.all_at(&l, false));
                }
                if hi - step < 0 {
                    let e = self.all_at(&l, true);
                    return Some(self.not(e));
                }
                None
            }
            _ => {
                if lo < 0 || hi > mask(u128::MAX, w.min(64)) as i128 {
                    return None;
                }
                if l.t.is_empty() {
                    return Some(self.c(l.k as u128, w));
                }
                if l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
                    return Some(self.zext(l.t[0].0, w));
                }
                let n = (128 - hi.leading_zeros()).min(w);
                let mut acc = self.c(l.k as u128, n);
                let mut first = l.k == 0;
                for (e, c) in &l.t {
                    let z = self.zext(*e, n);
                    let (o, v) = match *c {
                        1 => (B::Add, z),
                        -1 => (B::Sub, z),
                        c => {
                            let m = self.c(c as u128, n);
                            (B::Add, self.intern(N::Bin(B::Mul, z, m), n))
                        }
                    };
                    acc = if first && o == B::Add { v } else { self.intern(N::Bin(o, acc, v), n) };
                    first = false;
                }
                let u = &mut self.umax[acc as usize];
                *u = (*u).min(hi as u128);
                self.lin.insert(acc, std::rc::Rc::new(l));
                Some(self.zext(acc, w))
            }
        }
    }
    /// Or of a value whose low `t` bits are zero with a value < 2^t is a concat.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (z, core) = match self.n(a) {
            N::Concat(h, l) if self.cst(l) == Some(0) => (self.w(l), h),
            N::ZExt(x) => match self.n(x) {
                N::Concat(h, l) if self.cst(l) == Some(0) => (self.w(l), h),
                _ => return None,
            },
            _ => return None,
        };
        if z < 128 && self.umax[b as usize] < (1u128 << z) {
            let low = self.extract(b, 0, z);
            let cc = self.concat(core, low);
            return Some(self.zext(cc, w));
        }
        None
    }

    pub fn eval(&self, e: E, m: &Model) -> u128 {
        if let N::Const(c) = self.n(e) {
            return c;
        }
        if let Some(v) = m.memo.borrow().get(&e) {
            return *v;
        }
        let mut memo = m.memo.borrow_mut();
        let mut st = vec![e];
        while let Some(x) = st.last().copied() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let (n, w) = self.nodes[x as usize];
            let mut miss = false;
            macro_rules! g {
                ($y:expr) => {
                    match self.n($y) {
                        N::Const(c) => c,
                        _ => match memo.get(&$y) {
                            Some(v) => *v,
                            None => {
                                st.push($y);
                                miss = true;
                                0
                            }
                        },
                    }
                };
            }
            let r = match n {
                N::Const(c) => c,
                N::Sym(i) => mask(m.vals.get(i as usize).copied().unwrap_or(0), w),
                N::Not(a) => mask(!g!(a), w),
                N::Bin(op, a, b) => {
                    let x = g!(a);
                    let y = g!(b);
                    cfold(op, self.w(a), x, y)
                }
                N::Ite(c, a, b) => {
                    let cv = g!(c);
                    if miss {
                        0
                    } else if cv != 0 {
                        g!(a)
                    } else {
                        g!(b)
                    }
                }
                N::Extract(a, lo) => mask(g!(a) >> lo, w),
                N::ZExt(a) => g!(a),
                N::SExt(a) => mask(sext(g!(a), self.w(a)) as u128, w),
                N::Concat(h, l) => {
                    let x = g!(h);
                    let y = g!(l);
                    (x << self.w(l)) | y
                }
            };
            if !miss {
                memo.insert(x, r);
                st.pop();
            }
        }
        memo[&e]
    }

    // ---- value level ----
    pub fn vbin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        let o = match op {
            BinOp::Add => B::Add,
            BinOp::Sub => B::Sub,
            BinOp::Mul => B::Mul,
            BinOp::UDiv => B::UDiv,
            BinOp::SDiv => B::SDiv,
            BinOp::URem => B::URem,
            BinOp::SRem => B::SRem,
            BinOp::And => B::And,
            BinOp::Or => B::Or,
            BinOp::Xor => B::Xor,
            BinOp::Shl => B::Shl,
            BinOp::LShr => B::LShr,
            BinOp::AShr => B::AShr,
        };
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(cfold(o, w, *x, *y)),
            (V::U, V::C(0)) | (V::C(0), V::U) if matches!(op, BinOp::And | BinOp::Mul) => V::C(0),
            // Bits masked out or set by a constant are defined, the others
            // become the reserved symbol for "any value".
            (V::U, V::C(k)) | (V::C(k), V::U) if w > 1 && w <= 64 && matches!(op, BinOp::And | BinOp::Or) => {
                let u = self.sym(0, 64);
                let x = self.extract(u, 0, w);
                let x = self.to_v(x);
                self.vbin(op, w, &x, &V::C(*k))
            }
            (V::U, V::C(1)) | (V::C(1), V::U) if w == 1 && matches!(op, BinOp::Or) => V::C(1),
            // A condition that is decided by its other half in some cases.
            (V::U, V::S(_)) | (V::S(_), V::U) if w == 1 && matches!(op, BinOp::And | BinOp::Or) => {
                let u = self.sym(0, 64);
                let x = self.extract(u, 0, 1);
                let x = self.to_v(x);
                let y = if matches!(a, V::U) { b } else { a };
                self.vbin(op, w, &x, y)
            }
            (V::U, _) | (_, V::U) => V::U,
            _ => {
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.bin(o, x, y);
                self.to_v(r)
            }
        }
    }
    pub fn vcmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return V::C(r as u128);
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return V::U;
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = match p {
            Pred::Eq => self.bin(B::Eq, x, y),
            Pred::Ne => {
                let e = self.bin(B::Eq, x, y);
                self.not(e)
            }
            Pred::Ult => self.bin(B::Ult, x, y),
            Pred::Ugt => self.bin(B::Ult, y, x),
            Pred::Ule => {
                let e = self.bin(B::Ult, y, x);
                self.not(e)
            }
            Pred::Uge => {
                let e = self.bin(B::Ult, x, y);
                self.not(e)
            }
            Pred::Slt => self.bin(B::Slt, x, y),
            Pred::Sgt => self.bin(B::Slt, y, x),
            Pred::Sle => {
                let e = self.bin(B::Slt, y, x);
                self.not(e)
            }
            Pred::Sge => {
                let e = self.bin(B::Slt, x, y);
                self.not(e)
            }
        };
        self.to_v(r)
    }
    pub fn vite(&mut self, c: &V, w: u32, a: &V, b: &V) -> V {
        match c {
            V::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(ce) => match (a, b) {
                (V::A(x), V::A(_)) if x.is_empty() => a.clone(),
                (V::U, _) => b.clone(),
                (_, V::U) => a.clone(),
                (V::A(_), _) | (_, V::A(_)) => V::U, // callers handle aggregates elementwise
                _ => {
                    let x = self.to_e(a, w);
                    let y = self.to_e(b, w);
                    let r = self.ite(*ce, x, y);
                    self.to_v(r)
                }
            },
            _ => V::U,
        }
    }
    pub fn vzext(&mut self, a: &V, w: u32, to: u32) -> V {
        match a {
            V::S(e) => {
                debug_assert_eq!(self.w(*e), w);
                let r = self.zext(*e, to);
                self.to_v(r)
            }
            // The high bits of an extended undefined value are zero: the low
            // ones become the reserved symbol for "any value".
            V::U if w <= 64 => {
                let u = self.sym(0, 64);
                let x = self.extract(u, 0, w);
                let r = self.zext(x, to);
                self.to_v(r)
            }
            x => x.clone(),
        }
    }
    pub fn vsext(&mut self, a: &V, w: u32, to: u32) -> V {
        match a {
            V::C(c) => V::C(mask(sext(*c, w) as u128, to)),
            V::S(e) => {
                let r = self.sext(*e, to);
                self.to_v(r)
            }
            x => x.clone(),
        }
    }
    pub fn vtrunc(&mut self, a: &V, to: u32) -> V {
        match a {
            V::C(c) => V::C(mask(*c, to)),
            V::S(e) => {
                let r = self.extract(*e, 0, to);
                self.to_v(r)
            }
            x => x.clone(),
        }
    }
    pub fn vextract(&mut self, a: &V, lo: u32, w: u32) -> V {
        match a {
            V::C(c) => V::C(mask(*c >> lo, w)),
            V::S(e) => {
                let r = self.extract(*e, lo, w);
                self.to_v(r)
            }
            x => x.clone(),
        }
    }
    pub fn dump(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.n(e) {
            N::Const(c) => format!("{c:#x}:{}", self.w(e)),
            N::Sym(i) => format!("s{i}:{}", self.w(e)),
            N::Not(a) => format!("~{}", self.dump(a, d)),
            N::Bin(o, a, b) => format!("({o:?} {} {})", self.dump(a, d), self.dump(b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.dump(c, d), self.dump(a, d), self.dump(b, d)),
            N::Extract(a, lo) => format!("{}[{}+:{}]", self.dump(a, d), lo, self.w(e)),
            N::ZExt(a) => format!("(zx{} {})", self.w(e), self.dump(a, d)),
            N::SExt(a) => format!("(sx{} {})", self.w(e), self.dump(a, d)),
            N::Concat(a, b) => format!("({} ++ {})", self.dump(a, d), self.dump(b, d)),
        }
    }
}

fn b_zero(a: &mut Arena) -> E {
    a.c(0, 1)
}
