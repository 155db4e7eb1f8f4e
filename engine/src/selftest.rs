//! Checks of the engine itself: random terms are built twice, once through the
//! simplifying constructors and once node by node as written, and the solver has
//! to find the two equal for every value of the symbols. The evaluator is compared
//! with itself over both shapes, and the upper bounds the simplifier uses are put
//! to the solver too.
use crate::expr::{Arena, Model, B, E, N};
use crate::val::mask;
use crate::z3::{Res, Z3};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 11
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

/// (through the constructors, as written)
type Pair = (E, E);

fn constant(r: &mut Rng, w: u32) -> u128 {
    let v = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => u128::MAX,
        3 => 1u128 << r.below(w as usize),
        4 => mask(u128::MAX, 1 + r.below(w as usize) as u32),
        5 => r.below(10) as u128,
        6 => (r.below(w as usize) & !7) as u128,
        _ => r.next() as u128,
    };
    mask(v, w)
}

fn of_width(r: &mut Rng, ar: &mut Arena, pool: &[Pair], w: u32) -> Pair {
    let have: Vec<Pair> = pool.iter().copied().filter(|p| ar.w(p.1) == w).collect();
    if have.is_empty() || r.below(4) == 0 {
        let k = constant(r, w);
        let e = ar.c(k, w);
        return (e, e);
    }
    // recent terms first, so that the terms grow
    if r.below(2) == 0 {
        let n = have.len().min(3);
        return have[have.len() - 1 - r.below(n)];
    }
    have[r.below(have.len())]
}

fn step(r: &mut Rng, ar: &mut Arena, pool: &[Pair], big: &mut bool) -> Pair {
    const W: [u32; 8] = [1, 8, 8, 16, 32, 64, 64, 64];
    let any = |r: &mut Rng, ar: &Arena| {
        let p = pool[if r.below(3) > 0 { pool.len() - 1 - r.below(pool.len().min(4)) } else { r.below(pool.len()) }];
        (p, ar.w(p.1))
    };
    match r.below(13) {
        0 => {
            let (a, w) = any(r, ar);
            (ar.not(a.0), ar.raw(N::Not(a.1), w))
        }
        1 | 2 => {
            let c = of_width(r, ar, pool, 1);
            let (a, w) = any(r, ar);
            let b = of_width(r, ar, pool, w);
            let (x, y) = if r.below(2) == 0 { (a, b) } else { (b, a) };
            (ar.ite(c.0, x.0, y.0), ar.raw(N::Ite(c.1, x.1, y.1), w))
        }
        3 | 4 => {
            let (a, w) = any(r, ar);
            let nw = match r.below(3) {
                0 => 1,
                1 => (8 * (1 + r.below(8)) as u32).min(w),
                _ => 1 + r.below(w as usize) as u32,
            };
            let lo = r.below((w - nw + 1) as usize) as u32;
            (ar.extract(a.0, lo, nw), if nw == w { a.1 } else { ar.raw(N::Extract(a.1, lo), nw) })
        }
        5 | 6 => {
            let (a, w) = any(r, ar);
            let to = W[r.below(W.len())];
            if to <= w {
                return a;
            }
            if r.below(2) == 0 {
                (ar.zext(a.0, to), ar.raw(N::ZExt(a.1), to))
            } else {
                (ar.sext(a.0, to), ar.raw(N::SExt(a.1), to))
            }
        }
        7 => {
            let (a, w) = any(r, ar);
            let (b, v) = any(r, ar);
            if w + v > 128 {
                return a;
            }
            (ar.concat(a.0, b.0), ar.raw(N::Concat(a.1, b.1), w + v))
        }
        _ => {
            use B::*;
            const OPS: [B; 18] = [Add, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, And, Or, Or, Xor, Shl, LShr, AShr, Eq, Ult];
            let op = if r.below(19) == 18 { Slt } else { OPS[r.below(18)] };
            let (a, w) = any(r, ar);
            let mut b = of_width(r, ar, pool, w);
            if matches!(op, Shl | LShr | AShr) && r.below(3) > 0 {
                let k = r.below(w as usize) as u128;
                let e = ar.c(k, w);
                b = (e, e);
            }
            if matches!(op, UDiv | SDiv | URem | SRem) {
                // divisions by zero are trapped before a term is built
                let k = constant(r, w).max(1);
                let e = ar.c(k, w);
                b = (e, e);
                *big |= w > 16;
            }
            if op == Mul && w > 16 {
                let k = constant(r, w);
                let e = ar.c(k, w);
                b = (e, e);
                *big = true;
            }
            let ow = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
            let (x, y) = if r.below(3) == 0 && !matches!(op, UDiv | SDiv | URem | SRem | Shl | LShr | AShr) { (b, a) } else { (a, b) };
            (ar.bin(op, x.0, y.0), ar.raw(N::Bin(op, x.1, y.1), ow))
        }
    }
}

pub fn run(n: u64, seed: u64) -> i32 {
    let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let (mut same, mut proved, mut bounds, mut unknown, mut bad) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut left = n;
    while left > 0 {
        let mut ar = Arena::new();
        let mut z = Z3::new(5_000);
        let mut pool: Vec<Pair> = vec![];
        let ws = [1, 1, 1, 8, 8, 8, 16, 32, 64, 64];
        for (i, w) in ws.iter().enumerate() {
            let e = ar.sym(i as u32, *w);
            pool.push((e, e));
        }
        // sums of single bits have rules of their own
        if r.below(2) == 0 {
            let (b, w) = ([0u32, 1, 2], [8u32, 32, 64][r.below(3)]);
            let (mut s, mut t) = (ar.c(0, w), ar.c(0, w));
            for _ in 0..2 + r.below(6) {
                let x = ar.sym(b[r.below(3)], 1);
                let (zx, zr) = (ar.zext(x, w), ar.raw(N::ZExt(x), w));
                s = ar.bin(B::Add, s, zx);
                t = ar.raw(N::Bin(B::Add, t, zr), w);
            }
            pool.push((s, t));
        }
        let mut big = false;
        for _ in 0..24 {
            let p = step(&mut r, &mut ar, &pool, &mut big);
            if ar.w(p.0) != ar.w(p.1) {
                println!("width: {} against {}", ar.dump(p.0, 6), ar.dump(p.1, 6));
                bad += 1;
                continue;
            }
            pool.push(p);
            left = left.saturating_sub(1);
            let w = ar.w(p.0);
            for _ in 0..3 {
                let vals = ws.iter().map(|w| constant(&mut r, *w)).collect::<Vec<_>>();
                let (a, b) = (ar.eval(p.0, &Model::new(vals.clone())), ar.eval(p.1, &Model::new(vals)));
                if a != b || a > ar.upper(p.0) {
                    println!("evaluation: {} = {a:x} (at most {:x}) against {} = {b:x}", ar.dump(p.0, 8), ar.upper(p.0), ar.dump(p.1, 8));
                    bad += 1;
                }
            }
            let mut ask = |ar: &mut Arena, q: E, what: &str, ok: &mut u64| match z.check(ar, &[], q, ws.len() as u32, false).0 {
                Res::Unsat => *ok += 1,
                Res::Unknown => unknown += 1,
                Res::Sat => {
                    println!("{what}: {} against {}", ar.dump(p.0, 8), ar.dump(p.1, 8));
                    bad += 1;
                }
            };
            if p.0 == p.1 {
                same += 1;
            } else {
                let eq = ar.raw(N::Bin(B::Eq, p.0, p.1), 1);
                let q = ar.raw(N::Not(eq), 1);
                ask(&mut ar, q, "not equal", &mut proved);
            }
            let u = ar.upper(p.0);
            if u < mask(u128::MAX, w) {
                let k = ar.c(u, w);
                let q = ar.raw(N::Bin(B::Ult, k, p.1), 1);
                ask(&mut ar, q, "bound", &mut bounds);
            }
            if big && pool.len() > 24 {
                break;
            }
        }
        z.close();
    }
    println!("selftest: {n} terms, {same} unchanged, {proved} proved equal, {bounds} bounds proved, {unknown} undecided, {bad} wrong");
    (bad > 0) as i32
}
