//! Bitmap append/truncate histories.
use crate::sym::*;
use crate::util::*;

const OPS: usize = 7;

/// Applies operation `op` with size parameter `k` to both.
fn apply(b: &mut Bitmap, m: &mut Vec<bool>, op: usize, k: usize) {
    match op {
        0 => {
            let items = bools(k);
            b.extend(items.iter().copied());
            m.extend(items);
        }
        1 => {
            let items = bools(k);
            b.extend(items.iter());
            m.extend(items);
        }
        2 => {
            let items = bools(k);
            check(b.try_extend(items.iter().copied()).is_ok(), "fallible extend failed without allocation failure");
            m.extend(items);
        }
        3 => {
            b.truncate(cut(k, m.len()));
            m.truncate(k);
        }
        4 => b.reserve(k),
        5 => check(b.try_reserve(k).is_ok(), "fallible reserve failed without allocation failure"),
        _ => {
            // a source that goes on after its first end
            let items = bools(k + 2);
            let r = Resumes { items: items.clone(), pos: 0, stop: k, stopped: false };
            if flip() {
                b.extend(r);
            } else {
                check(b.try_extend(r).is_ok(), "fallible extend failed without allocation failure");
            }
            m.extend(items[..k].iter());
        }
    }
    check(b.len() == m.len(), "length differs after the operation");
}

harnesses! {
    // One operation from every state over up to 3 (4) bytes with any offset.
    P03 p03_one [7, 7] (c) {
        let n = upto(c.pick(3, 4));
        let data = bytes(n);
        let off = upto(8 * n);
        let bits = upto(8 * n - off);
        let (mut b, mut m) = bitmap_at(&data, bits, off);
        let k = upto(c.pick(18, 27));
        apply(&mut b, &mut m, c.case, k);
        agree_index(&b, &m);
        check(b.bit_offset() == off, "bit offset changed");
        agree_iter(&b, &m);
        agree_into(b, &m);
    }
    // Two (three) operations in sequence.
    P03 p03_sequence [49, 49] (c) {
        let n = upto(2);
        let data = bytes(n);
        let off = upto(if n == 0 { 0 } else if c.thorough { 9 } else { 7 });
        let bits = upto(8 * n - off);
        let (mut b, mut m) = bitmap_at(&data, bits, off);
        let k = upto(9);
        apply(&mut b, &mut m, c.case % OPS, k);
        let k = if c.thorough { upto(9) } else { [0, 1, 6, 8][upto(3)] };
        apply(&mut b, &mut m, c.case / OPS, k);
        if c.thorough {
            let op = [0, 2, 3][upto(2)];
            let k = [1, 5, 9][upto(2)];
            apply(&mut b, &mut m, op, k);
        }
        agree_index(&b, &m);
        agree_into(b, &m);
    }
    // Long appends, across many bytes and machine words.
    P03 p03_long [14, 14] (c) {
        let n = upto(3);
        let data = bytes(n);
        let off = upto(if n == 0 { 0 } else { 7 });
        let bits = if n == 0 { 0 } else { upto(8).min(8 * n - off) };
        let (mut b, mut m) = bitmap_at(&data, bits, off);
        let k = if c.thorough { 50 + upto(160) } else { [60, 64, 65, 71, 128, 131][upto(5)] };
        apply(&mut b, &mut m, c.case % OPS, k);
        if c.case >= OPS {
            apply(&mut b, &mut m, 0, 3);
            apply(&mut b, &mut m, 3, k + 1);
            apply(&mut b, &mut m, 2, 67);
        }
        agree_index(&b, &m);
        agree_into(b, &m);
    }
    // Collecting, with and without an allocator argument.
    P03 p03_collect [3, 3] (c) {
        let n = upto(c.pick(34, 100));
        let mut m = bools(n);
        let mut b = match c.case {
            0 => m.iter().copied().collect::<Bitmap>(),
            1 => Bitmap::<VecBuffer>::from_iter_in(m.iter().copied(), ()),
            _ => match Bitmap::<VecBuffer>::try_from_iter_in(m.iter().copied(), ()) {
                Ok(b) => b,
                Err(_) => { check(false, "fallible collect failed without allocation failure"); return }
            },
        };
        agree_index(&b, &m);
        let k = upto(9);
        let op = upto(OPS - 1);
        apply(&mut b, &mut m, op, k);
        agree_index(&b, &m);
        agree_into(b, &m);
    }
    // Collecting from a source that goes on after its first end.
    P03 p03_collect_resuming [3, 3] (c) {
        let n = upto(c.pick(18, 34));
        let x = bools(n + [1, 2, 9][upto(2)]);
        let it = resumes(&x, n);
        let mut b = match c.case {
            0 => it.collect::<Bitmap>(),
            1 => Bitmap::<VecBuffer>::from_iter_in(it, ()),
            _ => match Bitmap::<VecBuffer>::try_from_iter_in(it, ()) {
                Ok(b) => b,
                Err(_) => { check(false, "fallible collect failed without allocation failure"); return }
            },
        };
        let mut m = x[..n].to_vec();
        agree_index(&b, &m);
        apply(&mut b, &mut m, 0, 3);
        agree_index(&b, &m);
        agree_into(b, &m);
    }
    // A source that lies about its remaining length changes nothing.
    P03 p03_hints [1, 1] (c) {
        let data: [u8; 2] = any();
        let off = upto(7);
        let bits = upto(9);
        let (mut b, mut m) = bitmap_at(&data, bits, off);
        let items = bools(upto(11));
        let lo = [0, 3, 200][upto(2)];
        let it = Hinted { it: items.clone().into_iter(), lo, hi: None };
        if flip() { b.extend(it) } else { check(b.try_extend(it).is_ok(), "fallible extend failed without allocation failure") }
        m.extend(items);
        agree_index(&b, &m);
        agree_into(b, &m);
    }
    // Lengths at which narrow counters would overflow.
    P03 p03_huge [20, 20] (c) { long_ops::<Bitmap>(c.case % 5, c.case / 5) }
}
