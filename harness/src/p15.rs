//! Allocation failure leaves collections unchanged.
use crate::sym::*;
use crate::util::*;

const UNCHANGED: &str = "contents differ after a failed operation";

/// One operation with the `n`-th allocation failing, then more appends.
fn ops<C: Col>(base: usize, add: usize, len: usize, full: bool, nth: usize) {
    let gen_items = |n: usize| -> Vec<C::Item> {
        if full { (0..n).map(|_| C::Item::full(len)).collect() } else { some(n, len) }
    };
    let before = heap_live();
    {
        let mut m: Vec<C::Item> = gen_items(upto(base));
        let Some(mut c) = start::<C>(&m, upto(2)) else { return };
        let op = upto(3);
        let k = [0, 1, add / 2, add][upto(3)];
        let new = if op == 3 { vec![] } else { gen_items(k) };
        let last = gen_items(1);
        // (so that nothing outside the operation allocates)
        let (a, b) = (new.clone(), last.clone());
        let nth = upto(nth);
        alloc_fail(nth as u64);
        let r = match op {
            0 => c.try_extend(a),
            1 => {
                // the number of items is not known in advance
                let n = a.len();
                c.try_extend(Hinted { it: a.into_iter(), lo: 0, hi: if n % 2 == 0 { None } else { Some(n) } })
            }
            2 => c.try_extend(Hinted { it: a.into_iter(), lo: k / 2, hi: None }),
            _ => c.try_reserve([k, 4 * k][upto(1)]),
        };
        let failed = !alloc_fail_pending();
        alloc_fail(u64::MAX);
        check(r.is_err() == failed, "the result does not tell whether an allocation failed");
        if r.is_ok() {
            m.extend(new);
            same(&c, &m, "contents differ after a successful operation");
            cover("ok");
        } else {
            same(&c, &m, UNCHANGED);
            cover("failed");
        }
        // appending again
        if flip() {
            c.extend(b);
        } else {
            check(c.try_extend(b).is_ok(), "fallible extend failed without allocation failure");
        }
        m.extend(last);
        agree_index(&c, &m);
        agree_iter(&c, &m);
        if flip() {
            let k = upto(m.len().min(2));
            c.truncate(k);
            m.truncate(k);
            agree_index(&c, &m);
        } else {
            agree_into(c, &m);
        }
    }
    check(heap_live() == before, "memory is leaked");
}

/// Constructors.
fn make<C: Col>(n: usize, len: usize, full: bool, nth: usize) {
    let before = heap_live();
    {
        let n = upto(n);
        let items: Vec<C::Item> = if full { (0..n).map(|_| C::Item::full(len)).collect() } else { some(n, len) };
        let a = items.clone();
        let mode = upto(2);
        let live = heap_live();
        alloc_fail(upto(nth) as u64);
        let r = match mode {
            0 => {
                drop(a);
                C::try_with_capacity_in(n, ())
            }
            1 => C::try_from_iter_in(a, ()),
            _ => C::try_from_iter_in(Hinted { it: a.into_iter(), lo: 0, hi: None }, ()),
        };
        let failed = !alloc_fail_pending();
        alloc_fail(u64::MAX);
        check(r.is_err() == failed, "the result does not tell whether an allocation failed");
        match r {
            Ok(c) => {
                agree_index(&c, if mode == 0 { &[] } else { &items });
                cover("ok");
            }
            Err(_) => {
                // (the items were consumed)
                check(heap_live() <= live, "a failed constructor leaks");
                cover("failed");
            }
        }
    }
    check(heap_live() == before, "memory is leaked");
}

/// Impossible requests.
fn huge<C: Col>(len: usize) {
    let before = heap_live();
    {
        let mut m: Vec<C::Item> = some(upto(1), len);
        let Some(mut c) = start::<C>(&m, upto(2)) else { return };
        let n = [usize::MAX, usize::MAX - 1, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX / 3, 1 << 60][upto(5)];
        let new: Vec<C::Item> = some(upto(1), len);
        // (a source may also lie about its length)
        match upto(3) {
            0 => {
                check(c.try_reserve(n).is_err(), "room for more than the address space holds");
                same(&c, &m, UNCHANGED);
            }
            1 => {
                let r = c.try_extend(Hinted { it: new.clone().into_iter(), lo: n, hi: None });
                if r.is_ok() {
                    m.extend(new);
                }
                same(&c, &m, UNCHANGED);
            }
            2 => check(C::try_with_capacity_in(n, ()).is_err(), "room for more than the address space holds"),
            _ => match C::try_from_iter_in(Hinted { it: new.clone().into_iter(), lo: n, hi: None }, ()) {
                Ok(c) => agree_index(&c, &new),
                Err(_) => (),
            },
        }
        let last: Vec<C::Item> = some(1, len);
        c.extend(last.clone());
        m.extend(last);
        agree_index(&c, &m);
    }
    check(heap_live() == before, "memory is leaked");
}

/// Long appends: failures in the middle, after whole batches.
fn batch<C: Col>(base: usize, add: usize, len: usize, nth: usize) {
    let before = heap_live();
    {
        // (one pattern)
        let mut m: Vec<C::Item> = thin(5001, || some(base, len));
        let new: Vec<C::Item> = thin(5001, || some(add, len));
        let Some(mut c) = start::<C>(&m, upto(1)) else { return };
        let a = new.clone();
        let op = upto(2);
        alloc_fail(upto(nth) as u64);
        let r = match op {
            0 => c.try_extend(a),
            1 => c.try_extend(Hinted { it: a.into_iter(), lo: 0, hi: None }),
            _ => c.try_extend(Hinted { it: a.into_iter(), lo: add / 2, hi: None }),
        };
        let failed = !alloc_fail_pending();
        alloc_fail(u64::MAX);
        check(r.is_err() == failed, "the result does not tell whether an allocation failed");
        if r.is_ok() {
            m.extend(new);
            cover("ok");
        } else {
            cover("failed");
        }
        let last: Vec<C::Item> = thin(5001, || some(2, len));
        c.extend(last.iter().cloned());
        m.extend(last);
        same(&c, &m, UNCHANGED);
        agree_into_by(c, &m, true);
    }
    check(heap_live() == before, "memory is leaked");
}

macro_rules! types {
    ($c:expr, $f:ident, ($($flat:tt)*), ($($row:tt)*), ($($deep:tt)*)) => {
        match $c.case {
            0 => $f::<Vec<u8>>($($flat)*),
            1 => $f::<Bitmap>($($flat)*),
            2 => $f::<Validity<Vec<u32>>>($($flat)*),
            3 => $f::<Validity<Bitmap>>($($flat)*),
            4 => $f::<Flatten<Vec<u8>, 2>>($($flat)*),
            5 => $f::<Flatten<Bitmap, 3>>($($flat)*),
            6 => $f::<Flatten<Validity<Vec<u8>>, 2>>($($flat)*),
            7 => $f::<Validity<Flatten<Bitmap, 2>>>($($flat)*),
            8 => $f::<Lists<Vec<u8>>>($($row)*),
            9 => $f::<Lists<Bitmap>>($($row)*),
            10 => $f::<Lists<Validity<Vec<u8>>>>($($row)*),
            11 => $f::<Lists<Flatten<Vec<u8>, 2>>>($($row)*),
            12 => $f::<Lists<Lists<Vec<u8>>>>($($deep)*),
            13 => $f::<Validity<Lists<Vec<u8>>>>($($deep)*),
            14 => $f::<Flatten<Lists<Vec<u8>>, 2>>($($deep)*),
            15 => $f::<Array<Option<Vec<Option<[u8; 2]>>>>>($($deep)*),
            16 => $f::<Array<[Vec<Option<bool>>; 2]>>($($deep)*),
            _ => $f::<Array<Option<[Option<u8>; 2]>>>($($flat)*),
        }
    };
}

harnesses! {
    P15 p15_ops [18, 18] (c) {
        let f = c.pick(5, 9);
        types!(c, ops, (c.pick(2, 4), c.pick(9, 17), 0, false, f), (c.pick(2, 3), c.pick(4, 6), c.pick(1, 2), c.pick(0, 1) == 0, f + 2), (1, c.pick(2, 4), 1, true, f + 3))
    }
    P15 p15_make [18, 18] (c) {
        let f = c.pick(5, 9);
        types!(c, make, (c.pick(9, 17), 0, false, f), (c.pick(5, 7), 1, true, f + 2), (c.pick(3, 5), 1, true, f + 3))
    }
    P15 p15_huge [18, 18] (c) {
        types!(c, huge, (0), (1), (1))
    }
    // (the name sets the step limit)
    P15 p15_huge_batch [36, 36] (c) {
        let add = if c.case < 18 { 1030 } else { 2049 };
        let base = if c.case < 18 { 1024 } else { 9 };
        let c = Cfg { case: c.case % 18, ..c };
        types!(c, batch, (base, add, 0, 14), (base, add / 2, 3, 12), (base, add / 2, 2, 12))
    }
}
