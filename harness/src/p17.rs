//! Reserved capacity is enough.
use crate::sym::*;
use crate::util::*;

const ALLOCATED: &str = "memory is allocated within the reserved capacity";

/// Appends `n` items in up to two parts without allocating.
fn fill<C: Col>(c: &mut C, m: &mut Vec<C::Item>, room: usize, mk: &dyn Fn(usize) -> Vec<C::Item>, few: bool) {
    let n = if few { [0, 1, room][upto(2)].min(room) } else { upto(room) };
    let k = if n > 1 && flip() { [1, n / 2, n - 1][upto(2)] } else { n };
    let new = mk(n);
    m.reserve(n);
    let mut a = new.clone();
    let b = a.split_off(k);
    let mode = upto(3);
    let before = heap_total();
    match mode {
        0 => {
            c.extend(a);
            c.extend(b);
        }
        1 => check(c.try_extend(a).is_ok() && c.try_extend(b).is_ok(), "fallible extend failed without allocation failure"),
        2 => {
            c.extend(Hinted { it: a.into_iter(), lo: 0, hi: None });
            check(c.try_extend(b).is_ok(), "fallible extend failed without allocation failure");
        }
        _ => {
            // one by one
            a.into_iter().for_each(|x| c.extend(core::iter::once(x)));
            check(c.try_extend(Hinted { it: b.into_iter(), lo: 0, hi: None }).is_ok(), "fallible extend failed without allocation failure");
        }
    }
    check(heap_total() == before, ALLOCATED);
    m.extend(new);
}

fn row<C: Col>(len: usize, full: bool) -> impl Fn(usize) -> Vec<C::Item> {
    move |n| if full { (0..n).map(|_| C::Item::full(len)).collect() } else { some(n, len) }
}

/// Collections created with a capacity.
fn create<C: Col>(n: usize, len: usize, full: bool, few: bool) {
    let n = if few { [1, n - 1, n][upto(2)] } else { upto(n) };
    let mut c = match flip() {
        true => C::with_capacity_in(n, ()),
        false => match C::try_with_capacity_in(n, ()) {
            Ok(c) => c,
            Err(_) => {
                check(false, "creating with a capacity failed without allocation failure");
                return;
            }
        },
    };
    check(c.len() == 0, "a collection with capacity is not empty");
    let mut m = vec![];
    fill(&mut c, &mut m, n, &row::<C>(len, full), few);
    same(&c, &m, "contents differ after appending within the capacity");
}

/// Room reserved behind existing elements.
fn reserve<C: Col>(base: usize, n: usize, len: usize, full: bool, few: bool) {
    let mk = row::<C>(len, full);
    let mut m = mk(upto(base));
    let Some(mut c) = start::<C>(&m, upto(2)) else { return };
    if m.len() > 0 && flip() {
        m.truncate(m.len() - 1);
        c.truncate(m.len());
    }
    let n = if few { [1, n - 1, n][upto(2)] } else { upto(n) };
    match upto(2) {
        0 => c.reserve(n),
        1 => check(c.try_reserve(n).is_ok(), "reserving failed without allocation failure"),
        _ => {
            c.reserve(n / 2);
            check(c.try_reserve(n).is_ok(), "reserving failed without allocation failure");
            c.reserve(0);
        }
    }
    same(&c, &m, "reserving changes the contents");
    fill(&mut c, &mut m, n, &mk, few);
    same(&c, &m, "contents differ after appending within the capacity");
}

/// Bit offsets and spare bits.
fn bits(c: Cfg) {
    let d = bytes(upto(c.pick(2, 3)));
    let off = upto((8 * d.len()).min(9));
    let k = upto(8 * d.len() - off);
    let (mut b, mut m) = bitmap_at(&d, k, off);
    let n = [0, 1, 3, 5, 7, 8, 9, 13, 16, 17, 40, 70][upto(c.pick(10, 11))];
    match upto(1) {
        0 => b.reserve(n),
        _ => check(b.try_reserve(n).is_ok(), "reserving failed without allocation failure"),
    }
    same(&b, &m, "reserving changes the contents");
    let new = bools(n);
    let by_ref = upto(2);
    let a = new.clone();
    let before = heap_total();
    match by_ref {
        0 => b.extend(a.iter()),
        1 => b.extend(a),
        _ => check(b.try_extend(a).is_ok(), "fallible extend failed without allocation failure"),
    }
    check(heap_total() == before, ALLOCATED);
    m.extend(new);
    same(&b, &m, "contents differ after appending within the capacity");
}

macro_rules! types {
    ($c:expr, $f:ident, ($($flat:tt)*), ($($row:tt)*), ($($deep:tt)*)) => {
        match $c.case {
            0 => $f::<Vec<u8>>($($flat)*),
            1 => $f::<Bitmap>($($flat)*),
            2 => $f::<Validity<Vec<u32>>>($($flat)*),
            3 => $f::<Validity<Bitmap>>($($flat)*),
            4 => $f::<Flatten<Vec<u32>, 3>>($($flat)*),
            5 => $f::<Flatten<Bitmap, 3>>($($flat)*),
            6 => $f::<Flatten<Validity<Vec<u8>>, 2>>($($flat)*),
            7 => $f::<Validity<Flatten<Bitmap, 3>>>($($flat)*),
            8 => $f::<Lists<Vec<u32>>>($($row)*),
            9 => $f::<Lists<Bitmap>>($($row)*),
            10 => $f::<Lists<Validity<Vec<u8>>>>($($row)*),
            11 => $f::<Lists<Flatten<Vec<u32>, 2>>>($($row)*),
            12 => $f::<Lists<Lists<Vec<u8>>>>($($deep)*),
            13 => $f::<Validity<Lists<Vec<u32>>>>($($deep)*),
            14 => $f::<Flatten<Lists<Vec<u8>>, 2>>($($deep)*),
            15 => $f::<Array<Option<Vec<Option<[u8; 2]>>>>>($($deep)*),
            16 => $f::<Array<[Vec<Option<bool>>; 2]>>($($deep)*),
            _ => $f::<Array<Option<[Option<u8>; 2]>>>($($flat)*),
        }
    };
}

harnesses! {
    P17 p17_create [18, 18] (c) {
        types!(c, create, (c.pick(12, 20), 0, false, false), (c.pick(9, 12), 1, true, true), (c.pick(5, 9), 1, true, true))
    }
    // Rows may also be empty.
    P17 p17_rows [10, 10] (c) {
        let (n, b) = (c.pick(3, 4), c.pick(1, 2));
        let f = c.case % 2 == 0;
        match (c.case / 2, f) {
            (0, true) => create::<Lists<Vec<u32>>>(n, 1, false, false),
            (0, _) => reserve::<Lists<Vec<u32>>>(b, n, 1, false, true),
            (1, true) => create::<Lists<Bitmap>>(n, 1, false, false),
            (1, _) => reserve::<Lists<Bitmap>>(b, n, 1, false, true),
            (2, true) => create::<Lists<Lists<Vec<u8>>>>(n - 1, 1, false, false),
            (2, _) => reserve::<Lists<Lists<Vec<u8>>>>(b, n - 1, 1, false, true),
            (3, true) => create::<Validity<Lists<Vec<u32>>>>(n - 1, 1, false, false),
            (3, _) => reserve::<Validity<Lists<Vec<u32>>>>(b, n - 1, 1, false, true),
            (_, true) => create::<Flatten<Lists<Vec<u8>>, 2>>(n - 1, 1, false, false),
            _ => reserve::<Flatten<Lists<Vec<u8>>, 2>>(b, n - 1, 1, false, true),
        }
    }
    P17 p17_reserve [18, 18] (c) {
        types!(c, reserve, (c.pick(3, 4), c.pick(11, 18), 0, false, !c.thorough), (2, c.pick(9, 12), 1, true, true), (1, c.pick(5, 9), 1, true, true))
    }
    P17 p17_bits [1, 1] (c) { bits(c) }
    // Around the batch size of nullable collections.
    P17 p17_long [4, 4] (c) {
        fn long<C: Col>(c: Cfg) {
            let n = if c.thorough { [100, 1023, 1024, 1025, 2049][upto(4)] } else { [100, 1024, 1030][upto(2)] };
            let first: Vec<C::Item> = some(2, 0);
            let new: Vec<C::Item> = (0..n).map(|i| first[i % 2].clone()).collect();
            let mut c = match upto(2) {
                0 => C::with_capacity_in(n, ()),
                k => {
                    let mut c = C::default();
                    if k == 1 { c.reserve(n) } else { check(c.try_reserve(n).is_ok(), "reserving failed without allocation failure") }
                    c
                }
            };
            let a = new.clone();
            let op = flip();
            let before = heap_total();
            if op { c.extend(a) } else { check(c.try_extend(a).is_ok(), "fallible extend failed without allocation failure") }
            check(heap_total() == before, ALLOCATED);
            check(c.len() == n, "length differs");
            for i in [0, 1, 50, n - 2, n - 1] {
                check(c.owned(i).is_some_and(|x| x.same(&new[i])), "element differs");
            }
        }
        match c.case {
            0 => long::<Validity<Vec<u8>>>(c),
            1 => long::<Flatten<Validity<Vec<u8>>, 2>>(c),
            2 => long::<Validity<Bitmap>>(c),
            _ => long::<Array<Option<[Option<u8>; 2]>>>(c),
        }
    }
    // Capacities at which narrow counters would overflow.
    P17 p17_huge [12, 12] (c) {
        fn go<C: Col>(n: usize) {
            let new: Vec<C::Item> = thin(n, || (0..n).map(|_| C::Item::full(1)).collect());
            let mut c = match upto(2) {
                0 => C::with_capacity_in(n, ()),
                k => {
                    let mut c = C::default();
                    if k == 1 { c.reserve(n) } else { check(c.try_reserve(n).is_ok(), "reserving failed without allocation failure") }
                    c
                }
            };
            let mut a = new.clone();
            let b = a.split_off(n - 9);
            let op = flip();
            let before = heap_total();
            if op {
                c.extend(a);
                check(c.try_extend(b).is_ok(), "fallible extend failed without allocation failure")
            } else {
                check(c.try_extend(a).is_ok(), "fallible extend failed without allocation failure");
                c.extend(b);
            }
            check(heap_total() == before, ALLOCATED);
            check(c.len() == n, "length differs");
            for i in [0, 1, n / 2, n - 9, n - 1] {
                check(c.owned(i).is_some_and(|x| x.same(&new[i])), "element differs");
            }
        }
        match c.case {
            0 => go::<Vec<u8>>(LONG[4] + 7),
            1 => go::<Bitmap>(LONG[4] + 7),
            2 => go::<Validity<Vec<u32>>>(LONG[4] + 7),
            3 => go::<Validity<Bitmap>>(LONG[3] + 7),
            4 => go::<Flatten<Vec<u32>, 3>>(LONG[2] + 7),
            5 => go::<Flatten<Bitmap, 3>>(LONG[2] + 7),
            6 => go::<Flatten<Validity<Vec<u8>>, 2>>(LONG[2] + 7),
            7 => go::<Lists<Vec<u32>>>(LONG[2] + 7),
            8 => go::<Validity<Lists<Vec<u32>>>>(LONG[2] + 7),
            9 => go::<Flatten<Vec<u8>, 300>>(100),
            10 => go::<Flatten<Validity<Vec<u8>>, 300>>(20),
            _ => go::<Lists<Bitmap>>(LONG[2] + 7),
        }
    }
}
