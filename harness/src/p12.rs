//! Arrays hold exactly the items put into them.
use crate::sym::*;
use crate::util::*;
use narrow::layout::ArrayItem;

/// Every way of putting `n` items in, with the number of items known in advance
/// or not.
fn put<T: ArrayItem + Gen>(mode: usize, items: &[T]) -> Array<T>
where
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
{
    let n = items.len();
    let (lo, hi) = match mode / MODES {
        0 => (n, Some(n)),
        1 => (0, None),
        _ => (n / 2, Some(n + 3)),
    };
    // (and going on after the end or not)
    let more = if mode % 2 == 0 { items.len() } else { 0 };
    let all = || Hinted { it: resumes(&[items, &items[..more]].concat(), n), lo, hi };
    match mode % MODES {
        0 => all().collect(),
        1 => Array::from_iter_in(all(), ()),
        2 => match Array::try_from_iter_in(all(), ()) {
            Ok(a) => a,
            Err(_) => {
                check(false, "fallible collect failed without allocation failure");
                Array::default()
            }
        },
        3 => {
            let mut a = Array::default();
            a.extend(all());
            a
        }
        4 => {
            let mut a = Array::with_capacity_in(n, ());
            check(a.len() == 0, "an array with capacity is not empty");
            check(a.try_extend(all()).is_ok(), "fallible extend failed without allocation failure");
            a
        }
        5 => {
            // two parts
            let k = upto(n);
            let mut a: Array<T> = items[..k].iter().cloned().collect();
            check(a.len() == k, "length after the first part differs");
            if flip() {
                a.extend(items[k..].iter().cloned());
            } else {
                check(a.try_extend(items[k..].iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
            }
            a
        }
        6 => {
            // one by one
            let mut a = Array::from_iter_in(items[..0].iter().cloned(), ());
            for x in items {
                a.extend([x.clone()]);
            }
            a
        }
        7 => {
            // too much, then less, then the rest
            let k = upto(n);
            let mut a: Array<T> = items.iter().cloned().collect();
            a.truncate(k);
            check(a.len() == k, "length after truncation differs");
            a.reserve(n);
            a.extend(items[k..].iter().cloned());
            a
        }
        _ => {
            // through the memory layout
            let k = upto(n);
            let a: Array<T> = items[..k].iter().cloned().collect();
            let mut a = Array::from_buffer(a.into_buffer());
            a.extend(items[k..].iter().cloned());
            Array::from_buffer(a.into_buffer())
        }
    }
}
const MODES: usize = 9;
/// How many of them are told how many items to expect.
const HINTED: usize = 5;

fn round<T: ArrayItem + Gen>(n: usize, len: usize)
where
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
{
    let items = some::<T>(upto(n), len);
    let mode = upto(MODES + HINTED * 2 - 1);
    let mode = if mode < MODES + HINTED { mode } else { mode - HINTED + MODES };
    let a = put::<T>(mode, &items);
    agree(a, &items);
}

harnesses! {
    P12 p12_flat [8, 8] (c) {
        let n = c.pick(4, 9);
        match c.case {
            0 => round::<bool>(c.pick(9, 18), 0),
            1 => round::<Option<bool>>(n, 0),
            2 => round::<i32>(n, 0),
            3 => round::<Option<u16>>(n, 0),
            4 => round::<FixedSizeArray<u8, 3>>(n, 0),
            5 => round::<Option<FixedSizeArray<u8, 2>>>(n, 0),
            6 => round::<f64>(n, 0),
            _ => round::<Option<f32>>(n, 0),
        }
    }
    P12 p12_fixed [8, 8] (c) {
        let n = c.pick(2, 4);
        match c.case {
            0 => round::<[i32; 3]>(n, 0),
            1 => round::<Option<[u8; 2]>>(n, 0),
            2 => round::<[Option<u8>; 2]>(n, 0),
            3 => round::<Option<[Option<bool>; 3]>>(n, 0),
            4 => round::<[[bool; 2]; 2]>(n, 0),
            5 => round::<[bool; 3]>(c.pick(4, 7), 0),
            6 => round::<Option<[bool; 3]>>(n, 0),
            _ => round::<[[Option<u8>; 2]; 1]>(n, 0),
        }
    }
    P12 p12_lists [7, 7] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => round::<Vec<u8>>(3, 2),
            1 => round::<Option<Vec<u8>>>(n, c.pick(1, 2)),
            2 => round::<Vec<bool>>(n, c.pick(2, 4)),
            3 => round::<Option<Vec<bool>>>(n, c.pick(1, 2)),
            4 => round::<Vec<Option<i32>>>(n, c.pick(1, 2)),
            5 => round::<Vec<Option<bool>>>(n, c.pick(1, 2)),
            _ => round::<Option<Vec<Option<u8>>>>(n, 1),
        }
    }
    P12 p12_deep [9, 9] (c) {
        let n = c.pick(1, 2);
        match c.case {
            0 => round::<Vec<Vec<u8>>>(2, c.pick(1, 2)),
            1 => round::<Option<Vec<Option<Vec<u8>>>>>(n, 1),
            2 => round::<Vec<[u8; 2]>>(2, c.pick(1, 2)),
            3 => round::<Option<Vec<Option<[u8; 2]>>>>(n, 1),
            4 => round::<[Vec<u8>; 2]>(n, c.pick(1, 2)),
            5 => round::<Option<[Option<Vec<u8>>; 2]>>(n, 1),
            6 => round::<Vec<[bool; 3]>>(2, c.pick(1, 2)),
            7 => round::<[Vec<Option<bool>>; 2]>(n, 1),
            _ => round::<Vec<Vec<Vec<u8>>>>(n, c.pick(1, 2)),
        }
    }
    // Many items: several words of validity bits and values.
    P12 p12_many [6, 6] (c) {
        let n = if c.thorough { [64, 65, 127, 130, 200][upto(4)] } else { [35, 65][upto(1)] };
        let k = [0, 1, 7, 32][upto(3)];
        fn two<T: ArrayItem + Gen>(n: usize, k: usize)
        where
            Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
        {
            let items: Vec<T> = (0..n).map(|_| T::full(1)).collect();
            let mut a: Array<T> = items[..k].iter().cloned().collect();
            a.extend(items[k..n - 2].iter().cloned());
            check(a.try_extend(items[n - 2..].iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
            agree(a, &items);
        }
        match c.case {
            0 => two::<bool>(n, k),
            1 => two::<Option<bool>>(n, k),
            2 => two::<Option<u8>>(n, k),
            3 => two::<[bool; 3]>(n, k),
            4 => two::<Vec<bool>>(n, k),
            _ => two::<[Option<u8>; 2]>(n, k),
        }
    }
    // Lengths at which narrow counters would overflow.
    P12 p12_huge [18, 18] (c) {
        fn go<T: ArrayItem + Gen>(n: usize, k: usize)
        where
            Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
        {
            let items: Vec<T> = many(n);
            let mut a: Array<T> = items[..k].iter().cloned().collect();
            let (p, q) = (items[k..n - 2].iter().cloned(), items[n - 2..].iter().cloned());
            if flip() {
                a.extend(p);
                check(a.try_extend(q).is_ok(), "fallible extend failed without allocation failure");
            } else {
                check(a.try_extend(p).is_ok(), "fallible extend failed without allocation failure");
                a.extend(q);
            }
            agree_long(a, &items, k, n % 2 == 0);
        }
        match c.case {
            0 => go::<bool>(LONG[4] + 9, LONG[4] - 3),
            1 => go::<Option<u8>>(LONG[4] + 4, 5),
            2 => go::<Vec<u8>>(LONG[2] + 9, 1),
            3 => go::<i32>(LONG[0] + 9, LONG[0]),
            4 => go::<Option<bool>>(LONG[2] + 9, 2),
            5 => go::<Option<u16>>(LONG[3] + 9, LONG[1] + 1),
            6 => go::<[u8; 3]>(LONG[1] + 9, 5),
            7 => go::<Option<[u8; 2]>>(LONG[2] + 3, LONG[1]),
            8 => go::<[Option<u8>; 3]>(LONG[1] + 3, 350),
            9 => go::<Option<[Option<bool>; 3]>>(LONG[1] + 6, 3),
            10 => go::<Option<Vec<u8>>>(LONG[2] + 3, 4),
            11 => go::<Vec<Option<i32>>>(LONG[1] + 3, 4),
            12 => go::<Vec<bool>>(LONG[1] + 8, 4),
            13 => go::<Vec<Option<Vec<u8>>>>(LONG[1] + 2, 9),
            14 => go::<Vec<[bool; 3]>>(LONG[0] + 2, 9),
            15 => go::<[u8; 33]>(9, 4),
            16 => go::<[Option<u8>; 300]>(6, 2),
            _ => go::<Option<[bool; 17]>>(20, 7),
        }
    }
}
