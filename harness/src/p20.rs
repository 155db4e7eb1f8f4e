//! Exports conform and re-import unchanged.
use crate::ffi::*;
use crate::store::*;
use crate::sym::*;
use crate::util::*;
use narrow::layout::ArrayItem;

fn reads<'a, T: Val + ArrayItem>(a: &'a ArrowArray, s: &ArrowSchema, items: &[T])
where
    Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
{
    let r: Result<Array<T, SliceBuffer<'a>>, _> = unsafe { Import::import(a, s) };
    match r {
        Ok(b) => agree(b, items),
        Err(_) => check(false, "an export cannot be imported"),
    }
}
fn conforms<T, B: Buffer>(a: Array<T, B>, items: &[T])
where
    T: Exported + ArrayItem,
    Array<T, B>: Export,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
{
    match a.export() {
        Ok((a, s)) => {
            let (ra, rs) = raw(&a, &s);
            check(ra.length == items.len() as i64, "exported length differs");
            let v = T::read(ra, rs);
            check(v.len() == items.len(), "number of exported items differs");
            for (x, y) in v.iter().zip(items) {
                check(x.same(y), "exported item differs");
            }
            reads(&a, &s, items);
            if flip() {
                drop(s);
                drop(a);
            } else {
                drop(a);
                drop(s);
            }
        }
        Err(_) => check(false, "an array without bit offsets cannot be exported"),
    }
}
/// Arrays built in different ways.
fn built<T>(n: usize, len: usize, full: bool)
where
    T: Exported + ArrayItem,
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default + Export,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
{
    let before = heap_live();
    {
        let items: Vec<T> = if n > 250 || len > 8 {
            thin(n, || (0..n).map(|_| T::generate(len)).collect())
        } else if full {
            (0..n).map(|_| T::full(len)).collect()
        } else {
            some::<T>(upto(n), len)
        };
        let n = items.len();
        let mode = upto(3);
        let k = if mode == 0 { n } else if full { n / 2 } else { upto(n) };
        let (p, q) = items.split_at(k);
        let mut a: Array<T> = p.iter().cloned().collect();
        match mode {
            0 => (),
            1 => a.extend(q.iter().cloned()),
            2 => check(a.try_extend(q.iter().cloned()).is_ok(), "fallible extend failed without allocation failure"),
            _ => {
                a.extend(q.iter().cloned());
                a.truncate(k);
            }
        }
        let items = if mode == 3 { p } else { &items };
        conforms(a, items);
    }
    check(heap_live() == before, "memory is leaked");
}
/// Arrays whose last append was cut short by a panic or a failed allocation.
fn interrupted<T>(n: usize, at: usize, len: usize)
where
    T: Exported + ArrayItem,
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default + Export,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
{
    let mut items: Vec<T> = (0..upto(n)).map(|_| T::full(len)).collect();
    let at = upto(at);
    let new: Vec<T> = (0..at + 1).map(|_| T::full(len)).collect();
    let mut a: Array<T> = items.iter().cloned().collect();
    match upto(2) {
        0 => check(catch(|| a.extend(Bomb { it: new.iter().cloned(), at })), "the panic is lost"),
        1 => check(catch(|| drop(a.try_extend(Bomb { it: new.iter().cloned(), at }))), "the panic is lost"),
        _ => {
            let mut rest = new.clone();
            rest.extend(new.iter().cloned());
            let owned = rest.clone();
            let k = upto(2) as u64;
            alloc_fail(k);
            let r = a.try_extend(owned);
            alloc_fail(u64::MAX);
            if r.is_ok() {
                items.extend(rest);
            }
            return conforms(a, &items);
        }
    }
    let n = a.len();
    check(n >= items.len() && n <= items.len() + at, "elements are lost or invented by a panic");
    let k = n - items.len();
    items.extend(new[..k].iter().cloned());
    conforms(a, &items);
}
/// Arrays assembled from parts in some storage.
fn parts<S: Store, T>(n: usize, row: usize)
where
    T: Exported + Parts,
    Array<T, S::B>: Export,
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
{
    let (m, items) = T::parts::<S>(n, &mut Make::new(row, false));
    conforms(Array::<T, S::B>::from_buffer(m), &items);
}
fn store<S: Store>(n: usize) {
    let k = S::ONLY.unwrap_or_else(|| upto(n));
    match upto(6) {
        0 => parts::<S, u16>(k, 0),
        1 => parts::<S, Option<i64>>(k, 0),
        2 => parts::<S, bool>(if S::ONLY.is_some() { 17 } else { k }, 0),
        3 => parts::<S, Option<bool>>(if S::ONLY.is_some() { 19 } else { k }, 0),
        4 => parts::<S, Option<[u8; 3]>>(if S::ONLY.is_some() { 1 } else { k }, 0),
        5 => parts::<S, Option<Vec<Option<u8>>>>(if S::ONLY.is_some() { 2 } else { k.min(2) }, 2),
        _ => parts::<S, [Option<[bool; 1]>; 3]>(if S::ONLY.is_some() { 1 } else { k.min(1) }, 0),
    }
}

harnesses! {
    P20 p20_flat [14, 14] (c) {
        let n = c.pick(3, 9);
        match c.case {
            0 => built::<bool>(c.pick(9, 18), 0, false),
            1 => built::<Option<bool>>(n, 0, false),
            2 => built::<i8>(n, 0, false),
            3 => built::<u8>(n, 0, false),
            4 => built::<i16>(n, 0, false),
            5 => built::<Option<u16>>(n, 0, false),
            6 => built::<i32>(n, 0, false),
            7 => built::<Option<u32>>(n, 0, false),
            8 => built::<i64>(n, 0, false),
            9 => built::<Option<i64>>(n, 0, false),
            10 => built::<u64>(n, 0, false),
            11 => built::<f32>(n, 0, false),
            12 => built::<Option<f64>>(n, 0, false),
            _ => built::<Option<i8>>(n, 0, false),
        }
    }
    P20 p20_fixed [9, 9] (c) {
        let n = c.pick(2, 4);
        match c.case {
            0 => built::<[u8; 2]>(n, 0, false),
            1 => built::<Option<[u16; 3]>>(n, 0, false),
            2 => built::<[Option<bool>; 3]>(n, 0, false),
            3 => built::<[[u8; 2]; 2]>(n, 0, false),
            4 => built::<Option<[Option<i64>; 1]>>(n, 0, false),
            5 => built::<Option<[[Option<bool>; 2]; 1]>>(n, 0, false),
            6 => built::<[bool; 4]>(n, 0, false),
            7 => built::<[Vec<u8>; 2]>(1, c.pick(1, 2), false),
            _ => built::<[Option<u32>; 10]>(1, 0, false),
        }
    }
    P20 p20_lists [9, 9] (c) {
        let (n, l) = (2, c.pick(1, 2));
        match c.case {
            0 => built::<Vec<u8>>(c.pick(2, 3), 2, false),
            1 => built::<Option<Vec<u8>>>(n, l, false),
            2 => built::<Vec<Option<u16>>>(n, l, false),
            3 => built::<Vec<bool>>(n, l, false),
            4 => built::<Option<Vec<Option<bool>>>>(n, l, false),
            5 => built::<Vec<[u8; 2]>>(n, l, false),
            6 => built::<Vec<Vec<u8>>>(c.pick(1, 2), l, false),
            7 => built::<Option<Vec<Option<Vec<Option<u8>>>>>>(1, l, false),
            _ => built::<Vec<Option<[bool; 3]>>>(n, l, false),
        }
    }
    P20 p20_interrupted [10, 10] (c) {
        let (n, at, l) = (c.pick(2, 4), c.pick(2, 5), c.pick(1, 2));
        match c.case {
            0 => interrupted::<u16>(n, at, 0),
            1 => interrupted::<Option<u8>>(n, at, 0),
            2 => interrupted::<bool>(n, c.pick(9, 17), 0),
            3 => interrupted::<Option<bool>>(n, at, 0),
            4 => interrupted::<[Option<u8>; 2]>(n, at, 0),
            5 => interrupted::<Option<[u8; 2]>>(n, at, 0),
            6 => interrupted::<Option<[Option<bool>; 3]>>(n, at, 0),
            7 => interrupted::<Vec<Option<[u8; 2]>>>(n.min(2), at, l),
            8 => interrupted::<Option<Vec<u8>>>(n, at, l),
            _ => interrupted::<[Option<[u8; 1]>; 2]>(n, at, 0),
        }
    }
    // Larger arrays.
    P20 p20_wide [6, 6] (c) {
        let n = [33, 65, c.pick(65, 130)][upto(1 + c.thorough as usize)];
        match c.case {
            0 => built::<bool>(n, 0, true),
            1 => built::<Option<u8>>(n, 0, true),
            2 => built::<Vec<Option<u8>>>(n / 16, 5, true),
            3 => built::<[bool; 10]>(n / 8, 0, true),
            4 => built::<Option<bool>>(n, 0, true),
            _ => built::<Option<Vec<bool>>>(n / 16, 7, true),
        }
    }
    P20 p20_storage [6, 6] (c) {
        let n = c.pick(3, 5);
        let before = heap_live();
        match c.case {
            0 => store::<VecBuffer>(n),
            1 => store::<BoxBuffer>(n),
            2 => store::<RcBuffer>(n),
            3 => store::<ArcBuffer>(n),
            4 => store::<ArrayBuffer<3>>(n),
            _ => {
                // (the storage itself is leaked)
                store::<SliceBuffer<'static>>(n);
                return;
            }
        }
        check(heap_live() == before, "memory is leaked");
    }
    // Lengths at which narrow counters would overflow.
    P20 p20_huge [13, 13] (c) {
        match c.case {
            11 => built::<Option<u8>>([256, 264, 320, 511][upto(3)], 0, true),
            12 => built::<Option<bool>>([255, 256, 320, 512][upto(3)], 0, true),
            0 => built::<bool>(LONG[4] + 5, 0, true),
            1 => built::<u8>(LONG[4] + 5, 0, true),
            2 => built::<Option<u16>>(LONG[4] + 5, 0, true),
            3 => built::<Vec<u8>>(LONG[2] + 5, 2, true),
            4 => built::<Option<bool>>(LONG[2] + 5, 0, true),
            5 => built::<Vec<u8>>(3, 66000, true),
            6 => built::<[u8; 33]>(251, 0, true),
            7 => built::<Option<[Option<u8>; 32]>>(4, 9, true),
            8 => built::<Vec<Option<u8>>>(LONG[0] + 5, 3, true),
            9 => built::<Option<i64>>(LONG[2] + 5, 0, true),
            _ => built::<Option<Vec<bool>>>(LONG[1] + 5, 3, true),
        }
    }
    // The formats of lists of many sizes.
    P20 p20_widths [18, 18] (c) {
        match c.case {
            0 => built::<[u8; 5]>(1, 0, false),
            1 => built::<[bool; 9]>(1, 0, false),
            2 => built::<[u8; 11]>(1, 0, false),
            3 => built::<[u16; 19]>(1, 0, false),
            4 => built::<[u8; 99]>(1, 0, true),
            5 => built::<Option<[u8; 21]>>(1, 0, true),
            6 => built::<[u8; 101]>(1, 0, true),
            7 => built::<[bool; 255]>(1, 0, true),
            8 => built::<[u8; 256]>(1, 0, true),
            9 => built::<[u32; 900]>(0, 0, true),
            10 => built::<[u8; 1000]>(0, 0, true),
            11 => built::<[bool; 1001]>(0, 0, true),
            12 => built::<[u8; 9999]>(0, 0, true),
            13 => built::<[u8; 10000]>(0, 0, true),
            14 => built::<[u8; 65536]>(0, 0, true),
            15 => built::<Vec<[u8; 100090]>>(0, 0, true),
            16 => built::<[[u8; 10]; 110]>(0, 0, true),
            _ => built::<[[u8; 70]; 20]>(1, 0, true),
        }
    }
}
