//! All storage backends read the same data the same way.
use crate::store::*;
use crate::sym::*;
use crate::util::*;
use narrow::fixed_size::FixedSize;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};

fn length<S: Store>(n: usize) -> usize {
    S::ONLY.unwrap_or_else(|| upto(n))
}
fn number<S: Store, T: FixedSize + Gen>(n: usize) {
    let v = some::<T>(length::<S>(n), 0);
    let a = Array::<T, S::B>::from_buffer(FixedSizePrimitive::from_buffer(S::put(&v)));
    agree(a, &v);
}
fn bitmap<S: Store>(n: usize) -> (Bitmap<S::B>, Vec<bool>) {
    let d = bytes(length::<S>(n));
    let off = upto((8 * d.len()).min(9));
    let bits = if flip() { 8 * d.len() - off } else { upto((8 * d.len() - off).min(3)) };
    bitmap_of::<S>(&d, bits, off)
}
fn boolean<S: Store>(n: usize) {
    let (b, m) = bitmap::<S>(n);
    let a = Array::<bool, S::B>::from_buffer(Boolean::from_buffer(b));
    agree(a, &m);
}
/// Nullness for `n` rows: a bitmap over as many bytes as the storage needs, or
/// none.
fn nulls<S: Store>(n: usize) -> Option<(Bitmap<S::B>, Vec<bool>)> {
    let off = match upto(4) {
        0 => return None,
        1 => 0,
        2 => 1,
        3 => 7,
        _ => 8,
    };
    let k = S::ONLY.unwrap_or((off + n + 7) / 8 + 1);
    Some(bitmap_of::<S>(&bytes(k), n, off))
}
fn valid<C: Collection, B: Buffer>(c: C, v: Vec<C::Owned>, b: Option<(Bitmap<B>, Vec<bool>)>) -> (Validity<C, B>, Vec<Option<C::Owned>>) {
    match b {
        None => (Validity::from_collection(c), v.into_iter().map(Some).collect()),
        Some((b, bits)) => match Validity::try_from_parts(c, b) {
            Ok(x) => (x, v.into_iter().zip(bits).map(|(x, b)| if b { Some(x) } else { None }).collect()),
            Err(_) => {
                check(false, "values and bits of the same length refused");
                loop {}
            }
        },
    }
}
fn optional<S: Store, T: FixedSize + Gen>(n: usize) {
    let v = some::<T>(length::<S>(n), 0);
    let (c, m) = valid(S::put(&v), v.clone(), nulls::<S>(v.len()));
    let a = Array::<Option<T>, S::B>::from_buffer(FixedSizePrimitive::from_buffer(c));
    agree(a, &m);
}
fn optional_bool<S: Store>(n: usize) {
    let (b, v) = bitmap::<S>(n);
    let k = v.len();
    let off = if 8 * 3 > k { upto(1) } else { 0 };
    let bytes = bytes(S::ONLY.unwrap_or((k + off + 7) / 8));
    let (c, m) = valid(b, v, Some(bitmap_of::<S>(&bytes, k, off)));
    agree(Array::<Option<bool>, S::B>::from_buffer(Boolean::from_buffer(c)), &m);
}
fn rows<T: Clone, const N: usize>(d: &[T]) -> Vec<[T; N]> {
    (0..d.len() / N).map(|i| core::array::from_fn(|j| d[i * N + j].clone())).collect()
}
fn flat<C: Collection, const N: usize>(c: C) -> Flatten<C, N> {
    match Flatten::try_from_parts(c) {
        Ok(f) => f,
        Err(_) => {
            check(false, "whole rows refused");
            loop {}
        }
    }
}
fn fixed<S: Store>(n: usize) {
    let v = some::<u8>(3 * S::ONLY.map_or_else(|| upto(n), |_| 1), 0);
    let (c, m) = valid(
        flat::<_, 3>(FixedSizePrimitive::<u8, NonNullable, S::B>::from_buffer(S::put(&v))),
        rows(&v),
        nulls::<S>(v.len() / 3),
    );
    let a = Array::<Option<[u8; 3]>, S::B>::from_buffer(FixedSizeList::from_buffer(c));
    agree(a, &m);
}
/// Offsets of `S`, over `n` elements.
fn offsets<S: Store>(rows: usize, n: usize) -> Vec<i32> {
    let rows = S::ONLY.map_or_else(|| upto(rows), |n| n - 1);
    let mut o = vec![0i32];
    for _ in 0..rows {
        let l = o[o.len() - 1];
        o.push(l + upto((n - l as usize).min(2)) as i32);
    }
    o
}
fn lists<C: Collection, S: Store>(c: C, v: &[C::Owned], o: &[i32]) -> (Offsets<C, i32, S::B>, Vec<Vec<C::Owned>>)
where
    C::Owned: Clone,
{
    let m = o.windows(2).map(|w| v[w[0] as usize..w[1] as usize].to_vec()).collect();
    match Offsets::try_from_parts(c, S::put(o)) {
        Ok(x) => (x, m),
        Err(_) => {
            check(false, "valid offsets refused");
            loop {}
        }
    }
}
fn list<S: Store>(n: usize) {
    let v = some::<u8>(length::<S>(n), 0);
    let o = offsets::<S>(n - 1, v.len());
    let (c, m) = lists::<_, S>(FixedSizePrimitive::<u8, NonNullable, S::B>::from_buffer(S::put(&v)), &v, &o);
    let k = m.len();
    let (c, m) = valid(c, m, nulls::<S>(k));
    let a = Array::<Option<Vec<u8>>, S::B>::from_buffer(VariableSizeList::from_buffer(c));
    agree(a, &m);
}
fn nested<S: Store>(n: usize) {
    let v = some::<u16>(length::<S>(n), 0);
    let (c, v) = valid(S::put(&v), v.clone(), Some(bitmap_of::<S>(&bytes(S::ONLY.unwrap_or(1)), v.len(), 1)));
    let o = offsets::<S>(2, v.len());
    let (c, m) = lists::<_, S>(FixedSizePrimitive::<u16, Nullable, S::B>::from_buffer(c), &v, &o);
    let a = Array::<Vec<Option<u16>>, S::B>::from_buffer(VariableSizeList::from_buffer(c));
    agree(a, &m);
}
fn blocks<S: Store>(n: usize) {
    // The building blocks themselves.
    let v = some::<i64>(length::<S>(n), 0);
    agree(S::put(&v), &v);
    let (b, m) = bitmap::<S>(n - 1);
    agree(b, &m);
}

/// Reads through one handle never change what another handle reads.
fn shared<C: Collection + Clone>(c: C, m: &[C::Owned])
where
    C::Owned: Val,
{
    let (a, b) = (c.clone(), c.clone());
    let k = upto(m.len() + 1);
    let mut x = a.into_iter_owned();
    let mut y = b.into_iter_owned();
    for i in 0..k {
        let e = x.next();
        check(e.is_some() == (i < m.len()), "number of consumed items differs");
        agree_iter(&c, m);
        if i % 2 == 0 {
            match y.next() {
                Some(e) => check(e.same(&m[i / 2]), "other handle reads something else"),
                None => check(m.len() <= i / 2, "other handle ends early"),
            }
        }
    }
    if flip() {
        drop(x);
        agree_index(&c, m);
    }
    drop(y);
    // now perhaps the only handle
    agree(c, m);
}

fn cloned<C: Collection + Clone>(mut c: C, m: &[C::Owned], more: &[C::Owned], extend: impl Fn(&mut C, &[C::Owned]), truncate: impl Fn(&mut C, usize))
where
    C::Owned: Val + Clone,
{
    let mut d = c.clone();
    agree_index(&d, m);
    let k = upto(m.len());
    let mut n = m[..k].to_vec();
    n.extend(more.iter().cloned());
    if flip() {
        // the original changes
        truncate(&mut c, k);
        extend(&mut c, more);
        agree_index(&d, m);
        agree(c, &n);
        agree(d, m);
    } else {
        // the clone changes
        truncate(&mut d, k);
        extend(&mut d, more);
        agree_index(&c, m);
        agree(d, &n);
        agree(c, m);
    }
}

/// Every owner of items of any kind, not only numbers.
fn owners<T: Gen>(n: usize, len: usize)
where
    T: for<'a> narrow::collection::view::AsView<'a> + 'static,
{
    let v = some::<T>(if n == 0 { 2 } else { upto(n) }, len);
    match upto(4) {
        0 => agree(v.clone(), &v),
        1 => agree(v.clone().into_boxed_slice(), &v),
        2 => shared(Rc::<[T]>::from(v.clone()), &v),
        3 => shared(Arc::<[T]>::from(v.clone()), &v),
        _ => {
            let s: &'static [T] = Vec::leak(v.clone());
            agree(s, &v);
        }
    }
    if let Ok(a) = <[T; 2]>::try_from(v.clone()) {
        agree(a, &v)
    }
}

fn case<S: Store>(what: usize, c: Cfg) {
    let n = c.pick(4, 7);
    match what {
        0 => number::<S, u32>(n),
        1 => boolean::<S>(c.pick(2, 3)),
        2 => optional::<S, u16>(n),
        3 => fixed::<S>(c.pick(2, 4)),
        4 => list::<S>(c.pick(3, 5)),
        5 => nested::<S>(3),
        6 => optional_bool::<S>(c.pick(1, 2)),
        7 => number::<S, FixedSizeArray<u8, 3>>(c.pick(3, 5)),
        _ => blocks::<S>(n),
    }
}

/// Many items.
fn large<S: Store>(n: usize) {
    let d: Vec<u8> = thin(n.max(5000), || bytes(n));
    let off = [0, 1, 7, 8, 300][upto(4)];
    let bits = 8 * n - off - upto(1) * 5;
    match upto(3) {
        0 => {
            let (b, m) = bitmap_of::<S>(&d, bits, off);
            agree_long(Array::<bool, S::B>::from_buffer(Boolean::from_buffer(b)), &m, bits / 2, flip())
        }
        1 => {
            let v: Vec<u32> = thin(n.max(5000), || some(n, 0));
            let (b, bits) = bitmap_of::<S>(&d, n, off);
            let (c, m) = valid(S::put(&v), v, Some((b, bits)));
            agree_long(Array::<Option<u32>, S::B>::from_buffer(FixedSizePrimitive::from_buffer(c)), &m, n / 2, flip())
        }
        2 => agree_long(Array::<u8, S::B>::from_buffer(FixedSizePrimitive::from_buffer(S::put(&d))), &d, n - 5, flip()),
        _ => {
            let o: Vec<i32> = (0..n).map(|i| (i - i % 3) as i32).collect();
            let (c, m) = lists::<_, S>(S::put(&d), &d, &o);
            agree_long(c, &m, n / 2, flip())
        }
    }
}

harnesses! {
    P14 p14_vec [9, 9] (c) { case::<VecBuffer>(c.case, c) }
    P14 p14_box [9, 9] (c) { case::<BoxBuffer>(c.case, c) }
    P14 p14_rc [9, 9] (c) { case::<RcBuffer>(c.case, c) }
    P14 p14_arc [9, 9] (c) { case::<ArcBuffer>(c.case, c) }
    P14 p14_slice [9, 9] (c) { case::<SliceBuffer<'static>>(c.case, c) }
    P14 p14_array [9, 9] (c) { case::<ArrayBuffer<3>>(c.case, c) }
    P14 p14_owners [7, 7] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => owners::<bool>(c.pick(3, 5), 0),
            1 => owners::<[u8; 3]>(n, 0),
            2 => owners::<Option<u16>>(n, 0),
            3 => owners::<Vec<u8>>(n, 2),
            4 => owners::<[Option<u8>; 2]>(n, 0),
            5 => owners::<Option<bool>>(n, 0),
            _ => owners::<Vec<Vec<u8>>>(n, 1),
        }
    }
    // Handles that share their storage.
    P14 p14_shared [6, 6] (c) {
        let n = c.pick(3, 5);
        match c.case {
            0 => {
                let v = some::<u32>(upto(n), 0);
                shared(RcBuffer::put(&v), &v)
            }
            1 => {
                let v = some::<u32>(upto(n), 0);
                shared(ArcBuffer::put(&v), &v)
            }
            2 => {
                let d = bytes(2);
                let (b, m) = bitmap_of::<RcBuffer>(&d, upto(n), upto(9));
                shared(b, &m)
            }
            3 => {
                let d = bytes(2);
                let (b, m) = bitmap_of::<ArcBuffer>(&d, upto(n), upto(9));
                shared(b, &m)
            }
            4 => {
                let v = some::<u8>(2 * upto(n), 0);
                shared(flat::<_, 2>(RcBuffer::put(&v)), &rows(&v))
            }
            _ => {
                let v = some::<u32>(upto(n), 0);
                shared(SliceBuffer::put(&v), &v)
            }
        }
    }
    // Clones are equal and independent.
    P14 p14_clone [4, 4] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => {
                let d = bytes(2);
                let (b, m) = bitmap_of::<VecBuffer>(&d, upto(c.pick(5, 7)), [0, 1, 7, 9][upto(3)]);
                cloned(b, &m, &bools(upto(n)), |c, x| c.extend(x.iter()), |c, k| c.truncate(k))
            }
            1 => {
                let v = some::<u16>(upto(n), 0);
                cloned(v.clone(), &v, &some::<u16>(upto(n), 0), |c, x| c.extend(x.iter().cloned()), |c, k| CollectionRealloc::truncate(c, k))
            }
            2 => {
                let v = some::<u8>(2 * upto(n), 0);
                cloned(flat::<_, 2>(v.clone()), &rows(&v), &some::<[u8; 2]>(upto(n), 0), |c, x| c.extend(x.iter().cloned()), |c, k| c.truncate(k))
            }
            _ => {
                let d = bytes(1);
                let (b, m) = bitmap_of::<VecBuffer>(&d, 2 * upto(n), upto(2));
                cloned(flat::<_, 2>(b), &rows(&m), &some::<[bool; 2]>(upto(n), 0), |c, x| c.extend(x.iter().cloned()), |c, k| c.truncate(k))
            }
        }
    }
    // Boxed slices can be collected too.
    P14 p14_collect [2, 2] (c) {
        if c.case == 0 {
            let v = some::<u32>(upto(c.pick(4, 7)), 0);
            let it = v.iter().cloned();
            match upto(2) {
                0 => agree(<Box<[u32]>>::from_iter_in(it, ()), &v),
                1 => match <Box<[u32]>>::try_from_iter_in(it, ()) {
                    Ok(b) => agree(b, &v),
                    Err(_) => check(false, "fallible collect failed without allocation failure"),
                },
                _ => agree(<Box<[u32]>>::with_capacity_in(v.len(), ()), &[]),
            }
        } else {
            let v = bools(upto(c.pick(9, 17)));
            let it = v.iter().cloned();
            match upto(1) {
                0 => agree(Bitmap::<BoxBuffer>::from_iter_in(it, ()), &v),
                _ => match Bitmap::<BoxBuffer>::try_from_iter_in(it, ()) {
                    Ok(b) => agree(b, &v),
                    Err(_) => check(false, "fallible collect failed without allocation failure"),
                },
            }
        }
    }
    // Lengths at which narrow counters would overflow.
    P14 p14_huge [8, 8] (c) {
        let n = [LONG[0] + 1, LONG[1] + 2][c.case / 4];
        match c.case % 4 {
            0 => large::<BoxBuffer>(n),
            1 => large::<RcBuffer>(n),
            2 => large::<ArcBuffer>(n),
            _ => large::<SliceBuffer<'static>>(n),
        }
    }
}
