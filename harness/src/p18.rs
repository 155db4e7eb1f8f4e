//! Importing accepts exactly what conforms.
use crate::ffi::*;
use crate::sym::*;
use crate::util::*;
use narrow::layout::ArrayItem;

fn judge<'a, T: ArrayItem>(k: &'a Node)
where
    Array<T, SliceBuffer<'a>>: Import<'a>,
{
    match k.import::<T>() {
        Ok(a) => {
            check(k.ok, "a non-conforming foreign array was imported");
            check(a.len() == k.n, "imported length differs");
            cover("imported");
        }
        Err(_) => {
            check(!k.ok, "a conforming foreign array was refused");
            cover("refused");
        }
    }
}
/// Structures with a few deviations anywhere.
fn deviate<T: Foreign + ArrayItem>(n: usize, left: usize, row: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let before = heap_live();
    {
        let mut p = Plan { left, wild: true, row, free: left == 0 };
        let (k, _) = T::foreign(&mut p, upto(n));
        judge::<T>(&k);
    }
    check(heap_live() == before, "memory is leaked");
}
/// All header fields arbitrary at once.
fn fields<T: Foreign + ArrayItem>(n: usize, nullable: bool, kids: i64, bufs: i64, length_ok: impl Fn(i64) -> bool)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let mut p = Plan { left: 0, wild: true, row: 1, free: true };
    let (mut k, _) = T::foreign(&mut p, upto(n));
    let a: RawArray = *k.array;
    let (length, offset, n_buffers): (i64, i64, i64) = (any(), any(), any());
    let (na, ns, flags): (i64, i64, i64) = (any(), any(), any());
    let null_count: i64 = any();
    let length = if flip() { a.length } else { length };
    let rest = (offset == 0) & (n_buffers == bufs) & (na == kids) & (ns == kids) & ((flags & NULLABLE != 0) == nullable);
    // (declaring more elements than there is memory for is outside the contract,
    // unless another field already rules the array out or nothing is read)
    assume(!rest | (length < 0) | (length == a.length) | length_ok(length));
    *k.array = RawArray { length, offset, n_buffers, n_children: na, null_count, ..a };
    k.schema.flags = flags;
    k.schema.n_children = ns;
    let nc = null_count == a.null_count;
    assume(nc | (null_count < -1) | (null_count > length) | !rest);
    k.ok &= rest & (length == a.length) & nc;
    judge::<T>(&k);
}

/// Large arrays, mostly of concrete data, with an arbitrary null count, an
/// arbitrary offset or a child of another length.
fn large<T: Foreign + ArrayItem>(n: usize, row: usize, listed: bool)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let before = heap_live();
    {
        let (mut k, _) = thin(n.max(5000), || T::foreign(&mut Plan::good(row), n));
        let a = &mut *k.array;
        match upto(if a.n_children > 0 { 3 } else { 1 }) {
            0 => (),
            1 => {
                let nulls: i64 = k.bits.iter().map(|b| !*b as i64).sum();
                let absent = unsafe { *a.buffers }.is_null();
                let known = a.null_count != -1;
                let c: i64 = any();
                a.null_count = c;
                k.ok &= (c == nulls) | ((c == -1) & (!known | !absent));
                if (c == -1) & known & absent {
                    // (fine where nothing can be null)
                    assume(k.schema.flags & NULLABLE != 0);
                }
            }
            2 => {
                // another length of the child, with no more elements than before
                let kid = unsafe { &mut **a.children };
                let less = [1, 2, kid.length / 2, kid.length][upto(3)];
                if less > kid.length {
                    return;
                }
                kid.length -= less;
                if kid.null_count > 0 {
                    kid.null_count = 0;
                    return;
                }
                k.ok &= less == 0;
                if listed && less > 0 {
                    let last = unsafe { *(*a.buffers.add(1)).cast::<i32>().add(n) };
                    k.ok = last as i64 <= kid.length;
                }
            }
            _ if listed => {
                let o = unsafe { (*a.buffers.add(1)).cast_mut().cast::<i32>() };
                let p = [0, 1, n / 2, 255, 256, 1023, 1024, n - 1, n][upto(8)].min(n);
                let v: i32 = any();
                let get = |i: usize| unsafe { *o.add(i) };
                k.ok &= if p == 0 { v == 0 } else { v >= get(p - 1) };
                k.ok &= if p == n { v as i64 <= unsafe { (**a.children).length } } else { v <= get(p + 1) };
                unsafe { *o.add(p) = v }
            }
            _ => return,
        }
        judge::<T>(&k);
    }
    check(heap_live() == before, "memory is leaked");
}

harnesses! {
    P18 p18_flat [13, 13] (c) {
        let (n, d) = (c.pick(2, 9), c.pick(1, 2));
        match c.case {
            0 => deviate::<bool>(c.pick(3, 9), d, 0),
            1 => deviate::<Option<bool>>(n, d, 0),
            2 => deviate::<i8>(n, d, 0),
            3 => deviate::<u8>(n, d, 0),
            4 => deviate::<i16>(n, d, 0),
            5 => deviate::<Option<u16>>(n, d, 0),
            6 => deviate::<i32>(n, d, 0),
            7 => deviate::<Option<u32>>(n, d, 0),
            8 => deviate::<i64>(n, d, 0),
            9 => deviate::<u64>(n, d, 0),
            10 => deviate::<f32>(n, d, 0),
            11 => deviate::<Option<f64>>(n, d, 0),
            _ => deviate::<Option<u8>>(c.pick(9, 17), 1, 0),
        }
    }
    P18 p18_fixed [7, 7] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => deviate::<[u8; 2]>(n, 1, 0),
            1 => deviate::<Option<[u16; 2]>>(n, 1, 0),
            2 => deviate::<[Option<bool>; 3]>(c.pick(1, 2), 1, 0),
            3 => deviate::<[[u8; 2]; 1]>(c.pick(1, 2), 1, 0),
            4 => deviate::<[u32; 0]>(1, 1, 0),
            5 => deviate::<Option<[Option<i64>; 1]>>(n, 1, 0),
            _ => deviate::<[Vec<u8>; 2]>(1, 1, c.pick(1, 2)),
        }
    }
    P18 p18_lists [7, 7] (c) {
        let (n, r) = (c.pick(2, 3), c.pick(2, 3));
        match c.case {
            0 => deviate::<Vec<u8>>(n, 1, r),
            1 => deviate::<Option<Vec<u8>>>(n, 1, r),
            2 => deviate::<Vec<Option<u16>>>(n, 1, r),
            3 => deviate::<Vec<bool>>(n, 1, r),
            4 => deviate::<Option<Vec<Option<bool>>>>(n, 1, r - 1),
            5 => deviate::<Vec<[u8; 2]>>(n, 1, r - 1),
            _ => deviate::<Vec<Vec<u8>>>(c.pick(1, 2), 1, r - 1),
        }
    }
    // Longer offsets and bitmaps.
    P18 p18_wide [4, 4] (c) {
        match c.case {
            0 => deviate::<Vec<u8>>(c.pick(4, 7), 1, c.pick(4, 6)),
            1 => deviate::<Option<Vec<u8>>>(c.pick(3, 5), 1, c.pick(3, 5)),
            2 => deviate::<Option<bool>>(c.pick(12, 20), 1, 0),
            _ => deviate::<Option<[u8; 2]>>(c.pick(9, 12), 1, 0),
        }
    }
    // Two deviations.
    P18 p18_two [4, 4] (c) {
        match c.case {
            0 => deviate::<Option<u16>>(1, 2, 0),
            1 => deviate::<bool>(1, 2, 0),
            2 => deviate::<Vec<u8>>(1, c.pick(1, 2), 1),
            _ => deviate::<[u8; 2]>(1, c.pick(1, 2), 0),
        }
    }
    P18 p18_fields [6, 6] (c) {
        match c.case {
            0 => fields::<u32>(2, false, 0, 2, |_| false),
            1 => fields::<Option<u8>>(2, true, 0, 2, |_| false),
            2 => fields::<bool>(2, false, 0, 2, |_| false),
            // (the length of a fixed-size list is compared with the child's
            // before anything is read)
            3 => fields::<[u8; 4]>(2, false, 1, 1, |_| true),
            4 => fields::<[u16; 3]>(2, false, 1, 1, |_| true),
            _ => fields::<Vec<u8>>(1, false, 1, 2, |_| false),
        }
    }
    // Lengths at which narrow counters would overflow.
    P18 p18_huge [14, 14] (c) {
        match c.case {
            0 => large::<Option<u8>>([64, 128, 256, LONG[1] + 3][upto(3)], 0, false),
            1 => large::<Option<bool>>([64, 100, 256, LONG[1] + 3][upto(3)], 0, false),
            2 => large::<Option<u16>>(LONG[4] + 3, 0, false),
            3 => large::<bool>(LONG[4] + 5, 0, false),
            4 => large::<Vec<u8>>(LONG[0] + 3, 3, true),
            5 => large::<Vec<u8>>(LONG[4] + 3, 2, true),
            6 => large::<Option<Vec<u16>>>(LONG[1] + 3, 2, true),
            7 => large::<Vec<u8>>(9, 70000, true),
            8 => large::<[u8; 300]>(9, 0, false),
            9 => large::<Option<[u8; 33]>>(LONG[0] + 3, 0, false),
            10 => large::<Vec<Option<u8>>>(LONG[0] + 3, 3, true),
            11 => large::<[bool; 9]>(LONG[1] + 3, 0, false),
            12 => large::<[Option<u8>; 2]>(LONG[0] + 3, 0, false),
            _ => large::<Vec<Vec<u8>>>(LONG[0] + 3, 2, true),
        }
    }
}
