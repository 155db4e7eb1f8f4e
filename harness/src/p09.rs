//! Variable-size lists: growing and shrinking.
use crate::ghost::*;
use crate::sym::*;
use crate::util::*;
use core::borrow::Borrow;
use narrow::offset::Offset;

type M<T> = Vec<Vec<T>>;

/// Children of lists.
trait Child: CollectionRealloc<Owned = Self::Item, Alloc = ()> + Default + FromIterator<Self::Item> {
    type Item: Val + Clone + for<'any> narrow::collection::view::AsView<'any>;
    fn item() -> Self::Item;
    /// A child with the given elements built from raw parts where that matters.
    fn raw(x: &[Self::Item]) -> Self {
        x.iter().cloned().collect()
    }
}
impl Child for Vec<u8> {
    type Item = u8;
    fn item() -> u8 {
        any()
    }
}
impl Child for Vec<i64> {
    type Item = i64;
    fn item() -> i64 {
        any()
    }
}
impl Child for Bitmap {
    type Item = bool;
    fn item() -> bool {
        any_bool()
    }
    /// Bit offset 3, arbitrary padding and a spare byte.
    fn raw(x: &[bool]) -> Bitmap {
        let mut d = bytes((x.len() + 3 + 7) / 8 + 1);
        for (i, b) in x.iter().enumerate() {
            let (k, s) = ((i + 3) / 8, (i + 3) % 8);
            d[k] = d[k] & !(1 << s) | (*b as u8) << s;
        }
        bitmap_at(&d, x.len(), 3).0
    }
}
impl Child for Validity<Vec<u8>> {
    type Item = Option<u8>;
    fn item() -> Option<u8> {
        let (b, x) = (any_bool(), any());
        if b { Some(x) } else { None }
    }
}
impl Child for Flatten<Vec<u8>, 2> {
    type Item = [u8; 2];
    fn item() -> [u8; 2] {
        any()
    }
}
impl Child for Offsets<Vec<u8>, i32> {
    type Item = Vec<u8>;
    fn item() -> Vec<u8> {
        bytes(1)
    }
}

fn row<C: Child>(max: usize) -> Vec<C::Item> {
    (0..upto(max)).map(|_| C::item()).collect()
}
fn some<C: Child>(n: usize, max: usize) -> M<C::Item> {
    (0..n).map(|_| row::<C>(max)).collect()
}

type L<C, O> = Offsets<C, O, VecBuffer>;

fn apply<C: Child, O: Offset>(v: &mut L<C, O>, m: &mut M<C::Item>, op: usize, k: usize, len: usize) {
    match op {
        0 => {
            let x = some::<C>(k, len);
            v.extend(x.iter().cloned());
            m.extend(x);
        }
        1 => {
            let x = some::<C>(k, len);
            check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
            m.extend(x);
        }
        2 => {
            v.truncate(cut(k, m.len()));
            m.truncate(k);
        }
        3 => v.reserve(k),
        4 => check(v.try_reserve(k).is_ok(), "fallible reserve failed without allocation failure"),
        _ => {
            let mut x = some::<C>(k, len);
            x.push(vec![C::item()]);
            x.push(vec![]);
            let r = Resumes { items: x.clone(), pos: 0, stop: k, stopped: false };
            if flip() {
                v.extend(r);
            } else {
                check(v.try_extend(r).is_ok(), "fallible extend failed without allocation failure");
            }
            m.extend(x[..k].iter().cloned());
        }
    }
    check(v.len() == m.len(), "length differs after the operation");
}

fn finish<C: Child, O: Offset>(v: L<C, O>, m: &M<C::Item>) {
    agree_index(&v, m);
    check(v.view(m.len()).is_none(), "element beyond the end");
    let o: Vec<usize> = Borrow::<[O]>::borrow(v.buffer_ref()).iter().map(|x| x.as_usize()).collect();
    check(o.len() == m.len() + 1, "not one offset more than rows");
    check(o[0] == 0, "offsets do not start at zero");
    for i in 0..m.len() {
        check(o[i] <= o[i + 1] && o[i + 1] - o[i] == m[i].len(), "offsets do not match the rows");
    }
    check(o[m.len()] <= v.child_ref().len(), "offsets end beyond the child");
    if flip() {
        agree_into(v, m);
    } else {
        // the parts are valid and read the same again
        let (d, o) = v.into_parts();
        match L::<C, O>::try_from_parts(d, o) {
            Ok(v) => agree_index(&v, m),
            Err(_) => check(false, "own parts refused"),
        }
    }
}

/// Starting states: from parts (with trailing data), collected, or empty.
fn start<C: Child, O: Offset>(kind: usize, n: usize, len: usize) -> (L<C, O>, M<C::Item>) {
    match kind {
        0 => {
            let m = some::<C>(n, len);
            let mut d: Vec<C::Item> = m.iter().flatten().cloned().collect();
            let mut o = vec![O::default()];
            let mut at = 0;
            for r in &m {
                at += r.len();
                o.push(O::try_from(at).unwrap_or_default());
            }
            d.extend((0..upto(2)).map(|_| C::item()));
            match L::try_from_parts(C::raw(&d), o) {
                Ok(v) => (v, m),
                Err(_) => {
                    check(false, "valid offsets refused");
                    loop {}
                }
            }
        }
        1 => {
            let m = some::<C>(n, len);
            (m.iter().cloned().collect(), m)
        }
        2 => {
            let m = some::<C>(n, len);
            (L::from_iter_in(m.iter().cloned(), ()), m)
        }
        3 => {
            let m = some::<C>(n, len);
            match L::try_from_iter_in(m.iter().cloned(), ()) {
                Ok(v) => (v, m),
                Err(_) => {
                    check(false, "fallible collect failed without allocation failure");
                    loop {}
                }
            }
        }
        _ => (L::with_capacity_in(n, ()), vec![]),
    }
}

fn history<C: Child, O: Offset>(c: Cfg, n: usize, len: usize) {
    let (mut v, mut m) = start::<C, O>([0, 1, 4][upto(if c.thorough { 2 } else { 1 })], upto(n), len);
    apply(&mut v, &mut m, c.case, upto(2), len);
    let op = upto(5);
    apply(&mut v, &mut m, op, upto(if op == 2 { 2 } else { 1 }), len);
    if c.thorough {
        let op = upto(2);
        apply(&mut v, &mut m, op, 1, 1);
    }
    finish(v, &m);
}

/// Collecting from a source that goes on after its first end.
fn resuming<C: Child, O: Offset>(n: usize, len: usize) {
    let n = upto(n);
    let mut m = some::<C>(n, len);
    m.push(vec![C::item()]);
    if flip() {
        m.push(vec![]);
    }
    let it = resumes(&m, n);
    let r = match upto(2) {
        0 => Ok(it.collect::<L<C, O>>()),
        1 => Ok(L::<C, O>::from_iter_in(it, ())),
        _ => L::<C, O>::try_from_iter_in(it, ()),
    };
    m.truncate(n);
    match r {
        Ok(v) => finish(v, &m),
        Err(_) => check(false, "fallible collect failed without allocation failure"),
    }
}

/// Histories of lists with rows of up to 16 elements more than some multiple
/// of `2^shift`.
fn far<O: Offset + Any>(steps: usize, shift: u32) {
    let size = || {
        let x = any::<u8>() as usize;
        (x >> 4) << shift | x & 15
    };
    let (a, b) = (size(), size());
    let b = a + b;
    let n = b + size();
    let o = |x: usize| O::try_from(x).unwrap_or_default();
    let Ok(mut v) = Offsets::<Count, O, VecBuffer, Row>::try_from_parts(Count(n), vec![o(0), o(a), o(b)]) else {
        check(false, "valid offsets refused");
        return;
    };
    let mut want = vec![0, a, b];
    for _ in 0..steps {
        match upto(4) {
            0 => {
                let k = upto(3);
                v.truncate(k);
                want.truncate(k.strict_add(1));
            }
            1 => {
                let (r, s) = (size(), size());
                let end = want[want.len() - 1];
                v.extend([Row(r), Row(s)]);
                want.push(end + r);
                want.push(end + r + s);
            }
            2 => {
                let r = size();
                let end = want[want.len() - 1];
                check(v.try_extend([Row(r)]).is_ok(), "extension refused");
                want.push(end + r);
            }
            3 => v.extend([]),
            _ => check(v.try_reserve(upto(1)).is_ok(), "reservation refused"),
        }
        check(v.len() == want.len() - 1, "number of rows differs");
        let now: &[O] = v.buffer_ref().borrow();
        check(now.len() == want.len(), "number of offsets differs");
        for i in 0..now.len().min(want.len()) {
            check(now[i].as_usize() == want[i], "an offset differs");
        }
        let end = want[want.len() - 1];
        check(v.child_ref().len() >= end, "offsets end beyond the child");
        for i in 0..want.len() - 1 {
            match v.view(i) {
                Some(r) => check(r.len() == want[i + 1] - want[i], "row length differs"),
                None => check(false, "row missing"),
            }
        }
        check(v.view(want.len() - 1).is_none(), "row beyond the end");
    }
}

harnesses! {
    P09 p09_bytes [6, 6] (c) { history::<Vec<u8>, i32>(c, 2, c.pick(1, 2)) }
    P09 p09_words [6, 6] (c) { history::<Vec<i64>, i64>(c, 1, 1) }
    P09 p09_bits [6, 6] (c) { history::<Bitmap, i32>(c, c.pick(1, 2), c.pick(2, 2)) }
    P09 p09_nullable [6, 6] (c) { history::<Validity<Vec<u8>>, i32>(c, 1, c.pick(1, 2)) }
    P09 p09_pairs [6, 6] (c) { history::<Flatten<Vec<u8>, 2>, i64>(c, 1, 1) }
    P09 p09_nested [6, 6] (c) { history::<Offsets<Vec<u8>, i32>, i64>(c, 1, 1) }
    // One operation from larger states, every way to build them.
    P09 p09_one [30, 30] (c) {
        let (mut v, mut m) = start::<Vec<u8>, i32>(c.case / 6, upto(3), 2);
        apply(&mut v, &mut m, c.case % 6, upto(c.pick(2, 3)), c.pick(2, 3));
        finish(v, &m);
    }
    P09 p09_one_bits [30, 30] (c) {
        let lens = [upto(2) * 4, upto(c.pick(1, 3)) * 3];
        let (mut v, mut m) = start::<Bitmap, i64>(c.case / 6, 0, 0);
        let x: M<bool> = lens.iter().map(|n| bools(*n)).collect();
        v.extend(x.iter().cloned());
        m.extend(x);
        match c.case % 6 {
            2 => {
                let k = upto(3);
                v.truncate(k);
                m.truncate(k);
            }
            3 => v.reserve(upto(9)),
            4 => check(v.try_reserve(upto(9)).is_ok(), "fallible reserve failed without allocation failure"),
            k => {
                let x: M<bool> = vec![bools(upto(9)), bools(upto(1))];
                match k {
                    0 => v.extend(x.iter().cloned()),
                    1 => check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure"),
                    _ => v = L::<Bitmap, i64>::from_iter_in(m.iter().cloned().chain(x.iter().cloned()), ()),
                }
                m.extend(x);
            }
        }
        let y = bools(3);
        v.extend([y.clone()]);
        m.push(y);
        finish(v, &m);
    }
    // Rows longer than any small buffer.
    P09 p09_long_rows [3, 3] (c) {
        let k = if c.thorough { [40, 63, 64, 65, 130][upto(4)] } else { [33, 65][upto(1)] };
        let (mut v, mut m) = start::<Bitmap, i32>(0, 1, 1);
        let x: M<bool> = vec![bools(k), vec![any_bool()], bools(9)];
        match c.case {
            0 => v.extend(x.iter().cloned()),
            1 => check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure"),
            _ => for r in &x { v.extend([r.clone()]) }
        }
        m.extend(x);
        let t = upto(4);
        v.truncate(t);
        m.truncate(t);
        let y = bools(2);
        v.extend([y.clone()]);
        m.push(y);
        finish(v, &m);
    }
    // Size hints that promise nothing or too much.
    P09 p09_hints [4, 4] (c) {
        let m = some::<Vec<u8>>(upto(2), 2);
        let (lo, hi) = [(0, None), (0, Some(0)), (0, Some(100)), (3, Some(usize::MAX))][c.case];
        let it = || Hinted { it: m.clone().into_iter(), lo, hi };
        let v = match upto(3) {
            0 => it().collect::<L<Vec<u8>, i32>>(),
            1 => L::<Vec<u8>, i32>::from_iter_in(it(), ()),
            2 => {
                let mut v = L::<Vec<u8>, i32>::default();
                v.extend(it());
                v
            }
            _ => match L::<Vec<u8>, i32>::try_from_iter_in(it(), ()) {
                Ok(v) => v,
                Err(_) => { check(false, "fallible collect failed without allocation failure"); return }
            },
        };
        finish(v, &m);
    }
    // Collecting from a source that goes on after its first end.
    P09 p09_resuming [4, 4] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => resuming::<Vec<u8>, i32>(n, 2),
            1 => resuming::<Bitmap, i64>(n, 2),
            2 => resuming::<Validity<Vec<u8>>, i32>(n, 1),
            _ => resuming::<Offsets<Vec<u8>, i32>, i32>(n, 1),
        }
    }
    // Lengths at which narrow counters would overflow.
    // Rows that end anywhere, over children of which only the length exists.
    P09 p09_far [2, 2] (c) {
        if c.case == 0 { far::<i32>(c.pick(2, 3), 24) } else { far::<i64>(c.pick(2, 3), 55) }
    }
    P09 p09_huge [20, 20] (c) {
        let (at, how) = (c.case % 5, c.case / 5);
        if at < 4 {
            return long_ops::<Lists<Vec<u8>>>(at, how);
        }
        match how {
            0 => long_ops::<Lists<Vec<u8>>>(at, 1),
            1 => long_ops::<Lists<Bitmap>>(2, 1),
            2 => long_ops::<Lists<Validity<Vec<u8>>>>(2, 0),
            _ => {
                // one long row between short ones
                let m: M<u8> = vec![many(3), many(LONG[4] + 3), many(2)];
                let mut v: L<Vec<u8>, i32> = m[..2].iter().cloned().collect();
                v.extend([m[2].clone()]);
                agree_long(v, &m, 1, true)
            }
        }
    }
}
