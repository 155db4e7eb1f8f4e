//! Variable-size lists: reading.
use crate::ghost::*;
use crate::sym::*;
use crate::util::*;
use narrow::offset::Offset;

/// Row lengths, each concrete on the path.
fn shape(rows: usize, maxlen: usize) -> Vec<usize> {
    (0..upto(rows)).map(|_| upto(maxlen)).collect()
}
fn offsets<O: Offset>(lens: &[usize]) -> Vec<O> {
    let mut at = 0usize;
    let mut o: Vec<O> = vec![O::default()];
    for l in lens {
        at += l;
        o.push(O::try_from(at).unwrap_or_default());
    }
    o
}
fn rows<X: Clone>(d: &[X], lens: &[usize]) -> Vec<Vec<X>> {
    let mut at = 0;
    lens.iter()
        .map(|l| {
            at += l;
            d[at - l..at].to_vec()
        })
        .collect()
}

/// Everything there is to read in `Offsets` over `child`, which reads as `d`.
fn lists<T: Collection, O: Offset, S: Buffer>(mk: impl Fn() -> (T, S::For<O>), d: &[T::Owned], lens: &[usize])
where
    T::Owned: Val + Clone,
{
    let m = rows(d, lens);
    let build = || {
        let (t, o) = mk();
        Offsets::<T, O, S>::try_from_parts(t, o)
    };
    let (Ok(x), Ok(y)) = (build(), build()) else {
        check(false, "valid offsets refused");
        return;
    };
    agree_index(&x, &m);
    agree_beyond(&x, m.len());
    agree_iter(&x, &m);
    // views of rows are collections themselves
    let skip = flip();
    for i in 0..m.len() {
        match x.view(i) {
            Some(v) => {
                agree_index(&v, &m[i]);
                agree_beyond(&v, m[i].len());
                agree_iter(&v, &m[i]);
                agree_into_by(v, &m[i], skip)
            }
            None => check(false, "row missing"),
        }
    }
    let mut it = x.iter_views();
    for r in &m {
        match it.next() {
            Some(v) => agree_index(&v, r),
            None => check(false, "iteration ends early"),
        }
    }
    agree_into_by(y, &m, skip);
}

fn eq<A: PartialEq<B>, B>(a: &A, b: &B) -> bool {
    <A as PartialEq<B>>::eq(a, b)
}
type Row<'a, O> = narrow::offset::OffsetView<'a, Vec<u8>, O, VecBuffer, Vec<u8>>;
/// A row compared with any collection.
fn compare(len: usize) {
    let d = bytes(len + 2);
    let Ok(x) = Offsets::<Vec<u8>, i32, VecBuffer>::try_from_parts(d.clone(), vec![0, 1, (1 + len) as i32]) else {
        check(false, "valid offsets refused");
        return;
    };
    let x: &'static _ = Box::leak(Box::new(x));
    let Some(v) = x.view(1) else {
        check(false, "row missing");
        return;
    };
    let k = upto(3);
    let e = bytes(k);
    let same = k == len && e.same(&d[1..1 + len].to_vec());
    check(eq::<_, Vec<u8>>(&v, &e) == same, "comparison with a vector");
    let s: &'static [u8] = Vec::leak(e.clone());
    check(eq::<_, &'static [u8]>(&v, &s) == same, "comparison with a slice");
    // with a row of another list
    let mut f = vec![any::<u8>()];
    f.extend(e.iter().copied());
    let Ok(y) = Offsets::<Vec<u8>, i64, VecBuffer>::try_from_parts(f, vec![0, 1, 1 + k as i64]) else {
        check(false, "valid offsets refused");
        return;
    };
    // (the comparison of borrowing collections needs `'static` ones)
    let y: &'static _ = Box::leak(Box::new(y));
    match y.view(1) {
        Some(w) => {
            check(eq::<_, Row<'_, i64>>(&v, &w) == same, "comparison of rows");
            check(eq::<_, Row<'_, i32>>(&w, &v) == same, "comparison of rows is symmetric");
        }
        None => check(false, "row missing"),
    }
}

/// Two rows that end anywhere.
fn far<O: Offset + 'static>(a: i64, b: i64, consuming: usize) {
    let n: usize = any();
    assume(n <= isize::MAX as usize);
    assume((0 <= a) & (a <= b) & (b as usize <= n));
    let (a, b) = (a as usize, b as usize);
    let o = |x: usize| O::try_from(x).unwrap_or_default();
    let Ok(x) = Offsets::<Count, O, VecBuffer, Head>::try_from_parts(Count(n), vec![o(0), o(a), o(b)]) else {
        check(false, "valid offsets refused");
        return;
    };
    let want = [(0, a), (a, b - a)];
    let head = |(s, l): (usize, usize)| Head {
        first: if l > 0 { Some(s) } else { None },
        second: if l > 1 { Some(s + 1) } else { None },
        hint: l,
    };
    if consuming == 1 {
        if flip() {
            let mut it = x.into_iter_owned();
            let skip = flip();
            if !skip {
                check(it.next() == Some(head(want[0])), "first row differs");
            } else {
                check(it.nth(1) == Some(head(want[1])), "skipped-to row differs");
            }
            if !skip {
                check(it.next() == Some(head(want[1])), "second row differs");
            }
            check(it.next().is_none(), "row beyond the end");
            cover("consumed");
        } else {
            let i = upto(2);
            check(x.owned(i) == if i < 2 { Some(head(want[i])) } else { None }, "owned row differs");
            for (k, v) in x.iter_views().enumerate() {
                check((k < 2) && v.len() == want[k].1, "row length differs");
                let h: Head = v.iter_views().collect();
                check(h == head(want[k]), "iterated row differs");
                let h: Head = v.into_iter_owned().collect();
                check(h == head(want[k]), "consumed row differs");
            }
        }
        return;
    }
    let (i, j): (usize, usize) = (any(), any());
    match x.view(i) {
        Some(v) => {
            check(i < 2, "row beyond the end");
            let (s, l) = if i == 0 { want[0] } else { want[1] };
            check(v.len() == l, "row length differs");
            match v.view(j) {
                Some(p) => check((j < l) & (p == s.wrapping_add(j)), "element differs"),
                None => check(j >= l, "element missing"),
            }
        }
        None => check(i >= 2, "row missing"),
    }
}

harnesses! {
    // Offsets, row index and element index all symbolic.
    P08 p08_index [4, 4] (c) {
        let r = c.case;
        let n = upto(c.pick(4, 7));
        let d = bytes(n);
        let mut o = vec![0i32];
        for _ in 0..r {
            let e: i32 = any();
            assume(e >= o[o.len() - 1] && e <= n as i32);
            o.push(e);
        }
        let Ok(x) = Offsets::<Vec<u8>, i32, VecBuffer>::try_from_parts(d.clone(), o.clone()) else {
            check(false, "valid offsets refused");
            return;
        };
        let i: usize = any();
        let j: usize = any();
        match x.view(i) {
            None => {
                check(i >= r, "row missing");
                check(x.owned(i).is_none(), "owned row beyond the end");
                cover("outside");
            }
            Some(v) => {
                check(i < r, "row beyond the end");
                let len = (o[i + 1] - o[i]) as usize;
                check(v.len() == len, "row length differs");
                match v.view(j) {
                    None => {
                        check(j >= len, "element missing");
                        check(v.owned(j).is_none(), "owned element beyond the end");
                    }
                    Some(b) => {
                        check(j < len, "element beyond the end of the row");
                        check(b == d[o[i] as usize + j], "element differs");
                        check(v.owned(j) == Some(b), "owned element differs");
                        cover("inside");
                    }
                }
            }
        }
    }
    // Far-away rows over a child of any length, whose elements read as their
    // positions.
    P08 p08_far [4, 4] (c) {
        if c.case % 2 == 0 { far::<i64>(any(), any(), c.case / 2) } else { far::<i32>(any::<i32>() as i64, any::<i32>() as i64, c.case / 2) }
    }
    P08 p08_bytes [1, 1] (c) {
        let lens = shape(c.pick(3, 4), c.pick(2, 3));
        let d = bytes(lens.iter().sum::<usize>() + upto(2));
        lists::<Vec<u8>, i32, VecBuffer>(|| (d.clone(), offsets(&lens)), &d, &lens)
    }
    P08 p08_words [1, 1] (c) {
        let lens = shape(2, c.pick(3, 4));
        let d: Vec<i64> = (0..lens.iter().sum::<usize>() + upto(1)).map(|_| any()).collect();
        lists::<Vec<i64>, i64, VecBuffer>(|| (d.clone(), offsets(&lens)), &d, &lens)
    }
    P08 p08_bits [1, 1] (c) {
        let lens = shape(2, c.pick(5, 9));
        let n = lens.iter().sum::<usize>() + upto(1);
        let off = [0, 3, 7][upto(2)];
        let raw = bytes((off + n + 7) / 8);
        let (_, d) = bitmap_at(&raw, n, off);
        lists::<Bitmap, i32, VecBuffer>(|| (bitmap_at(&raw, n, off).0, offsets(&lens)), &d, &lens)
    }
    P08 p08_nullable [1, 1] (c) {
        let lens = shape(2, c.pick(2, 4));
        let n = lens.iter().sum::<usize>() + upto(1);
        let v = bytes(n);
        let off = upto(2);
        let raw = bytes((off + n + 7) / 8);
        let (_, nn) = bitmap_at(&raw, n, off);
        let d: Vec<Option<u8>> = (0..n).map(|i| if nn[i] { Some(v[i]) } else { None }).collect();
        let mk = || match Validity::try_from_parts(v.clone(), bitmap_at(&raw, n, off).0) {
            Ok(x) => (x, offsets(&lens)),
            Err(_) => { check(false, "equal lengths refused"); loop {} }
        };
        lists::<Validity<Vec<u8>>, i32, VecBuffer>(mk, &d, &lens)
    }
    P08 p08_pairs [1, 1] (c) {
        let lens = shape(2, c.pick(2, 4));
        let d: Vec<[u8; 2]> = (0..lens.iter().sum::<usize>() + upto(1)).map(|_| any()).collect();
        let flat: Vec<u8> = d.iter().flatten().copied().collect();
        let mk = || match Flatten::try_from_parts(flat.clone()) {
            Ok(x) => (x, offsets(&lens)),
            Err(_) => { check(false, "multiple refused"); loop {} }
        };
        lists::<Flatten<Vec<u8>, 2>, i64, VecBuffer>(mk, &d, &lens)
    }
    // Lists of lists, and views of views of views.
    P08 p08_nested [1, 1] (c) {
        let inner = shape(c.pick(2, 3), 2);
        let b = bytes(inner.iter().sum());
        let d = rows(&b, &inner);
        let lens = vec![upto(inner.len())];
        let lens = if flip() { vec![lens[0], inner.len() - lens[0]] } else { lens };
        let mk = || match Offsets::<Vec<u8>, i64, VecBuffer>::try_from_parts(b.clone(), offsets(&inner)) {
            Ok(x) => (x, offsets(&lens)),
            Err(_) => { check(false, "valid offsets refused"); loop {} }
        };
        lists::<Offsets<Vec<u8>, i64>, i32, VecBuffer>(mk, &d, &lens)
    }
    // Other storage.
    P08 p08_backends [5, 5] (c) {
        let lens = [upto(2), upto(2)];
        let d = bytes(lens[0] + lens[1] + upto(1));
        let o: Vec<i32> = offsets(&lens);
        match c.case {
            0 => lists::<Box<[u8]>, i32, BoxBuffer>(|| (d.clone().into_boxed_slice(), o.clone().into_boxed_slice()), &d, &lens),
            1 => lists::<Rc<[u8]>, i32, RcBuffer>(|| (Rc::from(d.clone()), Rc::from(o.clone())), &d, &lens),
            2 => lists::<Arc<[u8]>, i32, ArcBuffer>(|| (Arc::from(d.clone()), Arc::from(o.clone())), &d, &lens),
            3 => lists::<Vec<u8>, i32, ArrayBuffer<3>>(|| (d.clone(), [o[0], o[1], o[2]]), &d, &lens),
            _ => {
                let s: &'static [u8] = unsafe { core::slice::from_raw_parts(d.as_ptr(), d.len()) };
                let t: &'static [i32] = unsafe { core::slice::from_raw_parts(o.as_ptr(), o.len()) };
                lists::<&[u8], i32, SliceBuffer<'static>>(|| (s, t), &d, &lens)
            }
        }
    }
    // Row comparison.
    P08 p08_compare [1, 1] (c) { compare(upto(3)) }
    P08 p08_compare_bits [1, 1] (c) {
        let (n, k) = (upto(4), upto(4));
        let d = bools(n + 1);
        let e = bools(k);
        let b: Bitmap = d.iter().collect();
        let Ok(x) = Offsets::<Bitmap, i32, VecBuffer>::try_from_parts(b, vec![0, 1, 1 + n as i32]) else { check(false, "valid offsets refused"); return };
        let Some(v) = x.view(1) else { check(false, "row missing"); return };
        let same = n == k && e.same(&d[1..].to_vec());
        check(eq::<_, Vec<bool>>(&v, &e) == same, "comparison with a vector");
        let w: Bitmap = e.iter().collect();
        check(eq::<_, Bitmap>(&v, &w) == same, "comparison with a bitmap");
    }
    // A longer list read row by row.
    P08 p08_long [2, 2] (c) {
        let lens: Vec<usize> = (0..c.pick(20, 40)).map(|i| if c.case == 0 { i % 4 } else { (i * 7) % 5 }).collect();
        let d = bytes(lens.iter().sum::<usize>() + 3);
        lists::<Vec<u8>, i32, VecBuffer>(|| (d.clone(), offsets(&lens)), &d, &lens)
    }
    // Lengths at which narrow counters would overflow.
    P08 p08_huge [8, 8] (c) {
        let t = LONG[[0, 2, 3, 4][c.case / 2]];
        let (d, lens): (Vec<u8>, Vec<usize>) = if c.case % 2 == 0 {
            // many rows
            let lens: Vec<usize> = thin(t, || (0..t + 5).map(|_| upto(2)).collect());
            (many(lens.iter().sum::<usize>() + 1), lens)
        } else {
            // long rows
            (many(2 * t + 9), vec![3, t - 1, 0, t + 4, 1])
        };
        let m = rows(&d, &lens);
        let Ok(x) = Offsets::<Vec<u8>, i32>::try_from_parts(d, offsets(&lens)) else { check(false, "valid offsets refused"); return };
        for i in [1, lens.len() - 2] {
            match x.view(i) {
                Some(v) => agree_long(v, &m[i], m[i].len().saturating_sub(5), i == 1),
                None => check(false, "row missing"),
            }
        }
        agree_long(x, &m, m.len() - 5, flip());
    }
}
