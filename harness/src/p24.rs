//! Iterators know how many items remain.
use crate::sym::*;
use crate::util::*;

fn hint(h: (usize, Option<usize>), left: usize, msg: &'static str) {
    check(h.0 <= left && h.1.is_none_or(|h| h >= left), msg);
}

/// Every way of advancing; `pos` is where the iterator stands.
fn walk<I: Iterator>(mut it: I, n: usize, len: impl Fn(&I) -> Option<usize>, ok: impl Fn(I::Item, usize) -> bool) {
    let mut pos = 0;
    // some steps of each kind
    for _ in 0..2 {
        let left = n - pos;
        hint(it.size_hint(), left, "the size hint excludes the number of remaining items");
        if let Some(l) = len(&it) {
            check(l == left, "the reported length differs from the number of remaining items");
            check(it.size_hint() == (left, Some(left)), "the size hint of an exact iterator is not its length");
        }
        match upto(1) {
            0 => {
                let x = it.next();
                check(x.is_some() == (pos < n), "stepping ends at the wrong place");
                if let Some(x) = x {
                    check(ok(x, pos), "item differs");
                    pos += 1;
                }
            }
            _ => {
                // skipping ahead
                let k = [0, 1, 2, n, usize::MAX][upto(4)];
                let x = it.nth(k);
                if k < n - pos {
                    match x {
                        Some(x) => check(ok(x, pos + k), "item differs after skipping"),
                        None => check(false, "skipping yields nothing"),
                    }
                    pos += k + 1;
                } else {
                    check(x.is_none(), "skipping beyond the end yields an item");
                    pos = n;
                }
            }
        }
    }
    // the rest
    match upto(5) {
        0 => check(it.count() == n - pos, "counting differs"),
        1 => match it.last() {
            Some(x) => check(pos < n && ok(x, n - 1), "last item differs"),
            None => check(pos == n, "last item missing"),
        },
        2 => {
            let mut p = pos;
            it.for_each(|x| {
                check(p < n && ok(x, p), "item differs");
                p += 1;
            });
            check(p == n, "internal iteration ends at the wrong place");
        }
        3 => {
            let mut p = pos;
            for x in it.by_ref() {
                check(p < n && ok(x, p), "item differs");
                p += 1;
            }
            check(p == n, "iteration ends at the wrong place");
            check(it.next().is_none() && it.next().is_none(), "an exhausted iterator resumes");
            hint(it.size_hint(), 0, "the size hint of an exhausted iterator");
            if let Some(l) = len(&it) {
                check(l == 0, "the length of an exhausted iterator");
            }
        }
        4 => {
            let mut p = pos;
            let k = it.by_ref().take(1).fold(0, |k, x| {
                check(p < n && ok(x, p), "item differs");
                p += 1;
                k + 1
            });
            check(k == (n - pos).min(1), "folding ends at the wrong place");
            hint(it.size_hint(), n - pos - k, "the size hint excludes the number of remaining items");
        }
        _ => {
            let v: Vec<I::Item> = it.collect();
            check(v.len() == n - pos, "collecting yields another number of items");
            for (i, x) in v.into_iter().enumerate() {
                check(pos + i < n && ok(x, pos + i), "item differs");
            }
        }
    }
}

fn borrowed<C: Collection>(c: &C, m: &[C::Owned])
where
    C::Owned: Val,
{
    walk(c.iter_views(), m.len(), |_| None, |x, i| x.into_owned().same(&m[i]));
}
fn consumed<C: Collection>(c: C, m: &[C::Owned])
where
    C::Owned: Val,
{
    walk(c.into_iter_owned(), m.len(), |i| Some(i.len()), |x, i| x.same(&m[i]));
}
fn both<C: Collection>(c: C, m: &[C::Owned])
where
    C::Owned: Val,
{
    if flip() { borrowed(&c, m) } else { consumed(c, m) }
}

fn col<C: Col>(n: usize, len: usize, full: bool) {
    let n = upto(n);
    let m: Vec<C::Item> = if full { (0..n).map(|_| C::Item::full(len)).collect() } else { some(n, len) };
    let Some(c) = start::<C>(&m, upto(1)) else { return };
    both(c, &m);
}

/// Children that are longer than the rows they hold.
fn trailing() {
    let v = bytes(upto(4));
    let k = upto(v.len());
    let o = vec![0, (k / 2) as i32, k as i32];
    let Ok(c) = Offsets::<Vec<u8>, i32>::try_from_parts(v.clone(), o) else {
        check(false, "valid offsets refused");
        return;
    };
    both(c, &[v[..k / 2].to_vec(), v[k / 2..k].to_vec()]);
}
fn bitmap(n: usize) {
    let d = bytes(upto(n));
    let off = upto((8 * d.len()).min(9));
    let k = upto(8 * d.len() - off);
    let (b, m) = bitmap_at(&d, k, off);
    both(b, &m);
}
fn validity(c: Cfg) {
    let v = bytes(upto(c.pick(3, 9)));
    let off = upto(7);
    let (b, bits) = bitmap_at(&bytes((v.len() + off + 7) / 8 + upto(1)), v.len(), off);
    let m: Vec<Option<u8>> = v.iter().zip(bits).map(|(v, b)| if b { Some(*v) } else { None }).collect();
    let Ok(c) = Validity::<Vec<u8>>::try_from_parts(v, b) else {
        check(false, "values and bits of the same length refused");
        return;
    };
    both(c, &m);
}

macro_rules! types {
    ($c:expr, $f:ident, ($($flat:tt)*), ($($row:tt)*), ($($deep:tt)*)) => {
        match $c.case {
            0 => $f::<Vec<u8>>($($flat)*),
            1 => $f::<Bitmap>($($flat)*),
            2 => $f::<Validity<Vec<u32>>>($($flat)*),
            3 => $f::<Validity<Bitmap>>($($flat)*),
            4 => $f::<Flatten<Vec<u8>, 2>>($($flat)*),
            5 => $f::<Flatten<Bitmap, 3>>($($flat)*),
            6 => $f::<Flatten<Validity<Vec<u8>>, 2>>($($flat)*),
            7 => $f::<Validity<Flatten<Bitmap, 3>>>($($flat)*),
            8 => $f::<Lists<Vec<u8>>>($($row)*),
            9 => $f::<Lists<Bitmap>>($($row)*),
            10 => $f::<Lists<Validity<Vec<u8>>>>($($row)*),
            11 => $f::<Lists<Flatten<Vec<u8>, 2>>>($($row)*),
            12 => $f::<Lists<Lists<Vec<u8>>>>($($deep)*),
            13 => $f::<Validity<Lists<Vec<u8>>>>($($deep)*),
            14 => $f::<Flatten<Lists<Vec<u8>>, 2>>($($deep)*),
            15 => $f::<Array<Option<Vec<Option<[u8; 2]>>>>>($($deep)*),
            16 => $f::<Array<[Vec<Option<bool>>; 2]>>($($deep)*),
            _ => $f::<Array<Option<[Option<u8>; 2]>>>($($flat)*),
        }
    };
}

/// Lengths and size hints while a long iterator is used up.
fn counted<I: Iterator>(mut it: I, n: usize, len: impl Fn(&I) -> Option<usize>) {
    let mut pos = 0;
    // (steps of one around the places where counters may overflow)
    let mut ok = true;
    while pos <= n {
        let left = n - pos;
        let (lo, hi) = it.size_hint();
        ok &= lo <= left && hi.is_none_or(|hi| hi >= left);
        if let Some(l) = len(&it) {
            ok &= l == left;
        }
        let k = if left > 20 && (left & 0xff) > 9 && (left & 0xff) < 0xf8 { (left & 0xff) - 9 } else { 0 };
        let x = it.nth(k);
        pos += k + 1;
        ok &= x.is_some() == (pos <= n);
    }
    check(ok, "the size hint excludes the number of remaining items");
    check(it.next().is_none(), "an exhausted iterator resumes");
}

harnesses! {
    P24 p24_cols [18, 18] (c) {
        types!(c, col, (c.pick(3, 6), 0, false), (c.pick(3, 4), c.pick(2, 2), !c.thorough), (c.pick(2, 3), 1, true))
    }
    P24 p24_parts [3, 3] (c) {
        match c.case {
            0 => bitmap(c.pick(1, 2)),
            1 => validity(c),
            _ => trailing(),
        }
    }
    // Rows of a list and of a fixed-size list.
    P24 p24_rows [3, 3] (c) {
        let n = upto(c.pick(3, 5));
        let row = some::<u8>(n, 0);
        match c.case {
            0 => {
                let l: Lists<Vec<u8>> = [vec![1], row.clone()].into_iter().collect();
                let Some(v) = l.view(1) else { check(false, "row missing"); return };
                both(v, &row)
            }
            1 => {
                let bits: Vec<bool> = row.iter().map(|x| x & 1 == 1).collect();
                let l: Lists<Bitmap> = [vec![true; 3], bits.clone(), vec![true]].into_iter().collect();
                let Some(v) = l.view(1) else { check(false, "row missing"); return };
                both(v, &bits)
            }
            _ => {
                let rows: Vec<Vec<u8>> = row.iter().map(|x| vec![*x]).collect();
                let l: Lists<Lists<Vec<u8>>> = [rows.clone(), vec![vec![1]]].into_iter().collect();
                let Some(v) = l.view(0) else { check(false, "row missing"); return };
                both(v, &rows)
            }
        }
    }
    // Other storages.
    P24 p24_backends [8, 8] (c) {
        let v = some::<u16>(3, 0);
        let d = bytes(1);
        let (k, off) = (upto(4), upto(4));
        let bits: Vec<bool> = (0..k).map(|i| bit(&d, off + i)).collect();
        fn at<S: Buffer>(b: S::For<u8>, k: usize, off: usize, m: &[bool]) {
            match Bitmap::<S>::try_from_parts(b, k, off) {
                Ok(b) => both(b, m),
                Err(_) => check(false, "in-range bitmap refused"),
            }
        }
        match c.case {
            0 => both(v.clone().into_boxed_slice(), &v),
            1 => both(Rc::<[u16]>::from(v.clone()), &v),
            2 => both(Arc::<[u16]>::from(v.clone()), &v),
            3 => both(&v[..], &v),
            4 => both([v[0], v[1], v[2]], &v),
            5 => at::<BoxBuffer>(d.clone().into(), k, off, &bits),
            6 => at::<RcBuffer>(d.clone().into(), k, off, &bits),
            _ => at::<ArrayBuffer<1>>([d[0]], k, off, &bits),
        }
    }
    // Lengths at which narrow counters would overflow.
    P24 p24_huge [10, 10] (c) {
        fn go<C: Col>(n: usize) {
            let m: Vec<C::Item> = many(n);
            let c: C = m.iter().cloned().collect();
            if flip() {
                counted(c.iter_views(), n, |_| None);
            } else {
                counted(c.into_iter_owned(), n, |i| Some(i.len()));
            }
        }
        match c.case {
            0 => go::<Bitmap>(LONG[4] + 5),
            1 => go::<Validity<Vec<u32>>>(LONG[4] + 5),
            2 => go::<Vec<u8>>(LONG[4] + 5),
            3 => go::<Lists<Vec<u8>>>(LONG[2] + 5),
            4 => go::<Flatten<Vec<u8>, 2>>(LONG[2] + 5),
            5 => go::<Validity<Bitmap>>(LONG[2] + 5),
            6 => go::<Flatten<Bitmap, 3>>(LONG[1] + 5),
            7 => go::<Flatten<Vec<u8>, 300>>(9),
            8 => go::<Lists<Validity<Vec<u8>>>>(LONG[0] + 5),
            _ => go::<Validity<Lists<Vec<u8>>>>(LONG[1] + 5),
        }
    }
}
