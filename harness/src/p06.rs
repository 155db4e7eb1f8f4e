//! Histories of nullable collections.
use crate::sym::*;
use crate::util::*;

type M<T> = Vec<Option<T>>;

/// The collections whose growth is compared with a list of optional values.
trait Child: CollectionRealloc<Owned = Self::Item, Alloc = ()> + Sized {
    type Item: Val + Clone + Default;
    fn item() -> Self::Item;
    /// An item of fixed shape.
    fn sample() -> Self::Item {
        Self::item()
    }
}
impl Child for Vec<u8> {
    type Item = u8;
    fn item() -> u8 {
        any()
    }
}
impl Child for Vec<u32> {
    type Item = u32;
    fn item() -> u32 {
        any()
    }
}
impl Child for Bitmap {
    type Item = bool;
    fn item() -> bool {
        any_bool()
    }
}
impl Child for Flatten<Vec<u8>, 2> {
    type Item = [u8; 2];
    fn item() -> [u8; 2] {
        any()
    }
}
impl Child for Flatten<Bitmap, 3> {
    type Item = [bool; 3];
    fn item() -> [bool; 3] {
        [any_bool(), any_bool(), any_bool()]
    }
}
impl Child for Offsets<Vec<u8>, i32> {
    type Item = Vec<u8>;
    fn item() -> Vec<u8> {
        bytes(upto(2))
    }
    fn sample() -> Vec<u8> {
        bytes(1)
    }
}

/// `n` items whose nullness is symbolic (`fork`: concrete on each path).
fn items<C: Child>(n: usize, fork: bool) -> M<C::Item> {
    (0..n)
        .map(|_| {
            let x = C::item();
            // (no fork while creating symbolic values: they would block merging)
            let b = if fork { flip() } else { any_bool() };
            if b { Some(x) } else { None }
        })
        .collect()
}

fn apply<C: Child>(v: &mut Validity<C>, m: &mut M<C::Item>, op: usize, k: usize, fork: bool) {
    match op {
        0 => {
            let x = items::<C>(k, fork);
            v.extend(x.iter().cloned());
            m.extend(x);
        }
        1 => {
            let x = items::<C>(k, fork);
            check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
            m.extend(x);
        }
        2 => {
            v.truncate(cut(k, m.len()));
            m.truncate(k);
        }
        3 => v.reserve(k),
        4 => check(v.try_reserve(k).is_ok(), "fallible reserve failed without allocation failure"),
        _ => {
            // a source that goes on after its first end
            let mut x = items::<C>(k, fork);
            x.push(Some(C::sample()));
            x.push(None);
            let r = Resumes { items: x.clone(), pos: 0, stop: k, stopped: false };
            if flip() {
                v.extend(r);
            } else {
                check(v.try_extend(r).is_ok(), "fallible extend failed without allocation failure");
            }
            m.extend(x[..k].iter().cloned());
        }
    }
    check(v.len() == m.len(), "length differs after the operation");
}
const OPS: usize = 6;

fn finish<C: Child>(v: Validity<C>, m: &M<C::Item>) {
    agree_index(&v, m);
    check(v.view(m.len()).is_none(), "element beyond the end");
    check(v.child_ref().len() == m.len(), "values and rows have different counts");
    if let Some(b) = v.bitmap_ref() {
        check(b.len() == m.len(), "validity bits and rows have different counts");
    }
    agree_into(v, m);
}

/// A starting state: implicit, explicit with a bit offset, or collected.
fn start<C: Child>(n: usize, kind: usize, fork: bool) -> (Validity<C>, M<C::Item>) {
    match kind {
        0 => {
            let x: Vec<C::Item> = (0..n).map(|_| C::item()).collect();
            let v = Validity::from_collection(C::from_iter_in(x.iter().cloned(), ()));
            (v, x.into_iter().map(Some).collect())
        }
        1 => {
            let x = items::<C>(n, fork);
            (x.iter().cloned().collect_in(), x)
        }
        2 => {
            let x = items::<C>(n, fork);
            let r = Validity::<C>::try_from_iter_in(x.iter().cloned(), ());
            match r {
                Ok(v) => (v, x),
                Err(_) => {
                    check(false, "fallible collect failed without allocation failure");
                    (Validity::with_capacity_in(0, ()), vec![])
                }
            }
        }
        _ => {
            let x: Vec<C::Item> = (0..n).map(|_| C::item()).collect();
            let off = [1, 6, 9][kind - 3];
            let data = bytes((off + n + 7) / 8 + 1);
            let (b, bits) = bitmap_at(&data, n, off);
            let m = x.iter().zip(&bits).map(|(x, b)| if *b { Some(x.clone()) } else { None }).collect();
            match Validity::try_from_parts(C::from_iter_in(x, ()), b) {
                Ok(v) => (v, m),
                Err(_) => {
                    check(false, "equal lengths refused");
                    (Validity::with_capacity_in(0, ()), vec![])
                }
            }
        }
    }
}
trait CollectIn<C: Child> {
    fn collect_in(self) -> Validity<C>;
}
impl<C: Child, I: Iterator<Item = Option<C::Item>>> CollectIn<C> for I {
    fn collect_in(self) -> Validity<C> {
        Validity::from_iter_in(self, ())
    }
}

fn history<C: Child>(c: Cfg, first: usize, maxn: usize, maxk: usize, fork: bool) {
    let kind = upto(if c.thorough { 5 } else { 3 });
    let n = upto(maxn);
    let (mut v, mut m) = start::<C>(n, kind, fork);
    apply(&mut v, &mut m, first, upto(maxk), fork);
    let op = upto(OPS - 1);
    let k = if maxk < 2 { upto(1) } else { [0, 1, maxk][upto(2)] };
    apply(&mut v, &mut m, op, k, fork);
    if c.thorough {
        let op = [0, 1, 2][upto(2)];
        apply(&mut v, &mut m, op, [1, maxk][upto(1)], fork);
    }
    finish(v, &m);
}

/// Collecting from a source that goes on after its first end.
fn resuming<C: Child + CollectionAlloc>(n: usize, fork: bool) {
    let n = upto(n);
    let mut x = items::<C>(n, fork);
    for i in 0..[1, 2, 9][upto(2)] {
        x.push(if i == 1 { None } else { Some(C::sample()) });
    }
    let it = resumes(&x, n);
    let r = match upto(2) {
        0 => Ok(it.collect::<Validity<C>>()),
        1 => Ok(Validity::<C>::from_iter_in(it, ())),
        _ => Validity::<C>::try_from_iter_in(it, ()),
    };
    x.truncate(n);
    match r {
        Ok(mut v) => {
            agree_index(&v, &x);
            apply(&mut v, &mut x, 0, 2, fork);
            finish(v, &x)
        }
        Err(_) => check(false, "fallible collect failed without allocation failure"),
    }
}

harnesses! {
    P06 p06_bytes [6, 6] (c) { history::<Vec<u8>>(c, c.case, 4, c.pick(4, 9), false) }
    P06 p06_bits [6, 6] (c) { history::<Bitmap>(c, c.case, c.pick(4, 9), c.pick(5, 9), false) }
    P06 p06_pairs [6, 6] (c) { history::<Flatten<Vec<u8>, 2>>(c, c.case, 2, 2, false) }
    P06 p06_bit_triples [6, 6] (c) { history::<Flatten<Bitmap, 3>>(c, c.case, 2, 2, false) }
    P06 p06_lists [6, 6] (c) { history::<Offsets<Vec<u8>, i32>>(c, c.case, 1, 1, true) }
    // One operation from every state with more elements.
    P06 p06_one [24, 24] (c) {
        let kind = c.case / 6 + if c.case / 6 == 2 { 3 } else { 0 };
        let n = upto(c.pick(9, 17));
        let (mut v, mut m) = start::<Vec<u8>>(n, kind, false);
        apply(&mut v, &mut m, c.case % 6, upto(c.pick(10, 18)), false);
        finish(v, &m);
    }
    // Extensions around the internal batch size: rows sampled around the seam
    // are symbolic, the others concrete.
    P06 p06_batches [6, 6] (c) {
        let k = if c.thorough { [1022, 1023, 1024, 1025, 2047, 2048, 2049, 3073][upto(7)] } else { [1023, 1024, 1025, 2049][upto(3)] };
        let n = [0, 3][upto(1)];
        let mut m: Vec<Option<u8>> = vec![];
        let mut v = match c.case / 2 {
            0 => Validity::<Vec<u8>>::from_collection(vec![7; n]),
            1 => (0..n).map(|_| Some(7u8)).collect(),
            _ => Validity::default(),
        };
        if c.case / 2 < 2 {
            m = vec![Some(7); n];
        }
        let hot = [0, 1, 7, 8, 1016, 1021, 1022, 1023, 1024, 1025, 1031, 1032, 2047, 2048];
        let x: Vec<Option<u8>> = (0..k)
            .map(|i| {
                if hot.contains(&i) {
                    let (b, x) = (any_bool(), any::<u8>());
                    if b { Some(x) } else { None }
                } else if i % 3 == 1 {
                    None
                } else {
                    Some(i as u8)
                }
            })
            .collect();
        if c.case % 2 == 0 {
            v.extend(x.iter().cloned());
        } else {
            check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
        }
        m.extend(x);
        let e = [Some(any::<u8>()), None];
        v.extend(e);
        m.extend(e);
        check(v.len() == m.len(), "length differs after a long extension");
        finish(v, &m);
    }
    // Wrong and huge size hints change nothing.
    P06 p06_hints [4, 4] (c) {
        let x = items::<Vec<u8>>(upto(5), false);
        let (lo, hi) = [(0, None), (0, Some(0)), (0, Some(100)), (3, Some(usize::MAX))][c.case];
        let it = || Hinted { it: x.clone().into_iter(), lo, hi };
        let v = match upto(3) {
            0 => it().collect::<Validity<Vec<u8>>>(),
            1 => Validity::<Vec<u8>>::from_iter_in(it(), ()),
            2 => {
                let mut v = Validity::<Vec<u8>>::default();
                v.extend(it());
                v
            }
            _ => match Validity::<Vec<u8>>::try_from_iter_in(it(), ()) {
                Ok(v) => v,
                Err(_) => { check(false, "fallible collect failed without allocation failure"); return }
            },
        };
        finish(v, &x);
    }
    // Collecting from a source that goes on after its first end.
    P06 p06_resuming [5, 5] (c) {
        match c.case {
            0 => resuming::<Vec<u8>>(c.pick(5, 12), false),
            1 => resuming::<Bitmap>(c.pick(9, 18), false),
            2 => resuming::<Flatten<Vec<u8>, 2>>(c.pick(2, 4), false),
            3 => resuming::<Flatten<Bitmap, 3>>(c.pick(3, 6), false),
            _ => resuming::<Offsets<Vec<u8>, i32>>(1, true),
        }
    }
    // Lengths at which narrow counters would overflow.
    P06 p06_huge [20, 20] (c) { long_ops::<Validity<Vec<u8>>>(c.case % 5, c.case / 5) }
    P06 p06_huge_others [4, 4] (c) {
        match c.case {
            0 => long_ops::<Validity<Bitmap>>(2, 1),
            1 => long_ops::<Validity<Flatten<Vec<u8>, 2>>>(2, 0),
            2 => long_ops::<Validity<Lists<Vec<u8>>>>(2, 1),
            _ => long_ops::<Validity<Vec<u8>>>(2, 3),
        }
    }
    // Long collections without a bitmap that get one.
    P06 p06_huge_implicit [5, 5] (c) {
        let t = LONG[c.case] + 1;
        let x: Vec<u8> = many(t);
        let mut v = Validity::<Vec<u8>>::from_collection(x.clone());
        let mut m: M<u8> = x.into_iter().map(Some).collect();
        let new: M<u8> = many(9);
        if flip() {
            v.extend(new.iter().cloned());
        } else {
            check(v.try_extend(new.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
        }
        m.extend(new);
        let (a, b) = (m[t - 1], m[t]);
        check(v.view(t - 1) == Some(a), "element differs");
        check(v.view(t) == Some(b), "element differs");
        agree_long(v, &m, t - 1, true);
    }
}
