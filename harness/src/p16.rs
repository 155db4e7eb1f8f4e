//! A panicking source never corrupts a collection.
use crate::sym::*;
use crate::util::*;

/// The elements visible after a panic: all of `m` and a prefix of the
/// delivered ones.
fn settle<C: Col>(c: &C, m: &mut Vec<C::Item>, delivered: &[C::Item]) {
    let n = c.len();
    check(n >= m.len(), "elements are lost by a panic");
    check(n <= m.len() + delivered.len(), "elements appear that were never delivered");
    let k = n - m.len();
    m.extend(delivered[..k].iter().cloned());
    same(c, m, "contents differ after a panic");
}

fn add<C: Col>(c: &mut C, op: usize, it: impl Iterator<Item = C::Item>) {
    match op {
        0 => c.extend(it),
        1 => drop(c.try_extend(it)),
        2 => c.extend(Hinted { it, lo: 0, hi: None }),
        _ => drop(c.try_extend(Hinted { it, lo: 0, hi: None })),
    }
}

fn ops<C: Col>(base: usize, n: usize, at: usize, len: usize, full: bool) {
    let gen_items = |n: usize| -> Vec<C::Item> {
        if full { (0..n).map(|_| C::Item::full(len)).collect() } else { some(n, len) }
    };
    let before = heap_live();
    {
        let mut m = gen_items(base);
        let Some(mut c) = start::<C>(&m, upto(2)) else { return };
        let at = upto(at);
        let new = gen_items(at + n);
        let more = gen_items(2);
        let op = upto(3);
        let panicked = catch(|| add(&mut c, op, Bomb { it: new.iter().cloned(), at }));
        check(panicked, "the panic is lost");
        settle(&c, &mut m, &new[..at]);
        // the collection is still usable
        match upto(5) {
            0 => {
                c.extend(more.iter().cloned());
                m.extend(more);
            }
            1 => {
                check(c.try_extend(more.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
                m.extend(more);
            }
            2 => {
                let k = upto(m.len().min(2));
                c.truncate(k);
                m.truncate(k);
                c.extend(more.iter().cloned());
                m.extend(more);
            }
            3 => {
                c.reserve(3);
                check(c.try_reserve(5).is_ok(), "reserving failed without allocation failure");
            }
            4 => {
                // another panic
                let at = upto(1);
                check(catch(|| add(&mut c, op, Bomb { it: more.iter().cloned(), at })), "the panic is lost");
                settle(&c, &mut m, &more[..at]);
                c.extend(more[1..].iter().cloned());
                m.extend(more[1..].iter().cloned());
            }
            _ => (),
        }
        agree_index(&c, &m);
        agree_iter(&c, &m);
        if flip() {
            agree_into(c, &m);
        }
    }
    check(heap_live() == before, "memory is leaked");
}

/// What a panic leaves behind can be taken apart and put together again.
fn parts<C: Col>(base: usize, at: usize, len: usize, again: impl Fn(C) -> Option<C>) {
    let mut m = some::<C::Item>(base, len);
    let Some(mut c) = start::<C>(&m, upto(1)) else { return };
    let at = upto(at);
    let new: Vec<C::Item> = (0..at + 1).map(|_| C::Item::full(len)).collect();
    check(catch(|| add(&mut c, upto(1), Bomb { it: new.iter().cloned(), at })), "the panic is lost");
    settle(&c, &mut m, &new[..at]);
    match again(c) {
        Some(c) => agree(c, &m),
        None => check(false, "the parts of a collection do not fit together after a panic"),
    }
}
fn nullable<T: Collection>(v: Validity<T>) -> Option<Validity<T>> {
    match v.into_parts() {
        (c, Some(b)) => Validity::try_from_parts(c, b).ok(),
        (c, None) => Some(Validity::from_collection(c)),
    }
}
fn lists<T: Collection>(o: Lists<T>) -> Option<Lists<T>> {
    let (c, o) = o.into_parts();
    Offsets::try_from_parts(c, o).ok()
}

/// Panics while collecting leave nothing behind.
fn make<C: Col>(at: usize, len: usize) {
    let at = upto(at);
    let items: Vec<C::Item> = (0..at + 1).map(|_| C::Item::full(len)).collect();
    let before = heap_live();
    let mode = upto(2);
    let panicked = catch(|| {
        let it = Bomb { it: items.iter().cloned(), at };
        match mode {
            0 => drop(it.collect::<C>()),
            1 => drop(C::from_iter_in(it, ())),
            _ => drop(C::try_from_iter_in(it, ())),
        }
    });
    check(panicked, "the panic is lost");
    check(heap_live() == before, "memory is leaked");
}

/// Rows whose iterator panics.
#[derive(Default, Clone)]
pub struct Loud<T> {
    v: Vec<T>,
    at: Option<usize>,
}
pub struct LoudIter<T> {
    it: vec::IntoIter<T>,
    at: Option<usize>,
}
impl<T> Iterator for LoudIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match &mut self.at {
            Some(0) => panic_now(),
            Some(n) => *n -= 1,
            None => (),
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
impl<T> ExactSizeIterator for LoudIter<T> {}
impl<T> IntoIterator for Loud<T> {
    type Item = T;
    type IntoIter = LoudIter<T>;
    fn into_iter(self) -> LoudIter<T> {
        LoudIter { it: self.v.into_iter(), at: self.at }
    }
}
impl<T> FromIterator<T> for Loud<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Loud<T> {
        Loud { v: it.into_iter().collect(), at: None }
    }
}
impl<T> Length for Loud<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
macro_rules! loud {
    ($($t:ty)*) => {$(
        impl Collection for Loud<$t> {
            type View<'c> = $t;
            type Owned = $t;
            fn view(&self, i: usize) -> Option<$t> {
                self.v.get(i).copied()
            }
            type Iter<'c> = core::iter::Copied<core::slice::Iter<'c, $t>>;
            fn iter_views(&self) -> Self::Iter<'_> {
                self.v.iter().copied()
            }
            type IntoIter = LoudIter<$t>;
            fn into_iter_owned(self) -> LoudIter<$t> {
                self.into_iter()
            }
        }
        impl CollectionAllocIn for Loud<$t> {
            type Alloc = ();
            fn with_capacity_in(_: usize, _: ()) -> Self {
                Loud::default()
            }
            fn from_iter_in<I: IntoIterator<Item = $t>>(it: I, _: ()) -> Self {
                it.into_iter().collect()
            }
            fn try_with_capacity_in(_: usize, _: ()) -> Result<Self, AllocError> {
                Ok(Loud::default())
            }
            fn try_from_iter_in<I: IntoIterator<Item = $t>>(it: I, _: ()) -> Result<Self, AllocError> {
                Ok(it.into_iter().collect())
            }
        }
    )*};
}
loud!(u8 bool);

/// A panic inside one of the appended rows.
fn inner<C: Col>(base: usize, len: usize)
where
    Loud<C::Item>: CollectionAlloc<Owned = C::Item> + IntoIterator<Item = C::Item>,
    Vec<C::Item>: Val,
{
    type L<C> = Offsets<C, i32, VecBuffer, Loud<<C as Col>::Item>>;
    let before = heap_live();
    {
        let row = |n: usize| Loud { v: some::<C::Item>(n, 0), at: None };
        let mut m: Vec<Vec<C::Item>> = vec![];
        let mut c = L::<C>::default();
        for _ in 0..upto(base) {
            let r = row(upto(1));
            m.push(r.v.clone());
            c.extend([r]);
        }
        // rows before the one that panics
        let k = upto(1);
        let mut rows = vec![row(1); k];
        let mut bad = row(upto(len));
        bad.at = Some(upto(bad.v.len()));
        rows.push(bad);
        rows.push(row(1));
        let delivered: Vec<_> = rows.iter().map(|r| r.v.clone()).collect();
        let op = flip();
        let rs = rows.clone();
        let panicked = catch(|| if op { c.extend(rs) } else { drop(c.try_extend(rs)) });
        check(panicked, "the panic is lost");
        let n = c.len();
        check(n >= m.len(), "rows are lost by a panic");
        check(n <= m.len() + k, "rows appear that were never delivered");
        m.extend(delivered[..n - m.len()].iter().cloned());
        let look = |c: &L<C>, m: &[Vec<C::Item>]| {
            check(c.len() == m.len(), "number of rows differs");
            for i in 0..m.len() {
                match c.owned(i) {
                    Some(r) => check(r.v.same(&m[i]), "row differs after a panic"),
                    None => check(false, "row missing"),
                }
            }
        };
        look(&c, &m);
        let last = row(upto(2));
        m.push(last.v.clone());
        match upto(2) {
            0 => c.extend([last]),
            1 => check(c.try_extend([last]).is_ok(), "fallible extend failed without allocation failure"),
            _ => {
                c.reserve(2);
                c.truncate(m.len() - 1);
                c.extend([last]);
            }
        }
        look(&c, &m);
    }
    check(heap_live() == before, "memory is leaked");
}

macro_rules! types {
    ($c:expr, $f:ident, ($($flat:tt)*), ($($row:tt)*), ($($deep:tt)*)) => {
        match $c.case {
            0 => $f::<Vec<u8>>($($flat)*),
            1 => $f::<Bitmap>($($flat)*),
            2 => $f::<Validity<Vec<u32>>>($($flat)*),
            3 => $f::<Validity<Bitmap>>($($flat)*),
            4 => $f::<Flatten<Vec<u8>, 2>>($($flat)*),
            5 => $f::<Flatten<Bitmap, 3>>($($flat)*),
            6 => $f::<Flatten<Validity<Vec<u8>>, 3>>($($flat)*),
            7 => $f::<Validity<Flatten<Bitmap, 3>>>($($flat)*),
            8 => $f::<Lists<Vec<u8>>>($($row)*),
            9 => $f::<Lists<Bitmap>>($($row)*),
            10 => $f::<Lists<Validity<Vec<u8>>>>($($row)*),
            11 => $f::<Lists<Flatten<Bitmap, 3>>>($($row)*),
            12 => $f::<Lists<Lists<Vec<u8>>>>($($deep)*),
            13 => $f::<Validity<Lists<Vec<u8>>>>($($deep)*),
            14 => $f::<Flatten<Lists<Vec<u8>>, 2>>($($deep)*),
            15 => $f::<Array<Option<Vec<Option<[u8; 2]>>>>>($($deep)*),
            16 => $f::<Array<[Vec<Option<bool>>; 2]>>($($deep)*),
            17 => $f::<Array<Option<[Option<u8>; 2]>>>($($flat)*),
            _ => $f::<Flatten<Flatten<Bitmap, 3>, 2>>($($flat)*),
        }
    };
}

/// Panics while appending to a large collection.
fn large<C: Col>(base: usize, at: usize, len: usize) {
    let before = heap_live();
    {
        let mut m: Vec<C::Item> = thin(base.max(5000), || some(base, len));
        let new: Vec<C::Item> = thin(base.max(5000), || some(at + 1, len));
        let mut c: C = m.iter().cloned().collect();
        let op = upto(2);
        check(catch(|| add(&mut c, op, Bomb { it: new.iter().cloned(), at })), "the panic is lost");
        let n = c.len();
        check(n >= m.len() && n <= m.len() + at, "elements are lost or invented by a panic");
        let k = n - m.len();
        m.extend(new[..k].iter().cloned());
        m.extend(new.iter().cloned());
        if flip() { c.extend(new) } else { check(c.try_extend(new).is_ok(), "fallible extend failed without allocation failure") }
        same(&c, &m, "contents differ after a panic");
    }
    check(heap_live() == before, "memory is leaked");
}

harnesses! {
    P16 p16_ops [19, 19] (c) {
        let n = upto(c.pick(2, 4));
        types!(c, ops, (n, 1, c.pick(5, 10), 0, false), (n, 1, c.pick(3, 4), 1, !c.thorough), (n.min(1), 1, c.pick(1, 2), 1, true))
    }
    P16 p16_make [19, 19] (c) { types!(c, make, (c.pick(4, 9), 0), (3, 1), (2, 1)) }
    P16 p16_inner [2, 2] (c) {
        if c.case == 0 { inner::<Vec<u8>>(c.pick(1, 2), c.pick(3, 5)) } else { inner::<Bitmap>(c.pick(1, 2), c.pick(9, 11)) }
    }
    P16 p16_parts [10, 10] (c) {
        let (n, at, l) = (upto(2), c.pick(3, 6), c.pick(1, 2));
        match c.case {
            0 => parts::<Validity<Vec<u8>>>(n, at, 0, nullable),
            1 => parts::<Validity<Bitmap>>(n, c.pick(9, 18), 0, nullable),
            2 => parts::<Validity<Flatten<Vec<u8>, 2>>>(n, at, 0, nullable),
            3 => parts::<Validity<Flatten<Bitmap, 3>>>(n, at, 0, nullable),
            4 => parts::<Validity<Lists<Vec<u8>>>>(n, at, l, nullable),
            5 => parts::<Flatten<Validity<Vec<u8>>, 3>>(n, at, 0, |f| Flatten::try_from_parts(nullable(f.into_parts())?).ok()),
            6 => parts::<Flatten<Bitmap, 3>>(n, at, 0, |f| Flatten::try_from_parts(f.into_parts()).ok()),
            7 => parts::<Lists<Vec<u8>>>(n, at, l, lists),
            8 => parts::<Lists<Validity<Vec<u8>>>>(n, at.min(4), 1, lists),
            _ => parts::<Validity<Validity<Vec<u8>>>>(n, at, 0, nullable),
        }
    }
    // Panics around the batch size of nullable collections and beyond whole words.
    P16 p16_long [5, 5] (c) {
        let at = if c.thorough { [15, 16, 17, 100, 1023, 1024, 1025, 1030, 2050][upto(8)] } else { [15, 17, 1023, 1024, 1025][upto(4)] };
        let rows = if c.thorough { [5, 341, 342, 500, 684, 1025][upto(5)] } else { [5, 341, 342, 400][upto(3)] };
        fn long<C: Col>(at: usize) {
            // (only the elements around the edges are symbolic)
            let edge = |i: usize| i < 2 || i + 3 > at || i % 1024 < 2;
            let first: Vec<C::Item> = some(1, 0);
            let new: Vec<C::Item> = (0..at + 1).map(|i| if edge(i) { C::Item::generate(0) } else { first[0].clone() }).collect();
            let mut m: Vec<C::Item> = some(1, 0);
            let mut c: C = m.iter().cloned().collect();
            check(catch(|| add(&mut c, flip() as usize, Bomb { it: new.iter().cloned(), at })), "the panic is lost");
            let n = c.len();
            check(n >= m.len() && n <= m.len() + at, "elements are lost or invented by a panic");
            m.extend(new[..n - 1].iter().cloned());
            let last: Vec<C::Item> = some(2, 0);
            c.extend(last.iter().cloned());
            m.extend(last);
            check(c.len() == m.len(), "length after the panic differs");
            for (i, x) in m.iter().enumerate() {
                if edge(i) || i + 5 > m.len() || i % 100 == 0 {
                    check(c.owned(i).is_some_and(|y| y.same(x)), "element after a panic differs");
                }
            }
        }
        match c.case {
            0 => long::<Validity<Vec<u8>>>(at),
            1 => long::<Flatten<Validity<Vec<u8>>, 3>>(rows),
            2 => long::<Flatten<Bitmap, 3>>(at.min(50)),
            3 => long::<Array<Option<[Option<u8>; 3]>>>(rows),
            _ => long::<Validity<Bitmap>>(at),
        }
    }
    // Large collections.
    P16 p16_huge [19, 19] (c) {
        let at = [0, 1, 9, 70][upto(3)];
        let base = [LONG[0], LONG[1] + 2, LONG[2] - 5, LONG[3] + 1][c.case % 4];
        types!(c, large, (base, at, 0), (base, at, 3), (base, at, 2))
    }
}
