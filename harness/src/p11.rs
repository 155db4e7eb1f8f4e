//! Fixed-size lists.
use crate::sym::*;
use crate::util::*;

fn arrays<T: Clone, const N: usize>(d: &[T]) -> Vec<[T; N]> {
    (0..d.len() / N).map(|i| core::array::from_fn(|j| d[i * N + j].clone())).collect()
}

/// Acceptance for any child length (the child is not read).
fn accept<const N: usize>() {
    let n: usize = any();
    assume(n <= isize::MAX as usize);
    let p = core::ptr::NonNull::<u8>::dangling().as_ptr();
    let child: &'static [u8] = unsafe { core::slice::from_raw_parts(p, n) };
    match Flatten::<&[u8], N>::try_from_parts(child) {
        Ok(f) => {
            check(N > 0 && n % N == 0, "a child that is not a whole number of rows was accepted");
            if N > 0 {
                check(f.len() == n / N, "number of rows differs");
                check(f.is_empty() == (n == 0), "is_empty");
                check(f.child_ref().len() == n, "child differs");
                let i: usize = any();
                assume(i >= n / N);
                check(f.view(i).is_none(), "row beyond the end");
                check(f.owned(i).is_none(), "owned row beyond the end");
            }
            let c = f.into_parts();
            check(c.len() == n && c.as_ptr() == p.cast_const(), "child changed by taking apart");
            cover("accepted");
        }
        Err(e) => {
            let want = if N == 0 { FlattenError::ZeroChunkSize } else { FlattenError::NotMultiple { len: n, n: N } };
            check(N == 0 || n % N != 0, "whole rows refused");
            check(e == want, "error does not report the length and row size");
            cover("refused");
        }
    }
}

/// Rows and elements by symbolic index.
fn index<const N: usize>(n: usize) {
    let d = bytes(n * N);
    let Ok(f) = Flatten::<Vec<u8>, N>::try_from_parts(d.clone()) else {
        check(false, "whole rows refused");
        return;
    };
    let i: usize = any();
    match f.view(i) {
        Some(r) => {
            check(i < n, "row beyond the end");
            for j in 0..N {
                check(r[j] == d[i * N + j], "element differs");
            }
            cover("inside");
        }
        None => {
            check(i >= n, "row missing");
            cover("outside");
        }
    }
}

fn read<C: Collection, const N: usize>(mk: impl Fn() -> C, d: &[C::Owned])
where
    C::Owned: Val + Clone,
{
    let m: Vec<[C::Owned; N]> = arrays(d);
    match Flatten::<C, N>::try_from_parts(mk()) {
        Ok(f) => {
            check(d.len() % N == 0, "a child that is not a whole number of rows was accepted");
            for i in 0..m.len() {
                match f.view(i) {
                    Some(r) => {
                        for j in 0..N {
                            check(r[j].into_owned().same(&m[i][j]), "element of a row view differs");
                        }
                    }
                    None => check(false, "row missing"),
                }
            }
            agree(f, &m);
        }
        Err(_) => check(d.len() % N != 0, "whole rows refused"),
    }
}

trait Child: CollectionRealloc<Owned = Self::Item, Alloc = ()> + Default + FromIterator<Self::Item> {
    type Item: Val + Clone;
    fn item() -> Self::Item;
    fn raw(x: &[Self::Item]) -> Self {
        x.iter().cloned().collect()
    }
}
impl Child for Vec<u8> {
    type Item = u8;
    fn item() -> u8 {
        any()
    }
}
impl Child for Vec<i32> {
    type Item = i32;
    fn item() -> i32 {
        any()
    }
}
impl Child for Bitmap {
    type Item = bool;
    fn item() -> bool {
        any_bool()
    }
    /// Bit offset 3, arbitrary padding and a spare byte.
    fn raw(x: &[bool]) -> Bitmap {
        let mut d = bytes((x.len() + 3 + 7) / 8 + 1);
        for (i, b) in x.iter().enumerate() {
            let (k, s) = ((i + 3) / 8, (i + 3) % 8);
            d[k] = d[k] & !(1 << s) | (*b as u8) << s;
        }
        bitmap_at(&d, x.len(), 3).0
    }
}
impl Child for Validity<Vec<u8>> {
    type Item = Option<u8>;
    fn item() -> Option<u8> {
        let (b, x) = (any_bool(), any());
        if b { Some(x) } else { None }
    }
}
impl Child for Flatten<Vec<u8>, 2> {
    type Item = [u8; 2];
    fn item() -> [u8; 2] {
        any()
    }
}
impl Child for Validity<Bitmap> {
    type Item = Option<bool>;
    fn item() -> Option<bool> {
        let (b, x) = (any_bool(), any_bool());
        if b { Some(x) } else { None }
    }
}

fn rows<C: Child, const N: usize>(n: usize) -> Vec<[C::Item; N]> {
    (0..n).map(|_| core::array::from_fn(|_| C::item())).collect()
}
type F<C, const N: usize> = Flatten<C, N>;

fn apply<C: Child, const N: usize>(v: &mut F<C, N>, m: &mut Vec<[C::Item; N]>, op: usize, k: usize) {
    match op {
        0 => {
            let x = rows::<C, N>(k);
            v.extend(x.iter().cloned());
            m.extend(x);
        }
        1 => {
            let x = rows::<C, N>(k);
            check(v.try_extend(x.iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
            m.extend(x);
        }
        2 => {
            let k = if k == 3 { m.len() + 1 } else { k };
            v.truncate(cut(k, m.len()));
            m.truncate(k);
        }
        3 => v.reserve(k),
        4 => check(v.try_reserve(k).is_ok(), "fallible reserve failed without allocation failure"),
        _ => {
            let x = rows::<C, N>(k + 1);
            let r = Resumes { items: x.clone(), pos: 0, stop: k, stopped: false };
            if flip() {
                v.extend(r);
            } else {
                check(v.try_extend(r).is_ok(), "fallible extend failed without allocation failure");
            }
            m.extend(x[..k].iter().cloned());
        }
    }
    check(v.len() == m.len(), "number of rows differs after the operation");
}
fn finish<C: Child, const N: usize>(v: F<C, N>, m: &Vec<[C::Item; N]>) {
    agree_index(&v, m);
    check(v.view(m.len()).is_none(), "row beyond the end");
    check(v.child_ref().len() == m.len() * N, "child does not hold exactly the rows");
    let flat: Vec<C::Item> = m.iter().flatten().cloned().collect();
    if flip() {
        agree_into(v, m);
    } else {
        agree_index(&v.into_parts(), &flat);
    }
}
fn start<C: Child, const N: usize>(kind: usize, n: usize) -> (F<C, N>, Vec<[C::Item; N]>) {
    let m = rows::<C, N>(n);
    let v = match kind {
        0 => F::try_from_parts(C::raw(&m.iter().flatten().cloned().collect::<Vec<_>>())).ok(),
        1 => Some(m.iter().cloned().collect()),
        2 => Some(F::from_iter_in(m.iter().cloned(), ())),
        3 => F::try_from_iter_in(m.iter().cloned(), ()).ok(),
        _ => {
            let mut v = F::with_capacity_in(n, ());
            v.extend(m.iter().cloned());
            Some(v)
        }
    };
    match v {
        Some(v) => (v, m),
        None => {
            check(false, "fixed-size list could not be built");
            loop {}
        }
    }
}
fn history<C: Child, const N: usize>(c: Cfg, n: usize) {
    let (mut v, mut m) = start::<C, N>(if c.thorough { upto(4) } else { upto(1) }, upto(n));
    apply(&mut v, &mut m, c.case, upto(if c.case == 2 { 3 } else { 2 }));
    let op = upto(5);
    apply(&mut v, &mut m, op, upto(c.pick(1, 2)));
    if c.thorough {
        let op = upto(2);
        apply(&mut v, &mut m, op, upto(1));
    }
    finish(v, &m);
}

/// Collecting from a source that goes on after its first end.
fn resuming<C: Child, const N: usize>(n: usize) {
    let n = upto(n);
    let mut m = rows::<C, N>(n + 1 + upto(2));
    let it = resumes(&m, n);
    let r = match upto(2) {
        0 => Ok(it.collect::<F<C, N>>()),
        1 => Ok(F::<C, N>::from_iter_in(it, ())),
        _ => F::<C, N>::try_from_iter_in(it, ()),
    };
    m.truncate(n);
    match r {
        Ok(v) => finish(v, &m),
        Err(_) => check(false, "fallible collect failed without allocation failure"),
    }
}

harnesses! {
    P11 p11_accept [5, 5] (c) {
        match c.case {
            0 => accept::<0>(),
            1 => accept::<1>(),
            2 => accept::<2>(),
            3 => accept::<3>(),
            _ => accept::<4>(),
        }
    }
    P11 p11_index [4, 4] (c) {
        let n = upto(c.pick(4, 9));
        match c.case {
            0 => index::<1>(n),
            1 => index::<2>(n),
            2 => index::<3>(n),
            _ => index::<4>(n),
        }
    }
    P11 p11_bytes [4, 4] (c) {
        let d = bytes(upto(c.pick(9, 17)));
        match c.case {
            0 => read::<Vec<u8>, 1>(|| d.clone(), &d),
            1 => read::<Vec<u8>, 2>(|| d.clone(), &d),
            2 => read::<Vec<u8>, 3>(|| d.clone(), &d),
            _ => read::<Vec<u8>, 4>(|| d.clone(), &d),
        }
    }
    P11 p11_bits [4, 4] (c) {
        let n = upto(c.pick(12, 24));
        let off = [0, 5][upto(1)];
        let raw = bytes((off + n + 7) / 8);
        let (_, d) = bitmap_at(&raw, n, off);
        let mk = || bitmap_at(&raw, n, off).0;
        match c.case {
            0 => read::<Bitmap, 1>(mk, &d),
            1 => read::<Bitmap, 2>(mk, &d),
            2 => read::<Bitmap, 3>(mk, &d),
            _ => read::<Bitmap, 4>(mk, &d),
        }
    }
    P11 p11_nullable [4, 4] (c) {
        let n = upto(c.pick(6, 12));
        let v: Vec<i32> = (0..n).map(|_| any()).collect();
        let off = [0, 3][upto(1)];
        let raw = bytes((off + n + 7) / 8);
        let (_, nn) = bitmap_at(&raw, n, off);
        let d: Vec<Option<i32>> = (0..n).map(|i| if nn[i] { Some(v[i]) } else { None }).collect();
        let mk = || match Validity::<Vec<i32>>::try_from_parts(v.clone(), bitmap_at(&raw, n, off).0) {
            Ok(x) => x,
            Err(_) => { check(false, "equal lengths refused"); loop {} }
        };
        match c.case {
            0 => read::<Validity<Vec<i32>>, 1>(mk, &d),
            1 => read::<Validity<Vec<i32>>, 2>(mk, &d),
            2 => read::<Validity<Vec<i32>>, 3>(mk, &d),
            _ => read::<Validity<Vec<i32>>, 4>(mk, &d),
        }
    }
    P11 p11_nested [2, 2] (c) {
        let n = upto(c.pick(5, 9));
        let d = bytes(2 * n);
        let m: Vec<[u8; 2]> = arrays(&d);
        let mk = || match Flatten::<Vec<u8>, 2>::try_from_parts(d.clone()) {
            Ok(x) => x,
            Err(_) => { check(false, "whole rows refused"); loop {} }
        };
        if c.case == 0 { read::<Flatten<Vec<u8>, 2>, 2>(mk, &m) } else { read::<Flatten<Vec<u8>, 2>, 3>(mk, &m) }
    }
    P11 p11_lists [1, 1] (c) {
        let lens: Vec<usize> = (0..upto(4)).map(|_| upto(2)).collect();
        let b = bytes(lens.iter().sum());
        let mut o = vec![0i32];
        for l in &lens { o.push(o[o.len() - 1] + *l as i32) }
        let m: Vec<Vec<u8>> = (0..lens.len()).map(|i| b[o[i] as usize..o[i + 1] as usize].to_vec()).collect();
        let mk = || match Offsets::<Vec<u8>, i32>::try_from_parts(b.clone(), o.clone()) {
            Ok(x) => x,
            Err(_) => { check(false, "valid offsets refused"); loop {} }
        };
        read::<Offsets<Vec<u8>, i32>, 2>(mk, &m)
    }
    // Every way to build, then appending.
    P11 p11_builds [5, 5] (c) {
        let n = upto(c.pick(4, 9));
        if flip() {
            let (mut v, mut m) = start::<Bitmap, 3>(c.case, n);
            apply(&mut v, &mut m, 0, 1);
            finish(v, &m);
        } else {
            let (mut v, mut m) = start::<Vec<u8>, 4>(c.case, n);
            apply(&mut v, &mut m, 0, 1);
            finish(v, &m);
        }
    }
    P11 p11_grow_bytes [6, 6] (c) { history::<Vec<u8>, 3>(c, 2) }
    P11 p11_grow_ones [6, 6] (c) { history::<Vec<i32>, 1>(c, 2) }
    P11 p11_grow_bits [6, 6] (c) { history::<Bitmap, 3>(c, 3) }
    P11 p11_grow_quads [6, 6] (c) { history::<Bitmap, 4>(c, 2) }
    P11 p11_grow_nullable [6, 6] (c) { history::<Validity<Vec<u8>>, 2>(c, 1) }
    P11 p11_grow_nullable_bits [6, 6] (c) { history::<Validity<Bitmap>, 3>(c, 1) }
    P11 p11_grow_nested [6, 6] (c) { history::<Flatten<Vec<u8>, 2>, 2>(c, 2) }
    // Collecting from a source that goes on after its first end.
    P11 p11_resuming [4, 4] (c) {
        let n = c.pick(3, 5);
        match c.case {
            0 => resuming::<Vec<u8>, 2>(n),
            1 => resuming::<Bitmap, 3>(n),
            2 => resuming::<Validity<Vec<u8>>, 2>(n),
            _ => resuming::<Validity<Bitmap>, 3>(n),
        }
    }
    // Row sizes and numbers of rows at which narrow counters would overflow.
    P11 p11_huge_accept [6, 6] (c) {
        match c.case {
            0 => accept::<8>(),
            1 => accept::<9>(),
            2 => accept::<256>(),
            3 => accept::<257>(),
            4 => accept::<65536>(),
            _ => accept::<65537>(),
        }
    }
    P11 p11_huge_index [6, 6] (c) {
        match c.case {
            0 => index::<8>(3),
            1 => index::<9>(3),
            2 => index::<16>(3),
            3 => index::<17>(3),
            4 => index::<33>(2),
            _ => index::<65>(2),
        }
    }
    P11 p11_huge_rows [18, 18] (c) {
        fn go<C: Col, const N: usize>(n: usize, seam: usize) {
            let (v, m) = long::<Flatten<C, N>>(n, seam, upto(3));
            check(v.child_ref().len() == n * N, "child does not hold exactly the rows");
            for (i, r) in m.iter().enumerate() {
                match v.view(i) {
                    Some(x) => {
                        for j in [0, N / 2, N - 1] {
                            check(x[j].into_owned().same(&r[j]), "element of a row view differs");
                        }
                    }
                    None => check(false, "row missing"),
                }
            }
            agree_long(v, &m, seam, n % 2 == 0);
        }
        match c.case {
            0 => go::<Vec<u8>, 8>(7, 3),
            1 => go::<Vec<u8>, 9>(6, 4),
            2 => go::<Vec<u8>, 16>(5, 3),
            3 => go::<Vec<u8>, 17>(6, 5),
            4 => go::<Vec<u8>, 65>(5, 4),
            5 => go::<Vec<u8>, 257>(5, 3),
            6 => go::<Vec<u32>, 33>(4, 3),
            7 => go::<Bitmap, 8>(9, 3),
            8 => go::<Bitmap, 9>(8, 3),
            9 => go::<Bitmap, 65>(5, 3),
            10 => go::<Bitmap, 257>(4, 3),
            11 => go::<Validity<Vec<u8>>, 9>(7, 3),
            12 => go::<Validity<Vec<u8>>, 1025>(4, 3),
            13 => go::<Lists<Vec<u8>>, 9>(5, 3),
            14 => go::<Flatten<Vec<u8>, 3>, 9>(5, 3),
            15 => go::<Vec<u8>, 2>(LONG[0] + 3, LONG[0]),
            16 => go::<Vec<u8>, 3>(LONG[2] + 3, LONG[2]),
            _ => go::<Vec<u8>, 1>(LONG[4] + 3, LONG[4]),
        }
    }
}
