//! Exported memory is released exactly once, and not too early.
use crate::ffi::*;
use crate::store::*;
use crate::sym::*;
use crate::util::*;

/// Moves a structure, as the specification describes it.
unsafe fn take_array(p: *mut RawArray) -> Box<RawArray> {
    unsafe {
        let a = Box::new(*p);
        (*p).release = None;
        a
    }
}
unsafe fn take_schema(p: *mut RawSchema) -> Box<RawSchema> {
    unsafe {
        let s = Box::new(*p);
        (*p).release = None;
        s
    }
}
fn release_array(mut a: Box<RawArray>) {
    if flip() {
        // through the callback
        match a.release {
            Some(f) => unsafe { f(&mut *a) },
            None => check(false, "a live array is marked released"),
        }
        check(a.release.is_none(), "a released array is not marked so");
    } else {
        // through the Rust type
        drop(unsafe { Box::from_raw(Box::into_raw(a).cast::<ArrowArray>()) });
    }
}
fn release_schema(mut s: Box<RawSchema>) {
    if flip() {
        match s.release {
            Some(f) => unsafe { f(&mut *s) },
            None => check(false, "a live schema is marked released"),
        }
        check(s.release.is_none(), "a released schema is not marked so");
    } else {
        drop(unsafe { Box::from_raw(Box::into_raw(s).cast::<ArrowSchema>()) });
    }
}
/// The exported structures in memory of the consumer.
fn exported<T, B: Buffer>(a: Array<T, B>) -> Option<(Box<RawArray>, Box<RawSchema>)>
where
    T: narrow::layout::ArrayItem,
    Array<T, B>: Export,
{
    match a.export() {
        Ok((mut a, mut s)) => {
            check(!a.is_released() && !s.is_released(), "an export is marked released");
            let r = unsafe { (take_array((&raw mut a).cast()), take_schema((&raw mut s).cast())) };
            check(a.is_released() && s.is_released(), "a moved export is not marked released");
            Some(r)
        }
        Err(_) => {
            check(false, "an array without bit offsets cannot be exported");
            None
        }
    }
}
fn reads<T: Exported>(a: &RawArray, s: &RawSchema, m: &[T]) {
    let v = T::read(a, s);
    check(v.len() == m.len(), "number of exported items differs");
    for (x, y) in v.iter().zip(m) {
        check(x.same(y), "exported item differs");
    }
}
/// A structure and its model; what is below it, if anything.
trait Tree: Exported {
    /// Takes the structures apart in some order, reading what is left.
    fn apart(a: Box<RawArray>, s: Box<RawSchema>, m: &[Self]);
}
fn whole<T: Exported>(a: Box<RawArray>, s: Box<RawSchema>, m: &[T]) {
    if flip() {
        reads(&a, &s, m);
        release_array(a);
        release_schema(s);
    } else {
        release_schema(s);
        release_array(a);
    }
}
fn nested<T: Exported, K: Tree>(mut a: Box<RawArray>, mut s: Box<RawSchema>, m: &[T]) {
    if flip() {
        return whole(a, s, m);
    }
    unsafe {
        let k = K::read(&**a.children, &**s.children);
        match upto(3) {
            0 => {
                // both children move, the parents go first
                let ka = take_array(*a.children);
                let ks = take_schema(*s.children);
                release_array(a);
                release_schema(s);
                K::apart(ka, ks, &k);
            }
            1 => {
                // the child array goes first
                let ka = take_array(*a.children);
                reads(&ka, &**s.children, &k);
                release_array(ka);
                release_array(a);
                release_schema(s);
            }
            2 => {
                // only the array's child moves
                let ka = take_array(*a.children);
                release_array(a);
                reads(&ka, &**s.children, &k);
                release_array(ka);
                release_schema(s);
            }
            _ => {
                // only the schema's child moves
                let ks = take_schema(*s.children);
                release_schema(s);
                reads(&**a.children, &ks, &k);
                release_schema(ks);
                release_array(a);
            }
        }
    }
}
macro_rules! tree {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Tree for $t {
            fn apart(a: Box<RawArray>, s: Box<RawSchema>, m: &[Self]) {
                whole(a, s, m)
            }
        }
        impl<$($g)*> Tree for Option<$t> {
            fn apart(a: Box<RawArray>, s: Box<RawSchema>, m: &[Self]) {
                whole(a, s, m)
            }
        }
    )*};
}
tree! { [] u8; [] u16; [] i64; [] bool; }
macro_rules! forest {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Tree for $t {
            fn apart(a: Box<RawArray>, s: Box<RawSchema>, m: &[Self]) {
                nested::<Self, T>(a, s, m)
            }
        }
        impl<$($g)*> Tree for Option<$t> {
            fn apart(a: Box<RawArray>, s: Box<RawSchema>, m: &[Self]) {
                nested::<Self, T>(a, s, m)
            }
        }
    )*};
}
forest! { [T: Tree, const N: usize] [T; N]; [T: Tree] Vec<T>; }

fn parts<S: Store, T: Tree + Parts>(n: usize, row: usize)
where
    Array<T, S::B>: Export,
{
    let before = heap_live();
    {
        let (m, items) = T::parts::<S>(n, &mut Make::new(row, false));
        if let Some((a, s)) = exported(Array::<T, S::B>::from_buffer(m)) {
            T::apart(a, s, &items);
        }
    }
    check(heap_live() == before, "memory is leaked");
}
/// Arrays built by the library.
fn built<T: Tree + narrow::layout::ArrayItem>(n: usize, len: usize)
where
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Export,
{
    let before = heap_live();
    {
        let items = if n > 10 || len > 10 { thin(n.max(5000), || some::<T>(n, len)) } else { some::<T>(n, len) };
        let mut a: Array<T> = items.iter().cloned().collect();
        if flip() {
            a.reserve(3);
        }
        if let Some((a, s)) = exported(a) {
            T::apart(a, s, &items);
        }
    }
    check(heap_live() == before, "memory is leaked");
}

harnesses! {
    P21 p21_flat [6, 6] (c) {
        let n = upto(c.pick(2, 5));
        match c.case {
            0 => parts::<VecBuffer, u16>(n, 0),
            1 => parts::<VecBuffer, Option<bool>>(n, 0),
            2 => parts::<BoxBuffer, Option<i64>>(n, 0),
            3 => parts::<RcBuffer, bool>(n, 0),
            4 => parts::<ArcBuffer, Option<u8>>(n, 0),
            _ => parts::<ArrayBuffer<3>, Option<u16>>(3, 0),
        }
    }
    P21 p21_fixed [7, 7] (c) {
        let n = upto(c.pick(2, 3));
        match c.case {
            0 => parts::<VecBuffer, [u8; 2]>(n, 0),
            1 => parts::<VecBuffer, Option<[Option<bool>; 2]>>(n, 0),
            2 => parts::<ArcBuffer, [[Option<u16>; 1]; 2]>(n, 0),
            3 => parts::<BoxBuffer, Option<[Option<[bool; 3]>; 1]>>(n, 0),
            4 => parts::<ArrayBuffer<3>, [Option<u8>; 3]>(1, 0),
            5 => parts::<RcBuffer, [Vec<u8>; 2]>(1, 1),
            _ => parts::<VecBuffer, [[[u8; 1]; 2]; 1]>(n, 0),
        }
    }
    P21 p21_lists [8, 8] (c) {
        let (n, r) = (upto(2), c.pick(1, 2));
        match c.case {
            0 => parts::<VecBuffer, Vec<u8>>(n, r),
            1 => parts::<VecBuffer, Option<Vec<Option<bool>>>>(n, r),
            2 => parts::<VecBuffer, Vec<Vec<u8>>>(n, r),
            3 => parts::<ArcBuffer, Vec<Option<[bool; 2]>>>(n, r),
            4 => parts::<BoxBuffer, Option<Vec<Option<Vec<Option<u8>>>>>>(n.min(1), r),
            5 => parts::<ArrayBuffer<3>, Vec<u8>>(2, 2),
            6 => parts::<RcBuffer, Option<Vec<i64>>>(n, r),
            _ => parts::<VecBuffer, Vec<Vec<Vec<u16>>>>(1, 1),
        }
    }
    P21 p21_built [7, 7] (c) {
        let n = upto(2);
        match c.case {
            0 => built::<Option<u16>>(n, 0),
            1 => built::<bool>(n, 0),
            2 => built::<[Option<u8>; 2]>(n, 0),
            3 => built::<Vec<u8>>(n, 1),
            4 => built::<Option<Vec<Option<bool>>>>(n, 1),
            5 => built::<Vec<[Vec<u8>; 1]>>(n.min(1), 1),
            _ => built::<Option<[Option<i64>; 1]>>(n, 0),
        }
    }
    // Buffers shared with the exporter.
    P21 p21_shared [2, 2] (c) {
        use narrow::layout::fixed_size_list::FixedSizeList;
        use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
        let before = heap_live();
        let n = upto(c.pick(2, 4));
        let d = some::<u16>(n, 0);
        let mine: Arc<[u16]> = d.as_slice().into();
        let m: Vec<[u16; 1]> = d.iter().map(|x| [*x]).collect();
        let p = FixedSizePrimitive::from_buffer(mine.clone());
        if c.case == 0 {
            let Some((a, s)) = exported(Array::<u16, ArcBuffer>::from_buffer(p)) else { return };
            u16::apart(a, s, &d);
        } else {
            let Ok(f) = Flatten::try_from_parts(p) else { return check(false, "whole rows refused") };
            let Some((a, s)) = exported(Array::<[u16; 1], ArcBuffer>::from_buffer(FixedSizeList::from_buffer(f))) else { return };
            <[u16; 1]>::apart(a, s, &m);
        }
        check(Arc::strong_count(&mine) == 1, "a shared buffer is still held");
        check(*mine == *d, "a shared buffer changed");
        drop(mine);
        drop((d, m));
        check(heap_live() == before, "memory is leaked");
    }
    // Larger arrays.
    P21 p21_huge [4, 4] (c) {
        match c.case {
            0 => built::<Option<[u8; 2]>>(300, 0),
            1 => built::<[Vec<u8>; 2]>(2, 1),
            2 => built::<[u8; 70]>(20, 0),
            _ => built::<Vec<Option<bool>>>(3, 40),
        }
    }
}
