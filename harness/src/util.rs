//! Oracles shared by the harnesses.
use crate::sym::*;
pub use alloc::boxed::Box;
pub use alloc::rc::Rc;
pub use alloc::sync::Arc;
pub use alloc::vec;
pub use alloc::vec::Vec;
pub use narrow::array::Array;
pub use narrow::bitmap::{Bitmap, BitmapError, ValidityBitmap};
pub use narrow::buffer::*;
pub use narrow::collection::flatten::{Flatten, FlattenError};
pub use narrow::collection::owned::IntoOwned;
pub use narrow::collection::{
    AllocError, ChildRef, Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc,
};
pub use narrow::length::Length;
pub use narrow::offset::{Offsets, OffsetsError};
pub use narrow::validity::{Validity, ValidityError};

/// Bit `i` of `b`, least significant bit first.
pub fn bit(b: &[u8], i: usize) -> bool {
    (b[i / 8] >> (i % 8)) & 1 == 1
}

/// Values that can be compared without forking and recorded as observations.
pub trait Val: Sized {
    fn same(&self, o: &Self) -> bool;
    /// Records the value.
    fn rec(&self);
    /// A digest of one byte, computed without forking.
    fn code(&self) -> u8;
}
macro_rules! val_int {
    ($($t:ty)*) => {$(
        impl Val for $t {
            fn same(&self, o: &Self) -> bool { self == o }
            fn rec(&self) { obs(*self as u64) }
            fn code(&self) -> u8 {
                let x = *self as u64;
                let x = x ^ (x >> 32);
                let x = x ^ (x >> 16);
                (x ^ (x >> 8)) as u8
            }
        }
    )*};
}
val_int!(u8 u16 u32 u64 usize i8 i16 i32 i64 i128 u128 bool);
impl<T: Val> Val for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
    fn rec(&self) {
        obs(self.is_some() as u64 * 256 + self.code() as u64);
    }
    // (kept as a call: the engine merges the two outcomes while they are one
    // byte wide)
    #[inline(never)]
    fn code(&self) -> u8 {
        match self {
            Some(x) => x.code().wrapping_mul(3).wrapping_add(1),
            None => 0,
        }
    }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn same(&self, o: &Self) -> bool {
        let mut r = true;
        for i in 0..N {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn rec(&self) {
        for x in self {
            x.rec()
        }
    }
    fn code(&self) -> u8 {
        let mut c = 0u8;
        for x in self {
            c = c.wrapping_mul(5).wrapping_add(x.code());
        }
        c
    }
}
impl<T: Val> Val for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut r = true;
        for i in 0..self.len() {
            r &= self[i].same(&o[i]);
        }
        r
    }
    fn rec(&self) {
        obs(self.len() as u64);
        for x in self {
            x.rec()
        }
    }
    fn code(&self) -> u8 {
        let mut c = self.len() as u8;
        for x in self {
            c = c.wrapping_mul(5).wrapping_add(x.code());
        }
        c
    }
}

/// Indexed access agrees with the model inside the length and yields nothing
/// for any index at or beyond it.
pub fn agree_index<C: Collection>(c: &C, m: &[C::Owned])
where
    C::Owned: Val,
{
    check(c.len() == m.len(), "length differs from the number of elements");
    check(c.is_empty() == m.is_empty(), "is_empty disagrees with the length");
    for i in 0..m.len() {
        match c.owned(i) {
            Some(x) => {
                if i < 300 {
                    x.rec()
                }
                check(x.same(&m[i]), "owned element differs")
            }
            None => check(false, "owned element missing"),
        }
        match c.view(i) {
            Some(x) => check(x.into_owned().same(&m[i]), "viewed element differs"),
            None => check(false, "viewed element missing"),
        }
    }
}
/// No element beyond the end, for any index of machine-word range.
pub fn agree_beyond<C: Collection>(c: &C, n: usize) {
    let j: usize = any();
    assume(j >= n);
    check(c.view(j).is_none(), "element beyond the end is visible");
    check(c.owned(j).is_none(), "owned element beyond the end");
}
/// Borrowed iteration agrees with the model.
pub fn agree_iter<C: Collection>(c: &C, m: &[C::Owned])
where
    C::Owned: Val,
{
    let mut it = c.iter_views();
    for x in m {
        match it.next() {
            Some(v) => check(v.into_owned().same(x), "iterated element differs"),
            None => check(false, "iteration ends early"),
        }
    }
    check(it.next().is_none(), "iteration yields too many elements");
    skipping(c.iter_views(), m, false, |v, x| v.into_owned().same(x));
    skipping(c.iter_views(), m, true, |v, x| v.into_owned().same(x));
}
/// Skipping ahead gives the same elements as stepping.
fn skipping<I: Iterator, T>(mut it: I, m: &[T], far: bool, same: impl Fn(I::Item, &T) -> bool) {
    let (mut i, mut step) = (0, if far { 0 } else { 1 });
    while i < m.len() {
        let k = if far && i > 0 { m.len() - i } else { [0, 1, 0, 0, 3, 9, 2][step % 7] };
        step += 1;
        i += k;
        match (it.nth(k), m.get(i)) {
            (Some(v), Some(x)) => check(same(v, x), "element after skipping ahead differs"),
            (None, None) => (),
            (Some(_), None) => check(false, "skipping beyond the end yields an element"),
            (None, Some(_)) => check(false, "skipping ahead ends early"),
        }
        i += 1;
    }
    check(it.next().is_none(), "iteration yields too many elements after skipping ahead");
}
/// A number of elements to keep: `k`, or any number of machine-word range that
/// keeps all `n`.
pub fn cut(k: usize, n: usize) -> usize {
    if k <= n {
        return k;
    }
    let j: usize = any();
    assume(j >= n);
    j
}
/// Consuming iteration agrees with the model.
pub fn agree_into<C: Collection>(c: C, m: &[C::Owned])
where
    C::Owned: Val,
{
    agree_into_by(c, m, m.len() > 1 && flip())
}
/// The same, stepping or skipping ahead.
pub fn agree_into_by<C: Collection>(c: C, m: &[C::Owned], skip: bool)
where
    C::Owned: Val,
{
    if skip {
        return skipping(c.into_iter_owned(), m, m.len() % 2 == 0, |v, x| v.same(x));
    }
    let mut it = c.into_iter_owned();
    for x in m {
        match it.next() {
            Some(v) => check(v.same(x), "consumed element differs"),
            None => check(false, "consuming iteration ends early"),
        }
    }
    check(it.next().is_none(), "consuming iteration yields too many elements");
}
pub fn agree<C: Collection>(c: C, m: &[C::Owned])
where
    C::Owned: Val,
{
    agree_index(&c, m);
    agree_beyond(&c, m.len());
    agree_iter(&c, m);
    agree_into(c, m);
}

/// A bitmap over `N` arbitrary bytes starting at bit `off` with `bits` bits,
/// and its contents.
pub fn bitmap_at(bytes: &[u8], bits: usize, off: usize) -> (Bitmap, Vec<bool>) {
    let b = match Bitmap::<VecBuffer>::try_from_parts(bytes.to_vec(), bits, off) {
        Ok(b) => b,
        Err(_) => {
            check(false, "in-range bitmap refused");
            loop {}
        }
    };
    let m = (0..bits).map(|i| bit(bytes, off + i)).collect();
    (b, m)
}
/// `n` arbitrary bytes.
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| any::<u8>()).collect()
}
pub fn bools(n: usize) -> Vec<bool> {
    (0..n).map(|_| any_bool()).collect()
}

/// An iterator that reports its end after `first` items and then yields more.
pub struct Resumes<T> {
    pub items: Vec<T>,
    pub pos: usize,
    pub stop: usize,
    pub stopped: bool,
}
/// The first `stop` of `items`, an end, and the others.
pub fn resumes<T: Clone>(items: &[T], stop: usize) -> Resumes<T> {
    Resumes { items: items.to_vec(), pos: 0, stop, stopped: false }
}
impl<T: Clone> Iterator for Resumes<T> {
    type Item = T;
    fn size_hint(&self) -> (usize, Option<usize>) {
        // (exact for half of them)
        if self.items.len() % 2 == 0 {
            return (0, None);
        }
        let n = if self.stopped { 0 } else { self.stop.saturating_sub(self.pos) };
        (n, Some(n))
    }
    fn next(&mut self) -> Option<T> {
        if self.pos == self.stop && !self.stopped {
            self.stopped = true;
            return None;
        }
        let x = self.items.get(self.pos).cloned();
        self.pos += 1;
        x
    }
}
/// Panics instead of yielding item number `at`.
pub struct Bomb<I> {
    pub it: I,
    pub at: usize,
}
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.at == 0 {
            panic_now()
        }
        self.at -= 1;
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

/// An iterator with a chosen size hint.
pub struct Hinted<I> {
    pub it: I,
    pub lo: usize,
    pub hi: Option<usize>,
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}

/// Item types with arbitrary values: variable sizes up to `len` elements,
/// concrete on the path; everything else symbolic.
pub trait Gen: Val + Clone {
    /// Whether the elements are of different sizes.
    const VARIABLE: bool = false;
    fn generate(len: usize) -> Self;
    /// Like `generate`, with all variable sizes equal to `len`.
    fn full(len: usize) -> Self {
        Self::generate(len)
    }
}
macro_rules! gen_int {
    ($($t:ty)*) => {$(
        impl Gen for $t {
            fn generate(_: usize) -> $t { any() }
        }
    )*};
}
gen_int!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Gen for bool {
    fn generate(_: usize) -> bool {
        any_bool()
    }
}
impl Val for f32 {
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn rec(&self) {
        obs(self.to_bits() as u64)
    }
    fn code(&self) -> u8 {
        self.to_bits().code()
    }
}
impl Gen for f32 {
    fn generate(_: usize) -> f32 {
        f32::from_bits(any())
    }
}
impl Val for f64 {
    fn same(&self, o: &f64) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn rec(&self) {
        obs(self.to_bits())
    }
    fn code(&self) -> u8 {
        self.to_bits().code()
    }
}
impl Gen for f64 {
    fn generate(_: usize) -> f64 {
        f64::from_bits(any())
    }
}
pub use narrow::fixed_size::FixedSizeArray;
impl<const N: usize> Val for FixedSizeArray<u8, N> {
    fn same(&self, o: &Self) -> bool {
        let (a, b): (&[u8; N], &[u8; N]) = (self, o);
        a.same(b)
    }
    fn rec(&self) {
        let a: &[u8; N] = self;
        a.rec()
    }
    fn code(&self) -> u8 {
        let a: &[u8; N] = self;
        a.code()
    }
}
impl<const N: usize> Gen for FixedSizeArray<u8, N> {
    fn generate(_: usize) -> Self {
        any::<[u8; N]>().into()
    }
}
impl<T: Gen> Gen for Option<T> {
    const VARIABLE: bool = T::VARIABLE;
    fn generate(len: usize) -> Option<T> {
        // (symbolic values are created before the branch)
        let (b, x) = (if T::VARIABLE { decided() } else { any_bool() }, T::generate(len));
        if b { Some(x) } else { None }
    }
    fn full(len: usize) -> Option<T> {
        let (b, x) = (if T::VARIABLE { decided() } else { any_bool() }, T::full(len));
        if b { Some(x) } else { None }
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    const VARIABLE: bool = T::VARIABLE;
    fn generate(len: usize) -> [T; N] {
        core::array::from_fn(|_| T::generate(len))
    }
    fn full(len: usize) -> [T; N] {
        core::array::from_fn(|_| T::full(len))
    }
}
impl<T: Gen> Gen for Vec<T> {
    const VARIABLE: bool = true;
    fn generate(len: usize) -> Vec<T> {
        (0..upto(len)).map(|_| T::generate(len)).collect()
    }
    fn full(len: usize) -> Vec<T> {
        (0..len).map(|_| T::full(len)).collect()
    }
}
pub fn some<T: Gen>(n: usize, len: usize) -> Vec<T> {
    (0..n).map(|_| T::generate(len)).collect()
}

/// Sizes at which narrow counters and fixed batches end.
pub const LONG: [usize; 5] = [256, 1024, 2048, 3072, 65536];
/// Many items, most of them concrete.
pub fn many<T: Gen>(n: usize) -> Vec<T> {
    thin(n, || some(n, 2))
}
/// A collection put together from two parts, and its `n` items.
pub fn long<C: Col>(n: usize, seam: usize, how: usize) -> (C, Vec<C::Item>) {
    let m: Vec<C::Item> = many(n);
    let rest = m[seam..].iter().cloned();
    let mut c: C = if how == 2 { m.iter().cloned().collect() } else { m[..seam].iter().cloned().collect() };
    match how {
        0 => c.extend(rest),
        1 => check(c.try_extend(rest).is_ok(), "fallible extend failed without allocation failure"),
        2 => {
            c.truncate(seam);
            check(c.len() == seam, "length after truncation differs");
            c.extend(rest);
        }
        _ => {
            // a little, then a lot
            c.truncate(1);
            c.extend(m[1..3].iter().cloned());
            c.extend(m[3..].iter().cloned());
        }
    }
    (c, m)
}
/// Everything readable in a long collection.
pub fn agree_long<C: Collection>(c: C, m: &[C::Owned], seam: usize, skip: bool)
where
    C::Owned: Val,
{
    let n = m.len();
    agree_index(&c, m);
    agree_beyond(&c, n);
    let mut it = c.iter_views();
    let (lo, hi) = it.size_hint();
    check(lo <= n && hi.is_none_or(|hi| hi >= n), "size hint excludes the number of elements");
    for x in m {
        match it.next() {
            Some(v) => check(v.into_owned().same(x), "iterated element differs"),
            None => check(false, "iteration ends early"),
        }
    }
    check(it.next().is_none(), "iteration yields too many elements");
    drop(it);
    leap(c.iter_views(), m, seam, |v, x| v.into_owned().same(x));
    check(c.iter_views().count() == n, "counting differs");
    if skip {
        return leap(c.into_iter_owned(), m, seam, |v, x| v.same(x));
    }
    agree_into_by(c, m, false);
}
fn leap<I: Iterator, T>(mut it: I, m: &[T], k: usize, same: impl Fn(I::Item, &T) -> bool) {
    let mut i = 0;
    for k in [k, 1, m.len().saturating_sub(k + 5)] {
        i += k;
        match (it.nth(k), m.get(i)) {
            (Some(v), Some(x)) => check(same(v, x), "element after skipping ahead differs"),
            (None, None) => (),
            (Some(_), None) => check(false, "skipping beyond the end yields an element"),
            (None, Some(_)) => check(false, "skipping ahead ends early"),
        }
        i += 1;
    }
    while i < m.len() {
        match it.next() {
            Some(v) => check(same(v, &m[i]), "element after skipping ahead differs"),
            None => check(false, "skipping ahead ends early"),
        }
        i += 1;
    }
    check(it.next().is_none(), "iteration yields too many elements after skipping ahead");
}
/// Growing, shrinking and reading at a size beyond `LONG[at]`.
pub fn long_ops<C: Col>(at: usize, how: usize) {
    let t = LONG[at];
    let (seam, n) = match how {
        0 => (t - 1, t + 9),
        1 => (t, t + 2),
        2 => (t + 1, t + 3),
        _ => (7, t + 5),
    };
    let (c, m) = long::<C>(n, seam, how);
    agree_long(c, &m, seam, how % 2 == 0);
}

pub type Lists<C> = Offsets<C, i32>;

/// Growable collections of values that can be generated.
pub trait Col: CollectionRealloc<Owned = Self::Item, Alloc = ()> + Default + FromIterator<Self::Item> {
    type Item: Gen;
    /// A collection without a validity bitmap, where there is such a thing.
    fn bare(x: &[Self::Item]) -> Option<Self> {
        let _ = x;
        None
    }
}
impl Col for Vec<u8> {
    type Item = u8;
}
impl Col for Vec<u32> {
    type Item = u32;
}
impl Col for Bitmap {
    type Item = bool;
    fn bare(x: &[bool]) -> Option<Bitmap> {
        let mut d = vec![0u8; (x.len() + 3 + 7) / 8];
        for (i, b) in x.iter().enumerate() {
            d[(i + 3) / 8] |= (*b as u8) << ((i + 3) % 8);
        }
        Bitmap::try_from_parts(d, x.len(), 3).ok()
    }
}
impl<C: Col<Item: Default>> Col for Validity<C> {
    type Item = Option<C::Item>;
    fn bare(x: &[Option<C::Item>]) -> Option<Self> {
        if x.is_empty() || x.iter().all(|x| x.is_some()) {
            Some(Validity::from_collection(x.iter().flatten().cloned().collect()))
        } else {
            None
        }
    }
}
impl<C: Col, const N: usize> Col for Flatten<C, N> {
    type Item = [C::Item; N];
}
impl<C: Col<Item: for<'any> narrow::collection::view::AsView<'any>>> Col for Lists<C> {
    type Item = Vec<C::Item>;
}
impl Col for Array<Option<Vec<Option<[u8; 2]>>>> {
    type Item = Option<Vec<Option<[u8; 2]>>>;
}
impl Col for Array<[Vec<Option<bool>>; 2]> {
    type Item = [Vec<Option<bool>>; 2];
}
impl Col for Array<Option<[Option<u8>; 2]>> {
    type Item = Option<[Option<u8>; 2]>;
}

/// Three ways of building a collection.
pub fn start<C: Col>(items: &[C::Item], kind: usize) -> Option<C> {
    match kind {
        0 => Some(items.iter().cloned().collect()),
        1 => C::bare(items),
        // no spare capacity
        _ => {
            let mut c = C::default();
            for x in items {
                match c.try_extend([x.clone()]) {
                    Ok(()) => (),
                    Err(_) => check(false, "fallible extend failed without allocation failure"),
                }
            }
            Some(c)
        }
    }
}
/// Everything visible by reference equals the model.
pub fn same<C: Col>(c: &C, m: &[C::Item], msg: &'static str) {
    check(c.len() == m.len(), msg);
    for (i, x) in m.iter().enumerate() {
        match c.owned(i) {
            Some(y) => check(y.same(x), msg),
            None => check(false, msg),
        }
    }
    let mut it = c.iter_views();
    for x in m {
        match it.next() {
            Some(y) => check(y.into_owned().same(x), msg),
            None => check(false, msg),
        }
    }
    check(it.next().is_none(), msg);
}

impl Col for Array<Option<[Option<u8>; 3]>> {
    type Item = Option<[Option<u8>; 3]>;
}
