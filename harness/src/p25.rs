//! Allocators.
use crate::sym::*;
use crate::util::*;
use core::borrow::{Borrow, BorrowMut};
use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::Nullability;

/// An allocator with an identity. The default one is nobody's.
#[derive(Clone, Copy, Default)]
pub struct Tag(u64);

/// How many more requests all allocators grant (`usize::MAX`: any number).
static LEFT: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Whether a request was refused.
static REFUSED: AtomicBool = AtomicBool::new(false);

fn ask() -> Result<(), AllocError> {
    let n = LEFT.load(Relaxed);
    if n == 0 {
        REFUSED.store(true, Relaxed);
        return Err(AllocError);
    }
    if n != usize::MAX {
        LEFT.store(n - 1, Relaxed);
    }
    Ok(())
}
fn grant(n: usize) {
    LEFT.store(n, Relaxed);
    REFUSED.store(false, Relaxed);
}

/// A vector that remembers its allocator and asks it for room.
#[derive(Clone, Default)]
pub struct TagBuf<T> {
    v: Vec<T>,
    room: usize,
    tag: Tag,
}
impl<T> TagBuf<T> {
    fn of(v: Vec<T>, tag: Tag) -> TagBuf<T> {
        TagBuf { room: v.len(), v, tag }
    }
    fn want(&mut self, more: usize) -> Result<(), AllocError> {
        let n = self.v.len().checked_add(more).ok_or(AllocError)?;
        if n > self.room {
            ask()?;
            self.room = n;
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Default, Debug)]
pub struct TagBuffer;
impl Buffer for TagBuffer {
    type For<T: FixedSize> = TagBuf<T>;
}
impl<T> Borrow<[T]> for TagBuf<T> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T> BorrowMut<[T]> for TagBuf<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T> Length for TagBuf<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T: FixedSize> Collection for TagBuf<T> {
    type View<'c>
        = T
    where
        Self: 'c;
    type Owned = T;
    fn view(&self, i: usize) -> Option<T> {
        self.v.get(i).copied()
    }
    type Iter<'c>
        = core::iter::Copied<core::slice::Iter<'c, T>>
    where
        Self: 'c;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter().copied()
    }
    type IntoIter = alloc::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<T: FixedSize> Extend<T> for TagBuf<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            if self.want(1).is_err() {
                panic_now()
            }
            self.v.push(x);
        }
    }
}
impl<T: FixedSize> FromIterator<T> for TagBuf<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> TagBuf<T> {
        let mut b = TagBuf { v: vec![], room: 0, tag: Tag::default() };
        b.extend(it);
        b
    }
}
impl<T: FixedSize> CollectionAllocIn for TagBuf<T> {
    type Alloc = Tag;
    fn with_capacity_in(n: usize, tag: Tag) -> Self {
        Self::try_with_capacity_in(n, tag).unwrap_or_else(|_| panic_now())
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(it: I, tag: Tag) -> Self {
        let it = it.into_iter();
        let mut b = Self::with_capacity_in(it.size_hint().0, tag);
        b.extend(it);
        b
    }
    fn try_with_capacity_in(n: usize, tag: Tag) -> Result<Self, AllocError> {
        let mut b = TagBuf { v: vec![], room: 0, tag };
        b.want(n)?;
        Ok(b)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(it: I, tag: Tag) -> Result<Self, AllocError> {
        let it = it.into_iter();
        let mut b = Self::try_with_capacity_in(it.size_hint().0, tag)?;
        b.try_extend(it)?;
        Ok(b)
    }
}
impl<T: FixedSize> CollectionRealloc for TagBuf<T> {
    fn allocator(&self) -> Tag {
        self.tag
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.want(n)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, it: I) -> Result<(), AllocError> {
        let n = self.v.len();
        for x in it {
            if let Err(e) = self.want(1) {
                self.v.truncate(n);
                return Err(e);
            }
            self.v.push(x);
        }
        Ok(())
    }
    fn reserve(&mut self, n: usize) {
        if self.want(n).is_err() {
            panic_now()
        }
    }
    fn truncate(&mut self, n: usize) {
        self.v.truncate(n)
    }
}

/// The allocators of all buffers of a collection.
pub trait Tags {
    fn tags(&self, to: &mut Vec<u64>);
}
impl<T> Tags for TagBuf<T> {
    fn tags(&self, to: &mut Vec<u64>) {
        to.push(self.tag.0)
    }
}
impl Tags for Bitmap<TagBuffer> {
    fn tags(&self, to: &mut Vec<u64>) {
        self.buffer_ref().tags(to)
    }
}
impl<T: Collection + Tags> Tags for Validity<T, TagBuffer> {
    fn tags(&self, to: &mut Vec<u64>) {
        self.child_ref().tags(to);
        if let Some(b) = self.bitmap_ref() {
            b.tags(to)
        }
    }
}
impl<T: Collection + Tags, const N: usize> Tags for Flatten<T, N> {
    fn tags(&self, to: &mut Vec<u64>) {
        self.child_ref().tags(to)
    }
}
impl<T: Collection + Tags, O: narrow::offset::Offset, U> Tags for Offsets<T, O, TagBuffer, U> {
    fn tags(&self, to: &mut Vec<u64>) {
        self.buffer_ref().tags(to);
        self.child_ref().tags(to)
    }
}
macro_rules! layouts {
    ($(($($g:tt)*) $t:ty;)*) => {$(
        impl<$($g)*> Tags for $t
        where
            $t: BufferRef<Buffer: Tags>,
        {
            fn tags(&self, to: &mut Vec<u64>) {
                self.buffer_ref().tags(to)
            }
        }
    )*};
}
layouts! {
    (T: FixedSize, N: Nullability) FixedSizePrimitive<T, N, TagBuffer>;
    (N: Nullability) Boolean<N, TagBuffer>;
    (T: ArrayItem, const W: usize, N: Nullability) FixedSizeList<T, W, N, TagBuffer>;
    (T: ArrayItem, N: Nullability, O: narrow::offset::Offset) VariableSizeList<T, N, O, TagBuffer>;
    (T: ArrayItem) Array<T, TagBuffer>;
}

/// Collections over [`TagBuffer`].
pub trait Tagged: CollectionRealloc<Owned: Gen, Alloc = Tag> + Tags {}
impl<C: CollectionRealloc<Owned: Gen, Alloc = Tag> + Tags> Tagged for C {}

fn reads<C: Tagged>(c: &C, m: &[C::Owned], msg: &'static str) {
    check(c.len() == m.len(), msg);
    for i in 0..m.len() {
        match c.owned(i) {
            Some(x) => check(x.same(&m[i]), msg),
            None => check(false, msg),
        }
    }
    check(c.view(m.len()).is_none(), msg);
}
fn all<C: Tagged>(c: &C, tag: Tag) {
    check(c.allocator().0 == tag.0, "the collection reports another allocator");
    let mut t = vec![];
    c.tags(&mut t);
    let mut ok = true;
    for x in t {
        ok &= x == tag.0;
    }
    check(ok, "a part uses another allocator");
}

/// One operation; whether it was reported as failed.
fn step<C: Tagged>(c: &mut C, m: &mut Vec<C::Owned>, n: usize, len: usize, fallible: bool) -> bool {
    let before = m.clone();
    let r = match upto(2) + if fallible { 3 } else { 0 } {
        0 => {
            let x = some(n, len);
            m.extend(x.clone());
            c.extend(x);
            Ok(())
        }
        1 => {
            c.reserve(n);
            Ok(())
        }
        3 => {
            let x = some(n, len);
            m.extend(x.clone());
            c.try_extend(x)
        }
        4 => c.try_reserve(n),
        _ => {
            m.truncate(n.min(m.len()));
            c.truncate(n);
            Ok(())
        }
    };
    if r.is_err() {
        *m = before;
    }
    r.is_err()
}

/// All ways of creating a collection, then operations on it.
fn life<C: Tagged>(n: usize, len: usize, steps: usize) {
    grant(usize::MAX);
    let tag = Tag(any());
    assume(tag.0 != 0);
    let n = upto(n);
    let mut m: Vec<C::Owned> = vec![];
    let made = match upto(3) {
        0 => Ok(C::with_capacity_in(n, tag)),
        1 => C::try_with_capacity_in(n, tag),
        2 => {
            m = some(n, len);
            Ok(C::from_iter_in(m.clone(), tag))
        }
        _ => {
            m = some(n, len);
            C::try_from_iter_in(m.clone(), tag)
        }
    };
    let Ok(mut c) = made else {
        check(false, "creating fails although no memory was refused");
        return;
    };
    all(&c, tag);
    reads(&c, &m, "a collection over another allocator differs");
    for _ in 0..steps {
        let failed = step(&mut c, &mut m, upto(2), len, flip());
        check(!failed, "an operation fails although no memory was refused");
        all(&c, tag);
    }
    reads(&c, &m, "a collection over another allocator differs");
}

/// Fallible operations with an allocator that refuses after some requests.
fn refuse<C: Tagged>(n: usize, len: usize, steps: usize, most: usize) {
    let tag = Tag(any());
    assume(tag.0 != 0);
    grant(upto(most));
    let n = upto(n);
    let mut m: Vec<C::Owned> = vec![];
    let made = if flip() {
        C::try_with_capacity_in(n, tag)
    } else {
        m = some(n, len);
        C::try_from_iter_in(m.clone(), tag)
    };
    let Ok(mut c) = made else {
        check(REFUSED.load(Relaxed), "creating fails although no memory was refused");
        cover("refused when created");
        return;
    };
    for _ in 0..steps {
        if step(&mut c, &mut m, upto(2), len, true) {
            check(REFUSED.load(Relaxed), "an operation fails although no memory was refused");
            reads(&c, &m, "a refused operation changes the contents");
            cover("refused later");
        }
        all(&c, tag);
    }
    // memory is granted again
    grant(usize::MAX);
    let x: Vec<C::Owned> = some(1, len);
    m.extend(x.clone());
    c.extend(x);
    all(&c, tag);
    reads(&c, &m, "a collection differs after memory was refused");
}

/// Parts that are created when they are first needed.
fn later<C: Tagged>(make: impl Fn(usize, Tag) -> (C, Vec<C::Owned>), n: usize, len: usize) {
    grant(usize::MAX);
    let tag = Tag(any());
    assume(tag.0 != 0);
    let (mut c, mut m) = make(upto(n), tag);
    reads(&c, &m, "a collection over another allocator differs");
    let limited = flip();
    if limited {
        grant(upto(2));
    }
    if step(&mut c, &mut m, upto(2), len, limited | flip()) {
        check(REFUSED.load(Relaxed), "an operation fails although no memory was refused");
        cover("refused");
    }
    all(&c, tag);
    reads(&c, &m, "a collection over another allocator differs");
    grant(usize::MAX);
    step(&mut c, &mut m, 1, len, true);
    all(&c, tag);
    reads(&c, &m, "a collection over another allocator differs");
}

fn values<T: Gen + FixedSize>(n: usize, tag: Tag) -> (TagBuf<T>, Vec<T>) {
    let m: Vec<T> = some(n, 0);
    (TagBuf::of(m.clone(), tag), m)
}
fn valid<C: Tagged>((c, m): (C, Vec<C::Owned>)) -> (Validity<C, TagBuffer>, Vec<Option<C::Owned>>) {
    (Validity::from_collection(c), m.into_iter().map(Some).collect())
}
fn bitmap(n: usize, tag: Tag) -> (Bitmap<TagBuffer>, Vec<bool>) {
    let d = bytes((n + 5 + 7) / 8);
    let m = (0..n).map(|i| bit(&d, i + 5)).collect();
    match Bitmap::try_from_parts(TagBuf::of(d, tag), n, 5) {
        Ok(b) => (b, m),
        Err(_) => {
            check(false, "in-range bitmap refused");
            loop {}
        }
    }
}
fn chunks<C: Tagged, const N: usize>((c, m): (C, Vec<C::Owned>)) -> (Flatten<C, N>, Vec<[C::Owned; N]>) {
    match Flatten::try_from_parts(c) {
        Ok(f) => (f, m.chunks(N).map(|x| core::array::from_fn(|i| x[i].clone())).collect()),
        Err(_) => {
            check(false, "whole rows refused");
            loop {}
        }
    }
}

macro_rules! types {
    ($c:expr, $f:ident, ($($flat:tt)*), ($($row:tt)*)) => {
        match $c.case {
            0 => $f::<Array<u16, TagBuffer>>($($flat)*),
            1 => $f::<Array<Option<u8>, TagBuffer>>($($flat)*),
            2 => $f::<Array<bool, TagBuffer>>($($flat)*),
            3 => $f::<Array<Option<bool>, TagBuffer>>($($flat)*),
            4 => $f::<Array<[u8; 2], TagBuffer>>($($flat)*),
            5 => $f::<Array<Option<[Option<bool>; 2]>, TagBuffer>>($($flat)*),
            6 => $f::<Array<Vec<u8>, TagBuffer>>($($row)*),
            7 => $f::<Array<Option<Vec<Option<u8>>>, TagBuffer>>($($row)*),
            8 => $f::<Array<Vec<Vec<bool>>, TagBuffer>>($($row)*),
            9 => $f::<Array<[Option<Vec<u8>>; 1], TagBuffer>>($($row)*),
            _ => $f::<Offsets<Validity<TagBuf<u8>, TagBuffer>, i64, TagBuffer>>($($row)*),
        }
    };
}

harnesses! {
    P25 p25_life [11, 11] (c) { types!(c, life, (2, 0, c.pick(2, 3)), (c.pick(1, 2), 1, c.pick(1, 2))) }
    P25 p25_refuse [11, 11] (c) { types!(c, refuse, (2, 0, c.pick(1, 2), c.pick(5, 7)), (1, 1, c.pick(1, 2), c.pick(7, 9))) }
    // Large implicit validity and large appends, refused or not.
    P25 p25_huge [6, 6] (c) {
        let n = [1030, 2049, 9000][c.case % 3];
        let tag = Tag(any());
        assume(tag.0 != 0);
        grant(usize::MAX);
        let m: Vec<u8> = many(n);
        let mut v = Validity::<TagBuf<u8>, TagBuffer>::from_collection(TagBuf::of(m.clone(), tag));
        let mut m: Vec<Option<u8>> = m.into_iter().map(Some).collect();
        let x: Vec<Option<u8>> = many(n / 2);
        if c.case < 3 {
            m.extend(x.clone());
            if flip() { v.extend(x) } else { check(v.try_extend(x).is_ok(), "an operation fails although no memory was refused") }
        } else {
            grant([0, 1, 2, 300, 513, 700][upto(5)]);
            match v.try_extend(x.clone()) {
                Ok(()) => m.extend(x),
                Err(_) => check(REFUSED.load(Relaxed), "an operation fails although no memory was refused"),
            }
            grant(usize::MAX);
        }
        all(&v, tag);
        concrete(n, || reads(&v, &m, "a collection over another allocator differs"));
    }
    P25 p25_later [6, 6] (c) {
        let n = c.pick(3, 9);
        match c.case {
            0 => later(|n, t| valid(values::<u32>(n, t)), n, 0),
            1 => later(|n, t| valid(bitmap(n, t)), n, 0),
            2 => later(|n, t| valid(chunks::<_, 2>(values::<u8>(2 * n.min(3), t))), n, 0),
            3 => later(|n, t| {
                let (c, m) = values::<u8>(n, t);
                (Array::<Option<u8>, TagBuffer>::from_buffer(FixedSizePrimitive::from_buffer(Validity::from_collection(c))), m.into_iter().map(Some).collect())
            }, n, 0),
            4 => later(|n, t| valid(valid(values::<u8>(n, t))), n, 0),
            _ => later(|n, t| {
                // one row of all values
                let (c, m) = valid(values::<u8>(n, t));
                match Offsets::<_, i32, TagBuffer>::try_from_parts(c, TagBuf::of(vec![0, n as i32], t)) {
                    Ok(o) => valid((o, vec![m])),
                    Err(_) => {
                        check(false, "valid offsets refused");
                        loop {}
                    }
                }
            }, n.min(3), 1),
        }
    }
}
