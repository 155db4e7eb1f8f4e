//! Storage backends and arrays assembled from parts in them.
use crate::sym::*;
use crate::util::*;
use narrow::fixed_size::FixedSize;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::layout::{ArrayItem, Layout, NullableLayout};
use narrow::nullability::{NonNullable, Nullable};

pub trait Store {
    type B: Buffer + 'static;
    /// The only buffer length this storage can have.
    const ONLY: Option<usize> = None;
    fn put<T: FixedSize>(v: &[T]) -> <Self::B as Buffer>::For<T>;
}
impl Store for VecBuffer {
    type B = VecBuffer;
    fn put<T: FixedSize>(v: &[T]) -> Vec<T> {
        v.to_vec()
    }
}
impl Store for BoxBuffer {
    type B = BoxBuffer;
    fn put<T: FixedSize>(v: &[T]) -> Box<[T]> {
        v.into()
    }
}
impl Store for RcBuffer {
    type B = RcBuffer;
    fn put<T: FixedSize>(v: &[T]) -> Rc<[T]> {
        v.into()
    }
}
impl Store for ArcBuffer {
    type B = ArcBuffer;
    fn put<T: FixedSize>(v: &[T]) -> Arc<[T]> {
        v.into()
    }
}
impl Store for SliceBuffer<'static> {
    type B = SliceBuffer<'static>;
    fn put<T: FixedSize>(v: &[T]) -> &'static [T] {
        v.to_vec().leak()
    }
}
impl Store for ArrayBuffer<3> {
    type B = ArrayBuffer<3>;
    const ONLY: Option<usize> = Some(3);
    fn put<T: FixedSize>(v: &[T]) -> [T; 3] {
        [v[0], v[1], v[2]]
    }
}
pub type For<S, T> = <<S as Store>::B as Buffer>::For<T>;

pub fn bitmap_of<S: Store>(d: &[u8], bits: usize, off: usize) -> (Bitmap<S::B>, Vec<bool>) {
    let m = (0..bits).map(|i| bit(d, off + i)).collect();
    match Bitmap::try_from_parts(S::put(d), bits, off) {
        Ok(b) => (b, m),
        Err(_) => {
            check(false, "in-range bitmap refused");
            loop {}
        }
    }
}

/// How the parts are chosen.
pub struct Make {
    /// The largest number of elements of a row.
    pub row: usize,
    /// Whether bitmaps may start at a bit offset.
    pub shift: bool,
    /// The bit offsets of all bitmaps so far.
    pub offsets: Vec<usize>,
}
impl Make {
    pub fn new(row: usize, shift: bool) -> Make {
        Make { row, shift, offsets: vec![] }
    }
    fn offset(&mut self) -> usize {
        let o = if self.shift { [0, 1, 8, 13][upto(3)] } else { 0 };
        self.offsets.push(o);
        o
    }
    /// A bitmap of `n` bits, and as many bytes as the storage needs.
    fn bitmap<S: Store>(&mut self, n: usize) -> (Bitmap<S::B>, Vec<bool>) {
        let off = self.offset();
        let k = S::ONLY.unwrap_or((off + n + 7) / 8 + n % 2);
        bitmap_of::<S>(&bytes(k), n, off)
    }
    /// Nullness of `n` items.
    fn nulls<S: Store, C: Collection>(&mut self, c: C, v: Vec<C::Owned>) -> (Validity<C, S::B>, Vec<Option<C::Owned>>) {
        if flip() {
            return (Validity::from_collection(c), v.into_iter().map(Some).collect());
        }
        let (b, m) = self.bitmap::<S>(v.len());
        match Validity::try_from_parts(c, b) {
            Ok(x) => (x, v.into_iter().zip(m).map(|(x, b)| if b { Some(x) } else { None }).collect()),
            Err(_) => {
                check(false, "values and bits of the same length refused");
                loop {}
            }
        }
    }
}
pub type Mem<T, S> = <T as ArrayItem>::Memory<<S as Store>::B>;
type NonNull<T, S> = <T as Layout>::Memory<NonNullable, <S as Store>::B>;
type Null<T, S> = <T as Layout>::Memory<Nullable, <S as Store>::B>;

/// Items whose arrays can be assembled from parts.
pub trait Parts: ArrayItem + Gen {
    fn parts<S: Store>(n: usize, p: &mut Make) -> (Mem<Self, S>, Vec<Self>);
}
pub trait Plain: NullableLayout + Gen {
    fn plain<S: Store>(n: usize, p: &mut Make) -> (NonNull<Self, S>, Vec<Self>);
    fn nullable<S: Store>(n: usize, p: &mut Make) -> (Null<Self, S>, Vec<Option<Self>>);
}
impl<T: Plain> Parts for Option<T> {
    fn parts<S: Store>(n: usize, p: &mut Make) -> (Mem<Self, S>, Vec<Self>) {
        T::nullable::<S>(n, p)
    }
}
macro_rules! plain {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Parts for $t {
            fn parts<S: Store>(n: usize, p: &mut Make) -> (Mem<Self, S>, Vec<Self>) {
                <$t>::plain::<S>(n, p)
            }
        }
    )*};
}
plain! { [] bool; [T: Parts, const N: usize] [T; N]; [T: Parts] Vec<T>; }
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl Plain for $t {
            fn plain<S: Store>(n: usize, _: &mut Make) -> (NonNull<$t, S>, Vec<$t>) {
                let v = some::<$t>(n, 0);
                (FixedSizePrimitive::from_buffer(S::put(&v)), v)
            }
            fn nullable<S: Store>(n: usize, p: &mut Make) -> (Null<$t, S>, Vec<Option<$t>>) {
                let v = some::<$t>(n, 0);
                let (c, m) = p.nulls::<S, _>(S::put(&v), v);
                (FixedSizePrimitive::from_buffer(c), m)
            }
        }
        plain! { [] $t; }
    )*};
}
numbers!(i8 u8 i16 u16 i32 u32 i64 u64 f32 f64);
impl Plain for bool {
    fn plain<S: Store>(n: usize, p: &mut Make) -> (NonNull<bool, S>, Vec<bool>) {
        let (b, m) = p.bitmap::<S>(n);
        (Boolean::from_buffer(b), m)
    }
    fn nullable<S: Store>(n: usize, p: &mut Make) -> (Null<bool, S>, Vec<Option<bool>>) {
        let (b, m) = p.bitmap::<S>(n);
        let (c, m) = p.nulls::<S, _>(b, m);
        (Boolean::from_buffer(c), m)
    }
}
impl<T: Parts, const N: usize> Plain for [T; N] {
    fn plain<S: Store>(n: usize, p: &mut Make) -> (NonNull<[T; N], S>, Vec<[T; N]>) {
        let (c, m) = fixed::<T, N, S>(n, p);
        (FixedSizeList::from_buffer(c), m)
    }
    fn nullable<S: Store>(n: usize, p: &mut Make) -> (Null<[T; N], S>, Vec<Option<[T; N]>>) {
        let (c, m) = fixed::<T, N, S>(n, p);
        let (c, m) = p.nulls::<S, _>(c, m);
        (FixedSizeList::from_buffer(c), m)
    }
}
fn fixed<T: Parts, const N: usize, S: Store>(n: usize, p: &mut Make) -> (Flatten<Mem<T, S>, N>, Vec<[T; N]>) {
    let (c, v) = T::parts::<S>(n * N, p);
    match Flatten::try_from_parts(c) {
        Ok(f) => (f, v.chunks(N).map(|r| core::array::from_fn(|i| r[i].clone())).collect()),
        Err(_) => {
            check(false, "whole rows refused");
            loop {}
        }
    }
}
impl<T: Parts> Plain for Vec<T> {
    fn plain<S: Store>(n: usize, p: &mut Make) -> (NonNull<Vec<T>, S>, Vec<Vec<T>>) {
        let (c, m) = lists::<T, S>(n, p);
        (VariableSizeList::from_buffer(c), m)
    }
    fn nullable<S: Store>(n: usize, p: &mut Make) -> (Null<Vec<T>, S>, Vec<Option<Vec<T>>>) {
        let (c, m) = lists::<T, S>(n, p);
        let (c, m) = p.nulls::<S, _>(c, m);
        (VariableSizeList::from_buffer(c), m)
    }
}
fn lists<T: Parts, S: Store>(n: usize, p: &mut Make) -> (Offsets<Mem<T, S>, i32, S::B>, Vec<Vec<T>>) {
    let mut o = vec![0i32];
    for i in 0..n {
        o.push(o[i] + upto(p.row) as i32);
    }
    // (one unreferenced element)
    let k = S::ONLY.unwrap_or(o[n] as usize + (n % 2));
    assume(o[n] as usize <= k);
    let (c, v) = T::parts::<S>(k, p);
    let m = o.windows(2).map(|w| v[w[0] as usize..w[1] as usize].to_vec()).collect();
    match Offsets::try_from_parts(c, S::put(&o)) {
        Ok(x) => (x, m),
        Err(_) => {
            check(false, "valid offsets refused");
            loop {}
        }
    }
}
