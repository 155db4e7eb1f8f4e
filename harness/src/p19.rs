//! Imported arrays read the foreign buffers themselves.
use crate::ffi::*;
use crate::sym::*;
use crate::util::*;
use narrow::fixed_size::FixedSize;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::layout::ArrayItem;
use narrow::nullability::Nullability;
use narrow::offset::Offset;

/// Addresses and sizes of buffers in depth-first order.
trait Ptrs {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>);
}
impl Ptrs for Bitmap<SliceBuffer<'_>> {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        check(self.bit_offset() == 0, "an imported bitmap starts at a bit offset");
        let b: &[u8] = self.buffer_ref();
        o.push((b.as_ptr() as usize, b.len()));
    }
}
impl<T: FixedSize> Ptrs for &[T] {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        o.push((self.as_ptr() as usize, size_of_val(*self)));
    }
}
impl<'a, C: Collection + Ptrs> Ptrs for Validity<C, SliceBuffer<'a>> {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        match self.bitmap_ref() {
            Some(b) => b.ptrs(o),
            None => o.push((0, 0)),
        }
        self.child_ref().ptrs(o);
    }
}
impl<C: Collection + Ptrs, const N: usize> Ptrs for Flatten<C, N> {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        self.child_ref().ptrs(o);
    }
}
impl<'a, C: Collection + Ptrs, O: Offset> Ptrs for Offsets<C, O, SliceBuffer<'a>> {
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        let b: &[O] = self.buffer_ref();
        o.push((b.as_ptr() as usize, size_of_val(b)));
        self.child_ref().ptrs(o);
    }
}
impl<'a, N: Nullability> Ptrs for Boolean<N, SliceBuffer<'a>>
where
    N::Collection<Bitmap<SliceBuffer<'a>>, SliceBuffer<'a>>: Ptrs,
{
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        self.buffer_ref().ptrs(o);
    }
}
impl<'a, T: FixedSize, N: Nullability> Ptrs for FixedSizePrimitive<T, N, SliceBuffer<'a>>
where
    N::Collection<&'a [T], SliceBuffer<'a>>: Ptrs,
{
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        self.buffer_ref().ptrs(o);
    }
}
impl<'a, T: ArrayItem, const K: usize, N: Nullability> Ptrs for FixedSizeList<T, K, N, SliceBuffer<'a>>
where
    N::Collection<Flatten<T::Memory<SliceBuffer<'a>>, K>, SliceBuffer<'a>>: Ptrs,
{
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        self.buffer_ref().ptrs(o);
    }
}
impl<'a, T: ArrayItem, N: Nullability> Ptrs for VariableSizeList<T, N, i32, SliceBuffer<'a>>
where
    N::Collection<Offsets<T::Memory<SliceBuffer<'a>>, i32, SliceBuffer<'a>>, SliceBuffer<'a>>: Ptrs,
{
    fn ptrs(&self, o: &mut Vec<(usize, usize)>) {
        self.buffer_ref().ptrs(o);
    }
}

/// Conforming arrays of up to `n` elements.
fn reads<T: Foreign + ArrayItem>(n: usize, row: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    for<'a> T::Memory<SliceBuffer<'a>>: Ptrs,
{
    exact::<T>(upto(n), row)
}
fn exact<T: Foreign + ArrayItem>(n: usize, row: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    for<'a> T::Memory<SliceBuffer<'a>>: Ptrs,
{
    imports::<T>(|| T::foreign(&mut Plan::good(row), n), false)
}
fn long<T: Foreign + ArrayItem>(n: usize, row: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    for<'a> T::Memory<SliceBuffer<'a>>: Ptrs,
{
    // (symbolic nullness of rows of different sizes would be a path each)
    if T::VARIABLE {
        imports::<T>(|| concrete(n, || T::foreign(&mut Plan::good(row), n)), true)
    } else {
        imports::<T>(|| thin(n, || T::foreign(&mut Plan::good(row), n)), true)
    }
}
fn imports<T: Foreign + ArrayItem>(mk: impl Fn() -> (Node, Vec<T>), brief: bool)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a> + Collection<Owned = T>,
    for<'a> T::Memory<SliceBuffer<'a>>: Ptrs,
{
    let before = heap_live();
    {
        let (k, m) = mk();
        let total = heap_total();
        let r = k.import::<T>();
        check(heap_total() == total, "importing allocates or copies memory");
        match r {
            Ok(a) => {
                let mut p = vec![];
                a.buffer_ref().ptrs(&mut p);
                check(p.len() == k.ptrs.len(), "number of buffers differs");
                for (x, y) in p.iter().zip(&k.ptrs) {
                    if y.1 == 0 {
                        check(x.1 == 0, "an empty foreign buffer became a non-empty one");
                    } else {
                        check(x.0 == y.0, "a buffer of the imported array is not the foreign buffer");
                        check(x.1 <= y.1, "a buffer of the imported array exceeds the foreign buffer");
                    }
                }
                if brief { agree_long(a, &m, m.len() / 2, flip()) } else { agree(a, &m) }
            }
            Err(_) => check(false, "a conforming foreign array was refused"),
        }
    }
    check(heap_live() == before, "memory is leaked");
}

harnesses! {
    P19 p19_flat [14, 14] (c) {
        let n = c.pick(4, 9);
        match c.case {
            0 => reads::<bool>(c.pick(9, 18), 0),
            1 => reads::<Option<bool>>(c.pick(5, 9), 0),
            2 => reads::<i8>(n, 0),
            3 => reads::<u8>(n, 0),
            4 => reads::<i16>(n, 0),
            5 => reads::<Option<u16>>(n, 0),
            6 => reads::<i32>(n, 0),
            7 => reads::<Option<u32>>(n, 0),
            8 => reads::<i64>(n, 0),
            9 => reads::<Option<i64>>(n, 0),
            10 => reads::<u64>(n, 0),
            11 => reads::<f32>(n, 0),
            12 => reads::<Option<f64>>(n, 0),
            _ => reads::<Option<i8>>(c.pick(9, 18), 0),
        }
    }
    P19 p19_fixed [9, 9] (c) {
        let n = c.pick(3, 5);
        match c.case {
            0 => reads::<[u8; 2]>(n, 0),
            1 => reads::<Option<[u16; 3]>>(n, 0),
            2 => reads::<[Option<bool>; 3]>(c.pick(3, 4), 0),
            3 => reads::<[[u8; 2]; 2]>(n, 0),
            4 => reads::<Option<[Option<i64>; 1]>>(n, 0),
            5 => reads::<Option<[[Option<bool>; 2]; 1]>>(n, 0),
            6 => reads::<[bool; 4]>(n, 0),
            7 => reads::<[Vec<u8>; 2]>(1, c.pick(2, 3)),
            _ => reads::<[Option<u32>; 10]>(1, 0),
        }
    }
    P19 p19_lists [9, 9] (c) {
        let (n, r) = (c.pick(2, 3), c.pick(2, 3));
        match c.case {
            0 => reads::<Vec<u8>>(3, r),
            1 => reads::<Option<Vec<u8>>>(n, r),
            2 => reads::<Vec<Option<u16>>>(n, r),
            3 => reads::<Vec<bool>>(n, r),
            4 => reads::<Option<Vec<Option<bool>>>>(n, r),
            5 => reads::<Vec<[u8; 2]>>(n, r),
            6 => reads::<Vec<Vec<u8>>>(c.pick(1, 2), r),
            7 => reads::<Option<Vec<Option<Vec<Option<u8>>>>>>(1, c.pick(1, 2)),
            _ => reads::<Vec<Option<[bool; 3]>>>(n, 1),
        }
    }
    // Larger arrays.
    P19 p19_wide [5, 5] (c) {
        match c.case {
            0 => exact::<bool>([63, 64, 65][upto(2)], 0),
            1 => exact::<Option<u8>>(c.pick(33, 65), 0),
            2 => exact::<Vec<Option<u8>>>(1, 17),
            3 => exact::<[bool; 10]>(c.pick(5, 13), 0),
            _ => exact::<Option<bool>>(c.pick(33, 65), 0),
        }
    }
    // Lengths at which narrow counters would overflow.
    P19 p19_huge [14, 14] (c) {
        match c.case {
            12 => long::<Option<u8>>([64, 65, 128, 129][upto(3)], 0),
            13 => long::<Option<bool>>([64, 128, 192, 256][upto(3)], 0),
            0 => long::<bool>(LONG[4] + 5, 0),
            1 => long::<u8>(LONG[4] + 3, 0),
            2 => long::<Option<u16>>(LONG[4] + 3, 0),
            3 => long::<Vec<u8>>(LONG[2] + 3, 2),
            4 => long::<Option<bool>>(LONG[2] + 3, 0),
            5 => long::<[u8; 33]>(20, 0),
            6 => long::<Option<[Option<u8>; 300]>>(4, 0),
            7 => long::<Vec<Option<u8>>>(LONG[0] + 3, 9),
            8 => long::<Vec<u8>>(2, 70000),
            9 => long::<Option<i64>>(LONG[2] + 3, 0),
            10 => long::<[bool; 9]>(300, 0),
            _ => long::<Option<Vec<bool>>>(LONG[1] + 3, 3),
        }
    }
}
