//! Physical buffers follow the Arrow columnar layout.
use crate::sym::*;
use crate::util::*;
use narrow::fixed_size::FixedSize;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::layout::ArrayItem;
use narrow::nullability::Nullability;
use narrow::offset::Offset;

/// The independent decoder: reads the first `n` rows from raw buffers, as the
/// Arrow columnar format lays them down.
pub trait Phys {
    type Out;
    /// The number of rows the buffers are expected to hold.
    fn decode(&self, n: usize) -> Vec<Self::Out>;
}
fn need(c: bool, m: &'static str) -> bool {
    check(c, m);
    c
}
impl Phys for Bitmap {
    type Out = bool;
    fn decode(&self, n: usize) -> Vec<bool> {
        let b: &Vec<u8> = self.buffer_ref();
        let off = self.bit_offset();
        if !need(8 * b.len() >= off + n, "a bit buffer is too short") {
            return vec![];
        }
        (0..n).map(|i| bit(b, off + i)).collect()
    }
}
impl<T: FixedSize + Val> Phys for Vec<T> {
    type Out = T;
    fn decode(&self, n: usize) -> Vec<T> {
        if !need(self.len() == n, "the value buffer does not hold one slot per row") {
            return vec![];
        }
        self.clone()
    }
}
impl<C: Collection + Phys> Phys for Validity<C>
where
    C::Out: Clone,
{
    type Out = Option<C::Out>;
    fn decode(&self, n: usize) -> Vec<Option<C::Out>> {
        let v = self.child_ref().decode(n);
        check(v.len() == n, "values and rows have different counts");
        match self.bitmap_ref() {
            None => v.into_iter().map(Some).collect(),
            Some(b) => {
                let b = b.decode(n);
                check(b.len() == n, "validity bits and rows have different counts");
                v.into_iter().zip(b).map(|(v, b)| if b { Some(v) } else { None }).collect()
            }
        }
    }
}
impl<C: Collection + Phys, const N: usize> Phys for Flatten<C, N> {
    type Out = [C::Out; N];
    fn decode(&self, n: usize) -> Vec<[C::Out; N]> {
        check(self.child_ref().len() == n * N, "the child of a fixed-size list is not N times as long");
        let mut it = self.child_ref().decode(n * N).into_iter();
        let mut o = vec![];
        for _ in 0..n {
            let r: Vec<C::Out> = it.by_ref().take(N).collect();
            match r.try_into() {
                Ok(a) => o.push(a),
                Err(_) => check(false, "the child of a fixed-size list is too short"),
            }
        }
        o
    }
}
impl<C: Collection + Phys, O: Offset> Phys for Offsets<C, O>
where
    C::Out: Clone,
{
    type Out = Vec<C::Out>;
    fn decode(&self, n: usize) -> Vec<Vec<C::Out>> {
        let o: &Vec<O> = self.buffer_ref();
        if !need(o.len() == n + 1, "offsets do not hold one entry more than rows") {
            return vec![];
        }
        let o: Vec<usize> = o.iter().map(|x| x.as_usize()).collect();
        check(o[0] == 0, "offsets do not start at zero");
        let d = self.child_ref().decode(self.child_ref().len());
        let mut r = vec![];
        for i in 0..n {
            if !need(o[i] <= o[i + 1] && o[i + 1] <= d.len(), "offsets decrease or leave the child") {
                return vec![];
            }
            r.push(d[o[i]..o[i + 1]].to_vec());
        }
        r
    }
}
impl<N: Nullability> Phys for Boolean<N, VecBuffer>
where
    N::Collection<Bitmap, VecBuffer>: Phys,
{
    type Out = <N::Collection<Bitmap, VecBuffer> as Phys>::Out;
    fn decode(&self, n: usize) -> Vec<Self::Out> {
        self.buffer_ref().decode(n)
    }
}
impl<T: FixedSize, N: Nullability> Phys for FixedSizePrimitive<T, N, VecBuffer>
where
    N::Collection<Vec<T>, VecBuffer>: Phys,
{
    type Out = <N::Collection<Vec<T>, VecBuffer> as Phys>::Out;
    fn decode(&self, n: usize) -> Vec<Self::Out> {
        self.buffer_ref().decode(n)
    }
}
impl<T: ArrayItem, const K: usize, N: Nullability> Phys for FixedSizeList<T, K, N, VecBuffer>
where
    N::Collection<Flatten<T::Memory<VecBuffer>, K>, VecBuffer>: Phys,
{
    type Out = <N::Collection<Flatten<T::Memory<VecBuffer>, K>, VecBuffer> as Phys>::Out;
    fn decode(&self, n: usize) -> Vec<Self::Out> {
        self.buffer_ref().decode(n)
    }
}
impl<T: ArrayItem, N: Nullability> Phys for VariableSizeList<T, N, i32, VecBuffer>
where
    N::Collection<Offsets<T::Memory<VecBuffer>, i32>, VecBuffer>: Phys,
{
    type Out = <N::Collection<Offsets<T::Memory<VecBuffer>, i32>, VecBuffer> as Phys>::Out;
    fn decode(&self, n: usize) -> Vec<Self::Out> {
        self.buffer_ref().decode(n)
    }
}

fn physical<T: ArrayItem<Memory<VecBuffer>: Phys<Out = T>> + Gen>(n: usize, len: usize, full: bool)
where
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
{
    let items: Vec<T> = if full { (0..n).map(|_| T::full(len)).collect() } else { some::<T>(upto(n), len) };
    let n = items.len();
    let mode = upto(5);
    let k = if mode < 2 { n } else if full { [0, 1, n - 1][upto(2)] } else { upto(n) };
    let (p, q) = items.split_at(k);
    let (p, q) = (p.iter().cloned(), q.iter().cloned());
    let mut a: Array<T> = if mode == 1 { Array::from_iter_in(p, ()) } else { p.collect() };
    match mode {
        0 | 1 => (),
        2 => a.extend(q),
        3 => check(a.try_extend(q).is_ok(), "fallible extend failed without allocation failure"),
        4 => {
            a.extend(q);
            a.truncate(k);
            a.extend(items[k..].iter().cloned());
        }
        _ => match Array::try_from_iter_in(items.iter().cloned(), ()) {
            Ok(b) => a = b,
            Err(_) => check(false, "fallible collect failed without allocation failure"),
        },
    }
    check(a.len() == n, "length differs");
    let got = a.buffer_ref().decode(n);
    check(got.len() == n, "number of decoded rows differs");
    for (x, y) in got.iter().zip(&items) {
        check(x.same(y), "decoded row differs");
        y.rec();
    }
}

fn huge<T: ArrayItem<Memory<VecBuffer>: Phys<Out = T>> + Gen>(n: usize)
where
    Array<T>: CollectionRealloc<Owned = T, Alloc = ()> + FromIterator<T> + Default,
{
    let items: Vec<T> = many(n);
    let k = [1, n - 3, n - 7, n][upto(3)];
    let mut a: Array<T> = items[..k].iter().cloned().collect();
    if k == n {
        a.truncate(n - 4);
        a.extend(items[n - 4..].iter().cloned());
    } else if k % 2 == 0 {
        a.extend(items[k..].iter().cloned());
    } else {
        check(a.try_extend(items[k..].iter().cloned()).is_ok(), "fallible extend failed without allocation failure");
    }
    check(a.len() == n, "length differs");
    let got = a.buffer_ref().decode(n);
    check(got.len() == n, "number of decoded rows differs");
    let mut ok = true;
    for (x, y) in got.iter().zip(&items) {
        ok &= x.same(y);
    }
    check(ok, "decoded row differs");
}

harnesses! {
    P13 p13_flat [7, 7] (c) {
        let n = c.pick(4, 9);
        match c.case {
            0 => physical::<bool>(c.pick(9, 18), 0, false),
            1 => physical::<Option<bool>>(n, 0, false),
            2 => physical::<u16>(n, 0, false),
            3 => physical::<Option<i64>>(n, 0, false),
            4 => physical::<Option<u8>>(n + 1, 0, false),
            5 => physical::<Option<FixedSizeArray<u8, 2>>>(n, 0, false),
            _ => physical::<Option<f32>>(n, 0, false),
        }
    }
    P13 p13_fixed [6, 6] (c) {
        let n = c.pick(2, 4);
        match c.case {
            0 => physical::<[i32; 3]>(n, 0, false),
            1 => physical::<Option<[u8; 2]>>(n, 0, false),
            2 => physical::<[Option<u8>; 2]>(n, 0, false),
            3 => physical::<Option<[Option<bool>; 3]>>(n, 0, false),
            4 => physical::<[[bool; 2]; 2]>(n, 0, false),
            _ => physical::<Option<[bool; 3]>>(n, 0, false),
        }
    }
    P13 p13_lists [7, 7] (c) {
        let n = c.pick(2, 3);
        match c.case {
            0 => physical::<Vec<u8>>(3, 2, false),
            1 => physical::<Option<Vec<u8>>>(n, c.pick(1, 2), false),
            2 => physical::<Vec<bool>>(n, c.pick(2, 4), false),
            3 => physical::<Option<Vec<bool>>>(n, c.pick(1, 2), false),
            4 => physical::<Vec<Option<i32>>>(n, c.pick(1, 2), false),
            5 => physical::<Vec<Option<bool>>>(n, c.pick(1, 2), false),
            _ => physical::<Option<Vec<Option<u8>>>>(n, 1, false),
        }
    }
    P13 p13_deep [7, 7] (c) {
        let n = c.pick(1, 2);
        match c.case {
            0 => physical::<Vec<Vec<u8>>>(2, c.pick(1, 2), false),
            1 => physical::<Option<Vec<Option<Vec<u8>>>>>(n, 1, false),
            2 => physical::<Vec<[u8; 2]>>(2, c.pick(1, 2), false),
            3 => physical::<Option<Vec<Option<[u8; 2]>>>>(n, 1, false),
            4 => physical::<[Vec<u8>; 2]>(n, c.pick(1, 2), false),
            5 => physical::<Option<[Option<Vec<u8>>; 2]>>(n, 1, false),
            _ => physical::<Vec<[bool; 3]>>(2, c.pick(1, 2), false),
        }
    }
    P13 p13_many [6, 6] (c) {
        let n = if c.thorough { [64, 65, 127, 130, 200][upto(4)] } else { [35, 65][upto(1)] };
        match c.case {
            0 => physical::<bool>(n, 1, true),
            1 => physical::<Option<bool>>(n, 1, true),
            2 => physical::<Option<u8>>(n, 1, true),
            3 => physical::<[bool; 3]>(n, 1, true),
            4 => physical::<Vec<bool>>(n, 1, true),
            _ => physical::<[Option<u8>; 2]>(n, 1, true),
        }
    }
    // Lengths at which narrow counters would overflow.
    P13 p13_huge [12, 12] (c) {
        match c.case {
            0 => huge::<bool>(LONG[4] + 5),
            1 => huge::<Option<u8>>(LONG[4] + 5),
            2 => huge::<Vec<u8>>(LONG[2] + 5),
            3 => huge::<i32>(LONG[2] + 5),
            4 => huge::<Option<bool>>(LONG[3] + 5),
            5 => huge::<Option<[u8; 2]>>(LONG[2] + 5),
            6 => huge::<[Option<u8>; 3]>(LONG[1] + 5),
            7 => huge::<Option<Vec<u8>>>(LONG[2] + 5),
            8 => huge::<Vec<Option<bool>>>(LONG[1] + 5),
            9 => huge::<[bool; 33]>(9),
            10 => huge::<Option<[Option<u8>; 32]>>(9),
            _ => huge::<Vec<[bool; 3]>>(LONG[0] + 5),
        }
    }
}
