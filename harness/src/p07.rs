//! Offset buffers: acceptance.
use crate::sym::*;
use crate::util::*;
use narrow::offset::Offset;
use core::borrow::Borrow;

/// The first rule broken, in buffer order.
fn verdict(o: &[i128], data: usize) -> Result<(), OffsetsError> {
    if o.is_empty() {
        return Err(OffsetsError::Empty);
    }
    for i in 0..o.len() {
        if o[i] < 0 {
            return Err(OffsetsError::Negative { index: i });
        }
        if i == 0 && o[0] != 0 {
            return Err(OffsetsError::NonZeroFirst { first: o[0] as usize });
        }
        if i > 0 && o[i] < o[i - 1] {
            return Err(OffsetsError::NonMonotonic { index: i });
        }
    }
    let last = o[o.len() - 1];
    if last > data as i128 {
        return Err(OffsetsError::OutOfBounds { last: last as usize, data });
    }
    Ok(())
}

trait Off: Offset + Any + Val {
    fn wide(self) -> i128;
}
impl Off for i32 {
    fn wide(self) -> i128 {
        self as i128
    }
}
impl Off for i64 {
    fn wide(self) -> i128 {
        self as i128
    }
}

fn run<T: Collection, O: Off, S: Buffer>(data: T, n: usize, o: Vec<O>, make: impl FnOnce(Vec<O>) -> S::For<O>, unchanged: impl FnOnce(T)) {
    let wide: Vec<i128> = o.iter().map(|x| x.wide()).collect();
    let keep = o.clone();
    let r = Offsets::<T, O, S>::try_from_parts(data, make(o));
    match verdict(&wide, n) {
        Ok(()) => match r {
            Ok(x) => {
                check(x.len() + 1 == keep.len(), "number of rows differs");
                check(x.is_empty() == (keep.len() == 1), "is_empty");
                check(x.child_ref().len() == n, "child length differs");
                let b: &[O] = x.buffer_ref().borrow();
                check(b.to_vec().same(&keep), "offsets differ");
                let (t, b) = x.into_parts();
                let b: &[O] = b.borrow();
                check(b.to_vec().same(&keep), "offsets changed by taking apart");
                check(t.len() == n, "child changed");
                unchanged(t);
                cover("accepted");
            }
            Err(_) => check(false, "valid offsets refused"),
        },
        Err(want) => match r {
            Ok(_) => check(false, "invalid offsets accepted"),
            Err(e) => {
                check(e == want, "error does not report the first rule broken");
                cover("refused");
            }
        },
    }
}

fn anys<T: Any>(n: usize) -> Vec<T> {
    (0..n).map(|_| any()).collect()
}
/// A slice of any length that is never read.
fn virt() -> (&'static [u8], usize) {
    let n: usize = any();
    assume(n <= isize::MAX as usize);
    let p = core::ptr::NonNull::<u8>::dangling().as_ptr();
    (unsafe { core::slice::from_raw_parts(p, n) }, n)
}

fn backends<O: Off>() {
    let (d, n) = virt();
    match upto(4) {
        0 => run::<_, O, BoxBuffer>(d, n, anys(3), |o| o.into_boxed_slice(), |_| ()),
        1 => run::<_, O, RcBuffer>(d, n, anys(3), |o| Rc::from(o), |_| ()),
        2 => run::<_, O, ArcBuffer>(d, n, anys(3), |o| Arc::from(o), |_| ()),
        3 => run::<_, O, ArrayBuffer<3>>(d, n, anys(3), |o| [o[0], o[1], o[2]], |_| ()),
        _ => {
            let o: Vec<O> = anys(upto(3));
            let s: &'static [O] = unsafe { core::slice::from_raw_parts(o.as_ptr(), o.len()) };
            run::<_, O, SliceBuffer<'static>>(d, n, o.clone(), |_| s, |_| ())
        }
    }
}
fn children<O: Off>() {
    let n = upto(3);
    let d = bytes(n);
    let k = d.clone();
    let o: Vec<O> = anys(upto(3));
    match upto(5) {
        0 => run::<_, O, VecBuffer>(d, n, o, |o| o, |t| check(t.same(&k), "child changed")),
        1 => run::<_, O, VecBuffer>(d.into_boxed_slice(), n, o, |o| o, |t| check(t.to_vec().same(&k), "child changed")),
        2 => {
            let bits = upto(9);
            let (b, m) = bitmap_at(&[any(), any()], bits, 5);
            run::<_, O, VecBuffer>(b, bits, o, |o| o, |t| agree_index(&t, &m))
        }
        3 => {
            let Ok(f) = Flatten::<_, 2>::try_from_parts(bytes(2 * n)) else { check(false, "multiple refused"); return };
            run::<_, O, VecBuffer>(f, n, o, |o| o, |_| ())
        }
        4 => run::<_, O, VecBuffer>(Validity::<_, VecBuffer>::from_collection(d), n, o, |o| o, |t| check(t.into_parts().0.same(&k), "child changed")),
        _ => {
            // the rows of the child count, not its elements
            let Ok(f) = Offsets::<_, i32, VecBuffer>::try_from_parts(bytes(7), vec![0, 1, 1, 4, 7]) else { check(false, "valid offsets refused"); return };
            run::<_, O, VecBuffer>(f, 4, o, |o| o, |_| ())
        }
    }
}

/// Long offset buffers: at most two places hold arbitrary offsets.
fn places<O: Off>(k: usize, from: impl Fn(i64) -> O) {
    let (d, n) = virt();
    let mut at = 0i64;
    let mut o: Vec<O> = (0..k)
        .map(|i| {
            at += (i % 3) as i64;
            from(at)
        })
        .collect();
    let p = [0, 1, k / 2, 255, 256, 1023, 1024, k - 2, k - 1][upto(8)];
    o[p] = any();
    if flip() && p > 0 {
        o[p - 1] = any();
    }
    run::<_, O, VecBuffer>(d, n, o, |o| o, |_| ())
}

harnesses! {
    // 32-bit and 64-bit offsets, any values, any child length.
    P07 p07_any32 [1, 1] (c) {
        let (d, n) = virt();
        run::<_, i32, VecBuffer>(d, n, anys(upto(c.pick(8, 20))), |o| o, |t| check(t.as_ptr() == d.as_ptr() && t.len() == n, "child changed"))
    }
    P07 p07_any64 [1, 1] (c) {
        let (d, n) = virt();
        run::<_, i64, VecBuffer>(d, n, anys(upto(c.pick(8, 20))), |o| o, |t| check(t.as_ptr() == d.as_ptr() && t.len() == n, "child changed"))
    }
    // Long buffers.
    P07 p07_long [2, 2] (c) {
        let (d, n) = virt();
        let k = if c.thorough { [33, 64, 65, 127, 130][upto(4)] } else { [17, 33, 66][upto(2)] };
        if c.case == 0 {
            run::<_, i32, VecBuffer>(d, n, anys(k), |o| o, |_| ())
        } else {
            run::<_, i64, VecBuffer>(d, n, anys(k), |o| o, |_| ())
        }
    }
    P07 p07_backends [2, 2] (c) {
        if c.case == 0 { backends::<i32>() } else { backends::<i64>() }
    }
    P07 p07_children [2, 2] (c) {
        if c.case == 0 { children::<i32>() } else { children::<i64>() }
    }
    // Lengths at which narrow counters would overflow.
    P07 p07_huge [8, 8] (c) {
        let k = [LONG[0] + 1, LONG[1] + 1, LONG[2] + 3, LONG[4] + 3][c.case / 2];
        let k = k.max(1026);
        if c.case % 2 == 0 { places::<i32>(k, |x| x as i32) } else { places::<i64>(k, |x| x) }
    }
}
