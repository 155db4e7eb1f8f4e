//! Nullable collections: pairing and reading.
use crate::sym::*;
use crate::util::*;

/// Pairs `child` (reading as `m`) with an arbitrary bitmap at bit offset `off`
/// and compares with the list of optional values.
fn paired<C: Collection>(child: C, again: C, m: Vec<C::Owned>, maxoff: usize)
where
    C::Owned: Val + Clone,
{
    let n = m.len();
    let off = upto(maxoff);
    let data = bytes((off + n + 7) / 8 + upto(1));
    let (b, bits) = bitmap_at(&data, n, off);
    let want: Vec<Option<C::Owned>> = m.iter().zip(&bits).map(|(x, b)| if *b { Some(x.clone()) } else { None }).collect();
    let v = match Validity::<C, VecBuffer>::try_from_parts(child, b) {
        Ok(v) => v,
        Err(_) => {
            check(false, "equal lengths refused");
            return;
        }
    };
    check(v.bitmap_ref().is_some(), "explicit bitmap lost");
    agree_index(&v, &want);
    agree_beyond(&v, n);
    agree_iter(&v, &want);
    match flip() {
        true => agree_into(v, &want),
        false => {
            let (child, b) = v.into_parts();
            match b {
                Some(b) => {
                    let (buf, nb, no) = b.into_parts();
                    check(nb == n && no == off && buf.same(&data), "bitmap changed");
                }
                None => check(false, "bitmap lost"),
            }
            agree_index(&child, &m);
        }
    }
    // no bitmap: everything present
    let v = Validity::<C, VecBuffer>::from_collection(again);
    check(v.bitmap_ref().is_none(), "bitmap from nothing");
    let want: Vec<Option<C::Owned>> = m.iter().map(|x| Some(x.clone())).collect();
    agree_index(&v, &want);
    agree_beyond(&v, n);
    agree_iter(&v, &want);
    agree_into(v, &want);
}

/// A bitmap child with its own offset.
fn shifted(n: usize) -> (Bitmap, Bitmap, Vec<bool>) {
    let data = bytes(n / 8 + 2);
    let o = [0, 3][upto(1)];
    let (b, m) = bitmap_at(&data, n, o);
    let (b2, _) = bitmap_at(&data, n, o);
    (b, b2, m)
}

harnesses! {
    // Accepted exactly when the lengths match, for any two lengths.
    P05 p05_lengths [1, 1] (c) {
        let n: usize = any();
        assume(n <= isize::MAX as usize);
        let bytes: usize = any();
        let bits: usize = any();
        let off: usize = any();
        assume(bytes <= 1 << 56 && bits <= 8 * bytes && off <= 8 * bytes - bits);
        let p = core::ptr::NonNull::<u8>::dangling().as_ptr();
        let child: &'static [u8] = unsafe { core::slice::from_raw_parts(p, n) };
        let buf: &'static [u8] = unsafe { core::slice::from_raw_parts(p, bytes) };
        let Ok(b) = Bitmap::<SliceBuffer<'static>>::try_from_parts(buf, bits, off) else {
            check(false, "in-range bitmap refused");
            return;
        };
        match Validity::<&[u8], SliceBuffer>::try_from_parts(child, b) {
            Ok(v) => {
                check(n == bits, "different lengths accepted");
                check(v.len() == n, "length differs");
                let (c2, b2) = v.into_parts();
                check(c2.len() == n && c2.as_ptr() == p.cast_const(), "child changed");
                match b2 {
                    Some(b) => {
                        let (x, y, z) = b.into_parts();
                        check(x.len() == bytes && y == bits && z == off, "bitmap changed");
                    }
                    None => check(false, "bitmap lost"),
                }
                cover("accepted");
            }
            Err(ValidityError::LengthMismatch { collection, bitmap }) => {
                check(n != bits, "equal lengths refused");
                check(collection == n && bitmap == bits, "error does not report both lengths");
                cover("refused");
            }
        }
    }
    P05 p05_bytes [1, 1] (c) {
        let m = bytes(upto(c.pick(10, 18)));
        paired(m.clone(), m.clone(), m, c.pick(9, 17));
    }
    P05 p05_words [1, 1] (c) {
        let n = upto(c.pick(5, 10));
        let m: Vec<i64> = (0..n).map(|_| any()).collect();
        paired(m.clone(), m.clone(), m, 7);
    }
    P05 p05_bits [1, 1] (c) {
        let (a, b, m) = shifted(upto(c.pick(9, 17)));
        paired(a, b, m, 7);
    }
    P05 p05_chunks [1, 1] (c) {
        let n = upto(c.pick(4, 8));
        let d = bytes(3 * n);
        let m: Vec<[u8; 3]> = (0..n).map(|i| [d[3 * i], d[3 * i + 1], d[3 * i + 2]]).collect();
        let (Ok(a), Ok(b)) = (Flatten::<_, 3>::try_from_parts(d.clone()), Flatten::<_, 3>::try_from_parts(d)) else {
            check(false, "multiple refused");
            return;
        };
        paired(a, b, m, 7);
    }
    P05 p05_lists [1, 1] (c) {
        let n = upto(c.pick(3, 5));
        let mut o = vec![0i32];
        for i in 0..n {
            o.push(o[i] + upto(2) as i32);
        }
        let d = bytes(o[n] as usize + 1);
        let m: Vec<Vec<u8>> = (0..n).map(|i| d[o[i] as usize..o[i + 1] as usize].to_vec()).collect();
        let mk = || Offsets::<Vec<u8>, i32>::try_from_parts(d.clone(), o.clone());
        let (Ok(a), Ok(b)) = (mk(), mk()) else {
            check(false, "valid offsets refused");
            return;
        };
        paired(a, b, m, c.pick(2, 7));
    }
    // Nullable nullable values: the two bitmaps stay apart.
    P05 p05_twice [1, 1] (c) {
        let n = upto(c.pick(6, 9));
        let d = bytes(n);
        let o = [0, 5][upto(1)];
        let (b, m) = bitmap_at(&bytes(2), n, o);
        let Ok(a) = Validity::<Vec<u8>>::try_from_parts(d.clone(), b) else {
            check(false, "equal lengths refused");
            return;
        };
        let m: Vec<Option<u8>> = d.iter().zip(&m).map(|(x, b)| if *b { Some(*x) } else { None }).collect();
        let again = Validity::<Vec<u8>>::from_collection(d.clone());
        let all: Vec<Option<Option<u8>>> = d.iter().map(|x| Some(Some(*x))).collect();
        let off = upto(7);
        let (b, bits) = bitmap_at(&bytes(2), n, off);
        let Ok(v) = Validity::<_, VecBuffer>::try_from_parts(a, b) else {
            check(false, "equal lengths refused");
            return;
        };
        let want: Vec<Option<Option<u8>>> = m.iter().zip(&bits).map(|(x, b)| if *b { Some(*x) } else { None }).collect();
        agree(v, &want);
        agree(Validity::<_, VecBuffer>::from_collection(again), &all);
    }
    // Other backends for values and bits.
    P05 p05_backends [4, 4] (c) {
        let d: [u8; 5] = any();
        let bb: [u8; 2] = any();
        let off = upto(7);
        let n = 5;
        let want: Vec<Option<u8>> = (0..n).map(|i| if bit(&bb, off + i) { Some(d[i]) } else { None }).collect();
        macro_rules! go {
            ($s:ty, $c:expr, $b:expr) => {{
                let Ok(b) = Bitmap::<$s>::try_from_parts($b, n, off) else { check(false, "in-range bitmap refused"); return };
                match Validity::<_, $s>::try_from_parts($c, b) {
                    Ok(v) => agree(v, &want),
                    Err(_) => check(false, "equal lengths refused"),
                }
            }};
        }
        match c.case {
            0 => go!(SliceBuffer, &d[..], &bb[..]),
            1 => go!(BoxBuffer, Box::<[u8]>::from(d), Box::<[u8]>::from(bb)),
            2 => go!(RcBuffer, Rc::<[u8]>::from(d), Rc::<[u8]>::from(bb)),
            _ => go!(ArcBuffer, Arc::<[u8]>::from(d), Arc::<[u8]>::from(bb)),
        }
    }
    // Lengths at which narrow counters would overflow.
    P05 p05_huge [10, 10] (c) {
        let n = LONG[c.case / 2] + 5;
        let off = [0, 3][c.case % 2];
        let v: Vec<u8> = many(n);
        let data: Vec<u8> = thin(n + 1, || bytes((n + off + 7) / 8));
        let m: Vec<Option<u8>> = (0..n).map(|i| if bit(&data, off + i) { Some(v[i]) } else { None }).collect();
        let Ok(b) = Bitmap::<VecBuffer>::try_from_parts(data, n, off) else { check(false, "in-range bitmap refused"); return };
        let x = if c.case % 2 == 0 {
            Validity::<Vec<u8>>::try_from_parts(v, b).ok().map(|x| agree_long(x, &m, n - 7, true))
        } else {
            Validity::<Vec<u8>>::try_from_parts(v, b).ok().map(|x| agree_long(x, &m, n - 5, false))
        };
        check(x.is_some(), "equal lengths refused");
    }
}
