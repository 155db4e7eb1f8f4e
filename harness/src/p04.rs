//! Null counts and validity queries.
use crate::sym::*;
use crate::util::*;

/// Every query of `v` against the model (`true`: valid).
fn queries<T: Collection, S: Buffer>(v: &Validity<T, S>, m: &[bool]) {
    let n = m.len();
    check(v.len() == n, "length differs");
    let mut nulls = 0usize;
    for b in m {
        nulls += !*b as usize;
    }
    let valids = n - nulls;
    obs(v.null_count() as u64);
    check(v.null_count() == nulls, "null count is not the number of null elements");
    check(v.valid_count() == valids, "valid count is not the number of valid elements");
    for i in 0..n {
        check(v.is_null(i) == Some(!m[i]), "is_null differs from the element");
        check(v.is_valid(i) == Some(m[i]), "is_valid differs from the element");
        match v.view(i) {
            Some(x) => check(x.is_some() == m[i], "element's nullness differs from its validity bit"),
            None => check(false, "element missing"),
        }
    }
    let j: usize = any();
    assume(j >= n);
    check(v.is_null(j).is_none() && v.is_valid(j).is_none(), "answer for an index outside the length");
    check(v.any_null() == (nulls > 0), "any_null");
    check(v.all_null() == (nulls == n), "all_null");
    check(v.any_valid() == (valids > 0), "any_valid");
    check(v.all_valid() == (valids == n), "all_valid");
}

fn over<S: Buffer>(buf: S::For<u8>, data: &[u8]) {
    let n = data.len();
    let off = upto(8 * n);
    let bits = upto(8 * n - off);
    let Ok(b) = Bitmap::<S>::try_from_parts(buf, bits, off) else {
        check(false, "in-range bitmap refused");
        return;
    };
    let m: Vec<bool> = (0..bits).map(|i| bit(data, off + i)).collect();
    match Validity::<Vec<u8>, S>::try_from_parts(vec![7; bits], b) {
        Ok(v) => queries(&v, &m),
        Err(_) => check(false, "equal lengths refused"),
    }
}

harnesses! {
    // Every shape over a few bytes.
    P04 p04_shapes [1, 1] (c) {
        let data = bytes(upto(c.pick(3, 5)));
        over::<VecBuffer>(data.clone(), &data);
    }
    // The other storage backends.
    P04 p04_backends [5, 5] (c) {
        let data: [u8; 2] = any();
        match c.case {
            0 => over::<SliceBuffer>(&data, &data),
            1 => over::<BoxBuffer>(Box::from(data), &data),
            2 => over::<RcBuffer>(Rc::from(data), &data),
            3 => over::<ArcBuffer>(Arc::from(data), &data),
            _ => over::<ArrayBuffer<2>>(data, &data),
        }
    }
    // Many bytes: every first and last partial byte around long middles.
    P04 p04_wide [8, 8] (c) {
        let n = c.pick(10, 18) + c.case / 4 * 7;
        let data = bytes(n);
        let off = upto(if c.thorough { 17 } else { 9 });
        let cut = upto(if c.thorough { 17 } else { 9 });
        if (off + cut) % 4 != c.case % 4 {
            return;
        }
        let bits = 8 * n - off - cut;
        let (b, m) = bitmap_at(&data, bits, off);
        match Validity::<Vec<u8>>::try_from_parts(vec![7; bits], b) {
            Ok(v) => {
                let mut nulls = 0usize;
                for b in &m {
                    nulls += !*b as usize;
                }
                check(v.null_count() == nulls, "null count is not the number of null elements");
                check(v.valid_count() == bits - nulls, "valid count is not the number of valid elements");
                check(v.all_null() == (nulls == bits), "all_null");
                check(v.all_valid() == (nulls == 0), "all_valid");
                check(v.any_valid() == (nulls != bits), "any_valid");
                check(v.any_null() == (nulls != 0), "any_null");
            }
            Err(_) => check(false, "equal lengths refused"),
        }
    }
    // No bitmap: no nulls, for any length.
    P04 p04_none [1, 1] (c) {
        let n: usize = any();
        assume(n <= isize::MAX as usize);
        let s: &'static [u8] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::<u8>::dangling().as_ptr(), n) };
        let v = Validity::<&[u8], VecBuffer>::from_collection(s);
        check(v.bitmap_ref().is_none(), "bitmap without being given one");
        check(v.null_count() == 0 && v.valid_count() == n, "null count without a bitmap");
        check(!v.any_null() && v.all_valid(), "nulls without a bitmap");
        check(v.all_null() == (n == 0) && v.any_valid() == (n > 0), "all_null or any_valid without a bitmap");
        let j: usize = any();
        let want = if j < n { Some(true) } else { None };
        check(v.is_valid(j) == want, "is_valid without a bitmap");
        check(v.is_null(j) == want.map(|x| !x), "is_null without a bitmap");
        cover("no bitmap");
    }
    // Collected, extended and truncated: stale bits after the last element.
    P04 p04_history [2, 2] (c) {
        let k = upto(c.pick(13, 25));
        let items: Vec<Option<u8>> = bools(k).into_iter().map(|b| if b { Some(9) } else { None }).collect();
        let mut m: Vec<bool> = items.iter().map(|x| x.is_some()).collect();
        let mut v: Validity<Vec<u8>> = if c.case == 0 {
            items.into_iter().collect()
        } else {
            m = vec![true; k];
            Validity::from_collection(vec![1; k])
        };
        let t = upto(k);
        v.truncate(t);
        m.truncate(t);
        let e = bools(upto(3));
        v.extend(e.iter().map(|b| if *b { Some(3) } else { None }));
        m.extend(e);
        let t = upto(m.len());
        v.truncate(t);
        m.truncate(t);
        queries(&v, &m);
    }
    // Counts that overflow narrow integers.
    P04 p04_huge [15, 15] (c) {
        let n = [40, 300, 8200, 16400, 66000][c.case / 3];
        let data: Vec<u8> = match c.case % 3 {
            0 => vec![0; n],
            1 => vec![255; n],
            _ => thin(n, || bytes(n)),
        };
        let off = [0, 5][upto(1)];
        let bits = 8 * n - off - 3;
        let Ok(b) = Bitmap::<VecBuffer>::try_from_parts(data.clone(), bits, off) else { check(false, "in-range bitmap refused"); return };
        let (mut nulls, mut i) = (0usize, off);
        while i < off + bits {
            if i % 8 == 0 && i + 8 <= off + bits {
                nulls += data[i / 8].count_zeros() as usize;
                i += 8;
            } else {
                nulls += !bit(&data, i) as usize;
                i += 1;
            }
        }
        let s: &[u8] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), bits) };
        let Ok(v) = Validity::<&[u8]>::try_from_parts(s, b) else { check(false, "equal lengths refused"); return };
        check(v.null_count() == nulls, "null count is not the number of null elements");
        check(v.valid_count() == bits - nulls, "valid count is not the number of valid elements");
        check(v.any_null() == (nulls > 0), "any_null");
        check(v.all_null() == (nulls == bits), "all_null");
        check(v.any_valid() == (nulls < bits), "any_valid");
        check(v.all_valid() == (nulls == 0), "all_valid");
        for i in [0, 255, 256, 8 * n - 260, bits - 1] {
            check(v.is_null(i) == Some(!bit(&data, off + i)), "is_null differs from the element");
            check(v.is_valid(i) == Some(bit(&data, off + i)), "is_valid differs from the element");
        }
    }
    // One null (or one valid element) among many.
    P04 p04_huge_single [6, 6] (c) {
        let n = [40, 300, 8200][c.case / 2];
        let all = c.case % 2 == 0;
        let off = upto(9);
        let bits = 8 * n - off - upto(7);
        let at = [0, 1, 7, 8, 63, 64, 65, 127, 128, 255, 256, bits / 2, bits - 65, bits - 64, bits - 9, bits - 8, bits - 2, bits - 1][upto(17)];
        let mut data = vec![if all { 255u8 } else { 0 }; n];
        // (arbitrary bits around the bitmap)
        data[0] ^= any::<u8>() & ((1u16 << off.min(8)) - 1) as u8;
        data[(off + at) / 8] ^= 1 << ((off + at) % 8);
        let Ok(b) = Bitmap::<VecBuffer>::try_from_parts(data, bits, off) else { check(false, "in-range bitmap refused"); return };
        let s: &[u8] = unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), bits) };
        let Ok(v) = Validity::<&[u8]>::try_from_parts(s, b) else { check(false, "equal lengths refused"); return };
        let nulls = if all { 1 } else { bits - 1 };
        check(v.null_count() == nulls, "null count is not the number of null elements");
        check(v.any_null() & v.any_valid(), "any_null or any_valid");
        check(!v.all_null() & !v.all_valid(), "all_null or all_valid");
        check(v.is_null(at) == Some(all), "is_null differs from the element");
    }
}
