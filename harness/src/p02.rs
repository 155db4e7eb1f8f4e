//! Bitmap reading.
use crate::sym::*;
use crate::util::*;

harnesses! {
    // Everything symbolic: contents, bit count, offset and index.
    P02 p02_index [5, 9] (c) {
        let n = c.case;
        let data = bytes(n);
        let copy = data.clone();
        let bits: usize = any();
        let off: usize = any();
        let b = match Bitmap::<VecBuffer>::try_from_parts(data, bits, off) { Ok(b) => b, Err(_) => return };
        let i: usize = any();
        match b.view(i) {
            Some(v) => {
                check(i < bits, "element beyond the end is visible");
                let p = off + i;
                check(v == bit(&copy, p), "bit differs");
                check(b.owned(i) == Some(v), "owned differs from view");
                cover("inside");
            }
            None => {
                check(i >= bits, "element inside the range missing");
                check(b.owned(i).is_none(), "owned element beyond the end");
                cover("outside");
            }
        }
    }
    // Iteration, for every shape up to 3 (5) bytes.
    P02 p02_iterate [4, 6] (c) {
        let n = c.case;
        let data = bytes(n);
        let off = upto(8 * n);
        let bits = upto(8 * n - off);
        let (b, m) = bitmap_at(&data, bits, off);
        check(b.len() == bits, "length");
        for (i, x) in m.iter().enumerate() {
            check(b.view(i) == Some(*x), "bit differs");
        }
        agree_beyond(&b, bits);
        agree_iter(&b, &m);
        let mut k = 0;
        for v in &b {
            check(k < bits && v == m[k], "borrowed iteration differs");
            obs(v as u64);
            k += 1;
        }
        check(k == bits, "borrowed iteration count");
        agree_into(b, &m);
    }
    // Wider bitmaps: 64-bit word boundaries, offsets beyond the first byte.
    P02 p02_wide [8, 24] (c) {
        let n = c.pick(19, 40);
        let data = bytes(n);
        let off = c.case + 8 * upto(c.pick(2, 9));
        let bits = if flip() { 8 * n - off } else { upto(8 * n - off) };
        let (b, m) = bitmap_at(&data, bits, off);
        agree_index(&b, &m);
        agree_iter(&b, &m);
        agree_into(b, &m);
    }
    // The other storage backends and collected bitmaps.
    P02 p02_sources [5, 5] (c) {
        fn go<S: Buffer>(buf: S::For<u8>, data: &[u8]) {
            let off = upto(8 * data.len());
            let bits = upto(8 * data.len() - off);
            match Bitmap::<S>::try_from_parts(buf, bits, off) {
                Ok(b) => {
                    let m: Vec<bool> = (0..bits).map(|i| bit(data, off + i)).collect();
                    agree(b, &m)
                }
                Err(_) => check(false, "in-range bitmap refused"),
            }
        }
        let data: [u8; 2] = any();
        match c.case {
            0 => go::<BoxBuffer>(Box::new(data), &data),
            1 => go::<RcBuffer>(Rc::new(data), &data),
            2 => go::<ArcBuffer>(Arc::new(data), &data),
            3 => go::<SliceBuffer>(&data, &data),
            _ => go::<ArrayBuffer<2>>(data, &data),
        }
    }
    P02 p02_collected [1, 1] (c) {
        let n = upto(c.pick(20, 70));
        let m = bools(n);
        let b: Bitmap = m.iter().copied().collect();
        agree(b, &m);
        let b: Bitmap<BoxBuffer> = m.iter().collect();
        agree(b, &m);
    }
    // Bits, bytes and words whose numbers overflow narrow integers.
    P02 p02_huge [10, 10] (c) {
        let n = [32, 256, 8192, 65536, 1 << 17][c.case / 2] + 3;
        let off = [0, 3][c.case % 2];
        let data: Vec<u8> = thin(n, || bytes(n));
        let bits = 8 * n - off - 2;
        let Ok(b) = Bitmap::<VecBuffer>::try_from_parts(data.clone(), bits, off) else { check(false, "in-range bitmap refused"); return };
        // an index next to the last power of two of bits, and of bytes
        let i = range(0, 17);
        let i = [n - 3, 8 * (n - 3)][upto(1)] + i - 9;
        check(b.view(i) == Some(bit(&data, off + i)), "bit differs");
        check(b.owned(i) == Some(bit(&data, off + i)), "bit differs");
        if i % 5 == 0 {
            check(b.iter_views().nth(i) == Some(bit(&data, off + i)), "bit after skipping ahead differs");
        }
        agree_beyond(&b, bits);
        if i == n - 3 {
            check(b.iter_views().count() == bits, "counting differs");
            let m: Vec<bool> = (0..bits).map(|i| bit(&data, off + i)).collect();
            if n < 65536 {
                agree_long(b, &m, n, off == 0);
            } else {
                let mut it = b.iter_views();
                let mut ok = true;
                for x in &m {
                    ok &= it.next() == Some(*x);
                }
                check(ok, "iterated element differs");
                check(it.next().is_none(), "iteration yields too many elements");
            }
        }
    }
}
