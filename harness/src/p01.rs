//! Bitmap raw parts.
use crate::sym::*;
use crate::util::*;

fn accept(len: usize, bits: usize, off: usize) -> bool {
    match off.checked_add(bits) {
        Some(e) => (e as u128) <= 8 * len as u128,
        None => false,
    }
}

fn verdict<S: Buffer>(buf: S::For<u8>, len: usize) {
    let bits: usize = any();
    let off: usize = any();
    let ok = accept(len, bits, off);
    match Bitmap::<S>::try_from_parts(buf, bits, off) {
        Ok(b) => {
            check(ok, "out-of-range bitmap accepted");
            check(b.len() == bits, "length is not the bit count given");
            check(b.is_empty() == (bits == 0), "is_empty");
            check(b.bit_offset() == off, "bit offset is not the one given");
            check(core::borrow::Borrow::<[u8]>::borrow(b.buffer_ref()).len() == len, "buffer length changed");
            let (buf, nb, no) = b.into_parts();
            check(nb == bits && no == off, "parts differ from the ones given");
            check(core::borrow::Borrow::<[u8]>::borrow(&buf).len() == len, "buffer changed");
            cover("accepted");
        }
        Err(e) => {
            check(!ok, "in-range bitmap refused");
            let BitmapError::OutOfBounds { offset, bits: eb, bytes } = e;
            check(offset == off && eb == bits && bytes == len, "error does not report the given values");
            cover("refused");
        }
    }
}

harnesses! {
    // Any buffer length up to 2^56 (the bytes themselves are never read).
    P01 p01_any_length [1, 1] (c) {
        let len: usize = any();
        assume(len <= 1 << 56);
        let base = core::ptr::NonNull::<u8>::dangling().as_ptr();
        let s: &'static [u8] = unsafe { core::slice::from_raw_parts(base, len) };
        verdict::<SliceBuffer<'static>>(s, len);
    }
    // Real buffers of each backend; contents preserved.
    P01 p01_backends [1, 1] (c) {
        let n = upto(c.pick(4, 9));
        let data = bytes(n);
        match upto(4) {
            0 => verdict::<VecBuffer>(data, n),
            1 => verdict::<BoxBuffer>(data.into_boxed_slice(), n),
            2 => verdict::<RcBuffer>(Rc::from(data), n),
            3 => verdict::<ArcBuffer>(Arc::from(data), n),
            _ => verdict::<ArrayBuffer<3>>(any(), 3),
        }
    }
    // Buffer contents survive construction and taking apart.
    P01 p01_contents [1, 1] (c) {
        let n = upto(c.pick(5, 12));
        let data = bytes(n);
        let copy = data.clone();
        let bits: usize = any();
        let off: usize = any();
        assume(accept(n, bits, off));
        match Bitmap::<VecBuffer>::try_from_parts(data, bits, off) {
            Ok(b) => {
                check(b.buffer_ref().same(&copy), "buffer contents changed");
                let c2 = b.clone();
                check(c2.len() == bits && c2.bit_offset() == off, "clone differs");
                let (buf, x, y) = b.into_parts();
                check(buf.same(&copy), "buffer contents changed by taking apart");
                // the parts are accepted again, unchanged
                match Bitmap::<VecBuffer>::try_from_parts(buf, x, y) {
                    Ok(b) => {
                        let (buf, x, y) = b.into_parts();
                        check(x == bits && y == off && buf.same(&copy), "second round trip differs");
                        buf.rec();
                        obs(x as u64);
                        cover("round trip");
                    }
                    Err(_) => check(false, "own parts refused"),
                }
            }
            Err(_) => check(false, "in-range bitmap refused"),
        }
    }
}
