//! Formats are parsed exactly.
use crate::ffi::*;
use crate::sym::*;
use crate::util::*;
use narrow::layout::ArrayItem;

/// A format of a concrete beginning and up to `n` arbitrary bytes.
fn format(start: &[u8], n: usize) -> Vec<u8> {
    let mut f = start.to_vec();
    f.extend((0..n).map(|_| any::<u8>()));
    f.push(0);
    f
}
/// The bytes before the terminator are those of `want`.
fn is(f: &[u8], want: &[u8]) -> bool {
    if f.len() <= want.len() {
        return false;
    }
    let mut r = f[want.len()] == 0;
    for i in 0..want.len() {
        r &= f[i] == want[i];
    }
    r
}
/// The bytes before the terminator are `+w:`, any number of zeros and the
/// decimal digits `dec`.
fn is_width(f: &[u8], dec: &[u8]) -> bool {
    let mut r = false;
    let mut zeros = true;
    if f.len() < 3 {
        return false;
    }
    for i in 3..f.len() {
        r |= zeros & is(&f[i..], dec);
        zeros &= f[i] == b'0';
    }
    r & (f[0] == b'+') & (f[1] == b'w') & (f[2] == b':')
}
fn judge<T: Foreign + ArrayItem>(k: &mut Node, f: &[u8], ok: bool)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    k.schema.format = f.as_ptr();
    match k.import::<T>() {
        Ok(a) => {
            check(ok, "another format was accepted");
            check(a.len() == k.n, "imported length differs");
            cover("accepted");
        }
        Err(e) => {
            check(!ok, "the format of the type was refused");
            check(matches!(e, ImportError::UnexpectedFormat), "a wrong format was not reported as such");
            cover("refused");
        }
    }
}
/// Fixed-size lists of any element type: what is read of the format does not
/// depend on it.
fn width<T: Foreign + ArrayItem>(n: usize, dec: &[u8], start: &[u8], len: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let (mut k, _) = T::foreign(&mut Plan { left: 0, wild: true, row: 0, free: false }, n);
    let f = format(start, len);
    judge::<T>(&mut k, &f, is_width(&f, dec));
}
/// A concrete number with `w` neighbouring arbitrary bytes anywhere.
fn window<T: Foreign + ArrayItem>(n: usize, dec: &[u8], digits: &[u8], w: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let (mut k, _) = T::foreign(&mut Plan { left: 0, wild: true, row: 0, free: false }, n);
    let mut f = format(b"+w:", 0);
    f.pop();
    f.extend_from_slice(digits);
    f.push(0);
    let at = upto(digits.len() - w);
    for i in 0..w {
        f[3 + at + i] = any();
    }
    judge::<T>(&mut k, &f, is_width(&f, dec));
}
fn simple<T: Foreign + ArrayItem>(want: &[u8], len: usize)
where
    for<'a> Array<T, SliceBuffer<'a>>: Import<'a>,
{
    let (mut k, _) = T::foreign(&mut Plan { left: 0, wild: true, row: 0, free: false }, 1);
    let f = format(b"", len);
    judge::<T>(&mut k, &f, is(&f, want));
}

harnesses! {
    // Any bytes.
    P23 p23_width [9, 9] (c) {
        let n = range(0, c.pick(7, 9));
        match c.case {
            0 => width::<[u8; 1]>(1, b"1", b"", n),
            1 => width::<[u8; 2]>(1, b"2", b"", n),
            2 => width::<Option<[u8; 7]>>(1, b"7", b"", n),
            3 => width::<[u8; 10]>(1, b"10", b"", n),
            4 => width::<[bool; 12]>(1, b"12", b"", n),
            5 => width::<[u8; 100]>(0, b"100", b"", n),
            6 => width::<[u32; 128]>(0, b"128", b"", n),
            7 => width::<[[u8; 2]; 99]>(0, b"99", b"", n),
            _ => width::<[u8; 1024]>(0, b"1024", b"", n),
        }
    }
    // Any bytes after the prefix.
    P23 p23_digits [6, 6] (c) {
        let n = range(0, c.pick(4, 6));
        match c.case {
            0 => width::<[u8; 3]>(1, b"3", b"+w:", n),
            1 => width::<[u8; 16]>(1, b"16", b"+w:", n),
            2 => width::<Option<[i16; 255]>>(0, b"255", b"+w:", n),
            3 => width::<[Option<bool>; 1000]>(0, b"1000", b"+w:", n),
            4 => width::<[u8; 301]>(0, b"301", b"+w:", n),
            _ => width::<[u8; 1]>(1, b"1", b"+w:", n + 1),
        }
    }
    // Numbers around and beyond the machine word.
    P23 p23_large [8, 8] (c) {
        let n = range(0, 3);
        match c.case {
            0 => width::<[u8; 2]>(1, b"2", b"+w:18446744073709551", n + 2),
            1 => width::<[u8; 16]>(1, b"16", b"+w:18446744073709551", n + 2),
            2 => width::<[u8; 4]>(1, b"4", b"+w:1844674407370955162", n),
            3 => width::<[u8; 1]>(1, b"1", b"+w:184467440737095516", n + 1),
            4 => width::<[u8; 8]>(1, b"8", b"+w:368934881474191032", n + 1),
            5 => width::<[u8; 5]>(1, b"5", b"+w:000000000000000000000000", n),
            6 => width::<[u8; 1]>(1, b"1", b"+w:340282366920938463463374607431768211", n),
            _ => width::<[u8; 10]>(1, b"10", b"+w:4294967", n + 1),
        }
    }
    // Long numbers with a few arbitrary bytes anywhere in them.
    P23 p23_window [8, 8] (c) {
        let w = c.pick(2, 3);
        match c.case {
            0 => window::<[u8; 2]>(1, b"2", b"18446744073709551618", w),
            1 => window::<[u8; 10]>(1, b"10", b"18446744073709551626", w),
            2 => window::<[u8; 1]>(1, b"1", b"00000000000000000000000000000001", w),
            3 => window::<[u8; 300]>(0, b"300", b"000000000000000000000300", w),
            4 => window::<[u8; 1]>(1, b"1", b"340282366920938463463374607431768211457", w),
            5 => window::<[u8; 7]>(1, b"7", b"18446744073709551615", w),
            6 => window::<[u8; 4]>(1, b"4", b"184467440737095516164", w),
            _ => window::<[u8; 5]>(1, b"5", b"4294967301", w),
        }
    }
    P23 p23_simple [14, 14] (c) {
        let n = range(0, c.pick(5, 8));
        match c.case {
            0 => simple::<bool>(b"b", n),
            1 => simple::<i8>(b"c", n),
            2 => simple::<u8>(b"C", n),
            3 => simple::<i16>(b"s", n),
            4 => simple::<u16>(b"S", n),
            5 => simple::<i32>(b"i", n),
            6 => simple::<u32>(b"I", n),
            7 => simple::<i64>(b"l", n),
            8 => simple::<u64>(b"L", n),
            9 => simple::<f32>(b"f", n),
            10 => simple::<f64>(b"g", n),
            11 => simple::<Vec<u8>>(b"+l", n),
            12 => simple::<Option<Vec<Option<bool>>>>(b"+l", n),
            _ => simple::<Option<u16>>(b"S", n),
        }
    }
    // The same below the top.
    P23 p23_child [4, 4] (c) {
        let n = range(0, c.pick(5, 8));
        let plan = &mut Plan { left: 0, wild: true, row: 0, free: false };
        macro_rules! child {
            ($t:ty, $n:expr, $f:ident => $ok:expr) => {{
                let (mut k, _) = <$t>::foreign(plan, $n);
                let $f = format(if c.case < 2 { b"+w:" } else { b"" }, n);
                let ok = $ok;
                k.kid_schema().format = $f.as_ptr();
                let top = unsafe { core::ffi::CStr::from_ptr(k.schema.format.cast()) }.to_bytes_with_nul();
                judge::<$t>(&mut k, top, ok);
            }};
        }
        match c.case {
            0 => child!([[u8; 4]; 2], 1, f => is_width(&f, b"4")),
            1 => child!(Vec<Option<[u16; 12]>>, 0, f => is_width(&f, b"12")),
            2 => child!([Vec<u8>; 3], 1, f => is(&f, b"+l")),
            _ => child!(Vec<Option<u32>>, 1, f => is(&f, b"I")),
        }
    }
    // Sizes of more digits, and such that narrower numbers would not hold.
    P23 p23_sizes [6, 6] (c) {
        let n = range(0, 3);
        match c.case {
            0 => width::<[u8; 9999]>(0, b"9999", b"+w:", n + 2),
            1 => width::<[u8; 65536]>(0, b"65536", b"+w:6", n + 2),
            2 => width::<[bool; 65538]>(0, b"65538", b"+w:65", n + 1),
            3 => width::<[u8; 2]>(1, b"2", b"+w:6553", n),
            4 => width::<[u8; 1]>(1, b"1", b"+w:25", n),
            _ => width::<[u8; 11]>(1, b"11", b"+w:", n + 1),
        }
    }
}
