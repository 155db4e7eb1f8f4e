//! Bit offsets are refused on export.
use crate::ffi::*;
use crate::store::*;
use crate::sym::*;
use crate::util::*;

fn judge<S: Store, T: Parts>(n: usize, row: usize)
where
    Array<T, S::B>: Export,
{
    let before = heap_live();
    {
        let mut p = Make::new(row, true);
        let (m, items) = T::parts::<S>(n, &mut p);
        let shifted = p.offsets.iter().any(|o| *o != 0);
        match Array::<T, S::B>::from_buffer(m).export() {
            Ok((a, s)) => {
                check(!shifted, "an array with a bit offset was exported");
                let (ra, rs) = raw(&a, &s);
                check(ra.length == items.len() as i64, "exported length differs");
                check(ra.offset == 0, "exported offset is not zero");
                check(ra.release.is_some() && rs.release.is_some(), "an export is released");
                cover("exported");
            }
            Err(ExportError::NonZeroOffset { offset }) => {
                check(shifted, "an array without bit offsets was refused");
                check(p.offsets.iter().any(|o| *o == offset) && offset != 0, "the error names another offset");
                cover("refused");
            }
            Err(_) => check(false, "another error"),
        }
    }
    check(heap_live() == before, "memory is leaked");
}

harnesses! {
    P22 p22_flat [8, 8] (c) {
        let n = upto(c.pick(3, 9));
        match c.case {
            0 => judge::<VecBuffer, bool>(upto(c.pick(9, 17)), 0),
            1 => judge::<VecBuffer, Option<bool>>(n, 0),
            2 => judge::<VecBuffer, Option<u8>>(n, 0),
            3 => judge::<VecBuffer, Option<i16>>(n, 0),
            4 => judge::<VecBuffer, Option<u32>>(n, 0),
            5 => judge::<BoxBuffer, Option<f64>>(n, 0),
            6 => judge::<ArcBuffer, Option<bool>>(n, 0),
            _ => judge::<RcBuffer, bool>(upto(c.pick(9, 17)), 0),
        }
    }
    P22 p22_fixed [9, 9] (c) {
        let n = upto(c.pick(2, 3));
        match c.case {
            0 => judge::<VecBuffer, [bool; 2]>(n, 0),
            1 => judge::<VecBuffer, Option<[u16; 2]>>(n, 0),
            2 => judge::<VecBuffer, [Option<bool>; 3]>(n, 0),
            3 => judge::<VecBuffer, Option<[Option<bool>; 2]>>(n, 0),
            4 => judge::<VecBuffer, Option<[[Option<u8>; 2]; 1]>>(n, 0),
            5 => judge::<ArcBuffer, [Option<[bool; 2]>; 1]>(n, 0),
            6 => judge::<BoxBuffer, [Option<u8>; 2]>(n, 0),
            7 => judge::<VecBuffer, [Option<Vec<u8>>; 1]>(n, 1),
            _ => judge::<VecBuffer, [[[bool; 2]; 1]; 2]>(n, 0),
        }
    }
    P22 p22_lists [9, 9] (c) {
        let (n, r) = (upto(c.pick(2, 3)), c.pick(1, 2));
        match c.case {
            0 => judge::<VecBuffer, Vec<bool>>(n, r),
            1 => judge::<VecBuffer, Option<Vec<u8>>>(n, r),
            2 => judge::<VecBuffer, Vec<Option<u16>>>(n, r),
            3 => judge::<VecBuffer, Option<Vec<Option<bool>>>>(n, r),
            4 => judge::<VecBuffer, Vec<Vec<bool>>>(n.min(1), r),
            5 => judge::<VecBuffer, Option<Vec<Option<Vec<Option<u8>>>>>>(n.min(1), r),
            6 => judge::<ArcBuffer, Vec<Option<[bool; 2]>>>(n, r),
            7 => judge::<BoxBuffer, Option<Vec<i64>>>(n, r),
            _ => judge::<VecBuffer, Vec<[[Option<u8>; 1]; 1]>>(n, r),
        }
    }
    // Every bit offset up to a few bytes.
    P22 p22_offsets [3, 3] (c) {
        let (n, off) = (upto(2), upto(c.pick(17, 70)));
        let b = || bitmap_of::<VecBuffer>(&bytes((off + n + 7) / 8), n, off).0;
        let d = vec![0u16; n];
        use narrow::layout::boolean::Boolean;
        use narrow::layout::fixed_size_list::FixedSizeList;
        use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
        let r = match c.case {
            0 => Array::<bool>::from_buffer(Boolean::from_buffer(b())).export(),
            1 => match Validity::try_from_parts(d, b()) {
                Ok(v) => Array::<Option<u16>>::from_buffer(FixedSizePrimitive::from_buffer(v)).export(),
                Err(_) => return check(false, "values and bits of the same length refused"),
            },
            _ => match Flatten::try_from_parts(Boolean::from_buffer(b())) {
                Ok(f) => Array::<[bool; 1]>::from_buffer(FixedSizeList::from_buffer(f)).export(),
                Err(_) => return check(false, "whole rows refused"),
            },
        };
        match r {
            Ok(_) => check(off == 0, "an array with a bit offset was exported"),
            Err(ExportError::NonZeroOffset { offset }) => check(off != 0 && offset == off, "the error names another offset"),
            Err(_) => check(false, "another error"),
        }
    }
    // Bit offsets that narrower integers would truncate to zero.
    P22 p22_huge [4, 4] (c) {
        use narrow::layout::boolean::Boolean;
        use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
        let off = if flip() { 1 << (3 + upto(13)) } else { [0, 24, 40, 100, 1 << 17, (1 << 16) + 8][upto(5)] };
        let n = [1, 300][upto(1)];
        let b = || bitmap_of::<VecBuffer>(&vec![0x5a; (off + n + 7) / 8], n, off).0;
        let r = match c.case {
            0 => Array::<bool>::from_buffer(Boolean::from_buffer(b())).export(),
            1 => match Validity::try_from_parts(vec![0u16; n], b()) {
                Ok(v) => Array::<Option<u16>>::from_buffer(FixedSizePrimitive::from_buffer(v)).export(),
                Err(_) => return check(false, "values and bits of the same length refused"),
            },
            2 => match Validity::try_from_parts(bitmap_of::<VecBuffer>(&vec![1; n], n, 0).0, b()) {
                Ok(v) => Array::<Option<bool>>::from_buffer(Boolean::from_buffer(v)).export(),
                Err(_) => return check(false, "values and bits of the same length refused"),
            },
            _ => match Validity::try_from_parts(b(), bitmap_of::<VecBuffer>(&vec![1; n], n, 0).0) {
                Ok(v) => Array::<Option<bool>>::from_buffer(Boolean::from_buffer(v)).export(),
                Err(_) => return check(false, "values and bits of the same length refused"),
            },
        };
        match r {
            Ok(_) => check(off == 0, "an array with a bit offset was exported"),
            Err(ExportError::NonZeroOffset { offset }) => check(off != 0 && offset == off, "the error names another offset"),
            Err(_) => check(false, "another error"),
        }
    }
}
