//! Offsets never wrap.
use crate::sym::*;
use crate::util::*;
use crate::ghost::*;
use core::borrow::Borrow;
use narrow::offset::Offset;

trait Off: Offset + Any {
    const MAX: usize;
    fn wide(self) -> i128;
}
impl Off for i32 {
    const MAX: usize = i32::MAX as usize;
    fn wide(self) -> i128 {
        self as i128
    }
}
impl Off for i64 {
    const MAX: usize = i64::MAX as usize;
    fn wide(self) -> i128 {
        self as i128
    }
}

/// Row ends so far.
fn ends<O: Off, U>(v: &Offsets<Count, O, VecBuffer, U>) -> Vec<i128> {
    let b: &[O] = v.buffer_ref().borrow();
    b.iter().map(|x| x.wide()).collect()
}
fn intact(now: &[i128], want: &[i128]) {
    check(now.len() == want.len(), "number of rows differs");
    if now.len() == want.len() {
        for i in 0..want.len() {
            check(now[i] == want[i], "an offset is not the row's end position");
        }
    }
}

/// Appends rows of the given lengths to a list whose child ends at an
/// arbitrary position.
fn append<O: Off, U: CollectionAlloc<Owned = usize> + 'static>(rows: &[usize], make: impl Fn(usize) -> U, fallible: bool, spare: bool) {
    let e: O = any();
    assume(e.wide() >= 0);
    let extra: usize = if spare { any() } else { 0 };
    assume(extra <= isize::MAX as usize && e.as_usize() <= isize::MAX as usize);
    let Ok(mut v) = Offsets::<Count, O, VecBuffer, U>::try_from_parts(Count(e.as_usize() + extra), vec![O::default(), e]) else {
        check(false, "valid offsets refused");
        return;
    };
    let before = vec![0, e.wide()];
    let mut want = before.clone();
    let mut fits = true;
    for r in rows {
        let end = want[want.len() - 1] + *r as i128;
        fits = fits && end <= O::MAX as i128;
        if fits {
            want.push(end);
        }
    }
    let items: Vec<U> = rows.iter().map(|r| make(*r)).collect();
    if fallible {
        let r = v.try_extend(items);
        if fits {
            check(r.is_ok(), "a row that fits was refused");
            intact(&ends(&v), &want);
            check(v.child_ref().len() as i128 == want[want.len() - 1], "child length differs");
            cover("fits");
        } else {
            check(r.is_err(), "a row that does not fit was accepted");
            intact(&ends(&v), &before);
            check(v.child_ref().len() as i128 >= e.wide(), "elements of existing rows lost");
            cover("refused");
        }
    } else {
        let panicked = catch(|| v.extend(items));
        check(panicked == !fits, "panics exactly when a row does not fit");
        if !fits {
            cover("panicked");
        }
        // rows before the one that does not fit may be visible
        let now = ends(&v);
        check(now.len() <= want.len() && now.len() >= 2, "a row that does not fit is visible");
        let n = now.len().min(want.len());
        intact(&now, &want[..n]);
        check(v.child_ref().len() as i128 >= now[now.len() - 1], "offsets end beyond the child");
        if fits {
            check(now.len() == want.len(), "rows missing");
            cover("fits");
        } else {
            // appending goes on behind the visible rows
            let room = now[now.len() - 1] < O::MAX as i128;
            assume(room);
            v.extend([make(1)]);
            let after = ends(&v);
            let mut more = now.clone();
            more.push(now[now.len() - 1] + 1);
            intact(&after, &more);
            check(v.child_ref().len() as i128 == more[more.len() - 1], "child length differs");
        }
    }
}

fn anylen() -> usize {
    let n: usize = any();
    n
}

harnesses! {
    // One row of any length after any end position.
    P10 p10_row32 [2, 2] (c) { append::<i32, Row>(&[anylen()], Row, c.case == 1, false) }
    P10 p10_row64 [2, 2] (c) {
        let n = anylen();
        assume(n <= isize::MAX as usize);
        append::<i64, Row>(&[n], Row, c.case == 1, false)
    }
    // Rows of any length behind unreferenced child elements.
    P10 p10_spare32 [2, 2] (c) { append::<i32, Row>(&[anylen()], Row, c.case == 1, true) }
    // Several rows: the one that does not fit may come later.
    P10 p10_rows32 [2, 4] (c) {
        if c.case < 2 {
            append::<i32, Row>(&[anylen(), anylen()], Row, c.case == 1, false)
        } else {
            append::<i32, Row>(&[anylen(), anylen(), anylen()], Row, c.case == 3, false)
        }
    }
    P10 p10_rows64 [2, 2] (c) {
        let (a, b) = (anylen(), anylen());
        assume(a <= isize::MAX as usize && b <= isize::MAX as usize);
        append::<i64, Row>(&[a, b], Row, c.case == 1, false)
    }
    // Real rows next to the limit.
    P10 p10_real32 [2, 2] (c) { append::<i32, Vec<usize>>(&[upto(c.pick(3, 6)), upto(2)], |n| vec![0; n], c.case == 1, false) }
    P10 p10_real64 [2, 2] (c) { append::<i64, Vec<usize>>(&[upto(c.pick(3, 6)), upto(2)], |n| vec![0; n], c.case == 1, false) }
    // Collecting.
    P10 p10_collect [2, 2] (c) {
        let rows = [anylen(), anylen()];
        let total = rows[0] as u128 + rows[1] as u128;
        let fits = total <= i32::MAX as u128;
        let items = [Row(rows[0]), Row(rows[1])];
        let want = [0, rows[0] as i128, total as i128];
        if c.case == 0 {
            let mut v: Option<Offsets<Count, i32, VecBuffer, Row>> = None;
            let fallback = flip();
            let p = catch(|| v = Some(if fallback { Offsets::from_iter_in(items, ()) } else { items.into_iter().collect() }));
            check(p == !fits, "collecting panics exactly when a row does not fit");
            if let Some(v) = v {
                intact(&ends(&v), &want);
                cover("collected");
            }
        } else {
            match Offsets::<Count, i32, VecBuffer, Row>::try_from_iter_in(items, ()) {
                Ok(v) => {
                    check(fits, "rows that do not fit were accepted");
                    intact(&ends(&v), &want);
                    cover("collected");
                }
                Err(_) => {
                    check(!fits, "rows that fit were refused");
                    cover("refused");
                }
            }
        }
    }
}
