//! The interface between harnesses and whatever runs them.
use core::mem::MaybeUninit;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};

unsafe extern "C" {
    fn sym_any(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_fix(v: u64) -> u64;
    fn sym_observe(v: u64);
    fn sym_heap_live() -> u64;
    fn sym_heap_total() -> u64;
    fn sym_alloc_fail(n: u64);
    fn sym_alloc_fail_pending() -> bool;
}
unsafe extern "C-unwind" {
    fn sym_catch(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> bool;
    fn sym_panic() -> !;
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub case: usize,
    pub thorough: bool,
}

impl Cfg {
    pub fn new(arg: u64) -> Cfg {
        Cfg { case: (arg & 0xffff_ffff) as usize, thorough: arg >> 32 != 0 }
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick(&self, q: usize, t: usize) -> usize {
        if self.thorough { t } else { q }
    }
}

/// An arbitrary value of a plain-old-data type.
pub trait Any: Copy {}
impl Any for u8 {}
impl Any for u16 {}
impl Any for u32 {}
impl Any for u64 {}
impl Any for usize {}
impl Any for i8 {}
impl Any for i16 {}
impl Any for i32 {}
impl Any for i64 {}
impl Any for i128 {}
impl<T: Any, const N: usize> Any for [T; N] {}

#[inline(always)]
pub fn any<T: Any>() -> T {
    let mut t = MaybeUninit::<T>::uninit();
    unsafe {
        let p: *mut u8 = t.as_mut_ptr().cast();
        if THIN.load(Relaxed) == 0 { sym_any(p, size_of::<T>()) } else { mostly(p, size_of::<T>()) }
        t.assume_init()
    }
}
/// Zero, or one more than the number of values created while thinned.
static THIN: AtomicUsize = AtomicUsize::new(0);
/// Every how many values are arbitrary ones.
static EVERY: AtomicUsize = AtomicUsize::new(0);
/// The others: pseudo-random, or all bits set, or none.
static KIND: AtomicUsize = AtomicUsize::new(0);
/// Large inputs of about `n` values: while `f` runs, only some values are
/// arbitrary, the others are concrete; so are all choices but those made with
/// `flip`.
pub fn thin<R>(n: usize, f: impl FnOnce() -> R) -> R {
    thin_by(n, (n / 6).max(61) | 1, f)
}
/// The same without arbitrary values.
pub fn concrete<R>(n: usize, f: impl FnOnce() -> R) -> R {
    thin_by(n, usize::MAX, f)
}
fn thin_by<R>(n: usize, every: usize, f: impl FnOnce() -> R) -> R {
    KIND.store(if n < 5000 { upto(2) } else { 0 }, Relaxed);
    EVERY.store(every, Relaxed);
    THIN.store(1 + 7 * n, Relaxed);
    let r = f();
    THIN.store(0, Relaxed);
    r
}
/// A scrambled number.
fn mix(i: usize) -> u32 {
    let h = (i as u32).wrapping_mul(0x9e37_79b1);
    let h = (h ^ h >> 15).wrapping_mul(0x85eb_ca6b);
    h ^ h >> 13
}
#[inline(never)]
fn mostly(p: *mut u8, n: usize) {
    let k = THIN.load(Relaxed);
    THIN.store(k + 1, Relaxed);
    if k % EVERY.load(Relaxed) == 0 {
        return unsafe { sym_any(p, n) };
    }
    let kind = KIND.load(Relaxed);
    for i in 0..n {
        let x = match kind {
            0 => mix(k + (i << 20)) >> 5,
            1 => 255,
            _ => 0,
        };
        unsafe { *p.add(i) = x as u8 }
    }
}
#[inline(always)]
pub fn any_bool() -> bool {
    any::<u8>() & 1 == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { sym_check(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { sym_cover(m.as_ptr(), m.len()) }
}
/// Make a value concrete on this path (the explorer enumerates all feasible
/// values, each on a path of its own).
#[inline(always)]
pub fn fix(v: usize) -> usize {
    unsafe { sym_fix(v as u64) as usize }
}
#[inline(always)]
pub fn obs(v: u64) {
    unsafe { sym_observe(v) }
}
/// Arbitrary value in `0..=n`, concrete on each path.
#[inline(always)]
pub fn upto(n: usize) -> usize {
    let k = THIN.load(Relaxed);
    if k != 0 {
        THIN.store(k + 1, Relaxed);
        return mix(k) as usize % (n + 1);
    }
    let v = any::<u8>() as usize;
    assume(v <= n);
    fix(v)
}
/// An arbitrary boolean, concrete in large inputs.
pub fn decided() -> bool {
    if THIN.load(Relaxed) == 0 {
        return any_bool();
    }
    match KIND.load(Relaxed) {
        0 => upto(1) == 1,
        k => k == 1,
    }
}
/// Arbitrary value in `lo..=hi`, concrete on each path.
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    let v = any::<u16>() as usize;
    assume(v >= lo && v <= hi);
    fix(v)
}
/// Arbitrary symbolic value below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    let v = any::<usize>();
    assume(v < n);
    v
}
/// A boolean that is concrete on each path.
#[inline(always)]
pub fn flip() -> bool {
    let k = THIN.swap(0, Relaxed);
    let v = upto(1) == 1;
    THIN.store(k, Relaxed);
    v
}
pub fn heap_live() -> u64 {
    unsafe { sym_heap_live() }
}
pub fn heap_total() -> u64 {
    unsafe { sym_heap_total() }
}
/// The `n`-th heap allocation from now on fails once (`u64::MAX`: none).
pub fn alloc_fail(n: u64) {
    unsafe { sym_alloc_fail(n) }
}
pub fn alloc_fail_pending() -> bool {
    unsafe { sym_alloc_fail_pending() }
}
/// Panic with an unspecified payload (the standard `panic!` machinery is not needed).
#[inline(always)]
pub fn panic_now() -> ! {
    unsafe { sym_panic() }
}

extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { (*p.cast::<Option<F>>()).take() };
    if let Some(f) = f {
        f()
    }
}
/// Runs `f`; true if it panicked.
pub fn catch<F: FnOnce()>(f: F) -> bool {
    let mut slot = Some(f);
    unsafe { sym_catch(tramp::<F>, (&raw mut slot).cast()) }
}
