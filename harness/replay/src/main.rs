//! Runs one harness natively on concrete inputs.
//!
//! usage: nreplay --list | nreplay NAME ARG HEXINPUTS
//! exit 0: ran to the end, 10: check failed, 11: panic, 12: assumption not met
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

static LIVE: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static FAIL: AtomicU64 = AtomicU64::new(u64::MAX);
static GUARD: AtomicBool = AtomicBool::new(false);

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

/// Counts allocations, injects failures and (with SYM_GUARD) places every
/// block against an inaccessible page and never reuses freed memory.
struct A;
const PG: usize = 4096;
fn dims(l: Layout) -> (usize, usize) {
    let body = l.size().div_ceil(l.align()) * l.align();
    let pages = (body + PG - 1) / PG * PG;
    (pages, pages - body)
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(1, SeqCst);
        let f = FAIL.load(SeqCst);
        if f != u64::MAX {
            if f == 0 {
                FAIL.store(u64::MAX, SeqCst);
                return core::ptr::null_mut();
            }
            FAIL.store(f - 1, SeqCst);
        }
        let p = unsafe {
            if GUARD.load(SeqCst) && l.align() <= PG {
                let (pages, lead) = dims(l);
                let m = mmap(core::ptr::null_mut(), pages + PG, 3, 0x22, -1, 0);
                if m as isize == -1 {
                    return core::ptr::null_mut();
                }
                mprotect(m.add(pages), PG, 0);
                core::ptr::write_bytes(m, 0xA5, pages);
                m.add(lead)
            } else {
                let p = System.alloc(l);
                if !p.is_null() && l.size() < 1 << 20 {
                    core::ptr::write_bytes(p, 0xA5, l.size());
                }
                p
            }
        };
        if !p.is_null() {
            LIVE.fetch_add(1, SeqCst);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        unsafe {
            if GUARD.load(SeqCst) && l.align() <= PG {
                let (pages, lead) = dims(l);
                // a second free of the same block faults on this write
                core::ptr::write_volatile(p, 0x5A);
                mprotect(p.sub(lead), pages, 0);
            } else {
                core::ptr::write_bytes(p, 0x5A, l.size());
                System.dealloc(p, l)
            }
        }
    }
}
#[global_allocator]
static ALLOC: A = A;

static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut OBS: Vec<u64> = Vec::new();
static mut MSG: Option<String> = None;
static mut COVERS: Vec<String> = Vec::new();



#[unsafe(no_mangle)]
extern "C" fn sym_any(p: *mut u8, n: usize) {
    unsafe {
        let inp = &*(&raw const INPUT);
        for i in 0..n {
            *p.add(i) = inp.get(POS + i).copied().unwrap_or(0);
        }
        POS += n;
    }
}
fn finish(code: i32) -> ! {
    let out = std::io::stdout();
    let mut o = out.lock();
    unsafe {
        let obs = &*(&raw const OBS);
        let _ = write!(o, "{{\"code\":{code},\"obs\":{:?},\"msg\":{:?}}}\n", obs, (*(&raw const MSG)).as_deref().unwrap_or(""));
    }
    let _ = o.flush();
    std::process::exit(code)
}
fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).to_string()
}
#[unsafe(no_mangle)]
extern "C" fn sym_assume(c: bool) {
    if !c {
        GUARD.store(false, SeqCst);
        finish(12)
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        FAIL.store(u64::MAX, SeqCst);
        unsafe { MSG = Some(s(p, n)) };
        finish(10)
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_cover(_p: *const u8, _n: usize) {}
#[unsafe(no_mangle)]
extern "C" fn sym_fix(v: u64) -> u64 {
    v
}
// Not counted as heap use of the code under test.
#[unsafe(no_mangle)]
extern "C" fn sym_observe(v: u64) {
    let (l, t, f) = (LIVE.load(SeqCst), TOTAL.load(SeqCst), FAIL.swap(u64::MAX, SeqCst));
    unsafe { (*(&raw mut OBS)).push(v) };
    LIVE.store(l, SeqCst);
    TOTAL.store(t, SeqCst);
    FAIL.store(f, SeqCst);
}
#[unsafe(no_mangle)]
extern "C" fn sym_heap_live() -> u64 {
    LIVE.load(SeqCst)
}
#[unsafe(no_mangle)]
extern "C" fn sym_heap_total() -> u64 {
    TOTAL.load(SeqCst)
}
#[unsafe(no_mangle)]
extern "C" fn sym_alloc_fail(n: u64) {
    FAIL.store(n, SeqCst)
}
#[unsafe(no_mangle)]
extern "C" fn sym_alloc_fail_pending() -> bool {
    FAIL.load(SeqCst) != u64::MAX
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> bool {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p)));
    let panicked = r.is_err();
    drop(r);
    panicked
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_panic() -> ! {
    std::panic::resume_unwind(Box::new(()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--list") {
        for l in nharness::ALL {
            for h in *l {
                println!("{} {} {} {}", h.property, h.name, h.quick, h.thorough);
            }
        }
        return;
    }
    let name = &args[1];
    let arg: u64 = args[2].parse().unwrap();
    let hex = args.get(3).cloned().unwrap_or_default();
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    unsafe {
        INPUT = bytes;
        (*(&raw mut OBS)).reserve(4096);
    }
    let h = nharness::ALL.iter().flat_map(|l| l.iter()).find(|h| h.name == name).expect("unknown harness");
    if std::env::var("SYM_QUIET").is_ok() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if std::env::var("SYM_GUARD").is_ok() {
        // keep what exists usable: only blocks allocated from here on are guarded
        // (blocks allocated before are never freed by the harness)
        GUARD.store(true, SeqCst);
    }
    LIVE.store(0, SeqCst);
    TOTAL.store(0, SeqCst);
    let run = h.run;
    let r = std::panic::catch_unwind(|| run(arg));
    GUARD.store(false, SeqCst);
    FAIL.store(u64::MAX, SeqCst);
    match r {
        Ok(()) => finish(0),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            unsafe { MSG = Some(format!("panic: {}", m.unwrap_or_default())) };
            finish(11)
        }
    }
}
