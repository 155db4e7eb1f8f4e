//! The Arrow C data interface structures, as the specification declares them,
//! and foreign arrays built from them.
use crate::sym::*;
use crate::util::*;
use alloc::alloc::{Layout, alloc, dealloc};
use core::ffi::c_void;
use core::ptr;
pub use narrow_ffi::{ArrowArray, ArrowSchema, Export, ExportError, Import, ImportError};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawSchema {
    pub format: *const u8,
    pub name: *const u8,
    pub metadata: *const u8,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut RawSchema,
    pub dictionary: *mut RawSchema,
    pub release: Option<unsafe extern "C" fn(*mut RawSchema)>,
    pub private_data: *mut c_void,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RawArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const u8,
    pub children: *mut *mut RawArray,
    pub dictionary: *mut RawArray,
    pub release: Option<unsafe extern "C" fn(*mut RawArray)>,
    pub private_data: *mut c_void,
}
pub const NULLABLE: i64 = 2;

unsafe extern "C" fn keep_array(_: *mut RawArray) {
    check(false, "a borrowed foreign array was released");
}
unsafe extern "C" fn keep_schema(_: *mut RawSchema) {
    check(false, "a borrowed foreign schema was released");
}

/// Memory of exactly the declared size, aligned to eight bytes plus `shift`.
pub struct Mem {
    p: *mut u8,
    layout: Layout,
    shift: usize,
}
impl Mem {
    pub fn new(n: usize, shift: usize) -> Mem {
        let layout = unsafe { Layout::from_size_align_unchecked(n + shift, 8) };
        let p = if n + shift == 0 { 8 as *mut u8 } else { unsafe { alloc(layout) } };
        for i in 0..shift {
            unsafe { *p.add(i) = 0 }
        }
        Mem { p, layout, shift }
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.p.add(self.shift) }
    }
}
impl Drop for Mem {
    fn drop(&mut self) {
        if self.layout.size() > 0 {
            unsafe { dealloc(self.p, self.layout) }
        }
    }
}

/// How a foreign array is built.
pub struct Plan {
    /// The number of deviations from the specification still to be placed.
    pub left: usize,
    /// Arbitrary offsets instead of increasing ones.
    pub wild: bool,
    /// The largest number of elements of a row.
    pub row: usize,
    /// Whether what may be chosen freely is still chosen freely once all
    /// deviations are placed.
    pub free: bool,
}
impl Plan {
    pub fn good(row: usize) -> Plan {
        Plan { left: 0, wild: false, row, free: true }
    }
    fn choice(&self, otherwise: bool) -> bool {
        if self.free || self.left > 0 { flip() } else { otherwise }
    }
    /// Deviate here?
    fn dev(&mut self) -> bool {
        if self.left > 0 && flip() {
            self.left -= 1;
            return true;
        }
        false
    }
}

pub struct Node {
    pub array: Box<RawArray>,
    pub schema: Box<RawSchema>,
    /// Whether the structures conform to the specification and the type.
    pub ok: bool,
    /// Validity of the elements.
    pub bits: Vec<bool>,
    /// The addresses and sizes of the buffers in depth-first order (0: empty
    /// or absent).
    pub ptrs: Vec<(usize, usize)>,
    pub n: usize,
    mem: Vec<Mem>,
    bufs: Box<[*const u8]>,
    kid: Option<Box<Node>>,
    arrays: Box<[*mut RawArray]>,
    schemas: Box<[*mut RawSchema]>,
}
impl Node {
    pub fn arrow(&self) -> (&ArrowArray, &ArrowSchema) {
        unsafe { (&*(&raw const *self.array).cast(), &*(&raw const *self.schema).cast()) }
    }
    /// The schema of the child.
    pub fn kid_schema(&mut self) -> &mut RawSchema {
        unsafe { &mut *self.schemas[0] }
    }
    pub fn import<'a, T: narrow::layout::ArrayItem>(&'a self) -> Result<Array<T, SliceBuffer<'a>>, ImportError>
    where
        Array<T, SliceBuffer<'a>>: Import<'a>,
    {
        let (a, s) = self.arrow();
        unsafe { Import::import(a, s) }
    }
}

/// Any other value.
fn other(x: i64) -> i64 {
    let v: i64 = any();
    assume(v != x);
    v
}
const FORMATS: [&[u8]; 6] = [
    b"b\0", b"C\0", b"+l\0", b"+L\0", b"+w:2\0", b"\0",
];
fn same_format(a: &[u8], b: &[u8]) -> bool {
    a == b
}

/// The common part of all layouts: everything but the data buffer and the child.
/// `data` is the second buffer, if the layout has one: its address and whether
/// a null pointer is acceptable.
pub fn header(p: &mut Plan, n: usize, nullable: bool, format: &'static [u8], data: Option<(*const u8, usize)>, mut mem: Vec<Mem>, kid: Option<Node>) -> Node {
    let mut ok = true;
    // validity
    let mut bits = vec![true; n];
    let mut ptrs = vec![];
    let validity: *const u8 = if p.choice(n % 2 == 0) {
        ptr::null()
    } else {
        let m = Mem::new((n + 7) / 8, p.left % 2);
        let v = m.ptr();
        for i in 0..(n + 7) / 8 {
            unsafe { *v.add(i) = any() }
        }
        if nullable {
            for i in 0..n {
                bits[i] = unsafe { *v.add(i / 8) } >> (i % 8) & 1 == 1;
            }
        }
        mem.push(m);
        v
    };
    if nullable {
        ptrs.push(if n == 0 || validity.is_null() { (0, 0) } else { (validity as usize, (n + 7) / 8) });
    }
    if let Some(d) = data {
        ptrs.push(if d.1 == 0 { (0, 0) } else { (d.0 as usize, d.1) });
    }
    let nulls: i64 = bits.iter().map(|b| !*b as i64).sum();
    let null_count = if p.dev() {
        let c: i64 = any();
        // unknown only with a bitmap to count
        ok &= (c == nulls) | ((c == -1) & (!nullable || n == 0 || !validity.is_null()));
        c
    } else if (!nullable || n == 0 || !validity.is_null()) && p.choice(n % 2 == 1) {
        -1
    } else {
        nulls
    };
    let mut bufs = vec![validity];
    bufs.extend(data.map(|d| d.0));
    let mut bufs = bufs.into_boxed_slice();
    let buffers = if p.dev() {
        ok = false;
        ptr::null_mut()
    } else {
        bufs.as_mut_ptr()
    };
    let kids = kid.is_some() as i64;
    let (mut length, mut offset, mut n_buffers, mut na, mut ns) = (n as i64, 0, bufs.len() as i64, kids, kids);
    let mut flags = any::<i64>() & !NULLABLE | if nullable { NULLABLE } else { 0 };
    if p.dev() {
        // any numbers at all, but no more elements than there is memory for
        let good = (length, offset, n_buffers, na, ns, flags & NULLABLE);
        (length, offset, n_buffers, na, ns, flags) = (any(), any(), any(), any(), any(), any());
        assume((length < 0) | (length == n as i64) | (offset != 0) | (n_buffers != bufs.len() as i64));
        ok &= (good.0 == length) & (good.1 == offset) & (good.2 == n_buffers) & (good.3 == na) & (good.4 == ns) & (good.5 == flags & NULLABLE);
    }
    let mut fmt: *const u8 = format.as_ptr();
    if p.dev() {
        let f = upto(FORMATS.len());
        if f == FORMATS.len() {
            fmt = ptr::null();
            ok = false;
        } else {
            fmt = FORMATS[f].as_ptr();
            ok &= same_format(FORMATS[f], format);
        }
    }
    let (mut kid, mut arrays, mut schemas) = (kid.map(Box::new), vec![], vec![]);
    if let Some(k) = &mut kid {
        ok &= k.ok;
        ptrs.extend(k.ptrs.iter().cloned());
        arrays.push(&raw mut *k.array);
        schemas.push(&raw mut *k.schema);
        if p.dev() {
            ok = false;
            if flip() { arrays[0] = ptr::null_mut() } else { schemas[0] = ptr::null_mut() }
        }
    }
    let (mut arrays, mut schemas) = (arrays.into_boxed_slice(), schemas.into_boxed_slice());
    let (mut ca, mut cs) = (arrays.as_mut_ptr(), schemas.as_mut_ptr());
    if kids > 0 && p.dev() {
        ok = false;
        if flip() { ca = ptr::null_mut() } else { cs = ptr::null_mut() }
    } else if kids == 0 && n % 2 == 0 {
        (ca, cs) = (ptr::null_mut(), ptr::null_mut());
    }
    // never to be read
    let wild = 8 as *mut u8;
    let (mut da, mut ds) = (ptr::null_mut(), ptr::null_mut());
    if p.dev() {
        ok = false;
        if flip() { da = wild.cast() } else { ds = wild.cast() }
    }
    let (mut ra, mut rs): (Option<unsafe extern "C" fn(*mut RawArray)>, Option<unsafe extern "C" fn(*mut RawSchema)>) = (Some(keep_array), Some(keep_schema));
    if p.dev() {
        ok = false;
        if flip() { ra = None } else { rs = None }
    }
    let array = RawArray {
        length,
        null_count,
        offset,
        n_buffers,
        n_children: na,
        buffers,
        children: ca,
        dictionary: da,
        release: ra,
        private_data: wild.cast(),
    };
    let schema = RawSchema {
        format: fmt,
        name: if n % 2 == 0 { ptr::null() } else { wild },
        metadata: if n % 2 == 1 { ptr::null() } else { wild },
        flags,
        n_children: ns,
        children: cs,
        dictionary: ds,
        release: rs,
        private_data: wild.cast(),
    };
    Node { array: Box::new(array), schema: Box::new(schema), ok, bits, ptrs, n, mem, bufs, kid, arrays, schemas }
}

/// Types whose layout can hold nulls.
pub trait Base: Gen {
    fn base(p: &mut Plan, n: usize, nullable: bool) -> (Node, Vec<Self>);
}
/// Types of foreign arrays.
pub trait Foreign: Gen {
    /// A foreign array of `n` elements and, unless the plan is wild, what it holds.
    fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<Self>);
}
impl<T: Base> Foreign for Option<T> {
    fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<Option<T>>) {
        let (k, v) = T::base(p, n, true);
        let m = v.into_iter().zip(&k.bits).map(|(v, b)| if *b { Some(v) } else { None }).collect();
        (k, m)
    }
}
/// The data buffer of `n` bytes; null or misaligned ones conform only when empty.
fn data(p: &mut Plan, n: usize, align: usize, ok: &mut bool) -> (Mem, *const u8) {
    let mut shift = 0;
    if align > 1 && p.dev() {
        shift = 1 + upto(align - 2);
        *ok &= n == 0;
    }
    let m = Mem::new(n, shift);
    let mut q: *const u8 = m.ptr();
    for i in 0..n {
        unsafe { *m.ptr().add(i) = any() }
    }
    if p.dev() || (n == 0 && p.choice(true)) {
        q = ptr::null();
        *ok &= n == 0;
    }
    (m, q)
}
macro_rules! base_num {
    ($($t:ident $f:literal)*) => {$(
        impl Base for $t {
            fn base(p: &mut Plan, n: usize, nullable: bool) -> (Node, Vec<$t>) {
                let mut ok = true;
                let (m, q) = data(p, n * size_of::<$t>(), align_of::<$t>(), &mut ok);
                let v = (0..n).map(|i| unsafe { m.ptr().cast::<$t>().add(i).read_unaligned() }).collect();
                let mut k = header(p, n, nullable, $f, Some((q, n * size_of::<$t>())), vec![m], None);
                k.ok &= ok;
                (k, v)
            }
        }
        impl Foreign for $t {
            fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<$t>) {
                Self::base(p, n, false)
            }
        }
    )*};
}
base_num!(i8 b"c\0" u8 b"C\0" i16 b"s\0" u16 b"S\0" i32 b"i\0" u32 b"I\0" i64 b"l\0" u64 b"L\0" f32 b"f\0" f64 b"g\0");
impl Base for bool {
    fn base(p: &mut Plan, n: usize, nullable: bool) -> (Node, Vec<bool>) {
        let mut ok = true;
        let (m, q) = data(p, (n + 7) / 8, 1, &mut ok);
        let v = (0..n).map(|i| unsafe { *m.ptr().add(i / 8) } >> (i % 8) & 1 == 1).collect();
        let mut k = header(p, n, nullable, b"b\0", Some((q, (n + 7) / 8)), vec![m], None);
        k.ok &= ok;
        (k, v)
    }
}
impl Foreign for bool {
    fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<bool>) {
        Self::base(p, n, false)
    }
}
struct Width<const N: usize>;
impl<const N: usize> Width<N> {
    const LEN: usize = {
        let (mut n, mut len) = (N / 10, 5);
        while n > 0 {
            n /= 10;
            len += 1;
        }
        len
    };
    const TEXT: [u8; 25] = {
        let mut t = [0; 25];
        (t[0], t[1], t[2]) = (b'+', b'w', b':');
        let (mut n, mut i) = (N, Self::LEN - 1);
        while i > 3 {
            i -= 1;
            t[i] = b'0' + (n % 10) as u8;
            n /= 10;
        }
        t
    };
}
/// The format of lists of `N` elements, with the byte that ends it.
pub fn width<const N: usize>() -> &'static [u8] {
    let t: &'static [u8; 25] = &Width::<N>::TEXT;
    &t[..Width::<N>::LEN]
}
impl<T: Foreign, const N: usize> Base for [T; N] {
    fn base(p: &mut Plan, n: usize, nullable: bool) -> (Node, Vec<[T; N]>) {
        let mut c = n * N;
        let mut ok = N > 0;
        if p.dev() {
            c = upto(n * N + 1);
            ok &= c == n * N;
        }
        let (kid, v) = T::foreign(p, c);
        let m = if ok { v.chunks(N).map(|r| core::array::from_fn(|i| r[i].clone())).collect() } else { vec![] };
        let mut k = header(p, n, nullable, width::<N>(), None, vec![], Some(kid));
        k.ok &= ok;
        (k, m)
    }
}
impl<T: Foreign, const N: usize> Foreign for [T; N] {
    fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<[T; N]>) {
        Self::base(p, n, false)
    }
}
impl<T: Foreign> Base for Vec<T> {
    fn base(p: &mut Plan, n: usize, nullable: bool) -> (Node, Vec<Vec<T>>) {
        let mut ok = true;
        let (m, mut q): (Mem, *const u8);
        let mut o = vec![0i32];
        let c;
        if p.wild {
            c = upto(p.row);
            let mut shift = 0;
            if p.dev() {
                shift = 1 + upto(2);
                ok = false;
            }
            m = Mem::new(4 * (n + 1), shift);
            q = m.ptr();
            let bad = p.dev();
            o = (0..=n).map(|_| any()).collect();
            let mut good = (o[0] == 0) & (o[n] as i64 <= c as i64);
            for w in o.windows(2) {
                good &= w[0] <= w[1];
            }
            if bad {
                ok &= good;
            } else {
                assume(good);
            }
            if p.dev() {
                q = ptr::null();
                ok = false;
            }
        } else {
            for i in 0..n {
                o.push(o[i] + upto(p.row) as i32);
            }
            c = o[n] as usize + if p.row > 1 { upto(1) } else { n % 2 };
            m = Mem::new(4 * (n + 1), 0);
            q = m.ptr();
        }
        for i in 0..=n {
            unsafe { m.ptr().cast::<i32>().add(i).write_unaligned(o[i]) }
        }
        let (kid, v) = T::foreign(p, c);
        let rows = if p.wild { vec![] } else { o.windows(2).map(|w| v[w[0] as usize..w[1] as usize].to_vec()).collect() };
        let mut k = header(p, n, nullable, b"+l\0", Some((q, 4 * (n + 1))), vec![m], Some(kid));
        k.ok &= ok;
        (k, rows)
    }
}
impl<T: Foreign> Foreign for Vec<T> {
    fn foreign(p: &mut Plan, n: usize) -> (Node, Vec<Vec<T>>) {
        Self::base(p, n, false)
    }
}

/// Reads exported structures as the Arrow specification says, checking that
/// they follow it.
pub trait Exported: Gen {
    fn read(a: &RawArray, s: &RawSchema) -> Vec<Self>;
}
pub trait Body: Gen {
    fn body(a: &RawArray, s: &RawSchema, nullable: bool) -> (Vec<bool>, Vec<Self>);
}
impl<T: Body> Exported for Option<T> {
    fn read(a: &RawArray, s: &RawSchema) -> Vec<Option<T>> {
        let (b, v) = T::body(a, s, true);
        v.into_iter().zip(b).map(|(v, b)| if b { Some(v) } else { None }).collect()
    }
}
unsafe fn text(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let c = unsafe { *p.add(v.len()) };
        if c == 0 {
            return v;
        }
        v.push(c);
    }
}
fn fatal(c: bool, m: &'static str) {
    check(c, m);
    assume(c);
}
/// Common fields; the length and the validity bits.
fn common(a: &RawArray, s: &RawSchema, nullable: bool, format: &[u8], buffers: i64, kids: i64) -> (usize, Vec<bool>) {
    fatal(a.release.is_some(), "an exported array is released");
    fatal(s.release.is_some(), "an exported schema is released");
    fatal(!s.format.is_null(), "an exported schema has no format");
    check(unsafe { text(s.format) } == format, "exported format differs");
    check(s.flags == if nullable { NULLABLE } else { 0 }, "exported flags differ");
    if !s.name.is_null() {
        unsafe { text(s.name) };
    }
    check(s.metadata.is_null(), "an exported schema has metadata");
    check(s.dictionary.is_null() && a.dictionary.is_null(), "an export has a dictionary");
    check(a.offset == 0, "exported offset is not zero");
    fatal(a.n_buffers == buffers, "exported buffer count differs");
    fatal(a.n_children == kids && s.n_children == kids, "exported child count differs");
    fatal(!a.buffers.is_null(), "exported buffer pointers are missing");
    if kids > 0 {
        fatal(!a.children.is_null() && !s.children.is_null(), "exported children are missing");
        unsafe {
            fatal(!(*a.children).is_null() && !(*s.children).is_null(), "an exported child is missing");
        }
    }
    fatal(a.length >= 0 && a.length < 1 << 20, "exported length is wrong");
    let n = a.length as usize;
    let v = unsafe { *a.buffers };
    let mut bits = vec![true; n];
    let mut nulls = 0;
    if !v.is_null() {
        for i in 0..n {
            bits[i] = unsafe { *v.add(i / 8) } >> (i % 8) & 1 == 1;
            nulls += !bits[i] as i64;
        }
        check((a.null_count == nulls) | (a.null_count == -1), "exported null count differs");
    } else {
        check(a.null_count == 0, "exported null count differs");
    }
    check(nullable | (nulls == 0), "an export that cannot hold nulls does");
    (n, bits)
}
unsafe fn kid<'a>(a: &RawArray, s: &RawSchema) -> (&'a RawArray, &'a RawSchema) {
    unsafe { (&**a.children, &**s.children) }
}
/// The second buffer of `n` elements of `size` bytes.
unsafe fn values(a: &RawArray, n: usize, align: usize) -> *const u8 {
    let p = unsafe { *a.buffers.add(1) };
    if n > 0 {
        fatal(!p.is_null(), "an exported buffer is missing");
        fatal(p as usize % align == 0, "an exported buffer is misaligned");
    }
    p
}
macro_rules! body_num {
    ($($t:ident $f:literal)*) => {$(
        impl Body for $t {
            fn body(a: &RawArray, s: &RawSchema, nullable: bool) -> (Vec<bool>, Vec<$t>) {
                let (n, b) = common(a, s, nullable, $f, 2, 0);
                let p: *const $t = unsafe { values(a, n, align_of::<$t>()) }.cast();
                (b, (0..n).map(|i| unsafe { *p.add(i) }).collect())
            }
        }
        impl Exported for $t {
            fn read(a: &RawArray, s: &RawSchema) -> Vec<$t> {
                Self::body(a, s, false).1
            }
        }
    )*};
}
body_num!(i8 b"c" u8 b"C" i16 b"s" u16 b"S" i32 b"i" u32 b"I" i64 b"l" u64 b"L" f32 b"f" f64 b"g");
impl Body for bool {
    fn body(a: &RawArray, s: &RawSchema, nullable: bool) -> (Vec<bool>, Vec<bool>) {
        let (n, b) = common(a, s, nullable, b"b", 2, 0);
        let p = unsafe { values(a, n, 1) };
        (b, (0..n).map(|i| unsafe { *p.add(i / 8) } >> (i % 8) & 1 == 1).collect())
    }
}
impl Exported for bool {
    fn read(a: &RawArray, s: &RawSchema) -> Vec<bool> {
        Self::body(a, s, false).1
    }
}
impl<T: Exported, const N: usize> Body for [T; N] {
    fn body(a: &RawArray, s: &RawSchema, nullable: bool) -> (Vec<bool>, Vec<[T; N]>) {
        let f = width::<N>();
        let (n, b) = common(a, s, nullable, &f[..f.len() - 1], 1, 1);
        let (ka, ks) = unsafe { kid(a, s) };
        let v = T::read(ka, ks);
        fatal(v.len() == n * N, "the exported child of a fixed-size list has the wrong length");
        (b, (0..n).map(|i| core::array::from_fn(|j| v[i * N + j].clone())).collect())
    }
}
impl<T: Exported, const N: usize> Exported for [T; N] {
    fn read(a: &RawArray, s: &RawSchema) -> Vec<[T; N]> {
        Self::body(a, s, false).1
    }
}
impl<T: Exported> Body for Vec<T> {
    fn body(a: &RawArray, s: &RawSchema, nullable: bool) -> (Vec<bool>, Vec<Vec<T>>) {
        let (n, b) = common(a, s, nullable, b"+l", 2, 1);
        let p: *const i32 = unsafe { values(a, n + 1, 4) }.cast();
        let o: Vec<i32> = (0..=n).map(|i| unsafe { *p.add(i) }).collect();
        let (ka, ks) = unsafe { kid(a, s) };
        let v = T::read(ka, ks);
        fatal(o[0] >= 0 && o[n] as usize <= v.len(), "exported offsets leave the child");
        let mut r = vec![];
        for w in o.windows(2) {
            fatal(w[0] <= w[1], "exported offsets decrease");
            r.push(v[w[0] as usize..w[1] as usize].to_vec());
        }
        (b, r)
    }
}
impl<T: Exported> Exported for Vec<T> {
    fn read(a: &RawArray, s: &RawSchema) -> Vec<Vec<T>> {
        Self::body(a, s, false).1
    }
}
pub fn raw<'a>(a: &'a ArrowArray, s: &'a ArrowSchema) -> (&'a RawArray, &'a RawSchema) {
    unsafe { (&*(&raw const *a).cast(), &*(&raw const *s).cast()) }
}
