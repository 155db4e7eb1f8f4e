//! Minimal binding to the installed libz3 and the translation of expressions.
use crate::expr::{Arena, Model, B, E, N};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    stack: Vec<E>,
    syms: Vec<(u32, P)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub time: Duration,
    pub slowest: Duration,
    timeout_ms: u32,
    pub dump_dir: Option<String>,
    pub dumped: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let mut z = Z3 {
                c,
                s,
                bv: vec![],
                bo: vec![],
                stack: vec![],
                syms: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                fallback: 0,
                time: Duration::ZERO,
                slowest: Duration::ZERO,
                timeout_ms,
                dump_dir: None,
                dumped: 0,
            };
            z.set_timeout(s, timeout_ms.min(4000));
            z
        }
    }
    /// Frees the context; the solver must not be used afterwards (self test only).
    pub fn close(self) {
        unsafe { Z3_del_context(self.c) }
    }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn bool_of(&mut self, ar: &Arena, e: E) -> P {
        self.build(ar, e);
        self.bo[e as usize]
    }
    /// iterative translation of all sub-expressions
    fn build(&mut self, ar: &Arena, root: E) {
        if self.bv.len() < ar.nodes.len() {
            self.bv.resize(ar.nodes.len(), std::ptr::null_mut());
            self.bo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![root];
        while let Some(e) = st.last().copied() {
            if !self.bv[e as usize].is_null() || !self.bo[e as usize].is_null() {
                st.pop();
                continue;
            }
            let (n, _) = ar.nodes[e as usize];
            let kids: [Option<E>; 3] = match n {
                N::Const(_) | N::Sym(_) => [None; 3],
                N::Not(a) | N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => [Some(a), None, None],
                N::Bin(_, a, b) | N::Concat(a, b) => [Some(a), Some(b), None],
                N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
            };
            let mut ready = true;
            for k in kids.iter().flatten() {
                if self.bv[*k as usize].is_null() && self.bo[*k as usize].is_null() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            self.build1(ar, e);
            st.pop();
        }
    }
    fn as_bv(&mut self, ar: &Arena, e: E) -> P {
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        debug_assert_eq!(ar.w(e), 1);
        let b = self.bo[e as usize];
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            let one = self.keep(one);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            let zero = self.keep(zero);
            let r = Z3_mk_ite(self.c, b, one, zero);
            let r = self.keep(r);
            self.bv[e as usize] = r;
            r
        }
    }
    fn build1(&mut self, ar: &Arena, e: E) {
        let (n, w) = ar.nodes[e as usize];
        let c = self.c;
        unsafe {
            if w == 1 {
                let r = match n {
                    N::Const(k) => {
                        if k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    N::Sym(i) => {
                        let s = CString::new(format!("b{i}")).unwrap();
                        let r = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c));
                        self.syms.push((e, r));
                        r
                    }
                    N::Not(a) => Z3_mk_not(c, self.bo[a as usize]),
                    N::Ite(x, a, b) => Z3_mk_ite(c, self.bo[x as usize], self.bo[a as usize], self.bo[b as usize]),
                    N::Extract(a, lo) => {
                        let x = Z3_mk_extract(c, lo, lo, self.as_bv(ar, a));
                        let x = self.keep(x);
                        let s = Z3_mk_bv_sort(c, 1);
                        let one = Z3_mk_unsigned_int64(c, 1, s);
                        let one = self.keep(one);
                        Z3_mk_eq(c, x, one)
                    }
                    N::Bin(op, a, b) => {
                        if ar.w(a) == 1 {
                            let (x, y) = (self.bo[a as usize], self.bo[b as usize]);
                            let v = [x, y];
                            match op {
                                B::And | B::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                                B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                                B::Xor | B::Add | B::Sub => Z3_mk_xor(c, x, y),
                                B::Eq => Z3_mk_iff(c, x, y),
                                B::Ult => {
                                    let nx = Z3_mk_not(c, x);
                                    let nx = self.keep(nx);
                                    let v = [nx, y];
                                    Z3_mk_and(c, 2, v.as_ptr())
                                }
                                B::Slt => {
                                    let ny = Z3_mk_not(c, y);
                                    let ny = self.keep(ny);
                                    let v = [x, ny];
                                    Z3_mk_and(c, 2, v.as_ptr())
                                }
                                _ => {
                                    // shifts / divisions of one bit: go through bit-vectors
                                    let (p, q) = (self.as_bv(ar, a), self.as_bv(ar, b));
                                    let r = match op {
                                        B::Shl => Z3_mk_bvshl(c, p, q),
                                        B::LShr => Z3_mk_bvlshr(c, p, q),
                                        B::AShr => Z3_mk_bvashr(c, p, q),
                                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                                        B::URem => Z3_mk_bvurem(c, p, q),
                                        _ => Z3_mk_bvsrem(c, p, q),
                                    };
                                    let r = self.keep(r);
                                    let s = Z3_mk_bv_sort(c, 1);
                                    let one = Z3_mk_unsigned_int64(c, 1, s);
                                    let one = self.keep(one);
                                    Z3_mk_eq(c, r, one)
                                }
                            }
                        } else {
                            let (p, q) = (self.as_bv(ar, a), self.as_bv(ar, b));
                            match op {
                                B::Eq => Z3_mk_eq(c, p, q),
                                B::Ult => Z3_mk_bvult(c, p, q),
                                B::Slt => Z3_mk_bvslt(c, p, q),
                                _ => unreachable!(),
                            }
                        }
                    }
                    _ => unreachable!("{n:?}"),
                };
                let r = self.keep(r);
                self.bo[e as usize] = r;
                return;
            }
            let r = match n {
                N::Const(k) => {
                    let s = Z3_mk_bv_sort(c, w);
                    if k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, k as u64, s)
                    } else {
                        let st = CString::new(format!("{k}")).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), s)
                    }
                }
                N::Sym(i) => {
                    let s = CString::new(format!("v{i}_{w}")).unwrap();
                    let r = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w));
                    self.syms.push((e, r));
                    r
                }
                N::Not(a) => Z3_mk_bvnot(c, self.as_bv(ar, a)),
                N::Ite(x, a, b) => {
                    let (p, q) = (self.as_bv(ar, a), self.as_bv(ar, b));
                    Z3_mk_ite(c, self.bo[x as usize], p, q)
                }
                N::Extract(a, lo) => Z3_mk_extract(c, lo + w - 1, lo, self.as_bv(ar, a)),
                N::ZExt(a) => {
                    let aw = ar.w(a);
                    Z3_mk_zero_ext(c, w - aw, self.as_bv(ar, a))
                }
                N::SExt(a) => {
                    let aw = ar.w(a);
                    Z3_mk_sign_ext(c, w - aw, self.as_bv(ar, a))
                }
                N::Concat(h, l) => {
                    let (p, q) = (self.as_bv(ar, h), self.as_bv(ar, l));
                    Z3_mk_concat(c, p, q)
                }
                N::Bin(op, a, b) => {
                    let (p, q) = (self.as_bv(ar, a), self.as_bv(ar, b));
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q),
                        B::Sub => Z3_mk_bvsub(c, p, q),
                        B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q),
                        B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q),
                        B::Or => Z3_mk_bvor(c, p, q),
                        B::Xor => Z3_mk_bvxor(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q),
                        B::LShr => Z3_mk_bvlshr(c, p, q),
                        B::AShr => Z3_mk_bvashr(c, p, q),
                        _ => unreachable!(),
                    }
                }
            };
            let r = self.keep(r);
            self.bv[e as usize] = r;
        }
    }

    fn model_of(&mut self, ar: &Arena, s: P, nsyms: u32) -> Model {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let mut vals = vec![0u128; nsyms as usize];
            for (e, p) in &self.syms {
                let i = match ar.n(*e) {
                    N::Sym(i) => i,
                    _ => unreachable!(),
                };
                if i >= nsyms {
                    continue;
                }
                let mut out: P = std::ptr::null_mut();
                // no completion: several symbols of different width may share an index
                if Z3_model_eval(self.c, m, *p, false, &mut out) {
                    if ar.w(*e) == 1 {
                        if Z3_get_bool_value(self.c, out) == 1 {
                            vals[i as usize] = 1;
                        }
                    } else {
                        let mut v = 0u64;
                        if out != *p && Z3_get_numeral_uint64(self.c, out, &mut v) {
                            vals[i as usize] = v as u128;
                        }
                    }
                }
            }
            Z3_model_dec_ref(self.c, m);
            Model::new(vals)
        }
    }

    /// is `pc /\ extra` satisfiable?
    pub fn check(&mut self, ar: &Arena, pc: &[E], extra: E, nsyms: u32, want_model: bool) -> (Res, Option<Model>) {
        let t0 = Instant::now();
        self.queries += 1;
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for e in &pc[k..] {
                let b = self.bool_of(ar, *e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(*e);
            }
            let b = self.bool_of(ar, extra);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, b);
            if let Some(d) = &self.dump_dir {
                if self.dumped < 400 && self.queries % 7 == 1 {
                    self.dumped += 1;
                    let t = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{d}/q{}.smt2", self.dumped), format!("(set-logic QF_BV)\n{t}(check-sat)\n"));
                }
            }
            let mut r = Z3_solver_check(self.c, self.s);
            let mut model = None;
            if r == 1 && want_model {
                model = Some(self.model_of(ar, self.s, nsyms));
            }
            Z3_solver_pop(self.c, self.s, 1);
            if r == 0 {
                // second attempt: a fresh bit-blasting solver
                self.fallback += 1;
                let nm = CString::new("qfbv").unwrap();
                let t = Z3_mk_tactic(self.c, nm.as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                let s2 = Z3_mk_solver_from_tactic(self.c, t);
                Z3_solver_inc_ref(self.c, s2);
                self.set_timeout(s2, self.timeout_ms);
                for e in pc {
                    let b = self.bool_of(ar, *e);
                    Z3_solver_assert(self.c, s2, b);
                }
                Z3_solver_assert(self.c, s2, b);
                r = Z3_solver_check(self.c, s2);
                if r == 1 && want_model {
                    model = Some(self.model_of(ar, s2, nsyms));
                }
                Z3_solver_dec_ref(self.c, s2);
            }
            let dt = t0.elapsed();
            self.time += dt;
            if dt > self.slowest {
                self.slowest = dt;
            }
            if self.dump_dir.is_some() && self.dumped <= 400 && self.queries % 7 == 1 {
                let d = self.dump_dir.clone().unwrap();
                let _ = std::fs::write(format!("{d}/q{}.res", self.dumped), match r { 1 => "sat\n", -1 => "unsat\n", _ => "unknown\n" });
            }
            match r {
                1 => {
                    self.sat += 1;
                    (Res::Sat, model)
                }
                -1 => {
                    self.unsat += 1;
                    (Res::Unsat, None)
                }
                _ => {
                    self.unknown += 1;
                    (Res::Unknown, None)
                }
            }
        }
    }
}
