//! Z3 back end: translation of terms, query cache, constraint slicing, statistics.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}: {:?}", e, m);
    }
    std::process::exit(4);
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    one: P,
    zero: P,
    bv: FxMap<E, P>,
    bl: FxMap<E, P>,
    vars: Vec<P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>, // None = unsat
    pub stats: Stats,
    pub dump: Option<(std::path::PathBuf, u64, u64)>, // dir, every-n, counter
    pub dumped: Vec<(std::path::PathBuf, bool)>,
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn version() -> String {
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
        format!("Z3 {}.{}.{}", a, b, c)
    }
    pub fn new(rlimit: u32, logic: bool) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, on_err);
            let s = if logic {
                let n = CString::new("QF_BV").unwrap();
                let l = Z3_mk_string_symbol(ctx, n.as_ptr());
                Z3_mk_solver_for_logic(ctx, l)
            } else {
                Z3_mk_simple_solver(ctx)
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, s, p);
            // a reference-counted context only keeps the last unreferenced term alive
            let so = Z3_mk_bv_sort(ctx, 1);
            Z3_inc_ref(ctx, so);
            let one = Z3_mk_unsigned_int64(ctx, 1, so);
            Z3_inc_ref(ctx, one);
            let zero = Z3_mk_unsigned_int64(ctx, 0, so);
            Z3_inc_ref(ctx, zero);
            Solver {
                ctx,
                s,
                one,
                zero,
                bv: Default::default(),
                bl: Default::default(),
                vars: vec![],
                cache: HashMap::new(),
                stats: Default::default(),
                dump: None,
                dumped: vec![],
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    fn varp(&mut self, k: usize) -> P {
        while self.vars.len() <= k {
            let n = CString::new(format!("v{}", self.vars.len())).unwrap();
            unsafe {
                let s = Z3_mk_string_symbol(self.ctx, n.as_ptr());
                let v = Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, 8));
                Z3_inc_ref(self.ctx, v);
                self.vars.push(v);
            }
        }
        self.vars[k]
    }
    /// bit-vector form
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let so = Z3_mk_bv_sort(c, w);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, so)
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), so)
                    }
                }
                Op::Var => self.varp(n.k as usize),
                Op::Extract => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, a)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.trb(ar, e);
                    Z3_mk_ite(c, b, self.one, self.zero)
                }
                Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite if w == 1 => {
                    let b = self.trb(ar, e);
                    Z3_mk_ite(c, b, self.one, self.zero)
                }
                Op::Not => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::SExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::Ite => {
                    let q = self.trb(ar, n.a);
                    let a = self.tr(ar, n.b);
                    let b = self.tr(ar, n.c);
                    Z3_mk_ite(c, q, a, b)
                }
                _ => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(r);
        self.bv.insert(e, r);
        r
    }
    /// boolean form of a 1-bit term
    fn trb(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = ar.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Not => {
                    let a = self.trb(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let a = [self.trb(ar, n.a), self.trb(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.trb(ar, n.a), self.trb(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let (a, b) = (self.trb(ar, n.a), self.trb(ar, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let q = self.trb(ar, n.a);
                    let (a, b) = (self.trb(ar, n.b), self.trb(ar, n.c));
                    Z3_mk_ite(c, q, a, b)
                }
                _ => {
                    let a = self.tr(ar, e);
                    Z3_mk_eq(c, a, self.one)
                }
            }
        };
        self.keep(r);
        self.bl.insert(e, r);
        r
    }

    /// Satisfiability of the conjunction of `cs` (already sliced). Model covers exactly the
    /// variables in the support of the constraints.
    pub fn check(&mut self, ar: &Arena, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for e in &key {
                let p = self.trb(ar, *e);
                Z3_solver_assert(self.ctx, self.s, p);
            }
        if let Some((dir, _, _)) = &self.dump {
            let s = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)) }.to_string_lossy().to_string();
            let _ = std::fs::write(dir.join("pending.smt2"), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
        }
            Z3_solver_check(self.ctx, self.s)
        };
        self.stats.queries += 1;
        let out = match r {
            1 => {
                self.stats.sat += 1;
                let mut vs: Vec<u32> = vec![];
                for e in &key {
                    vs.extend_from_slice(ar.support(*e));
                }
                vs.sort_unstable();
                vs.dedup();
                let mut m = vec![];
                unsafe {
                    let mo = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, mo);
                    for v in vs {
                        let p = self.varp(v as usize);
                        let mut out: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        Z3_model_eval(self.ctx, mo, p, true, &mut out);
                        Z3_inc_ref(self.ctx, out);
                        Z3_get_numeral_uint64(self.ctx, out, &mut u);
                        m.push((v, u as u8));
                    }
                    Z3_model_dec_ref(self.ctx, mo);
                }
                Res::Sat(m)
            }
            -1 => {
                self.stats.unsat += 1;
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        if let Some((dir, every, cnt)) = &mut self.dump {
            *cnt += 1;
            if *cnt % *every == 0 && r != 0 {
                let s = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)) }.to_string_lossy().to_string();
                let f = dir.join(format!("q{}.smt2", cnt));
                let _ = std::fs::write(&f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                self.dumped.push((f, r == 1));
            }
        }
        match &out {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            _ => {}
        }
        out
    }
}
