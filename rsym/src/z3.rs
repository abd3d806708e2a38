//! Minimal bindings to the system libz3 and a per-thread solver.
#![allow(non_camel_case_types, non_snake_case)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    ctx: P,
    solver: P,
    /// Z3's incremental core: much less set-up cost per query, tried first under a resource limit
    fast: P,
    pub fallbacks: u64,
    sorts: Vec<P>,
    ast: Vec<P>,  // bit-vector form per Eid
    bast: Vec<P>, // boolean form for width-1
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    timeout_ms: u32,
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mk = |name: &str| {
                let k = CString::new(name).unwrap();
                Z3_mk_string_symbol(ctx, k.as_ptr())
            };
            let solver = Z3_mk_solver_for_logic(ctx, mk("QF_BV"));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, mk("timeout"), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            let fast = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, fast);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let rl = std::env::var("RSYM_FAST_RLIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(3_000_000);
            Z3_params_set_uint(ctx, p, mk("rlimit"), rl);
            Z3_solver_set_params(ctx, fast, p);
            Z3 {
                ctx,
                solver,
                fast,
                fallbacks: 0,
                sorts: vec![std::ptr::null_mut(); 129],
                ast: vec![],
                bast: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                timeout_ms,
                dump: vec![],
                dump_every: 0,
            }
        }
    }
    /// Forget translated terms (the arena was replaced).
    pub fn reset(&mut self) {
        let t = self.timeout_ms;
        let (q, s, u, k, ti, mt) = (self.queries, self.sat, self.unsat, self.unknown, self.time, self.max_time);
        let d = std::mem::take(&mut self.dump);
        let (de, fb) = (self.dump_every, self.fallbacks);
        unsafe { Z3_del_context(self.ctx) };
        *self = Z3::new(t);
        self.queries = q;
        self.sat = s;
        self.unsat = u;
        self.unknown = k;
        self.time = ti;
        self.max_time = mt;
        self.dump = d;
        self.dump_every = de;
        self.fallbacks = fb;
    }
    fn sort(&mut self, w: u32) -> P {
        let s = self.sorts[w as usize];
        if !s.is_null() {
            return s;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            Z3_inc_ref(self.ctx, s);
            self.sorts[w as usize] = s;
            s
        }
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    pub fn tr(&mut self, ar: &Arena, e: Eid) -> P {
        if self.ast.len() < ar.nodes.len() {
            self.ast.resize(ar.nodes.len(), std::ptr::null_mut());
            self.bast.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let info = ar.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match info.n {
                Node::Const(v) => self.num(v, info.w),
                Node::Sym(i) => {
                    let n = CString::new(format!("b{}", i)).unwrap();
                    let s = self.sort(8);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s)
                }
                Node::Bin(..) | Node::Cmp(..) if info.w == 1 => {
                    let b = self.trb(ar, e);
                    // each result lives only until the next call unless referenced
                    let one = self.num(1, 1);
                    Z3_inc_ref(c, one);
                    let zero = self.num(0, 1);
                    Z3_inc_ref(c, zero);
                    Z3_mk_ite(c, b, one, zero)
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.tr(ar, a), self.tr(ar, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::Cmp(..) => unreachable!(),
                Node::Concat(h, l) => {
                    let (x, y) = (self.tr(ar, h), self.tr(ar, l));
                    Z3_mk_concat(c, x, y)
                }
                Node::Extract(a, lo) => {
                    let x = self.tr(ar, a);
                    Z3_mk_extract(c, lo + info.w - 1, lo, x)
                }
                Node::ZExt(a) => {
                    let x = self.tr(ar, a);
                    Z3_mk_zero_ext(c, info.w - ar.w(a), x)
                }
                Node::SExt(a) => {
                    let x = self.tr(ar, a);
                    Z3_mk_sign_ext(c, info.w - ar.w(a), x)
                }
                Node::Ite(k, a, b) => {
                    let k = self.trb(ar, k);
                    let (x, y) = (self.tr(ar, a), self.tr(ar, b));
                    Z3_mk_ite(c, k, x, y)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.ast[e as usize] = r;
        r
    }
    /// boolean form of a width-1 term
    fn trb(&mut self, ar: &Arena, e: Eid) -> P {
        if self.ast.len() < ar.nodes.len() {
            self.ast.resize(ar.nodes.len(), std::ptr::null_mut());
            self.bast.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.bast[e as usize].is_null() {
            return self.bast[e as usize];
        }
        let info = ar.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            match info.n {
                Node::Cmp(k, a, b) => {
                    let (x, y) = (self.tr(ar, a), self.tr(ar, b));
                    match k {
                        Cmp::Eq => Z3_mk_eq(c, x, y),
                        Cmp::Ult => Z3_mk_bvult(c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(c, x, y),
                    }
                }
                Node::Bin(Op::Xor, a, b) if ar.konst(b) == Some(1) => {
                    let x = self.trb(ar, a);
                    Z3_mk_not(c, x)
                }
                Node::Bin(Op::Xor, a, b) => {
                    let (x, y) = (self.trb(ar, a), self.trb(ar, b));
                    let q = Z3_mk_eq(c, x, y);
                    Z3_inc_ref(c, q);
                    Z3_mk_not(c, q)
                }
                Node::Bin(Op::And, a, b) => {
                    let (x, y) = (self.trb(ar, a), self.trb(ar, b));
                    let f = Z3_mk_false(c);
                    Z3_mk_ite(c, x, y, f)
                }
                Node::Bin(Op::Or, a, b) => {
                    let (x, y) = (self.trb(ar, a), self.trb(ar, b));
                    let t = Z3_mk_true(c);
                    Z3_mk_ite(c, x, t, y)
                }
                Node::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Bin(op, a, b) => {
                    // remaining width-1 arithmetic
                    let (x, y) = (self.tr(ar, a), self.tr(ar, b));
                    let t = match op {
                        Op::Add | Op::Sub => Z3_mk_bvxor(c, x, y),
                        Op::Mul => Z3_mk_bvand(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        _ => Z3_mk_bvashr(c, x, y),
                    };
                    Z3_inc_ref(c, t);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
                _ => {
                    let x = self.tr(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bast[e as usize] = r;
        r
    }
    /// Satisfiability of the conjunction; on Sat returns values of `syms`.
    pub fn check(&mut self, ar: &Arena, cs: &[Eid], syms: &[u32]) -> (Res, Vec<u8>) {
        let t0 = Instant::now();
        let mut out = vec![];
        let res;
        let mut used = self.solver;
        unsafe {
            let bs: Vec<P> = cs.iter().map(|c| self.trb(ar, *c)).collect();
            let mut r = Res::Unknown;
            for sv in [self.fast, self.solver] {
                Z3_solver_reset(self.ctx, sv);
                for b in &bs {
                    Z3_solver_assert(self.ctx, sv, *b);
                }
                let k = Z3_solver_check(self.ctx, sv);
                let err = Z3_get_error_code(self.ctx);
                used = sv;
                r = match (err, k) {
                    (0, 1) => Res::Sat,
                    (0, -1) => Res::Unsat,
                    _ => Res::Unknown,
                };
                if r != Res::Unknown {
                    break;
                }
                if sv == self.fast {
                    self.fallbacks += 1;
                }
            }
            res = r;
            if res == Res::Sat {
                let m = Z3_solver_get_model(self.ctx, used);
                Z3_model_inc_ref(self.ctx, m);
                for s in syms {
                    // the symbol is already interned: its term exists if it occurs in cs
                    let n = CString::new(format!("b{}", s)).unwrap();
                    let so = self.sort(8);
                    let k = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), so);
                    Z3_inc_ref(self.ctx, k);
                    let mut v: P = std::ptr::null_mut();
                    let mut x = 0u64;
                    if Z3_model_eval(self.ctx, m, k, true, &mut v) && !v.is_null() {
                        Z3_get_numeral_uint64(self.ctx, v, &mut x);
                    }
                    out.push(x as u8);
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && res != Res::Unknown && self.dump.len() < 64 {
                let s = CStr::from_ptr(Z3_solver_to_string(self.ctx, used)).to_string_lossy().into_owned();
                self.dump.push((s, res == Res::Sat));
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match res {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        (res, out)
    }
}
extern "C" {
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
}
