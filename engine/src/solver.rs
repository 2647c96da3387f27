//! Thin binding to libz3 (C API) plus query slicing and caching.
use crate::expr::*;
use crate::ir::BinOp;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ast = *mut c_void;
type Ctx = *mut c_void;
type Ptr = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_mk_context(c: Ptr) -> Ctx;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Ptr;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Ptr;
    fn Z3_mk_const(c: Ctx, s: Ptr, ty: Ptr) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Ptr) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Ptr) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Ptr;
    fn Z3_solver_inc_ref(c: Ctx, s: Ptr);
    fn Z3_mk_params(c: Ctx) -> Ptr;
    fn Z3_params_inc_ref(c: Ctx, p: Ptr);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Ptr;
    fn Z3_params_set_uint(c: Ctx, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Ptr, p: Ptr);
    fn Z3_solver_push(c: Ctx, s: Ptr);
    fn Z3_solver_pop(c: Ctx, s: Ptr, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Ptr, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_model_inc_ref(c: Ctx, m: Ptr);
    fn Z3_model_dec_ref(c: Ctx, m: Ptr);
    fn Z3_model_eval(c: Ctx, m: Ptr, t: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
}

#[derive(Clone)]
pub enum Res {
    Sat(Vec<(u32, u128)>), // symbol index, value, for the symbols in the query
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    s: Ptr,
    asts: HashMap<E, Ast>, // bit-vector terms
    bools: HashMap<E, Ast>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nanos: u64,
    pub dump: Option<std::fs::File>,
}

extern "C" fn on_err(_c: Ctx, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::abort();
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, asts: HashMap::new(), bools: HashMap::new(), cache: HashMap::new(), queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0, nanos: 0, dump: None }
        }
    }
    fn bv(&mut self, e: E) -> Ast {
        if let Some(a) = self.asts.get(&e) {
            return *a;
        }
        let Info { node, w, .. } = x().nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            let so = Z3_mk_bv_sort(c, w);
            match node {
                Node::Const(v) => {
                    if v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, v as u64, so)
                    } else {
                        let st = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), so)
                    }
                }
                Node::Sym(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, (i * 256 + w) as c_int), so),
                Node::Bin(op, a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, p, q),
                        BinOp::Sub => Z3_mk_bvsub(c, p, q),
                        BinOp::Mul => Z3_mk_bvmul(c, p, q),
                        BinOp::UDiv => Z3_mk_bvudiv(c, p, q),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, p, q),
                        BinOp::URem => Z3_mk_bvurem(c, p, q),
                        BinOp::SRem => Z3_mk_bvsrem(c, p, q),
                        BinOp::And => Z3_mk_bvand(c, p, q),
                        BinOp::Or => Z3_mk_bvor(c, p, q),
                        BinOp::Xor => Z3_mk_bvxor(c, p, q),
                        BinOp::Shl => Z3_mk_bvshl(c, p, q),
                        BinOp::LShr => Z3_mk_bvlshr(c, p, q),
                        BinOp::AShr => Z3_mk_bvashr(c, p, q),
                        _ => panic!("floating point term"),
                    }
                }
                Node::Ite(k, a, b) => {
                    let k = self.boolean(k);
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_ite(c, k, p, q)
                }
                Node::Extract(a, lo) => {
                    let p = self.bv(a);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                Node::Concat(h, l) => {
                    let (p, q) = (self.bv(h), self.bv(l));
                    Z3_mk_concat(c, p, q)
                }
                Node::ZExt(a) => {
                    let p = self.bv(a);
                    Z3_mk_zero_ext(c, w - x().w(a), p)
                }
                Node::SExt(a) => {
                    let p = self.bv(a);
                    Z3_mk_sign_ext(c, w - x().w(a), p)
                }
                _ => {
                    let k = self.boolean(e);
                    Z3_mk_ite(c, k, Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
                }
            }
        };
        self.asts.insert(e, r);
        r
    }
    fn boolean(&mut self, e: E) -> Ast {
        if let Some(a) = self.bools.get(&e) {
            return *a;
        }
        let Info { node, w, .. } = x().nodes[e as usize];
        debug_assert_eq!(w, 1);
        let c = self.ctx;
        let r = unsafe {
            match node {
                Node::Eq(a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_eq(c, p, q)
                }
                Node::Ult(a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_bvult(c, p, q)
                }
                Node::Ule(a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_bvule(c, p, q)
                }
                Node::Slt(a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_bvslt(c, p, q)
                }
                Node::Sle(a, b) => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    Z3_mk_bvsle(c, p, q)
                }
                Node::Not(a) => {
                    let p = self.boolean(a);
                    Z3_mk_not(c, p)
                }
                Node::Bin(BinOp::And, a, b) => {
                    let v = [self.boolean(a), self.boolean(b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(BinOp::Or, a, b) => {
                    let v = [self.boolean(a), self.boolean(b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Bin(BinOp::Xor, a, b) => {
                    let (p, q) = (self.boolean(a), self.boolean(b));
                    Z3_mk_xor(c, p, q)
                }
                _ => {
                    let p = self.bv(e);
                    let so = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, p, Z3_mk_unsigned_int64(c, 1, so))
                }
            }
        };
        self.bools.insert(e, r);
        r
    }
    fn collect_syms(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<E>) {
        if !seen.insert(e) {
            return;
        }
        match x().node(e) {
            Node::Const(_) => {}
            Node::Sym(_) => out.push(e),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.collect_syms(a, seen, out),
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Ule(a, b) | Node::Slt(a, b) | Node::Sle(a, b) | Node::Concat(a, b) => {
                self.collect_syms(a, seen, out);
                self.collect_syms(b, seen, out);
            }
            Node::Ite(a, b, c) => {
                self.collect_syms(a, seen, out);
                self.collect_syms(b, seen, out);
                self.collect_syms(c, seen, out);
            }
        }
    }
    /// the conjuncts of `pc` connected (through shared symbols) with `q`
    pub fn slice(pc: &[E], q: &[E]) -> Vec<E> {
        let mut m = 0u128;
        for e in q {
            m |= x().syms(*e);
        }
        let mut take = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if !take[i] {
                    let s = x().syms(*e);
                    if s & m != 0 {
                        take[i] = true;
                        ch = true;
                        m |= s;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().zip(take).filter(|(_, t)| *t).map(|(e, _)| *e).collect()
    }
    pub fn check(&mut self, pc: &[E], q: E) -> Res {
        if let Some(v) = x().cval(q) {
            if v == 0 {
                return Res::Unsat;
            }
        }
        let mut set = Self::slice(pc, &[q]);
        set.push(q);
        set.sort();
        set.dedup();
        if let Some(r) = self.cache.get(&set) {
            self.cached += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for e in &set {
                let a = self.boolean(*e);
                Z3_solver_assert(self.ctx, self.s, a);
            }
            let k = Z3_solver_check(self.ctx, self.s);
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut seen = Default::default();
                    let mut syms = vec![];
                    for e in &set {
                        self.collect_syms(*e, &mut seen, &mut syms);
                    }
                    let mut v = vec![];
                    for s in syms {
                        let a = self.bv(s);
                        let mut out: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut out) {
                            let mut u = 0u64;
                            let val = if Z3_get_numeral_uint64(self.ctx, out, &mut u) {
                                u as u128
                            } else {
                                let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out));
                                st.to_str().unwrap().parse::<u128>().unwrap_or(0)
                            };
                            if let Node::Sym(i) = x().node(s) {
                                v.push((i, val));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            r
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(set, r.clone());
        r
    }
}
