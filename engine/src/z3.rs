//! Minimal binding to libz3 and translation of expressions.

use crate::expr::*;
use crate::ir::{BinOp, FBinOp};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
pub type Ast = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_code(c: Ctx) -> c_int;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> P;
    fn Z3_mk_int_sort(c: Ctx) -> P;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> P;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, sort: P) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, sort: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> P;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> P;
    fn Z3_mk_simple_solver(c: Ctx) -> P;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_reset(c: Ctx, s: P);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: Ctx, s: P) -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: Ctx, _e: c_int) {}

pub enum Answer { Sat(HashMap<u32, u128>), Unsat, Unknown(String) }

pub struct Z3 {
    c: Ctx,
    solver: P,
    simple: P,
    bits: HashMap<E, Ast>,
    fps: HashMap<E, Ast>,
    bools: HashMap<E, Ast>,
    lows: HashMap<(E, u32), Ast>,
    /// solver and terms of the encoding in integers
    linear: P,
    ints: HashMap<E, Option<Ast>>,
    int_bools: HashMap<E, Option<Ast>>,
    pub int_queries: u64,
    /// decide every n-th integer query in bit vectors too
    pub cross_every: u64,
    pub crossed: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
    pub last: f64,
    pub timeout_ms: u32,
    /// collect every n-th query as SMT-LIB text
    pub dump_every: u64,
    pub dumps: Vec<(String, bool)>,
    fp_sort: P,
}

/// bits that hold the signed value of an expression wider than a byte
fn bits(p: &Pool, e: E) -> u32 {
    let w = p.w(e);
    if w <= 8 || w > 64 { return w; }
    let i = &p.info[e as usize];
    let need = |v: i128| 129 - if v < 0 { (!v).leading_zeros() } else { v.leading_zeros() };
    need(i.slo).max(need(i.shi)).min(w)
}

/// neither operand has its sign bit set
fn plain(p: &Pool, x: E, y: E) -> bool {
    p.w(x) > 8 && p.w(x) <= 64 && p.info[x as usize].slo >= 0 && p.info[y as usize].slo >= 0
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

impl Drop for Z3 { fn drop(&mut self) { unsafe { Z3_del_context(self.c) } } }

impl Z3 {
    pub fn new(timeout_ms: u32, seed: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mk = |s: P, timeout_ms: u32| {
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let t = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
                let t = CString::new("random_seed").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), seed);
                Z3_solver_set_params(c, s, p);
                s
            };
            let solver = mk(Z3_mk_solver(c), timeout_ms);
            let simple = mk(Z3_mk_simple_solver(c), timeout_ms);
            let linear = mk(Z3_mk_simple_solver(c), timeout_ms.min(2000));
            let fp_sort = Z3_mk_fpa_sort_64(c);
            Z3 { c, solver, simple, bits: HashMap::new(), fps: HashMap::new(), bools: HashMap::new(), lows: HashMap::new(), linear, ints: HashMap::new(), int_bools: HashMap::new(), int_queries: 0, cross_every: 0, crossed: 0, queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0, last: 0.0, timeout_ms, dump_every: 0, dumps: vec![], fp_sort }
        }
    }

    fn numeral(&mut self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }

    /// boolean view of a width 1 expression
    fn b(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bools.get(&e) { return a; }
        let c = self.c;
        let r = unsafe {
            match p.n(e) {
                N::K(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Bin(BinOp::And, x, y) => { let v = [self.b(p, x), self.b(p, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::Bin(BinOp::Or, x, y) => { let v = [self.b(p, x), self.b(p, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                N::Bin(BinOp::Xor, x, y) => {
                    if p.konst(y) == Some(1) { Z3_mk_not(c, self.b(p, x)) } else { Z3_mk_xor(c, self.b(p, x), self.b(p, y)) }
                }
                N::Eq(x, y) => if p.w(x) == 1 { Z3_mk_eq(c, self.b(p, x), self.b(p, y)) } else { let (a, b) = self.pair(p, x, y); Z3_mk_eq(c, a, b) },
                N::Ult(x, y) => if plain(p, x, y) { let (a, b) = self.pair(p, x, y); Z3_mk_bvslt(c, a, b) } else { Z3_mk_bvult(c, self.v(p, x), self.v(p, y)) },
                N::Ule(x, y) => if plain(p, x, y) { let (a, b) = self.pair(p, x, y); Z3_mk_bvsle(c, a, b) } else { Z3_mk_bvule(c, self.v(p, x), self.v(p, y)) },
                N::Slt(x, y) => { let (a, b) = self.pair(p, x, y); Z3_mk_bvslt(c, a, b) }
                N::Sle(x, y) => { let (a, b) = self.pair(p, x, y); Z3_mk_bvsle(c, a, b) }
                N::Ite(q, x, y) => Z3_mk_ite(c, self.b(p, q), self.b(p, x), self.b(p, y)),
                N::FEq(x, y) => Z3_mk_fpa_eq(c, self.f(p, x), self.f(p, y)),
                N::FLt(x, y) => Z3_mk_fpa_lt(c, self.f(p, x), self.f(p, y)),
                N::FLe(x, y) => Z3_mk_fpa_leq(c, self.f(p, x), self.f(p, y)),
                N::FNan(x) => Z3_mk_fpa_is_nan(c, self.f(p, x)),
                _ => { let one = self.numeral(1, 1); Z3_mk_eq(c, self.v(p, e), one) }
            }
        };
        self.bools.insert(e, r);
        r
    }

    /// both operands in the smallest common width that keeps their signed value
    fn pair(&mut self, p: &Pool, x: E, y: E) -> (Ast, Ast) {
        let n = bits(p, x).max(bits(p, y));
        if n < p.w(x) { (self.low(p, x, n), self.low(p, y, n)) } else { (self.v(p, x), self.v(p, y)) }
    }

    /// the n lowest bits of a wider expression
    fn low(&mut self, p: &Pool, e: E, n: u32) -> Ast {
        let w = p.w(e);
        if n == w { return self.v(p, e); }
        if let Some(&a) = self.lows.get(&(e, n)) { return a; }
        let c = self.c;
        let have = bits(p, e);
        let r = unsafe {
            match p.n(e) {
                N::K(v) => self.numeral(v & mask(n), n),
                // the value fits in fewer bits: computed in those
                _ if have < n => { let a = self.low(p, e, have); Z3_mk_sign_ext(c, n - have, a) }
                N::Var(_) if have == n => self.var(p, e),
                N::Bin(op, x, y) if matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                    let (a, b) = (self.low(p, x, n), self.low(p, y, n));
                    match op { BinOp::Add => Z3_mk_bvadd(c, a, b), BinOp::Sub => Z3_mk_bvsub(c, a, b), _ => Z3_mk_bvmul(c, a, b) }
                }
                N::Bin(BinOp::Shl, x, y) if p.konst(y).map_or(false, |k| k < n as u128) => {
                    let k = self.numeral(p.konst(y).unwrap(), n);
                    let a = self.low(p, x, n);
                    Z3_mk_bvshl(c, a, k)
                }
                N::Ite(q, x, y) => { let (q, a, b) = (self.b(p, q), self.low(p, x, n), self.low(p, y, n)); Z3_mk_ite(c, q, a, b) }
                N::SExt(x) | N::ZExt(x) if p.w(x) >= n => self.low(p, x, n),
                _ => { let a = self.full(p, e); Z3_mk_extract(c, n - 1, 0, a) }
            }
        };
        self.lows.insert((e, n), r);
        r
    }

    /// constant of a variable, as wide as its range needs
    fn var(&mut self, p: &Pool, e: E) -> Ast {
        let id = if let N::Var(id) = p.n(e) { id } else { unreachable!() };
        let s = CString::new(format!("v{}", id)).unwrap();
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bv_sort(self.c, bits(p, e))) }
    }

    /// bit vector view
    fn v(&mut self, p: &Pool, e: E) -> Ast {
        let (w, n) = (p.w(e), bits(p, e));
        if n < w && matches!(p.n(e), N::Var(_) | N::Ite(..) | N::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::Shl, ..)) {
            let a = self.low(p, e, n);
            return unsafe { Z3_mk_sign_ext(self.c, w - n, a) };
        }
        self.full(p, e)
    }

    fn full(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.bits.get(&e) { return a; }
        let c = self.c;
        let w = p.w(e);
        let r = unsafe {
            match p.n(e) {
                N::K(v) => self.numeral(v, w),
                N::Var(_) => {
                    let a = self.var(p, e);
                    if bits(p, e) < w { Z3_mk_sign_ext(c, w - bits(p, e), a) } else { a }
                }
                N::Bin(op, x, y) if w > 1 || !matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                    let a = self.v(p, x);
                    let b = self.v(p, y);
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, a, b), BinOp::Sub => Z3_mk_bvsub(c, a, b), BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b), BinOp::SDiv => Z3_mk_bvsdiv(c, a, b), BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b), BinOp::And => Z3_mk_bvand(c, a, b), BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b), BinOp::Shl => Z3_mk_bvshl(c, a, b), BinOp::LShr => Z3_mk_bvlshr(c, a, b), BinOp::AShr => Z3_mk_bvashr(c, a, b),
                    }
                }
                N::Ite(q, x, y) if w > 1 => Z3_mk_ite(c, self.b(p, q), self.v(p, x), self.v(p, y)),
                N::ZExt(x) => { let xw = p.w(x); Z3_mk_zero_ext(c, w - xw, self.v(p, x)) }
                N::SExt(x) => { let xw = p.w(x); Z3_mk_sign_ext(c, w - xw, self.v(p, x)) }
                N::Extract(x, lo) => Z3_mk_extract(c, lo + w - 1, lo, self.v(p, x)),
                N::Concat(h, l) => Z3_mk_concat(c, self.v(p, h), self.v(p, l)),
                N::FToSi(x) => {
                    // saturating
                    let fx = self.f(p, x);
                    let raw = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fx, 64);
                    let kmax = self.numeral(9223372036854775808f64.to_bits() as u128, 64);
                    let kmin = self.numeral((-9223372036854775808f64).to_bits() as u128, 64);
                    let fmax = Z3_mk_fpa_to_fp_bv(c, kmax, self.fp_sort);
                    let fmin = Z3_mk_fpa_to_fp_bv(c, kmin, self.fp_sort);
                    let imax = self.numeral(i64::MAX as u128, 64);
                    let imin = self.numeral(1u128 << 63, 64);
                    let z = self.numeral(0, 64);
                    let a = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fmax, fx), imax, raw);
                    let b = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fx, fmin), imin, a);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fx), z, b)
                }
                N::FToUi(x) => {
                    let fx = self.f(p, x);
                    let raw = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fx, 64);
                    let kmax = self.numeral(18446744073709551616f64.to_bits() as u128, 64);
                    let fmax = Z3_mk_fpa_to_fp_bv(c, kmax, self.fp_sort);
                    let z = self.numeral(0, 64);
                    let fz = Z3_mk_fpa_to_fp_bv(c, z, self.fp_sort);
                    let umax = self.numeral(u64::MAX as u128, 64);
                    let a = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fmax, fx), umax, raw);
                    let b = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fx, fz), z, a);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, fx), z, b)
                }
                N::FBin(..) | N::FSqrt(_) | N::FRnd(..) | N::SiToF(_) | N::UiToF(_) | N::Grid(..) => Z3_mk_fpa_to_ieee_bv(c, self.f(p, e)),
                N::F32(x) => { let a = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.f(p, x), Z3_mk_fpa_sort_32(c)); Z3_mk_fpa_to_ieee_bv(c, a) }
                _ => {
                    // boolean as a one bit vector
                    let q = self.b(p, e);
                    let one = self.numeral(1, 1);
                    let zero = self.numeral(0, 1);
                    Z3_mk_ite(c, q, one, zero)
                }
            }
        };
        self.bits.insert(e, r);
        r
    }

    /// floating point view of a 64 bit expression
    fn f(&mut self, p: &Pool, e: E) -> Ast {
        if let Some(&a) = self.fps.get(&e) { return a; }
        let c = self.c;
        let r = unsafe {
            let rne = Z3_mk_fpa_rne(c);
            match p.n(e) {
                N::FBin(op, x, y) if op != FBinOp::Rem => {
                    let a = self.f(p, x);
                    let b = self.f(p, y);
                    match op { FBinOp::Add => Z3_mk_fpa_add(c, rne, a, b), FBinOp::Sub => Z3_mk_fpa_sub(c, rne, a, b), FBinOp::Mul => Z3_mk_fpa_mul(c, rne, a, b), _ => Z3_mk_fpa_div(c, rne, a, b) }
                }
                N::FSqrt(x) => Z3_mk_fpa_sqrt(c, rne, self.f(p, x)),
                N::FRnd(RND_F32, x) => { let a = Z3_mk_fpa_to_fp_float(c, rne, self.f(p, x), Z3_mk_fpa_sort_32(c)); Z3_mk_fpa_to_fp_float(c, rne, a, self.fp_sort) }
                N::FRnd(m, x) => {
                    let rm = match m { RND_FLOOR => Z3_mk_fpa_rtn(c), RND_CEIL => Z3_mk_fpa_rtp(c), RND_TRUNC => Z3_mk_fpa_rtz(c), RND_AWAY => Z3_mk_fpa_rna(c), _ => rne };
                    Z3_mk_fpa_round_to_integral(c, rm, self.f(p, x))
                }
                N::SiToF(x) => Z3_mk_fpa_to_fp_signed(c, rne, self.v(p, x), self.fp_sort),
                N::UiToF(x) => Z3_mk_fpa_to_fp_unsigned(c, rne, self.v(p, x), self.fp_sort),
                N::Grid(k, s) => {
                    let a = Z3_mk_fpa_to_fp_signed(c, rne, self.v(p, k), self.fp_sort);
                    if s == 0 { a } else {
                        let n = self.numeral((1.0 / (1u64 << s) as f64).to_bits() as u128, 64);
                        Z3_mk_fpa_mul(c, rne, a, Z3_mk_fpa_to_fp_bv(c, n, self.fp_sort))
                    }
                }
                N::FBin(..) => {
                    // remainder is not encoded: unconstrained value (checked by the caller)
                    let s = CString::new(format!("frem{}", e)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.fp_sort)
                }
                _ => Z3_mk_fpa_to_fp_bv(c, self.v(p, e), self.fp_sort),
            }
        };
        self.fps.insert(e, r);
        r
    }

    fn int_numeral(&mut self, v: i128) -> Ast {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_int_sort(self.c))
        }
    }

    /// the signed value of an expression as an integer term; only where no operation can wrap
    fn int(&mut self, p: &Pool, e: E) -> Option<Ast> {
        if let Some(&a) = self.ints.get(&e) { return a; }
        let r = self.int_term(p, e);
        self.ints.insert(e, r);
        r
    }

    fn int_term(&mut self, p: &Pool, e: E) -> Option<Ast> {
        let c = self.c;
        let w = p.w(e);
        if w < 2 || w > 64 { return None; }
        let (min, max) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fits = |l: i128, h: i128| l >= min && h <= max;
        unsafe {
            match p.n(e) {
                N::K(v) => Some(self.int_numeral(sx(v, w))),
                N::Var(id) => {
                    let s = CString::new(format!("i{}", id)).unwrap();
                    Some(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_int_sort(c)))
                }
                N::Bin(op, x, y) => {
                    let (a, b) = (&p.info[x as usize], &p.info[y as usize]);
                    match op {
                        BinOp::Add if fits(a.slo + b.slo, a.shi + b.shi) => { let v = [self.int(p, x)?, self.int(p, y)?]; Some(Z3_mk_add(c, 2, v.as_ptr())) }
                        BinOp::Sub if fits(a.slo - b.shi, a.shi - b.slo) => { let v = [self.int(p, x)?, self.int(p, y)?]; Some(Z3_mk_sub(c, 2, v.as_ptr())) }
                        BinOp::Mul => {
                            let (k, z) = if let Some(k) = p.konst(x) { (k, y) } else { (p.konst(y)?, x) };
                            let k = sx(k, w);
                            let i = &p.info[z as usize];
                            let (l, h) = (i.slo * k, i.shi * k);
                            if !fits(l.min(h), l.max(h)) { return None; }
                            let v = [self.int_numeral(k), self.int(p, z)?];
                            Some(Z3_mk_mul(c, 2, v.as_ptr()))
                        }
                        BinOp::Shl => {
                            let k = p.konst(y)?;
                            if k >= w as u128 || !fits(a.slo << k, a.shi << k) { return None; }
                            let v = [self.int_numeral(1i128 << k), self.int(p, x)?];
                            Some(Z3_mk_mul(c, 2, v.as_ptr()))
                        }
                        _ => None,
                    }
                }
                N::Ite(q, x, y) => { let (q, a, b) = (self.int_bool(p, q)?, self.int(p, x)?, self.int(p, y)?); Some(Z3_mk_ite(c, q, a, b)) }
                N::SExt(x) => self.int(p, x),
                N::ZExt(x) if p.info[x as usize].slo >= 0 => self.int(p, x),
                N::Extract(x, 0) if fits(p.info[x as usize].slo, p.info[x as usize].shi) => self.int(p, x),
                _ => None,
            }
        }
    }

    fn int_bool(&mut self, p: &Pool, e: E) -> Option<Ast> {
        if let Some(&a) = self.int_bools.get(&e) { return a; }
        let r = self.int_atom(p, e);
        self.int_bools.insert(e, r);
        r
    }

    fn int_atom(&mut self, p: &Pool, e: E) -> Option<Ast> {
        let c = self.c;
        if p.w(e) != 1 { return None; }
        let positive = |x: E, y: E| p.info[x as usize].slo >= 0 && p.info[y as usize].slo >= 0;
        unsafe {
            Some(match p.n(e) {
                N::K(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Bin(BinOp::And, x, y) => { let v = [self.int_bool(p, x)?, self.int_bool(p, y)?]; Z3_mk_and(c, 2, v.as_ptr()) }
                N::Bin(BinOp::Or, x, y) => { let v = [self.int_bool(p, x)?, self.int_bool(p, y)?]; Z3_mk_or(c, 2, v.as_ptr()) }
                N::Bin(BinOp::Xor, x, y) => if p.konst(y) == Some(1) { Z3_mk_not(c, self.int_bool(p, x)?) } else { Z3_mk_xor(c, self.int_bool(p, x)?, self.int_bool(p, y)?) },
                N::Eq(x, y) => if p.w(x) == 1 { Z3_mk_eq(c, self.int_bool(p, x)?, self.int_bool(p, y)?) } else { Z3_mk_eq(c, self.int(p, x)?, self.int(p, y)?) },
                N::Ult(x, y) if p.w(x) > 1 && positive(x, y) => Z3_mk_lt(c, self.int(p, x)?, self.int(p, y)?),
                N::Ule(x, y) if p.w(x) > 1 && positive(x, y) => Z3_mk_le(c, self.int(p, x)?, self.int(p, y)?),
                N::Slt(x, y) => Z3_mk_lt(c, self.int(p, x)?, self.int(p, y)?),
                N::Sle(x, y) => Z3_mk_le(c, self.int(p, x)?, self.int(p, y)?),
                N::Ite(q, x, y) => Z3_mk_ite(c, self.int_bool(p, q)?, self.int_bool(p, x)?, self.int_bool(p, y)?),
                _ => return None,
            })
        }
    }

    /// the query in linear integer arithmetic; none where it cannot be put that way or is not decided soon
    fn check_linear(&mut self, p: &Pool, cons: &[E], vars: &[u32]) -> Option<Answer> {
        let c = self.c;
        let mut all = vec![];
        for &e in cons { all.push(self.int_bool(p, e)?); }
        for &v in vars {
            let i = &p.info[p.vars[v as usize].node as usize];
            let (slo, shi) = (i.slo, i.shi);
            let x = self.int(p, p.vars[v as usize].node)?;
            let (l, h) = (self.int_numeral(slo), self.int_numeral(shi));
            unsafe { all.push(Z3_mk_le(c, l, x)); all.push(Z3_mk_le(c, x, h)); }
            for i in 0..p.vars[v as usize].cons.len() { all.push(self.int_bool(p, p.vars[v as usize].cons[i])?); }
        }
        unsafe {
            let s = self.linear;
            Z3_solver_reset(c, s);
            for a in all { Z3_solver_assert(c, s, a); }
            if Z3_get_error_code(c) != 0 { return None; }
            match Z3_solver_check(c, s) {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = HashMap::new();
                    let mut ok = true;
                    for &v in vars {
                        let e = p.vars[v as usize].node;
                        let a = self.int(p, e)?;
                        let mut o: Ast = std::ptr::null_mut();
                        Z3_model_eval(c, m, a, true, &mut o);
                        let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().to_string();
                        match st.parse::<i128>() { Ok(x) => { out.insert(v, x as u128 & mask(p.w(e))); } Err(_) => ok = false }
                    }
                    Z3_model_dec_ref(c, m);
                    if ok { Some(Answer::Sat(out)) } else { None }
                }
                -1 => Some(Answer::Unsat),
                _ => None,
            }
        }
    }

    pub fn check(&mut self, p: &Pool, cons: &[E]) -> Answer {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut vars: Vec<u32> = vec![];
        let mut has_fp = false;
        let mut seen: HashMap<E, ()> = HashMap::new();
        for &e in cons {
            vars.extend_from_slice(&p.info[e as usize].supp);
            has_fp |= mentions_fp(p, e, &mut seen);
        }
        vars.sort();
        vars.dedup();
        if !has_fp && linear_shape(p, cons) {
            if let Some(r) = self.check_linear(p, cons, &vars) {
                self.int_queries += 1;
                let agreed = if self.cross_every > 0 && self.int_queries % self.cross_every == 0 {
                    self.crossed += 1;
                    match (self.check_bits(p, cons, &vars, has_fp), &r) {
                        (Answer::Sat(_), Answer::Unsat) | (Answer::Unsat, Answer::Sat(_)) => false,
                        _ => true,
                    }
                } else { true };
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                self.last = dt;
                if dt > self.max_time { self.max_time = dt; }
                if !agreed { return Answer::Unknown("integer and bit vector encodings disagree".to_string()); }
                match r { Answer::Sat(_) => self.sat += 1, _ => self.unsat += 1 }
                return r;
            }
        }
        let r = self.check_bits(p, cons, &vars, has_fp);
        match r { Answer::Sat(_) => self.sat += 1, Answer::Unsat => self.unsat += 1, _ => {} }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.last = dt;
        if dt > self.max_time { self.max_time = dt; }
        r
    }

    /// is the table the truth of a condition over one byte? Unsat when no value of the byte differs
    pub fn check_table(&mut self, p: &Pool, e: E, v: u32, t: [u64; 4]) -> Answer {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let c = self.c;
        let on = |x: usize| t[x / 64] >> (x % 64) & 1 == 1;
        let r = unsafe {
            let s = self.simple;
            Z3_solver_reset(c, s);
            let node = p.vars[v as usize].node;
            let byte = self.v(p, node);
            let mut runs = vec![];
            let mut x = 0;
            while x < 256 {
                if !on(x) { x += 1; continue; }
                let lo = x;
                while x < 256 && on(x) { x += 1; }
                let (a, b) = (self.numeral(lo as u128, 8), self.numeral(x as u128 - 1, 8));
                let both = [Z3_mk_bvule(c, a, byte), Z3_mk_bvule(c, byte, b)];
                runs.push(if lo == x - 1 { Z3_mk_eq(c, byte, a) } else { Z3_mk_and(c, 2, both.as_ptr()) });
            }
            let member = match runs.len() { 0 => Z3_mk_false(c), 1 => runs[0], n => Z3_mk_or(c, n as c_uint, runs.as_ptr()) };
            let cond = self.b(p, e);
            Z3_solver_assert(c, s, Z3_mk_xor(c, cond, member));
            for i in 0..p.vars[v as usize].cons.len() {
                let a = self.b(p, p.vars[v as usize].cons[i]);
                Z3_solver_assert(c, s, a);
            }
            if Z3_get_error_code(c) != 0 { return Answer::Unknown(format!("z3 error {}", Z3_get_error_code(c))); }
            match Z3_solver_check(c, s) { 1 => { self.sat += 1; Answer::Sat(HashMap::new()) } -1 => { self.unsat += 1; Answer::Unsat } _ => Answer::Unknown("table".to_string()) }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.last = dt;
        if dt > self.max_time { self.max_time = dt; }
        r
    }

    fn check_bits(&mut self, p: &Pool, cons: &[E], vars: &[u32], has_fp: bool) -> Answer {
        let c = self.c;
        unsafe {
            let s = if has_fp { self.solver } else { self.simple };
            Z3_solver_reset(c, s);
            for &e in cons { let a = self.b(p, e); Z3_solver_assert(c, s, a); }
            for &v in vars {
                for i in 0..p.vars[v as usize].cons.len() {
                    let a = self.b(p, p.vars[v as usize].cons[i]);
                    Z3_solver_assert(c, s, a);
                }
            }
            if Z3_get_error_code(c) != 0 { return Answer::Unknown(format!("z3 error {}", Z3_get_error_code(c))); }
            let r = Z3_solver_check(c, s);
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && r != 0 && self.dumps.len() < 40 {
                let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                if t.len() < 200_000 { self.dumps.push((t, r == 1)); }
            }
            match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = HashMap::new();
                    for &v in vars {
                        let e = p.vars[v as usize].node;
                        let a = self.full(p, e);
                        let mut o: Ast = std::ptr::null_mut();
                        Z3_model_eval(c, m, a, true, &mut o);
                        let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().to_string();
                        out.insert(v, st.parse::<u128>().unwrap_or(0));
                    }
                    Z3_model_dec_ref(c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().to_string()),
            }
        }
    }
}

/// several comparisons between expressions that both vary: sums rather than texts
fn linear_shape(p: &Pool, cons: &[E]) -> bool {
    let mut seen: HashMap<E, ()> = HashMap::new();
    let mut todo: Vec<E> = cons.to_vec();
    let mut n = 0;
    while let Some(e) = todo.pop() {
        if seen.insert(e, ()).is_some() { continue; }
        match p.n(e) {
            N::Eq(x, y) | N::Slt(x, y) | N::Sle(x, y) | N::Ult(x, y) | N::Ule(x, y) => {
                if p.w(x) > 8 && p.konst(x).is_none() && p.konst(y).is_none() { n += 1; }
                todo.push(x);
                todo.push(y);
            }
            N::Bin(_, x, y) => { todo.push(x); todo.push(y); }
            N::Ite(q, x, y) => { todo.push(q); todo.push(x); todo.push(y); }
            N::K(_) | N::Var(_) => {}
            N::SExt(x) | N::ZExt(x) | N::Extract(x, 0) => todo.push(x),
            _ => return false,
        }
    }
    n >= 2
}

fn mentions_fp(p: &Pool, e: E, seen: &mut HashMap<E, ()>) -> bool {
    if seen.insert(e, ()).is_some() { return false; }
    match p.n(e) {
        N::K(_) | N::Var(_) => false,
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Concat(a, b) => mentions_fp(p, a, seen) || mentions_fp(p, b, seen),
        N::Ite(a, b, c) => mentions_fp(p, a, seen) || mentions_fp(p, b, seen) || mentions_fp(p, c, seen),
        N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => mentions_fp(p, a, seen),
        _ => true,
    }
}
