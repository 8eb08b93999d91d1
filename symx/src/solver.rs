//! Translation of expressions to Z3 (system libz3, C API).

use crate::expr::{Arena, FxMap, Id, Op};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
}

pub enum Answer {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    uses: u32,
    bv: FxMap<Id, P>,
    bl: FxMap<Id, P>,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new() -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            uses: 0,
            bv: FxMap::default(),
            bl: FxMap::default(),
            timeout_ms: 60_000,
        };
        s.fresh();
        s
    }

    fn fresh(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
        }
        self.uses = 0;
    }

    /// Is the conjunction satisfiable?  On success the values of `vars`.
    pub fn check(&mut self, ar: &Arena, conj: &[Id], vars: &[u32]) -> Answer {
        self.uses += 1;
        if self.uses > 300 {
            self.fresh();
        }
        self.bv.clear();
        self.bl.clear();
        let mut fp = false;
        unsafe {
            let mut asserts = vec![];
            for &i in conj {
                let b = self.bool(ar, i, &mut fp);
                asserts.push(b);
            }
            let s = if fp {
                Z3_mk_simple_solver(self.ctx)
            } else {
                let n = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()))
            };
            Z3_solver_inc_ref(self.ctx, s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let n = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, n.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, s, p);
            for a in asserts {
                Z3_solver_assert(self.ctx, s, a);
            }
            let r = Z3_solver_check(self.ctx, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    for &v in vars {
                        let id = ar.var_ids[v as usize];
                        let t = self.bvec(ar, id, &mut fp);
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.ctx, m, t, true, &mut o) {
                            Z3_get_numeral_uint64(self.ctx, o, &mut x);
                        }
                        vals.push((v, x));
                    }
                    Answer::Sat(vals)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            Z3_solver_dec_ref(self.ctx, s);
            out
        }
    }

    unsafe fn num(&self, w: u32, k: u128) -> P {
        let so = Z3_mk_bv_sort(self.ctx, w);
        if k <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.ctx, k as u64, so)
        } else {
            let s = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), so)
        }
    }

    unsafe fn fl(&mut self, ar: &Arena, i: Id, fp: &mut bool) -> P {
        *fp = true;
        let w = ar.w(i);
        let b = self.bvec(ar, i, fp);
        let s = if w == 64 {
            Z3_mk_fpa_sort_double(self.ctx)
        } else {
            Z3_mk_fpa_sort_single(self.ctx)
        };
        Z3_mk_fpa_to_fp_bv(self.ctx, b, s)
    }

    unsafe fn bool(&mut self, ar: &Arena, i: Id, fp: &mut bool) -> P {
        if let Some(&p) = self.bl.get(&i) {
            return p;
        }
        let n = ar.n[i as usize];
        let c = self.ctx;
        let r = match n.op {
            Op::Const => {
                if n.k != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Eq => {
                if ar.w(n.a) == 1 {
                    let a = self.bool(ar, n.a, fp);
                    let b = self.bool(ar, n.b, fp);
                    Z3_mk_eq(c, a, b)
                } else {
                    let a = self.bvec(ar, n.a, fp);
                    let b = self.bvec(ar, n.b, fp);
                    Z3_mk_eq(c, a, b)
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.bvec(ar, n.a, fp);
                let b = self.bvec(ar, n.b, fp);
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.bool(ar, n.a, fp);
                if n.op == Op::Xor && ar.is_const(n.b) == Some(1) {
                    Z3_mk_not(c, a)
                } else {
                    let b = self.bool(ar, n.b, fp);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
            }
            Op::Ite => {
                let x = self.bool(ar, n.a, fp);
                let a = self.bool(ar, n.b, fp);
                let b = self.bool(ar, n.c, fp);
                Z3_mk_ite(c, x, a, b)
            }
            Op::FCmp => {
                let a = self.fl(ar, n.a, fp);
                let b = self.fl(ar, n.b, fp);
                let p = n.k as u32 & 15;
                let mut v: Vec<P> = vec![];
                if p & 1 != 0 {
                    v.push(Z3_mk_fpa_eq(c, a, b));
                }
                if p & 2 != 0 {
                    v.push(Z3_mk_fpa_gt(c, a, b));
                }
                if p & 4 != 0 {
                    v.push(Z3_mk_fpa_lt(c, a, b));
                }
                if p & 8 != 0 {
                    v.push(Z3_mk_fpa_is_nan(c, a));
                    v.push(Z3_mk_fpa_is_nan(c, b));
                }
                if v.is_empty() {
                    Z3_mk_false(c)
                } else {
                    Z3_mk_or(c, v.len() as c_uint, v.as_ptr())
                }
            }
            _ => {
                let a = self.bvec(ar, i, fp);
                let one = self.num(1, 1);
                Z3_mk_eq(c, a, one)
            }
        };
        self.bl.insert(i, r);
        r
    }

    unsafe fn bvec(&mut self, ar: &Arena, i: Id, fp: &mut bool) -> P {
        if let Some(&p) = self.bv.get(&i) {
            return p;
        }
        let n = ar.n[i as usize];
        let c = self.ctx;
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(w, n.k),
            Op::Var => {
                let so = Z3_mk_bv_sort(c, w);
                Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), so)
            }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                let a = self.bvec(ar, n.a, fp);
                let b = self.bvec(ar, n.b, fp);
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    _ => Z3_mk_bvashr(c, a, b),
                }
            }
            Op::And | Op::Or | Op::Xor if w > 1 => {
                let a = self.bvec(ar, n.a, fp);
                let b = self.bvec(ar, n.b, fp);
                match n.op {
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    _ => Z3_mk_bvxor(c, a, b),
                }
            }
            Op::ZExt => {
                let a = self.bvec(ar, n.a, fp);
                Z3_mk_zero_ext(c, w - ar.w(n.a), a)
            }
            Op::SExt => {
                let a = self.bvec(ar, n.a, fp);
                Z3_mk_sign_ext(c, w - ar.w(n.a), a)
            }
            Op::Extract => {
                let a = self.bvec(ar, n.a, fp);
                Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, a)
            }
            Op::Concat => {
                let a = self.bvec(ar, n.a, fp);
                let b = self.bvec(ar, n.b, fp);
                Z3_mk_concat(c, a, b)
            }
            Op::Ite if w > 1 => {
                let x = self.bool(ar, n.a, fp);
                let a = self.bvec(ar, n.b, fp);
                let b = self.bvec(ar, n.c, fp);
                Z3_mk_ite(c, x, a, b)
            }
            Op::Tab => {
                let a = self.bvec(ar, n.a, fp);
                let t = ar.tables[n.k as usize].0.clone();
                // runs of equal values
                let mut r = self.num(w, t[255] as u128);
                let mut j = 255usize;
                while j > 0 {
                    // value changes between j-1 and j?
                    if t[j - 1] != t[j] {
                        let v = self.num(w, t[j - 1] as u128);
                        let lim = self.num(8, j as u128);
                        let lt = Z3_mk_bvult(c, a, lim);
                        r = Z3_mk_ite(c, lt, v, r);
                    }
                    j -= 1;
                }
                r
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let a = self.fl(ar, n.a, fp);
                let b = self.fl(ar, n.b, fp);
                let rm = Z3_mk_fpa_rne(c);
                let x = match n.op {
                    Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                    Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                    Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                    _ => Z3_mk_fpa_div(c, rm, a, b),
                };
                Z3_mk_fpa_to_ieee_bv(c, x)
            }
            Op::UiToFp | Op::SiToFp | Op::FpCast => {
                *fp = true;
                let rm = Z3_mk_fpa_rne(c);
                let so = if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                let x = match n.op {
                    Op::UiToFp => {
                        let a = self.bvec(ar, n.a, fp);
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, so)
                    }
                    Op::SiToFp => {
                        let a = self.bvec(ar, n.a, fp);
                        Z3_mk_fpa_to_fp_signed(c, rm, a, so)
                    }
                    _ => {
                        let a = self.fl(ar, n.a, fp);
                        Z3_mk_fpa_to_fp_float(c, rm, a, so)
                    }
                };
                Z3_mk_fpa_to_ieee_bv(c, x)
            }
            Op::FRnd => {
                let a = self.fl(ar, n.a, fp);
                let rm = match n.k {
                    0 => Z3_mk_fpa_rtz(c),
                    1 => Z3_mk_fpa_rtn(c),
                    2 => Z3_mk_fpa_rtp(c),
                    3 => Z3_mk_fpa_rne(c),
                    _ => Z3_mk_fpa_rna(c),
                };
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, a))
            }
            Op::FpToUi | Op::FpToSi => {
                // saturating; zero if not a number
                let a = self.fl(ar, n.a, fp);
                let fw = ar.w(n.a);
                let rm = Z3_mk_fpa_rtz(c);
                let signed = n.op == Op::FpToSi;
                let (lo, hi) = if signed { (1u128 << (w - 1), (1u128 << (w - 1)) - 1) } else { (0, crate::expr::mask(w)) };
                let (flo, fhi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let k = |x: f64| {
                    if fw == 64 {
                        Z3_mk_fpa_to_fp_bv(c, self.num(64, x.to_bits() as u128), Z3_mk_fpa_sort_double(c))
                    } else {
                        Z3_mk_fpa_to_fp_bv(c, self.num(32, (x as f32).to_bits() as u128), Z3_mk_fpa_sort_single(c))
                    }
                };
                let (flo, fhi) = (k(flo), k(fhi));
                let x = if signed { Z3_mk_fpa_to_sbv(c, rm, a, w) } else { Z3_mk_fpa_to_ubv(c, rm, a, w) };
                let under = Z3_mk_fpa_lt(c, a, flo);
                let below = Z3_mk_fpa_lt(c, a, fhi);
                let x = Z3_mk_ite(c, below, x, self.num(w, hi));
                let x = Z3_mk_ite(c, under, self.num(w, lo), x);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(w, 0), x)
            }
            Op::Ctlz | Op::Cttz => {
                let a = self.bvec(ar, n.a, fp);
                let mut r = self.num(w, w as u128);
                // innermost: no bit set
                for j in 0..w {
                    // for ctlz the highest set bit decides, so wrap upwards
                    let bit = if n.op == Op::Ctlz { j } else { w - 1 - j };
                    let b = Z3_mk_extract(c, bit, bit, a);
                    let one = self.num(1, 1);
                    let set = Z3_mk_eq(c, b, one);
                    let v = self.num(w, if n.op == Op::Ctlz { (w - 1 - bit) as u128 } else { bit as u128 });
                    r = Z3_mk_ite(c, set, v, r);
                }
                r
            }
            Op::Ctpop => {
                let a = self.bvec(ar, n.a, fp);
                let mut r = self.num(w, 0);
                for j in 0..w {
                    let b = Z3_mk_extract(c, j, j, a);
                    let z = if w > 1 { Z3_mk_zero_ext(c, w - 1, b) } else { b };
                    r = Z3_mk_bvadd(c, r, z);
                }
                r
            }
            _ => {
                // boolean operators used as a one-bit vector
                let b = self.bool(ar, i, fp);
                let one = self.num(1, 1);
                let zero = self.num(1, 0);
                Z3_mk_ite(c, b, one, zero)
            }
        };
        self.bv.insert(i, r);
        r
    }
}
