//! Thin binding to the Z3 C API and translation of expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, s: P);
    fn Z3_model_dec_ref(c: P, s: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
}

extern "C" fn onerr(c: P, e: c_int) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {}", s.to_string_lossy());
    }
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s_bv: P,
    s_gen: P,
    tr: FxMap<E, P>,      // bit-vector translation (width-1 as Bool)
    has_fp: FxMap<E, bool>,
    vars: FxMap<E, P>,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Z3 {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(onerr));
            let l = CString::new("QF_BV").unwrap();
            let s_bv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s_bv);
            let s_gen = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s_gen);
            Z3 { c, s_bv, s_gen, tr: FxMap::default(), has_fp: FxMap::default(), vars: FxMap::default(), queries: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn tobv(&self, p: P, w: u16) -> P {
        // Bool -> BV1
        if w == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_ite(self.c, p, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
            }
        } else {
            p
        }
    }
    fn frombv(&self, p: P, w: u16) -> P {
        if w == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                Z3_mk_eq(self.c, p, Z3_mk_unsigned_int64(self.c, 1, s))
            }
        } else {
            p
        }
    }
    pub fn fp(&mut self, ar: &Arena, e: E) -> bool {
        if let Some(&x) = self.has_fp.get(&e) {
            return x;
        }
        let n = ar.n(e);
        let k = arity(n.op);
        let r = matches!(
            n.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::UIToFP | Op::SIToFP | Op::FPToUISat | Op::FPToSISat | Op::FPTrunc | Op::FPExt
        ) || (k > 0 && self.fp(ar, n.a))
            || (k > 1 && self.fp(ar, n.b))
            || (k > 2 && self.fp(ar, n.c));
        self.has_fp.insert(e, r);
        r
    }
    pub fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.tr.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let c = self.c;
        let k = arity(n.op);
        let aw = if k > 0 { ar.w(n.a) } else { 0 };
        let bw = if k > 1 { ar.w(n.b) } else { 0 };
        let a = if k > 0 { self.tr(ar, n.a) } else { std::ptr::null_mut() };
        let b = if k > 1 { self.tr(ar, n.b) } else { std::ptr::null_mut() };
        let d = if k > 2 { self.tr(ar, n.c) } else { std::ptr::null_mut() };
        let w = n.w;
        let p = unsafe {
            let fs = |w: u16| if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
            match n.op {
                Op::Const => {
                    if w == 1 {
                        if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                    } else {
                        let s = Z3_mk_bv_sort(c, w as u32);
                        if w <= 64 {
                            Z3_mk_unsigned_int64(c, n.k as u64, s)
                        } else {
                            let t = CString::new(format!("{}", n.k)).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                }
                Op::Var => {
                    let nm = CString::new(format!("v{}_{}", n.k, w)).unwrap();
                    let s = Z3_mk_bv_sort(c, w as u32);
                    let v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s);
                    self.vars.insert(e, v);
                    self.frombv(v, w)
                }
                Op::And if w == 1 => Z3_mk_and(c, 2, [a, b].as_ptr()),
                Op::Or if w == 1 => Z3_mk_or(c, 2, [a, b].as_ptr()),
                Op::Xor if w == 1 => {
                    if ar.as_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { Z3_mk_xor(c, a, b) }
                }
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ite => Z3_mk_ite(c, a, b, d),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.tobv(a, aw), self.tobv(b, bw));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let x = Z3_mk_fpa_to_fp_bv(c, a, fs(w));
                    let y = Z3_mk_fpa_to_fp_bv(c, b, fs(w));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                        _ => Z3_mk_fpa_div(c, rm, x, y),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::UIToFP => {
                    let x = self.tobv(a, aw);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, fs(w)))
                }
                Op::SIToFP => {
                    let x = self.tobv(a, aw);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, fs(w)))
                }
                Op::FPTrunc | Op::FPExt => {
                    let x = Z3_mk_fpa_to_fp_bv(c, a, fs(aw));
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fs(w)))
                }
                Op::FPToUISat | Op::FPToSISat => {
                    eprintln!("unsupported: symbolic float to int conversion");
                    std::process::exit(4);
                }
                _ => {
                    let (x, y) = (self.tobv(a, aw), if k > 1 { self.tobv(b, bw) } else { b });
                    let r = match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Extract => Z3_mk_extract(c, n.k as u32 + w as u32 - 1, n.k as u32, x),
                        Op::ZExt => Z3_mk_zero_ext(c, (w - aw) as u32, x),
                        Op::SExt => Z3_mk_sign_ext(c, (w - aw) as u32, x),
                        _ => unreachable!(),
                    };
                    self.frombv(r, w)
                }
            }
        };
        unsafe { Z3_inc_ref(self.c, p) };
        self.tr.insert(e, p);
        p
    }
    /// Satisfiability of the conjunction; on sat returns values of the given variable expressions.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E], vars: &[E]) -> Option<Vec<u64>> {
        let t0 = std::time::Instant::now();
        let fp = cs.iter().any(|&e| self.fp(ar, e));
        let s = if fp { self.s_gen } else { self.s_bv };
        let r = unsafe {
            Z3_solver_reset(self.c, s);
            for &e in cs {
                let p = self.tr(ar, e);
                Z3_solver_assert(self.c, s, p);
            }
            match Z3_solver_check(self.c, s) {
                1 => {
                    let md = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, md);
                    let mut out = vec![];
                    for &v in vars {
                        self.tr(ar, v);
                        let p = self.vars[&v];
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(self.c, md, p, true, &mut o) || !Z3_get_numeral_uint64(self.c, o, &mut u) {
                            eprintln!("z3: cannot read model");
                            std::process::exit(3);
                        }
                        out.push(u);
                    }
                    Z3_model_dec_ref(self.c, md);
                    Some(out)
                }
                -1 => None,
                _ => {
                    eprintln!("z3: unknown");
                    std::process::exit(3);
                }
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
}
