//! Minimal binding to the Z3 C API and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type A = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_set_param_value(c: A, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: A) -> A;
    fn Z3_inc_ref(c: A, a: A);
    fn Z3_mk_bv_sort(c: A, n: c_uint) -> A;
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_numeral(c: A, s: *const c_char, t: A) -> A;
    fn Z3_mk_unsigned_int64(c: A, v: u64, t: A) -> A;
    fn Z3_mk_true(c: A) -> A;
    fn Z3_mk_false(c: A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_not(c: A, a: A) -> A;
    fn Z3_mk_ite(c: A, a: A, b: A, d: A) -> A;
    fn Z3_mk_xor(c: A, a: A, b: A) -> A;
    fn Z3_mk_and(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A; fn Z3_mk_bvsub(c: A, a: A, b: A) -> A; fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A; fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A; fn Z3_mk_bvurem(c: A, a: A, b: A) -> A; fn Z3_mk_bvsrem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A; fn Z3_mk_bvor(c: A, a: A, b: A) -> A; fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A; fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A; fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: A, a: A, b: A) -> A; fn Z3_mk_bvslt(c: A, a: A, b: A) -> A;
    fn Z3_mk_extract(c: A, hi: c_uint, lo: c_uint, a: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_mk_zero_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_fpa_sort(c: A, e: c_uint, s: c_uint) -> A;
    fn Z3_mk_fpa_rne(c: A) -> A; fn Z3_mk_fpa_rtz(c: A) -> A;
    fn Z3_mk_fpa_to_fp_bv(c: A, bv: A, s: A) -> A;
    fn Z3_mk_fpa_to_ieee_bv(c: A, t: A) -> A;
    fn Z3_mk_fpa_add(c: A, rm: A, a: A, b: A) -> A; fn Z3_mk_fpa_sub(c: A, rm: A, a: A, b: A) -> A; fn Z3_mk_fpa_mul(c: A, rm: A, a: A, b: A) -> A; fn Z3_mk_fpa_div(c: A, rm: A, a: A, b: A) -> A;
    fn Z3_mk_fpa_lt(c: A, a: A, b: A) -> A; fn Z3_mk_fpa_leq(c: A, a: A, b: A) -> A; fn Z3_mk_fpa_eq(c: A, a: A, b: A) -> A; fn Z3_mk_fpa_is_nan(c: A, a: A) -> A;
    fn Z3_mk_fpa_to_fp_signed(c: A, rm: A, t: A, s: A) -> A; fn Z3_mk_fpa_to_fp_unsigned(c: A, rm: A, t: A, s: A) -> A; fn Z3_mk_fpa_to_fp_float(c: A, rm: A, t: A, s: A) -> A;
    fn Z3_mk_fpa_to_ubv(c: A, rm: A, t: A, n: c_uint) -> A; fn Z3_mk_fpa_to_sbv(c: A, rm: A, t: A, n: c_uint) -> A;
    fn Z3_mk_solver_for_logic(c: A, s: A) -> A;
    fn Z3_mk_simple_solver(c: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_solver_set_params(c: A, s: A, p: A);
    fn Z3_mk_params(c: A) -> A; fn Z3_params_inc_ref(c: A, p: A); fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_push(c: A, s: A); fn Z3_solver_pop(c: A, s: A, n: c_uint);
    fn Z3_solver_reset(c: A, s: A);
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check(c: A, s: A) -> c_int;
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_solver_get_reason_unknown(c: A, s: A) -> *const c_char;
    fn Z3_model_inc_ref(c: A, m: A); fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, t: A, completion: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: A, a: A, out: *mut u64) -> bool;
    fn Z3_dec_ref(c: A, a: A);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: A, h: extern "C" fn(A, c_int));
}
extern "C" fn onerr(_c: A, e: c_int) { eprintln!("llsym: Z3 API error {}", e); std::process::abort(); }

pub enum Sat { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 { c: A, simple: A, logic: A, bools: Vec<A>, bvs: Vec<A>, pub rlimit: u32, has_fp: bool, pub fallbacks: u64 }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, onerr);
            let simple = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, simple);
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, logic);
            let z = Z3 { c, simple, logic, bools: vec![], bvs: vec![], rlimit, has_fp: false, fallbacks: 0 };
            z.set_rlimit(z.simple, rlimit / 4); z.set_rlimit(z.logic, rlimit);
            z
        }
    }
    unsafe fn set_rlimit(&self, s: A, n: u32) {
        let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), n);
        Z3_solver_set_params(self.c, s, p);
    }
    unsafe fn num(&self, k: u128, w: u8) -> A {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, s) } else { let t = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    }
    fn is_boolish(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FLe | Op::FEq | Op::FUno | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const) }
    pub fn tr(&mut self, ctx: &Ctx, root: E, asbool: bool) -> A {
        let n = ctx.nodes.len();
        if self.bools.len() < n { self.bools.resize(n, std::ptr::null_mut()); self.bvs.resize(n, std::ptr::null_mut()); }
        let mut st: Vec<(E, bool)> = vec![(root, asbool)];
        unsafe {
            while let Some(&(e, b)) = st.last() {
                let have = if b { self.bools[e as usize] } else { self.bvs[e as usize] };
                if !have.is_null() { st.pop(); continue; }
                let nd = *ctx.n(e);
                let c = self.c;
                // kid requirements
                let mut need: [(E, bool); 3] = [(0, false); 3];
                let mut nn = 0;
                let mut req = |k: E, kb: bool| { need[nn] = (k, kb); nn += 1; };
                let boolnative = nd.w == 1 && Self::is_boolish(nd.op);
                if b && !boolnative { req(e, false); }
                else if !b && boolnative && nd.op != Op::Const { req(e, true); }
                else {
                    match nd.op {
                        Op::Const | Op::Var => {}
                        Op::Eq => { let kb = ctx.w(nd.a) == 1; req(nd.a, kb); req(nd.b, kb); }
                        Op::And | Op::Or | Op::Xor => { req(nd.a, nd.w == 1); req(nd.b, nd.w == 1); }
                        Op::Ite => { req(nd.a, true); req(nd.b, nd.w == 1); req(nd.c, nd.w == 1); }
                        Op::Extract | Op::ZExt | Op::SExt | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc => req(nd.a, false),
                        _ => { req(nd.a, false); req(nd.b, false); }
                    }
                }
                let mut ready = true;
                for &(k, kb) in &need[..nn] { let h = if kb { self.bools[k as usize] } else { self.bvs[k as usize] }; if h.is_null() { st.push((k, kb)); ready = false; } }
                if !ready { continue; }
                let g = |i: usize| -> A { let (k, kb) = need[i]; if kb { self.bools[k as usize] } else { self.bvs[k as usize] } };
                let fps = |w: u8| if w == 64 { Z3_mk_fpa_sort(c, 11, 53) } else { Z3_mk_fpa_sort(c, 8, 24) };
                let r = if b && !boolnative { Z3_mk_eq(c, g(0), self.num(1, 1)) }
                else if !b && boolnative && nd.op != Op::Const { Z3_mk_ite(c, g(0), self.num(1, 1), self.num(0, 1)) }
                else {
                    match nd.op {
                        Op::Const => if b { if nd.k & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(nd.k, nd.w) },
                        Op::Var => { let nm = CString::new(format!("v{}", nd.a)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, nd.w as c_uint)) }
                        Op::Eq => Z3_mk_eq(c, g(0), g(1)),
                        Op::Ult => Z3_mk_bvult(c, g(0), g(1)),
                        Op::Slt => Z3_mk_bvslt(c, g(0), g(1)),
                        Op::And if nd.w == 1 => { let v = [g(0), g(1)]; Z3_mk_and(c, 2, v.as_ptr()) }
                        Op::Or if nd.w == 1 => { let v = [g(0), g(1)]; Z3_mk_or(c, 2, v.as_ptr()) }
                        Op::Xor if nd.w == 1 => if ctx.isc(nd.b) == Some(1) { Z3_mk_not(c, g(0)) } else { Z3_mk_xor(c, g(0), g(1)) },
                        Op::And => Z3_mk_bvand(c, g(0), g(1)), Op::Or => Z3_mk_bvor(c, g(0), g(1)), Op::Xor => Z3_mk_bvxor(c, g(0), g(1)),
                        Op::Add => Z3_mk_bvadd(c, g(0), g(1)), Op::Sub => Z3_mk_bvsub(c, g(0), g(1)), Op::Mul => Z3_mk_bvmul(c, g(0), g(1)),
                        Op::UDiv => Z3_mk_bvudiv(c, g(0), g(1)), Op::SDiv => Z3_mk_bvsdiv(c, g(0), g(1)), Op::URem => Z3_mk_bvurem(c, g(0), g(1)), Op::SRem => Z3_mk_bvsrem(c, g(0), g(1)),
                        Op::Shl => Z3_mk_bvshl(c, g(0), g(1)), Op::LShr => Z3_mk_bvlshr(c, g(0), g(1)), Op::AShr => Z3_mk_bvashr(c, g(0), g(1)),
                        Op::Ite => Z3_mk_ite(c, g(0), g(1), g(2)),
                        Op::Extract => Z3_mk_extract(c, nd.k as c_uint + nd.w as c_uint - 1, nd.k as c_uint, g(0)),
                        Op::Concat => Z3_mk_concat(c, g(0), g(1)),
                        Op::ZExt => Z3_mk_zero_ext(c, (nd.w - ctx.w(nd.a)) as c_uint, g(0)),
                        Op::SExt => Z3_mk_sign_ext(c, (nd.w - ctx.w(nd.a)) as c_uint, g(0)),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                            self.has_fp = true;
                            let s = fps(nd.w); let x = Z3_mk_fpa_to_fp_bv(c, g(0), s); let y = Z3_mk_fpa_to_fp_bv(c, g(1), s); let rm = Z3_mk_fpa_rne(c);
                            let t = match nd.op { Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y), Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), _ => Z3_mk_fpa_div(c, rm, x, y) };
                            Z3_mk_fpa_to_ieee_bv(c, t)
                        }
                        Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                            self.has_fp = true;
                            let s = fps(ctx.w(nd.a)); let x = Z3_mk_fpa_to_fp_bv(c, g(0), s); let y = Z3_mk_fpa_to_fp_bv(c, g(1), s);
                            match nd.op { Op::FLt => Z3_mk_fpa_lt(c, x, y), Op::FLe => Z3_mk_fpa_leq(c, x, y), Op::FEq => Z3_mk_fpa_eq(c, x, y), _ => { let v = [Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)]; Z3_mk_or(c, 2, v.as_ptr()) } }
                        }
                        Op::SiToFp => { self.has_fp = true; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), g(0), fps(nd.w))) }
                        Op::UiToFp => { self.has_fp = true; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), g(0), fps(nd.w))) }
                        Op::FpToSi => { self.has_fp = true; let x = Z3_mk_fpa_to_fp_bv(c, g(0), fps(ctx.w(nd.a))); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), x, nd.w as c_uint) }
                        Op::FpToUi => { self.has_fp = true; let x = Z3_mk_fpa_to_fp_bv(c, g(0), fps(ctx.w(nd.a))); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), x, nd.w as c_uint) }
                        Op::FpExt => { self.has_fp = true; let x = Z3_mk_fpa_to_fp_bv(c, g(0), fps(32)); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fps(64))) }
                        Op::FpTrunc => { self.has_fp = true; let x = Z3_mk_fpa_to_fp_bv(c, g(0), fps(64)); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, fps(32))) }
                    }
                };
                Z3_inc_ref(c, r);
                if b { self.bools[e as usize] = r; } else { self.bvs[e as usize] = r; }
                st.pop();
            }
        }
        if asbool { self.bools[root as usize] } else { self.bvs[root as usize] }
    }
    /// satisfiability of a conjunction; on Sat returns values for the listed variables
    pub fn check(&mut self, ctx: &Ctx, cs: &[E], vars: &[(u32, E)]) -> Sat {
        let ts: Vec<A> = cs.iter().map(|&e| self.tr(ctx, e, true)).collect();
        unsafe {
            let c = self.c;
            let mut s = self.simple;
            Z3_solver_push(c, s);
            for t in &ts { Z3_solver_assert(c, s, *t); }
            let mut r = Z3_solver_check(c, s);
            let mut pushed = true;
            if r == 0 {
                Z3_solver_pop(c, s, 1); pushed = false;
                self.fallbacks += 1;
                s = self.logic;
                Z3_solver_reset(c, s);
                for t in &ts { Z3_solver_assert(c, s, *t); }
                r = Z3_solver_check(c, s);
                if r == 0 { let w = std::ffi::CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)); eprintln!("llsym: Z3 unknown: {}", w.to_string_lossy()); }
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &(v, e) in vars {
                        let t = self.tr(ctx, e, false);
                        let mut o: A = std::ptr::null_mut();
                        if Z3_model_eval(c, m, t, true, &mut o) { Z3_inc_ref(c, o); let mut x = 0u64; if Z3_get_numeral_uint64(c, o, &mut x) { out.push((v, x)); } Z3_dec_ref(c, o); }
                    }
                    Z3_model_dec_ref(c, m);
                    Sat::Sat(out)
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            if pushed { Z3_solver_pop(c, s, 1); }
            res
        }
    }
}
