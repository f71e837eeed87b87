//! SMT back end: z3 through its C API (dlopen'ed).
use crate::dl::Lib;
use crate::expr::{mask, Ctx, Op, X};
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};

type A = *mut c_void;
macro_rules! api { ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
    #[allow(non_snake_case)] pub struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
    impl Api { fn load(l: &Lib) -> Api { unsafe { Api { $($name: std::mem::transmute(l.sym(concat!("Z3_", stringify!($name)))),)* } } } }
} }
api! {
    mk_config: fn() -> A;
    mk_context: fn(A) -> A;
    inc_ref: fn(A, A);
    set_error_handler: fn(A, *mut c_void);
    mk_string_symbol: fn(A, *const c_char) -> A;
    mk_bv_sort: fn(A, u32) -> A;
    mk_const: fn(A, A, A) -> A;
    mk_unsigned_int64: fn(A, u64, A) -> A;
    mk_numeral: fn(A, *const c_char, A) -> A;
    mk_true: fn(A) -> A; mk_false: fn(A) -> A;
    mk_not: fn(A, A) -> A; mk_eq: fn(A, A, A) -> A; mk_ite: fn(A, A, A, A) -> A; mk_xor: fn(A, A, A) -> A;
    mk_and: fn(A, u32, *const A) -> A; mk_or: fn(A, u32, *const A) -> A;
    mk_bvnot: fn(A, A) -> A; mk_bvneg: fn(A, A) -> A;
    mk_bvadd: fn(A, A, A) -> A; mk_bvsub: fn(A, A, A) -> A; mk_bvmul: fn(A, A, A) -> A;
    mk_bvudiv: fn(A, A, A) -> A; mk_bvsdiv: fn(A, A, A) -> A; mk_bvurem: fn(A, A, A) -> A; mk_bvsrem: fn(A, A, A) -> A;
    mk_bvand: fn(A, A, A) -> A; mk_bvor: fn(A, A, A) -> A; mk_bvxor: fn(A, A, A) -> A;
    mk_bvshl: fn(A, A, A) -> A; mk_bvlshr: fn(A, A, A) -> A; mk_bvashr: fn(A, A, A) -> A;
    mk_bvult: fn(A, A, A) -> A; mk_bvule: fn(A, A, A) -> A; mk_bvslt: fn(A, A, A) -> A; mk_bvsle: fn(A, A, A) -> A;
    mk_concat: fn(A, A, A) -> A; mk_extract: fn(A, u32, u32, A) -> A; mk_zero_ext: fn(A, u32, A) -> A; mk_sign_ext: fn(A, u32, A) -> A;
    mk_fpa_sort_32: fn(A) -> A; mk_fpa_sort_64: fn(A) -> A; mk_fpa_rne: fn(A) -> A; mk_fpa_rtz: fn(A) -> A; mk_fpa_rtn: fn(A) -> A; mk_fpa_rtp: fn(A) -> A; mk_fpa_rna: fn(A) -> A;
    mk_fpa_to_fp_bv: fn(A, A, A) -> A; mk_fpa_to_ieee_bv: fn(A, A) -> A;
    mk_fpa_to_fp_float: fn(A, A, A, A) -> A; mk_fpa_to_fp_signed: fn(A, A, A, A) -> A; mk_fpa_to_fp_unsigned: fn(A, A, A, A) -> A;
    mk_fpa_to_sbv: fn(A, A, A, u32) -> A; mk_fpa_to_ubv: fn(A, A, A, u32) -> A;
    mk_fpa_add: fn(A, A, A, A) -> A; mk_fpa_sub: fn(A, A, A, A) -> A; mk_fpa_mul: fn(A, A, A, A) -> A; mk_fpa_div: fn(A, A, A, A) -> A;
    mk_fpa_sqrt: fn(A, A, A) -> A; mk_fpa_fma: fn(A, A, A, A, A) -> A; mk_fpa_round_to_integral: fn(A, A, A) -> A;
    mk_fpa_eq: fn(A, A, A) -> A; mk_fpa_lt: fn(A, A, A) -> A; mk_fpa_leq: fn(A, A, A) -> A; mk_fpa_geq: fn(A, A, A) -> A; mk_fpa_is_nan: fn(A, A) -> A;
    mk_fpa_numeral_double: fn(A, f64, A) -> A;
    mk_solver_for_logic: fn(A, A) -> A; mk_solver: fn(A) -> A; mk_simple_solver: fn(A) -> A;
    solver_inc_ref: fn(A, A); solver_assert: fn(A, A, A); solver_check: fn(A, A) -> i32; solver_reset: fn(A, A);
    solver_get_model: fn(A, A) -> A; solver_set_params: fn(A, A, A); solver_get_reason_unknown: fn(A, A) -> *const c_char;
    model_inc_ref: fn(A, A); model_dec_ref: fn(A, A); model_eval: fn(A, A, A, bool, *mut A) -> bool;
    get_numeral_uint64: fn(A, A, *mut u64) -> bool;
    mk_params: fn(A) -> A; params_inc_ref: fn(A, A); params_set_uint: fn(A, A, A, u32);
    get_version: fn(*mut u32, *mut u32, *mut u32, *mut u32);
}
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown(String) }
pub struct Z3 { f: Api, c: A, simple: A, solver: A, solver_fp: A, bv: HashMap<X, A>, bo: HashMap<X, A>, fp: HashMap<X, bool>, pub version: String, pub dump: Option<String>, nq: u64 }

static ERR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
extern "C" fn on_err(_c: A, e: i32) { if e != 12 { eprintln!("z3 error {}", e); std::process::exit(70); } ERR.store(e, std::sync::atomic::Ordering::Relaxed); }

impl Z3 {
    pub fn open(path: &str, timeout_ms: u32) -> Result<Z3, String> {
        let l = Lib::open(path)?;
        let f = Api::load(&l);
        unsafe {
            let cfg = (f.mk_config)();
            let c = (f.mk_context)(cfg);
            (f.set_error_handler)(c, on_err as *mut c_void);
            let sy = |s: &str| { let cs = CString::new(s).unwrap(); (f.mk_string_symbol)(c, cs.as_ptr()) };
            let p = (f.mk_params)(c); (f.params_inc_ref)(c, p); (f.params_set_uint)(c, p, sy("timeout"), timeout_ms);
            let solver = (f.mk_solver_for_logic)(c, sy("QF_BV")); (f.solver_inc_ref)(c, solver); (f.solver_set_params)(c, solver, p);
            let p2 = (f.mk_params)(c); (f.params_inc_ref)(c, p2); (f.params_set_uint)(c, p2, sy("timeout"), 250);
            let simple = (f.mk_simple_solver)(c); (f.solver_inc_ref)(c, simple); (f.solver_set_params)(c, simple, p2);
            let solver_fp = (f.mk_solver)(c); (f.solver_inc_ref)(c, solver_fp); (f.solver_set_params)(c, solver_fp, p);
            let (mut a, mut b, mut d, mut e) = (0, 0, 0, 0); (f.get_version)(&mut a, &mut b, &mut d, &mut e);
            std::mem::forget(l);
            Ok(Z3 { f, c, simple, solver, solver_fp, bv: HashMap::new(), bo: HashMap::new(), fp: HashMap::new(), version: format!("{}.{}.{}", a, b, d), dump: None, nq: 0 })
        }
    }
    fn is_fop(op: Op) -> bool { matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::FToF | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FSqrt | Op::FMa | Op::FRound) }
    fn has_fp(&mut self, cx: &Ctx, x: X) -> bool {
        if let Some(&b) = self.fp.get(&x) { return b; }
        let mut st = vec![x];
        while let Some(&y) = st.last() {
            if self.fp.contains_key(&y) { st.pop(); continue; }
            let n = cx.node(y);
            let mut r = Self::is_fop(n.op); let mut need = false;
            for c in [n.a, n.b, n.c] { if c != 0 { match self.fp.get(&c) { Some(&v) => r |= v, None => { st.push(c); need = true; } } } }
            if need { continue; }
            self.fp.insert(y, r); st.pop();
        }
        self.fp[&x]
    }
    unsafe fn keep(&self, a: A) -> A { (self.f.inc_ref)(self.c, a); a }
    unsafe fn num(&self, w: u32, v: u128) -> A {
        let s = (self.f.mk_bv_sort)(self.c, w);
        if w <= 64 { (self.f.mk_unsigned_int64)(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); (self.f.mk_numeral)(self.c, t.as_ptr(), s) }
    }
    unsafe fn fsort(&self, w: u32) -> A { if w == 32 { (self.f.mk_fpa_sort_32)(self.c) } else { (self.f.mk_fpa_sort_64)(self.c) } }
    unsafe fn tofp(&self, a: A, w: u32) -> A { (self.f.mk_fpa_to_fp_bv)(self.c, a, self.fsort(w)) }

    unsafe fn getbv(&mut self, cx: &Ctx, x: X) -> A {
        if let Some(&a) = self.bv.get(&x) { return a; }
        // width-1 expression known as a boolean
        let b = self.bo[&x];
        let a = (self.f.mk_ite)(self.c, b, self.num(1, 1), self.num(1, 0));
        debug_assert_eq!(cx.w(x), 1);
        self.keep(a); self.bv.insert(x, a); a
    }
    unsafe fn getbo(&mut self, _cx: &Ctx, x: X) -> A {
        if let Some(&a) = self.bo.get(&x) { return a; }
        let b = self.bv[&x];
        let a = (self.f.mk_eq)(self.c, b, self.num(1, 1));
        self.keep(a); self.bo.insert(x, a); a
    }
    fn done(&self, x: X) -> bool { self.bv.contains_key(&x) || self.bo.contains_key(&x) }
    unsafe fn conv(&mut self, cx: &Ctx, root: X) {
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            if self.done(x) { st.pop(); continue; }
            let n = cx.node(x);
            let mut need = false;
            for c in [n.a, n.b, n.c] { if c != 0 && !self.done(c) { st.push(c); need = true; } }
            if need { continue; }
            let c = self.c; let w = n.w as u32;
            macro_rules! B { ($x:expr) => { self.getbv(cx, $x) } }
            macro_rules! O { ($x:expr) => { self.getbo(cx, $x) } }
            let aw = if n.a != 0 { cx.w(n.a) } else { 0 };
            let mut isb = w == 1;
            let r = match n.op {
                Op::Const => if w == 1 { if n.k == 1 { (self.f.mk_true)(c) } else { (self.f.mk_false)(c) } } else { self.num(w, n.k) },
                Op::Var => { let nm = CString::new(format!("b{}", n.k)).unwrap(); let s = (self.f.mk_string_symbol)(c, nm.as_ptr()); (self.f.mk_const)(c, s, (self.f.mk_bv_sort)(c, 8)) }
                Op::Not => if w == 1 { (self.f.mk_not)(c, O!(n.a)) } else { (self.f.mk_bvnot)(c, B!(n.a)) },
                Op::Neg => { isb = false; (self.f.mk_bvneg)(c, B!(n.a)) }
                Op::And => if w == 1 { let v = [O!(n.a), O!(n.b)]; (self.f.mk_and)(c, 2, v.as_ptr()) } else { (self.f.mk_bvand)(c, B!(n.a), B!(n.b)) },
                Op::Or => if w == 1 { let v = [O!(n.a), O!(n.b)]; (self.f.mk_or)(c, 2, v.as_ptr()) } else { (self.f.mk_bvor)(c, B!(n.a), B!(n.b)) },
                Op::Xor => if w == 1 { (self.f.mk_xor)(c, O!(n.a), O!(n.b)) } else { (self.f.mk_bvxor)(c, B!(n.a), B!(n.b)) },
                Op::Add => { isb = false; (self.f.mk_bvadd)(c, B!(n.a), B!(n.b)) } Op::Sub => { isb = false; (self.f.mk_bvsub)(c, B!(n.a), B!(n.b)) } Op::Mul => { isb = false; (self.f.mk_bvmul)(c, B!(n.a), B!(n.b)) }
                Op::UDiv => { isb = false; (self.f.mk_bvudiv)(c, B!(n.a), B!(n.b)) } Op::SDiv => { isb = false; (self.f.mk_bvsdiv)(c, B!(n.a), B!(n.b)) }
                Op::URem => { isb = false; (self.f.mk_bvurem)(c, B!(n.a), B!(n.b)) } Op::SRem => { isb = false; (self.f.mk_bvsrem)(c, B!(n.a), B!(n.b)) }
                Op::Shl => { isb = false; (self.f.mk_bvshl)(c, B!(n.a), B!(n.b)) } Op::LShr => { isb = false; (self.f.mk_bvlshr)(c, B!(n.a), B!(n.b)) } Op::AShr => { isb = false; (self.f.mk_bvashr)(c, B!(n.a), B!(n.b)) }
                Op::Eq => if aw == 1 { (self.f.mk_eq)(c, O!(n.a), O!(n.b)) } else { (self.f.mk_eq)(c, B!(n.a), B!(n.b)) },
                Op::Ult => (self.f.mk_bvult)(c, B!(n.a), B!(n.b)), Op::Ule => (self.f.mk_bvule)(c, B!(n.a), B!(n.b)),
                Op::Slt => (self.f.mk_bvslt)(c, B!(n.a), B!(n.b)), Op::Sle => (self.f.mk_bvsle)(c, B!(n.a), B!(n.b)),
                Op::Ite => if w == 1 { (self.f.mk_ite)(c, O!(n.a), O!(n.b), O!(n.c)) } else { (self.f.mk_ite)(c, O!(n.a), B!(n.b), B!(n.c)) },
                Op::Concat => (self.f.mk_concat)(c, B!(n.a), B!(n.b)),
                Op::Extract => { isb = false; (self.f.mk_extract)(c, n.k as u32 + w - 1, n.k as u32, B!(n.a)) }
                Op::ZExt => (self.f.mk_zero_ext)(c, w - aw, B!(n.a)), Op::SExt => (self.f.mk_sign_ext)(c, w - aw, B!(n.a)),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (B!(n.a), B!(n.b)); let (x, y) = (self.tofp(x, w), self.tofp(y, w)); let rm = (self.f.mk_fpa_rne)(c);
                    let r = match n.op { Op::FAdd => (self.f.mk_fpa_add)(c, rm, x, y), Op::FSub => (self.f.mk_fpa_sub)(c, rm, x, y), Op::FMul => (self.f.mk_fpa_mul)(c, rm, x, y), _ => (self.f.mk_fpa_div)(c, rm, x, y) };
                    (self.f.mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FEq | Op::FLt | Op::FLe | Op::FUno => {
                    let (x, y) = (B!(n.a), B!(n.b)); let (x, y) = (self.tofp(x, aw), self.tofp(y, aw));
                    match n.op { Op::FEq => (self.f.mk_fpa_eq)(c, x, y), Op::FLt => (self.f.mk_fpa_lt)(c, x, y), Op::FLe => (self.f.mk_fpa_leq)(c, x, y), _ => { let v = [(self.f.mk_fpa_is_nan)(c, x), (self.f.mk_fpa_is_nan)(c, y)]; (self.f.mk_or)(c, 2, v.as_ptr()) } }
                }
                Op::FToF => { let x = B!(n.a); let x = self.tofp(x, aw); let r = (self.f.mk_fpa_to_fp_float)(c, (self.f.mk_fpa_rne)(c), x, self.fsort(w)); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::SToF => { let x = B!(n.a); let r = (self.f.mk_fpa_to_fp_signed)(c, (self.f.mk_fpa_rne)(c), x, self.fsort(w)); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::UToF => { let x = B!(n.a); let r = (self.f.mk_fpa_to_fp_unsigned)(c, (self.f.mk_fpa_rne)(c), x, self.fsort(w)); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::FMa => { let (x, y, z) = (B!(n.a), B!(n.b), B!(n.c)); let (x, y, z) = (self.tofp(x, w), self.tofp(y, w), self.tofp(z, w)); let r = (self.f.mk_fpa_fma)(c, (self.f.mk_fpa_rne)(c), x, y, z); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::FSqrt => { let x = B!(n.a); let x = self.tofp(x, aw); let r = (self.f.mk_fpa_sqrt)(c, (self.f.mk_fpa_rne)(c), x); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::FRound => { let x = B!(n.a); let x = self.tofp(x, aw); let rm = match n.k { 0 => (self.f.mk_fpa_rtn)(c), 1 => (self.f.mk_fpa_rtp)(c), 2 => (self.f.mk_fpa_rtz)(c), 3 => (self.f.mk_fpa_rne)(c), _ => (self.f.mk_fpa_rna)(c) }; let r = (self.f.mk_fpa_round_to_integral)(c, rm, x); (self.f.mk_fpa_to_ieee_bv)(c, r) }
                Op::FToS | Op::FToU => {
                    let x = B!(n.a); let x = self.tofp(x, aw); let fs = self.fsort(aw); let rtz = (self.f.mk_fpa_rtz)(c);
                    let (lo, hi, lov, hiv, r) = if n.op == Op::FToS { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), self.num(w, 1u128 << (w - 1)), self.num(w, mask(w - 1)), (self.f.mk_fpa_to_sbv)(c, rtz, x, w)) }
                        else { (0.0, 2f64.powi(w as i32), self.num(w, 0), self.num(w, mask(w)), (self.f.mk_fpa_to_ubv)(c, rtz, x, w)) };
                    let cl = (self.f.mk_fpa_leq)(c, x, (self.f.mk_fpa_numeral_double)(c, lo, fs));
                    let ch = (self.f.mk_fpa_geq)(c, x, (self.f.mk_fpa_numeral_double)(c, hi, fs));
                    let t = (self.f.mk_ite)(c, ch, hiv, r); let t = (self.f.mk_ite)(c, cl, lov, t);
                    isb = false;
                    (self.f.mk_ite)(c, (self.f.mk_fpa_is_nan)(c, x), self.num(w, 0), t)
                }
                Op::FRem => { eprintln!("frem not encodable"); std::process::exit(71); }
            };
            if r.is_null() { eprintln!("z3 cannot build {:?} {}", n, cx.show(x, 3)); std::process::exit(72); }
            self.keep(r);
            if isb { self.bo.insert(x, r); } else { self.bv.insert(x, r); }
            st.pop();
        }
    }
    unsafe fn ask(&mut self, cx: &Ctx, s: A, conj: &[X]) -> i32 {
        (self.f.solver_reset)(self.c, s);
        ERR.store(0, std::sync::atomic::Ordering::Relaxed);
        for &x in conj { let a = self.getbo(cx, x); (self.f.solver_assert)(self.c, s, a); }
        let r = (self.f.solver_check)(self.c, s);
        if ERR.load(std::sync::atomic::Ordering::Relaxed) != 0 { 0 } else { r }
    }
    /// satisfiability of the conjunction of width-1 expressions; the model lists the given variables
    pub fn check(&mut self, cx: &mut Ctx, conj: &[X], vars: &[u32]) -> Res {
        unsafe {
            let mut fp = false;
            for &x in conj { self.conv(cx, x); fp |= self.has_fp(cx, x); }
            self.nq += 1;
            // small pure bit-vector questions: the incremental core first, the full tactic when it does not answer at once
            let mut s = if fp { self.solver_fp } else { self.simple };
            let mut r = self.ask(cx, s, conj);
            if r == 0 && !fp { s = self.solver; r = self.ask(cx, s, conj); }
            match r {
                -1 => Res::Unsat,
                1 => {
                    let m = (self.f.solver_get_model)(self.c, s); (self.f.model_inc_ref)(self.c, m);
                    let mut out = Vec::with_capacity(vars.len());
                    for &v in vars {
                        let x = cx.var(v); self.conv(cx, x); let a = self.getbv(cx, x);
                        let mut e: A = std::ptr::null_mut(); let mut val = 0u64;
                        if (self.f.model_eval)(self.c, m, a, true, &mut e) { (self.f.inc_ref)(self.c, e); (self.f.get_numeral_uint64)(self.c, e, &mut val); }
                        out.push((v, val as u8));
                    }
                    (self.f.model_dec_ref)(self.c, m);
                    Res::Sat(out)
                }
                _ => { let p = (self.f.solver_get_reason_unknown)(self.c, s); Res::Unknown(CStr::from_ptr(p).to_string_lossy().into_owned()) }
            }
        }
    }
}
