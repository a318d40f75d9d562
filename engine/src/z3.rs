//! Minimal binding to the Z3 C API.
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;

crate::dl_api!(Api {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(P) -> P;
    fn Z3_set_error_handler(P, Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(P, c_int) -> *const c_char;
    fn Z3_mk_string_symbol(P, *const c_char) -> P;
    fn Z3_mk_bv_sort(P, c_uint) -> P;
    fn Z3_mk_bool_sort(P) -> P;
    fn Z3_mk_const(P, P, P) -> P;
    fn Z3_mk_numeral(P, *const c_char, P) -> P;
    fn Z3_mk_unsigned_int64(P, u64, P) -> P;
    fn Z3_inc_ref(P, P);
    fn Z3_mk_true(P) -> P;
    fn Z3_mk_false(P) -> P;
    fn Z3_mk_not(P, P) -> P;
    fn Z3_mk_and(P, c_uint, *const P) -> P;
    fn Z3_mk_or(P, c_uint, *const P) -> P;
    fn Z3_mk_xor(P, P, P) -> P;
    fn Z3_mk_ite(P, P, P, P) -> P;
    fn Z3_mk_eq(P, P, P) -> P;
    fn Z3_mk_bvadd(P, P, P) -> P;
    fn Z3_mk_bvsub(P, P, P) -> P;
    fn Z3_mk_bvmul(P, P, P) -> P;
    fn Z3_mk_bvudiv(P, P, P) -> P;
    fn Z3_mk_bvsdiv(P, P, P) -> P;
    fn Z3_mk_bvurem(P, P, P) -> P;
    fn Z3_mk_bvsrem(P, P, P) -> P;
    fn Z3_mk_bvshl(P, P, P) -> P;
    fn Z3_mk_bvlshr(P, P, P) -> P;
    fn Z3_mk_bvashr(P, P, P) -> P;
    fn Z3_mk_bvand(P, P, P) -> P;
    fn Z3_mk_bvor(P, P, P) -> P;
    fn Z3_mk_bvxor(P, P, P) -> P;
    fn Z3_mk_bvnot(P, P) -> P;
    fn Z3_mk_bvult(P, P, P) -> P;
    fn Z3_mk_bvule(P, P, P) -> P;
    fn Z3_mk_bvslt(P, P, P) -> P;
    fn Z3_mk_bvsle(P, P, P) -> P;
    fn Z3_mk_concat(P, P, P) -> P;
    fn Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    fn Z3_mk_sign_ext(P, c_uint, P) -> P;
    fn Z3_mk_solver_for_logic(P, P) -> P;
    fn Z3_mk_simple_solver(P) -> P;
    fn Z3_solver_inc_ref(P, P);
    fn Z3_solver_reset(P, P);
    fn Z3_solver_push(P, P);
    fn Z3_solver_pop(P, P, c_uint);
    fn Z3_solver_assert(P, P, P);
    fn Z3_solver_check(P, P) -> c_int;
    fn Z3_solver_get_model(P, P) -> P;
    fn Z3_model_inc_ref(P, P);
    fn Z3_model_dec_ref(P, P);
    fn Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    fn Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
    fn Z3_mk_params(P) -> P;
    fn Z3_params_inc_ref(P, P);
    fn Z3_params_set_uint(P, P, P, c_uint);
    fn Z3_solver_set_params(P, P, P);
    fn Z3_get_full_version() -> *const c_char;
});

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

pub struct Z3 {
    pub a: Api,
    pub c: P,
    pub s: P,
    pub version: String,
}

impl Z3 {
    pub fn new(lib: &str, timeout_ms: u32) -> Z3 {
        let l = crate::dl::Lib::open(lib).expect("libz3");
        let a = Api::load(&l);
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context_rc)(cfg);
            (a.Z3_set_error_handler)(c, Some(on_err));
            let logic = CString::new("QF_BV").unwrap();
            let s = (a.Z3_mk_solver_for_logic)(c, (a.Z3_mk_string_symbol)(c, logic.as_ptr()));
            (a.Z3_solver_inc_ref)(c, s);
            let p = (a.Z3_mk_params)(c);
            (a.Z3_params_inc_ref)(c, p);
            let t = CString::new("timeout").unwrap();
            (a.Z3_params_set_uint)(c, p, (a.Z3_mk_string_symbol)(c, t.as_ptr()), timeout_ms);
            (a.Z3_solver_set_params)(c, s, p);
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
            Z3 { a, c, s, version }
        }
    }
    pub fn keep(&self, p: P) -> P {
        unsafe { (self.a.Z3_inc_ref)(self.c, p) };
        p
    }
    pub fn var(&self, name: &str, w: u32) -> P {
        unsafe {
            let n = CString::new(name).unwrap();
            let s = (self.a.Z3_mk_string_symbol)(self.c, n.as_ptr());
            self.keep((self.a.Z3_mk_const)(self.c, s, (self.a.Z3_mk_bv_sort)(self.c, w)))
        }
    }
    pub fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let so = (self.a.Z3_mk_bv_sort)(self.c, w);
            if v <= u64::MAX as u128 {
                self.keep((self.a.Z3_mk_unsigned_int64)(self.c, v as u64, so))
            } else {
                let n = CString::new(v.to_string()).unwrap();
                self.keep((self.a.Z3_mk_numeral)(self.c, n.as_ptr(), so))
            }
        }
    }
}
