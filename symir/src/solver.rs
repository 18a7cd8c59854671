//! z3 through its C interface; one context per worker.
use crate::expr::{Arena, FxMap, O};
use crate::ir::Ex;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_interrupt(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_int64(c: P, v: i64, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_numeral_float(c: P, v: f32, s: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub seconds: f64,
    pub max_query_s: f64,
    pub assertion_queries: u64,
    pub finite_domain: u64,
    /// queries decided in linear integer arithmetic (no operation in them can wrap)
    pub linear: u64,
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,
    fast: Vec<P>,
    iast: Vec<P>,
    ino: Vec<bool>,
    li: P,
    ni: P,
    nonlin: FxMap<Ex, ()>,
    ints: P,
    sorts: HashMap<u32, P>,
    f32s: P,
    rne: P,
    rtz: P,
    cache: FxMap<(u64, u64), Option<Option<Vec<(u16, u64)>>>>,
    pub stats: Stats,
    pub dump: Option<std::path::PathBuf>,
    dumped: u64,
    /// write every query to a file before it is asked (debugging)
    slow: bool,
    limit_ms: u32,
    /// no query is started after this, and one that is running is interrupted soon after
    pub deadline: Option<std::time::Instant>,
    pub stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    /// what the linear and the bit-vector solver have asserted, one scope each, with the variables first bounded there
    stack: [Vec<(Ex, Vec<u16>)>; 2],
    stack_n: [u32; 2],
    watch: std::sync::Arc<std::sync::Mutex<Watch>>,
    watcher: Option<std::thread::JoinHandle<()>>,
}

/// z3 does not always notice its own time limit: a thread interrupts queries that overrun it.
enum Watch {
    Idle,
    Until(std::time::Instant),
    Stop,
}

pub enum Res {
    Sat(Vec<(u16, u64)>),
    Unsat,
    Unknown,
}

extern "C" fn on_error(_: P, _: c_int) {}

impl Z3 {
    pub fn new(timeout_ms: u32, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let key = CString::new("timeout").unwrap();
            let sy = Z3_mk_string_symbol(c, key.as_ptr());
            Z3_params_set_uint(c, p, sy, timeout_ms);
            Z3_solver_set_params(c, s, p);
            let lg = CString::new("QF_LIA").unwrap();
            let li = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()));
            Z3_solver_inc_ref(c, li);
            Z3_solver_set_params(c, li, p);
            let lg = CString::new("QF_NIA").unwrap();
            let ni = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()));
            Z3_solver_inc_ref(c, ni);
            Z3_solver_set_params(c, ni, p);
            let ints = Z3_mk_int_sort(c);
            let f32s = Z3_mk_fpa_sort_32(c);
            let rne = Z3_mk_fpa_rne(c);
            let rtz = Z3_mk_fpa_rtz(c);
            let watch = std::sync::Arc::new(std::sync::Mutex::new(Watch::Idle));
            let (w, cc, st) = (watch.clone(), c as usize, stop.clone());
            let watcher = Some(std::thread::spawn(move || loop {
                std::thread::sleep(std::time::Duration::from_millis(100));
                match &*w.lock().unwrap() {
                    Watch::Stop => return,
                    Watch::Until(t) if *t < std::time::Instant::now() || st.load(std::sync::atomic::Ordering::Relaxed) => Z3_interrupt(cc as P),
                    _ => {}
                }
            }));
            Z3 { stack: Default::default(), stack_n: [0; 2], limit_ms: timeout_ms, deadline: None, stop, watch, watcher, c, s, ast: vec![], fast: vec![], iast: vec![], ino: vec![], li, ni, nonlin: Default::default(), ints, sorts: HashMap::new(), f32s, rne, rtz, cache: Default::default(), stats: Stats::default(), dump: None, dumped: 0, slow: std::env::var_os("SYMIR_SLOW").is_some() }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) } })
    }
    fn bv(&mut self, ar: &Arena, e: Ex) -> P {
        let a = self.tr(ar, e);
        if ar.w(e) == 1 { unsafe { let s = Z3_mk_bv_sort(self.c, 1); Z3_mk_ite(self.c, a, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s)) } } else { a }
    }
    /// floating-point term of a 32-bit expression
    fn fp(&mut self, ar: &Arena, e: Ex) -> P {
        if self.fast.len() < ar.n.len() { self.fast.resize(ar.n.len(), std::ptr::null_mut()); }
        if !self.fast[e as usize].is_null() { return self.fast[e as usize]; }
        let n = ar.n[e as usize];
        let (c, rne) = (self.c, self.rne);
        let r = unsafe {
            match n.op {
                O::FFix | O::FFixN => {
                    let x = self.tr(ar, n.a);
                    let mut t = Z3_mk_fpa_to_fp_signed(c, rne, x, self.f32s);
                    if n.b as i32 != 0 {
                        let k = Z3_mk_fpa_numeral_float(c, 2f32.powi(-(n.b as i32)), self.f32s);
                        t = Z3_mk_fpa_mul(c, rne, t, k);
                    }
                    if n.op == O::FFixN {
                        let z = Z3_mk_fpa_numeral_float(c, 0.0, self.f32s);
                        let nz = Z3_mk_fpa_neg(c, z);
                        t = Z3_mk_ite(c, Z3_mk_fpa_eq(c, t, z), nz, t);
                    }
                    t
                }
                O::FAdd | O::FSub | O::FMul | O::FDiv => {
                    let x = self.fp(ar, n.a);
                    let y = self.fp(ar, n.b);
                    match n.op { O::FAdd => Z3_mk_fpa_add(c, rne, x, y), O::FSub => Z3_mk_fpa_sub(c, rne, x, y), O::FMul => Z3_mk_fpa_mul(c, rne, x, y), _ => Z3_mk_fpa_div(c, rne, x, y) }
                }
                O::FSqrt => { let x = self.fp(ar, n.a); Z3_mk_fpa_sqrt(c, rne, x) }
                O::Ite => { let p = self.tr(ar, n.a); let x = self.fp(ar, n.b); let y = self.fp(ar, n.c); Z3_mk_ite(c, p, x, y) }
                O::Const => Z3_mk_fpa_numeral_float(c, f32::from_bits(n.val as u32), self.f32s),
                _ => { let x = self.tr(ar, e); Z3_mk_fpa_to_fp_bv(c, x, self.f32s) }
            }
        };
        self.fast[e as usize] = r;
        r
    }
    fn tr(&mut self, ar: &Arena, e: Ex) -> P {
        if self.ast.len() < ar.n.len() { self.ast.resize(ar.n.len(), std::ptr::null_mut()); }
        if !self.ast[e as usize].is_null() { return self.ast[e as usize]; }
        let n = ar.n[e as usize];
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                O::Const => if w == 1 { if n.val != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { let s = self.sort(w); Z3_mk_unsigned_int64(c, n.val, s) },
                O::Var => {
                    let name = CString::new(format!("v{}_{}", n.val, w)).unwrap();
                    let sy = Z3_mk_string_symbol(c, name.as_ptr());
                    let s = self.sort(w);
                    Z3_mk_const(c, sy, s)
                }
                O::And | O::Or | O::Xor if w == 1 => {
                    let x = self.tr(ar, n.a);
                    if n.op == O::Xor && ar.cv(n.b) == Some(1) { Z3_mk_not(c, x) } else {
                        let y = self.tr(ar, n.b);
                        match n.op { O::And => Z3_mk_and(c, 2, [x, y].as_ptr()), O::Or => Z3_mk_or(c, 2, [x, y].as_ptr()), _ => Z3_mk_xor(c, x, y) }
                    }
                }
                O::Eq => {
                    if ar.w(n.a) == 1 { let x = self.tr(ar, n.a); let y = self.tr(ar, n.b); Z3_mk_iff(c, x, y) } else { let x = self.tr(ar, n.a); let y = self.tr(ar, n.b); Z3_mk_eq(c, x, y) }
                }
                O::Ult => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvult(c, x, y) }
                O::Slt => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvslt(c, x, y) }
                O::Ite => { let p = self.tr(ar, n.a); let x = self.tr(ar, n.b); let y = self.tr(ar, n.c); Z3_mk_ite(c, p, x, y) }
                O::Concat => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_concat(c, x, y) }
                O::Extract => {
                    let x = self.bv(ar, n.a);
                    let t = Z3_mk_extract(c, n.c, n.b, x);
                    if w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, s)) } else { t }
                }
                O::ZExt => { let x = self.bv(ar, n.a); Z3_mk_zero_ext(c, w - ar.w(n.a), x) }
                O::SExt => { let x = self.bv(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), x) }
                O::FFix | O::FFixN | O::FAdd | O::FSub | O::FMul | O::FDiv | O::FSqrt => { let t = self.fp(ar, e); Z3_mk_fpa_to_ieee_bv(c, t) }
                O::FLt => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_lt(c, x, y) }
                O::FLe => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_leq(c, x, y) }
                O::FEq => { let x = self.fp(ar, n.a); let y = self.fp(ar, n.b); Z3_mk_fpa_eq(c, x, y) }
                O::FToU32 => {
                    // saturating conversion; used only on values known to be in range
                    let x = self.fp(ar, n.a);
                    Z3_mk_fpa_to_ubv(c, self.rtz, x, 32)
                }
                _ => {
                    let x = self.bv(ar, n.a);
                    let y = self.bv(ar, n.b);
                    let t = match n.op {
                        O::Add => Z3_mk_bvadd(c, x, y), O::Sub => Z3_mk_bvsub(c, x, y), O::Mul => Z3_mk_bvmul(c, x, y),
                        O::UDiv => Z3_mk_bvudiv(c, x, y), O::SDiv => Z3_mk_bvsdiv(c, x, y), O::URem => Z3_mk_bvurem(c, x, y), O::SRem => Z3_mk_bvsrem(c, x, y),
                        O::And => Z3_mk_bvand(c, x, y), O::Or => Z3_mk_bvor(c, x, y), O::Xor => Z3_mk_bvxor(c, x, y),
                        O::Shl => Z3_mk_bvshl(c, x, y), O::LShr => Z3_mk_bvlshr(c, x, y), O::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    };
                    if w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, s)) } else { t }
                }
            }
        };
        self.ast[e as usize] = r;
        r
    }
    /// The expression as an integer (or boolean) term, when no operation in it can wrap.
    fn int(&mut self, ar: &mut Arena, e: Ex) -> Option<P> {
        if self.iast.len() < ar.n.len() { self.iast.resize(ar.n.len(), std::ptr::null_mut()); self.ino.resize(ar.n.len(), false); }
        if self.ino[e as usize] { return None; }
        if !self.iast[e as usize].is_null() { return Some(self.iast[e as usize]); }
        match self.int_new(ar, e) {
            Some(r) => { self.iast[e as usize] = r; Some(r) }
            None => { self.ino[e as usize] = true; if std::env::var_os("SYMIR_DBG").is_some() { eprintln!("not linear: {}", ar.show(e, 5)); } None }
        }
    }
    fn ivar(&mut self, i: u64, w: u32) -> P {
        let name = CString::new(format!("i{}_{}", i, w)).unwrap();
        unsafe { let sy = Z3_mk_string_symbol(self.c, name.as_ptr()); Z3_mk_const(self.c, sy, self.ints) }
    }
    /// The unsigned value.
    fn uint(&mut self, ar: &mut Arena, e: Ex) -> Option<P> {
        let n = ar.n[e as usize];
        let w = n.w as u32;
        match n.op {
            O::Const if w > 1 && n.val <= i64::MAX as u64 => Some(unsafe { Z3_mk_int64(self.c, n.val as i64, self.ints) }),
            O::Var if w > 1 && w < 64 => Some(self.ivar(n.val, w)),
            _ => { if w == 1 || ar.srange(e).0 < 0 { return None; } self.int(ar, e) }
        }
    }
    fn int_new(&mut self, ar: &mut Arena, e: Ex) -> Option<P> {
        let n = ar.n[e as usize];
        let w = n.w as u32;
        let (c, is) = (self.c, self.ints);
        let m = if w >= 64 { i64::MAX } else { (1i64 << (w.max(1) - 1)) - 1 };
        unsafe {
            if w == 1 {
                return Some(match n.op {
                    O::Const => if n.val != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    O::And | O::Or | O::Xor => {
                        let x = self.int(ar, n.a)?;
                        if n.op == O::Xor && ar.cv(n.b) == Some(1) { return Some(Z3_mk_not(c, x)); }
                        let y = self.int(ar, n.b)?;
                        match n.op { O::And => Z3_mk_and(c, 2, [x, y].as_ptr()), O::Or => Z3_mk_or(c, 2, [x, y].as_ptr()), _ => Z3_mk_xor(c, x, y) }
                    }
                    O::Eq => {
                        if ar.w(n.a) == 1 { let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?); return Some(Z3_mk_iff(c, x, y)); }
                        match (self.int(ar, n.a), self.int(ar, n.b)) {
                            (Some(x), Some(y)) => Z3_mk_eq(c, x, y),
                            _ => { let (x, y) = (self.uint(ar, n.a)?, self.uint(ar, n.b)?); Z3_mk_eq(c, x, y) }
                        }
                    }
                    O::Slt | O::Ult => {
                        if ar.w(n.a) == 1 { return None; }
                        let (x, y) = if n.op == O::Ult { (self.uint(ar, n.a)?, self.uint(ar, n.b)?) } else { (self.int(ar, n.a)?, self.int(ar, n.b)?) };
                        Z3_mk_lt(c, x, y)
                    }
                    O::Ite => { let (x, y, z) = (self.int(ar, n.a)?, self.int(ar, n.b)?, self.int(ar, n.c)?); Z3_mk_ite(c, x, y, z) }
                    _ => return None,
                });
            }
            Some(match n.op {
                O::Const => Z3_mk_int64(c, crate::ir::sext(n.val, w), is),
                O::Var => {
                    if ar.vars[n.a as usize].hi > m as u64 { return None; }
                    self.ivar(n.val, w)
                }
                O::ZExt => {
                    if ar.w(n.a) == 1 { let x = self.int(ar, n.a)?; return Some(Z3_mk_ite(c, x, Z3_mk_int64(c, 1, is), Z3_mk_int64(c, 0, is))); }
                    self.uint(ar, n.a)?
                }
                O::SExt => { if ar.w(n.a) == 1 { return None; } self.int(ar, n.a)? }
                O::Add | O::Sub | O::Mul => {
                    let (x, y) = (ar.srange(n.a), ar.srange(n.b));
                    let (lo, hi) = match n.op {
                        O::Add => (x.0 as i128 + y.0 as i128, x.1 as i128 + y.1 as i128),
                        O::Sub => (x.0 as i128 - y.1 as i128, x.1 as i128 - y.0 as i128),
                        _ => {
                            if ar.cv(n.a).is_none() && ar.cv(n.b).is_none() { self.nonlin.insert(e, ()); }
                            let p = [x.0 as i128 * y.0 as i128, x.0 as i128 * y.1 as i128, x.1 as i128 * y.0 as i128, x.1 as i128 * y.1 as i128];
                            (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                        }
                    };
                    if lo < -(m as i128) - 1 || hi > m as i128 { return None; }
                    let (x, y) = (self.int(ar, n.a)?, self.int(ar, n.b)?);
                    match n.op { O::Add => Z3_mk_add(c, 2, [x, y].as_ptr()), O::Sub => Z3_mk_sub(c, 2, [x, y].as_ptr()), _ => Z3_mk_mul(c, 2, [x, y].as_ptr()) }
                }
                O::Ite => { let (x, y, z) = (self.int(ar, n.a)?, self.int(ar, n.b)?, self.int(ar, n.c)?); Z3_mk_ite(c, x, y, z) }
                _ => return None,
            })
        }
    }
    /// Satisfiability of a conjunction (variables range over their declared bounds).
    pub fn check(&mut self, ar: &mut Arena, cs: &[Ex]) -> Res {
        let mut key: Vec<Ex> = cs.to_vec();
        key.sort();
        key.dedup();
        let (mut h1, mut h2) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
        for e in &key {
            h1 = (h1 ^ *e as u64).wrapping_mul(0x100000001b3).rotate_left(23);
            h2 = (h2.rotate_left(9) ^ *e as u64).wrapping_mul(0x517cc1b727220a95);
        }
        if let Some(r) = self.cache.get(&(h1, h2)) {
            self.stats.cache_hits += 1;
            return match r { Some(Some(m)) => Res::Sat(m.clone()), Some(None) => Res::Unsat, None => Res::Unknown };
        }
        let t0 = std::time::Instant::now();
        let mut vars: Vec<u16> = vec![];
        let mut varx: Vec<(u16, Ex)> = vec![];
        for e in &key { vars.extend(ar.support(*e).iter()); }
        vars.sort();
        vars.dedup();
        // find variable nodes for the support
        let mut seen: FxMap<Ex, ()> = Default::default();
        let mut st = key.clone();
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() { continue; }
            let n = ar.n[e as usize];
            match n.op {
                O::Const => {}
                O::Var => varx.push((n.val as u16, e)),
                O::Extract | O::ZExt | O::SExt | O::FFix | O::FFixN | O::FSqrt | O::FToU32 => st.push(n.a),
                O::Ite => { st.push(n.a); st.push(n.b); st.push(n.c) }
                _ => { st.push(n.a); st.push(n.b) }
            }
        }
        // linear integer arithmetic is exact when nothing wraps, and much faster than bit-vectors
        let mut lin: Option<Vec<P>> = Some(vec![]);
        for e in &key { match (self.int(ar, *e), &mut lin) { (Some(p), Some(l)) => l.push(p), _ => { lin = None; break } } }
        if lin.is_some() { for (_, e) in &varx { if ar.w(*e) == 1 || self.uint(ar, *e).is_none() { lin = None; break; } } }
        let nl = lin.is_some() && seen.keys().any(|e| self.nonlin.contains_key(e));
        let sol = if nl { self.ni } else if lin.is_some() { self.li } else { self.s };
        let is_lin = lin.is_some();
        if is_lin { self.stats.linear += 1; }
        let r = unsafe {
            if nl {
                Z3_solver_reset(self.c, sol);
                for (_, e) in &varx {
                    let v = ar.vars[ar.n[*e as usize].a as usize].clone();
                    let x = self.uint(ar, *e).unwrap();
                    Z3_solver_assert(self.c, sol, Z3_mk_le(self.c, x, Z3_mk_int64(self.c, v.hi as i64, self.ints)));
                    Z3_solver_assert(self.c, sol, Z3_mk_le(self.c, Z3_mk_int64(self.c, v.lo as i64, self.ints), x));
                }
                if let Some(l) = &lin { for a in l { Z3_solver_assert(self.c, sol, *a); } }
            } else {
                // consecutive queries share most of the path condition: keep the common part asserted
                let k = if is_lin { 0 } else { 1 };
                let mut st = std::mem::take(&mut self.stack[k]);
                let mut order: Vec<Ex> = vec![];
                for e in cs { if !order.contains(e) { order.push(*e); } }
                self.stack_n[k] += 1;
                if self.stack_n[k] > 20000 {
                    // a fresh start now and then, so that what the solver learns does not pile up
                    Z3_solver_reset(self.c, sol);
                    st.clear();
                    self.stack_n[k] = 0;
                }
                let keep = st.iter().zip(&order).take_while(|(a, b)| a.0 == **b).count();
                if keep < st.len() { Z3_solver_pop(self.c, sol, (st.len() - keep) as u32); st.truncate(keep); }
                for e in &order[keep..] {
                    Z3_solver_push(self.c, sol);
                    let sup: Vec<u16> = ar.support(*e).to_vec();
                    let new: Vec<u16> = sup.into_iter().filter(|v| !st.iter().any(|s: &(Ex, Vec<u16>)| s.1.contains(v))).collect();
                    for (i, x) in &varx { if new.contains(i) {
                        let v = ar.vars[ar.n[*x as usize].a as usize].clone();
                        if is_lin {
                            let x = self.uint(ar, *x).unwrap();
                            Z3_solver_assert(self.c, sol, Z3_mk_le(self.c, x, Z3_mk_int64(self.c, v.hi as i64, self.ints)));
                            Z3_solver_assert(self.c, sol, Z3_mk_le(self.c, Z3_mk_int64(self.c, v.lo as i64, self.ints), x));
                        } else if v.w > 1 {
                            let s = self.sort(v.w);
                            let x = self.tr(ar, *x);
                            if v.hi < crate::ir::mask(!0, v.w) { Z3_solver_assert(self.c, sol, Z3_mk_bvule(self.c, x, Z3_mk_unsigned_int64(self.c, v.hi, s))); }
                            if v.lo > 0 { Z3_solver_assert(self.c, sol, Z3_mk_bvule(self.c, Z3_mk_unsigned_int64(self.c, v.lo, s), x)); }
                        }
                    } }
                    let a = if is_lin { self.int(ar, *e).unwrap() } else { self.tr(ar, *e) };
                    Z3_solver_assert(self.c, sol, a);
                    st.push((*e, new));
                }
                self.stack[k] = st;
            }
            if let (Some(d), true) = (&self.dump, self.slow) {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, sol)).to_string_lossy().into_owned();
                let _ = std::fs::write(d.join(format!("cur_{}_{}.smt2", self.s as usize, if nl { "nl" } else if is_lin { "lin" } else { "bv" })), format!("{}\n(check-sat)\n", s));
            }
            let now = std::time::Instant::now();
            let mut until = now + std::time::Duration::from_millis(self.limit_ms as u64 * 3 / 2 + 500);
            if let Some(d) = self.deadline {
                if now > d || self.stop.load(std::sync::atomic::Ordering::Relaxed) { self.stats.unknown += 1; return Res::Unknown; }
                until = until.min(d + std::time::Duration::from_millis(500));
            }
            *self.watch.lock().unwrap() = Watch::Until(until);
            let r = Z3_solver_check(self.c, sol);
            *self.watch.lock().unwrap() = Watch::Idle;
            let r = if r == 1 {
                let m = Z3_solver_get_model(self.c, sol);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for (i, e) in &varx {
                    let x = if is_lin { self.uint(ar, *e).unwrap() } else { self.tr(ar, *e) };
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, x, true, &mut o);
                    let mut v = 0u64;
                    if ar.w(*e) == 1 { v = (Z3_get_bool_value(self.c, o) == 1) as u64; } else { Z3_get_numeral_uint64(self.c, o, &mut v); }
                    out.push((*i, v));
                }
                Z3_model_dec_ref(self.c, m);
                Some(Some(out))
            } else if r == -1 { Some(None) } else { None };
            if let Some(d) = &self.dump {
                if self.dumped < 200 && ((r.is_some() && self.stats.queries % 7 == 0) || r.is_none()) {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, sol)).to_string_lossy().into_owned();
                    let ans = match &r { Some(Some(_)) => "sat", Some(None) => "unsat", None => "unknown" };
                    let _ = std::fs::write(d.join(format!("q{}_{}_{}.smt2", self.s as usize, self.dumped, ans)), format!("(set-logic ALL)\n{}\n(check-sat)\n", s));
                    self.dumped += 1;
                }
            }
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.seconds += dt;
        if self.slow && dt > 0.3 { eprintln!("{:.1}s {} query of {} terms: {}", dt, if nl { "nonlinear" } else if is_lin { "linear" } else { "bit-vector" }, key.len(), cs.iter().rev().take(2).map(|e| ar.show(*e, 8)).collect::<Vec<_>>().join(" <- ")); }
        self.stats.queries += 1;
        if dt > self.stats.max_query_s { self.stats.max_query_s = dt; }
        match &r { Some(Some(_)) => self.stats.sat += 1, Some(None) => self.stats.unsat += 1, None => self.stats.unknown += 1 }
        let out = match &r { Some(Some(m)) => Res::Sat(m.clone()), Some(None) => Res::Unsat, None => Res::Unknown };
        if r.is_some() || dt > 1.0 { self.cache.insert((h1, h2), r); }
        out
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        *self.watch.lock().unwrap() = Watch::Stop;
        if let Some(h) = self.watcher.take() { let _ = h.join(); }
        unsafe { Z3_del_context(self.c) }
    }
}
