//! Thin FFI to libz3 and the translation of expressions to QF_BV terms.
use crate::expr::*;
use crate::ir::BinOp;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    doms: HashMap<(u32, u32), P>,
    pub queries: u64,
    pub secs: f64,
    since_reset: usize,
}

impl Z3 {
    pub fn new() -> Z3 {
        let mut z = Z3 { c: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: HashMap::new(), bl: HashMap::new(), doms: HashMap::new(), queries: 0, secs: 0.0, since_reset: 0 };
        z.init();
        z
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            self.c = c;
            self.s = s;
            self.bv.clear();
            self.bl.clear();
            self.doms.clear();
            self.since_reset = 0;
        }
    }
    fn num(&self, w: u32, k: u128) -> P {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, t)
            } else {
                let s = CString::new(format!("{}", k)).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), t)
            }
        }
    }
    fn var(&mut self, v: u32) -> P {
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, 8)) }
    }
    pub fn dom_term(&mut self, v: u32, di: u32, d: &Dom) -> P {
        if let Some(p) = self.doms.get(&(v, di)) {
            return *p;
        }
        let x = self.var(v);
        let mut parts: Vec<P> = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if dom_has(d, i) {
                    let lo = i;
                    while i < 255 && dom_has(d, i + 1) {
                        i += 1;
                    }
                    let hi = i;
                    if lo == hi {
                        parts.push(Z3_mk_eq(self.c, x, self.num(8, lo as u128)));
                    } else if lo == 0 && hi == 255 {
                        parts.push(Z3_mk_true(self.c));
                    } else {
                        let a = [Z3_mk_bvule(self.c, self.num(8, lo as u128), x), Z3_mk_bvule(self.c, x, self.num(8, hi as u128))];
                        parts.push(Z3_mk_and(self.c, 2, a.as_ptr()));
                    }
                }
                i += 1;
            }
            let r = if parts.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) };
            self.doms.insert((v, di), r);
            r
        }
    }
    fn zbool(&mut self, x: &Ex, e: E) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let n = *x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Bin(BinOp::And) => {
                    let a = [self.zbool(x, n.a), self.zbool(x, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Bin(BinOp::Or) => {
                    let a = [self.zbool(x, n.a), self.zbool(x, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Bin(BinOp::Xor) => {
                    let a = self.zbool(x, n.a);
                    if x.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.zbool(x, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let a = self.zbool(x, n.a);
                    let b = self.zbool(x, n.b);
                    let d = self.zbool(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    let a = self.zbv(x, n.a);
                    let b = self.zbv(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.zbv(x, n.a);
                    let b = self.zbv(x, n.b);
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::UAddO | Op::SAddO | Op::USubO | Op::SSubO | Op::UMulO | Op::SMulO => {
                    let w = x.w(n.a);
                    let a = self.zbv(x, n.a);
                    let b = self.zbv(x, n.b);
                    let signed = matches!(n.op, Op::SAddO | Op::SSubO | Op::SMulO);
                    let ex = |p: P| if signed { Z3_mk_sign_ext(c, w, p) } else { Z3_mk_zero_ext(c, w, p) };
                    let (ea, eb) = (ex(a), ex(b));
                    let r = match n.op {
                        Op::UAddO | Op::SAddO => Z3_mk_bvadd(c, ea, eb),
                        Op::USubO | Op::SSubO => Z3_mk_bvsub(c, ea, eb),
                        _ => Z3_mk_bvmul(c, ea, eb),
                    };
                    let lo = ex(Z3_mk_extract(c, w - 1, 0, r));
                    Z3_mk_not(c, Z3_mk_eq(c, lo, r))
                }
                _ => {
                    let v = self.zbv(x, e);
                    Z3_mk_eq(c, v, self.num(1, 1))
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn zbv(&mut self, x: &Ex, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let n = *x.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => self.var(n.a),
                Op::Bin(o) => {
                    let a = self.zbv(x, n.a);
                    let b = self.zbv(x, n.b);
                    match o {
                        BinOp::Add => Z3_mk_bvadd(c, a, b),
                        BinOp::Sub => Z3_mk_bvsub(c, a, b),
                        BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                        BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                        BinOp::Shl => Z3_mk_bvshl(c, a, b),
                        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b),
                        BinOp::And => Z3_mk_bvand(c, a, b),
                        BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                Op::Ite => {
                    let a = self.zbool(x, n.a);
                    let b = self.zbv(x, n.b);
                    let d = self.zbv(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Concat => {
                    let a = self.zbv(x, n.a);
                    let b = self.zbv(x, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.zbv(x, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                }
                Op::ZExt => {
                    let a = self.zbv(x, n.a);
                    Z3_mk_zero_ext(c, n.w - x.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.zbv(x, n.a);
                    Z3_mk_sign_ext(c, n.w - x.w(n.a), a)
                }
                Op::Lookup => {
                    let i = self.zbv(x, n.a);
                    let t = x.lookups[n.k as usize].clone();
                    let mut r = self.num(n.w, t[255] as u128 & msk(n.w));
                    for k in (0..255usize).rev() {
                        if t[k] != t[k + 1] {
                            // values up to and including k
                            let cnd = Z3_mk_bvule(c, i, self.num(8, k as u128));
                            r = Z3_mk_ite(c, cnd, self.num(n.w, t[k] as u128 & msk(n.w)), r);
                        }
                    }
                    r
                }
                Op::Ctpop => {
                    let a = self.zbv(x, n.a);
                    let mut r = self.num(n.w, 0);
                    for i in 0..n.w {
                        let b = Z3_mk_extract(c, i, i, a);
                        let b = if n.w > 1 { Z3_mk_zero_ext(c, n.w - 1, b) } else { b };
                        r = Z3_mk_bvadd(c, r, b);
                    }
                    r
                }
                Op::Ctlz | Op::Cttz => {
                    let a = self.zbv(x, n.a);
                    let mut r = self.num(n.w, n.w as u128);
                    for j in 0..n.w {
                        // last written wins: process from least significant decision to most
                        let i = if n.op == Op::Ctlz { j } else { n.w - 1 - j };
                        let b = Z3_mk_eq(c, Z3_mk_extract(c, i, i, a), self.num(1, 1));
                        let v = if n.op == Op::Ctlz { n.w - 1 - i } else { i };
                        r = Z3_mk_ite(c, b, self.num(n.w, v as u128), r);
                    }
                    r
                }
                _ => {
                    let b = self.zbool(x, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    /// Is there an assignment satisfying all `conds` (1-bit expressions) and the domains of `vars`?
    /// Some(Some(values)) = sat, Some(None) = unsat, None = unknown.
    pub fn check(&mut self, x: &Ex, conds: &[(E, bool)], vars: &[(u32, u32, Dom)]) -> Option<Option<Vec<u8>>> {
        let t0 = std::time::Instant::now();
        self.since_reset += 1;
        self.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.c, self.s);
            for (v, di, d) in vars {
                let t = self.dom_term(*v, *di, d);
                Z3_solver_assert(self.c, self.s, t);
            }
            for (e, pos) in conds {
                let mut t = self.zbool(x, *e);
                if !pos {
                    t = Z3_mk_not(self.c, t);
                }
                Z3_solver_assert(self.c, self.s, t);
            }
            match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _, _) in vars {
                        let t = self.var(*v);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, t, true, &mut o);
                        assert!(ok);
                        let mut val = 0u64;
                        let ok = Z3_get_numeral_uint64(self.c, o, &mut val);
                        assert!(ok);
                        out.push(val as u8);
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(Some(out))
                }
                -1 => Some(None),
                _ => None,
            }
        };
        self.secs += t0.elapsed().as_secs_f64();
        r
    }
}
