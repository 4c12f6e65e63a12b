//! Minimal binding to the Z3 C API (system libz3) and the translation Expr -> Z3.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
}

extern "C" fn on_err(c: P, e: c_int) {
    // Any Z3 API error makes the whole run unusable: never continue past it.
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("hx: z3 error {}: {:?}", e, m);
    }
    std::process::exit(3);
}

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    s: P,
    cache: Vec<(P, bool)>, // (ast, is_bool) for bv translation
    bcache: Vec<P>,        // bool translation of 1-bit nodes
    sorts: [P; 129],
    pub queries: u64,
    pub time: f64,
    pub unknowns: u64,
    pub max_t: f64,
    pub dump: Option<std::path::PathBuf>,
    pub dumped: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("auto_config").unwrap();
            let v = CString::new("false").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let lg = CString::new("QF_BV").unwrap();
            let s = if std::env::var("HX_SIMPLE").is_ok() { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: vec![], bcache: vec![], sorts: [std::ptr::null_mut(); 129], queries: 0, time: 0.0, unknowns: 0, max_t: 0.0, dump: None, dumped: 0 }
        }
    }
    unsafe fn sort(&mut self, w: u8) -> P {
        if self.sorts[w as usize].is_null() { let s = Z3_mk_bv_sort(self.c, w as u32); Z3_inc_ref(self.c, s); self.sorts[w as usize] = s; }
        self.sorts[w as usize]
    }
    unsafe fn num(&mut self, w: u8, v: u128) -> P {
        if w <= 64 { let s = self.sort(w); return Z3_mk_unsigned_int64(self.c, v as u64, s); }
        let s64 = self.sort(64);
        let sh = self.sort(w - 64);
        let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, sh);
        Z3_inc_ref(self.c, h);
        let l = Z3_mk_unsigned_int64(self.c, v as u64, s64);
        Z3_inc_ref(self.c, l);
        Z3_mk_concat(self.c, h, l)
    }
    unsafe fn to_bool(&mut self, ar: &Arena, e: Id) -> P {
        let i = e as usize;
        if self.bcache.len() <= i { self.bcache.resize(ar.nodes.len(), std::ptr::null_mut()); }
        if !self.bcache[i].is_null() { return self.bcache[i]; }
        let c = self.c;
        let r = match ar.node(e) {
            Node::Const(1) => Z3_mk_true(c),
            Node::Const(_) => Z3_mk_false(c),
            Node::Bin(op, a, b) if ar.w(a) > 1 || matches!(op, Op::Slt | Op::Sle) => {
                let x = self.bv(ar, a);
                let y = self.bv(ar, b);
                match op {
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    Op::Ule => Z3_mk_bvule(c, x, y),
                    Op::Slt => Z3_mk_bvslt(c, x, y),
                    Op::Sle => Z3_mk_bvsle(c, x, y),
                    _ => unreachable!(),
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor | Op::Eq), a, b) => {
                let x = self.to_bool(ar, a);
                let y = self.to_bool(ar, b);
                match op {
                    Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                    Op::Xor => if ar.konst(b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) },
                    _ => Z3_mk_eq(c, x, y),
                }
            }
            Node::Ite(p, a, b) => {
                let p = self.to_bool(ar, p);
                let x = self.to_bool(ar, a);
                let y = self.to_bool(ar, b);
                Z3_mk_ite(c, p, x, y)
            }
            Node::Table(t, off) => {
                // boolean table: disjunction of ranges over the offset
                let tb = ar.tabs[t as usize].clone();
                let x = self.bv(ar, off);
                self.tabtree(&tb, x, ar.w(off), true)
            }
            _ => {
                let x = self.bv(ar, e);
                let one = self.num(1, 1);
                Z3_inc_ref(c, one);
                Z3_mk_eq(c, x, one)
            }
        };
        Z3_inc_ref(c, r);
        self.bcache[i] = r;
        r
    }
    unsafe fn tabtree(&mut self, tb: &Tab, x: P, ow: u8, as_bool: bool) -> P {
        // runs of equal values
        let mut runs: Vec<(u64, u64)> = vec![]; // (last offset of run, value)
        for (k, &v) in tb.vals.iter().enumerate() {
            let off = tb.lo + k as u64 * tb.stride;
            match runs.last_mut() { Some(l) if l.1 == v => l.0 = off, _ => runs.push((off, v)) }
        }
        self.tabrec(&runs, x, ow, tb.w, as_bool)
    }
    unsafe fn tabrec(&mut self, r: &[(u64, u64)], x: P, ow: u8, w: u8, b: bool) -> P {
        let c = self.c;
        if r.len() == 1 {
            let v = if b { if r[0].1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(w, r[0].1 as u128) };
            Z3_inc_ref(c, v);
            return v;
        }
        let m = r.len() / 2;
        let k = self.num(ow, r[m - 1].0 as u128);
        Z3_inc_ref(c, k);
        let cond = Z3_mk_bvule(c, x, k);
        Z3_inc_ref(c, cond);
        let l = self.tabrec(&r[..m], x, ow, w, b);
        let h = self.tabrec(&r[m..], x, ow, w, b);
        let v = Z3_mk_ite(c, cond, l, h);
        Z3_inc_ref(c, v);
        v
    }
    unsafe fn bv(&mut self, ar: &Arena, e: Id) -> P {
        let i = e as usize;
        if self.cache.len() <= i { self.cache.resize(ar.nodes.len(), (std::ptr::null_mut(), false)); }
        if !self.cache[i].0.is_null() { return self.cache[i].0; }
        let c = self.c;
        let w = ar.w(e);
        let boolish = w == 1 && match ar.node(e) {
            Node::Bin(op, ..) => matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle),
            Node::Ite(..) | Node::Table(..) => true,
            _ => false,
        };
        let r = if boolish {
            let b = self.to_bool(ar, e);
            let one = self.num(1, 1);
            Z3_inc_ref(c, one);
            let zero = self.num(1, 0);
            Z3_inc_ref(c, zero);
            Z3_mk_ite(c, b, one, zero)
        } else {
            match ar.node(e) {
                Node::Const(v) => self.num(w, v),
                Node::Sym(k) => { let s = self.sort(w); let sy = Z3_mk_int_symbol(c, k as c_int); Z3_mk_const(c, sy, s) }
                Node::Bin(op, a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
                Node::Ite(p, a, b) => {
                    let p = self.to_bool(ar, p);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_ite(c, p, x, y)
                }
                Node::ZExt(a) => { let x = self.bv(ar, a); Z3_mk_zero_ext(c, (w - ar.w(a)) as u32, x) }
                Node::SExt(a) => { let x = self.bv(ar, a); Z3_mk_sign_ext(c, (w - ar.w(a)) as u32, x) }
                Node::Extract(a, l) => { let x = self.bv(ar, a); Z3_mk_extract(c, (l + w - 1) as u32, l as u32, x) }
                Node::Concat(a, b) => { let x = self.bv(ar, a); let y = self.bv(ar, b); Z3_mk_concat(c, x, y) }
                Node::Table(t, off) => { let tb = ar.tabs[t as usize].clone(); let x = self.bv(ar, off); self.tabtree(&tb, x, ar.w(off), false) }
            }
        };
        Z3_inc_ref(c, r);
        self.cache[i] = (r, false);
        r
    }
    /// Membership of a byte symbol in an explicit set, as a disjunction of ranges.
    unsafe fn domexpr(&mut self, ar: &Arena, s: u32, d: &[u64; 4]) -> P {
        let c = self.c;
        let x = self.bv(ar, ar.syms[s as usize].1);
        let has = |v: usize| d[v / 64] >> (v % 64) & 1 == 1;
        let mut parts: Vec<P> = vec![];
        let mut v = 0;
        while v < 256 {
            if !has(v) { v += 1; continue; }
            let a = v;
            while v < 256 && has(v) { v += 1; }
            let b = v - 1;
            let lo = self.num(8, a as u128); Z3_inc_ref(c, lo);
            let hi = self.num(8, b as u128); Z3_inc_ref(c, hi);
            let p = if a == b { Z3_mk_eq(c, x, lo) } else { let l = Z3_mk_bvule(c, lo, x); Z3_inc_ref(c, l); let h = Z3_mk_bvule(c, x, hi); Z3_inc_ref(c, h); let r = Z3_mk_and(c, 2, [l, h].as_ptr()); Z3_inc_ref(c, r); Z3_dec_ref(c, l); Z3_dec_ref(c, h); parts.push(r); Z3_dec_ref(c, lo); Z3_dec_ref(c, hi); continue };
            Z3_inc_ref(c, p);
            parts.push(p);
            Z3_dec_ref(c, lo); Z3_dec_ref(c, hi);
        }
        let r = if parts.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
        Z3_inc_ref(c, r);
        for p in parts { Z3_dec_ref(c, p); }
        r
    }
    /// Satisfiability of the conjunction of `cons`; on Sat returns values for `syms`.
    pub fn check(&mut self, ar: &Arena, cons: &[Id], doms: &[(u32, [u64; 4])], syms: &[u32]) -> Res {
        unsafe {
            let t0 = Instant::now();
            let n = ar.nodes.len();
            if self.cache.len() < n { self.cache.resize(n, (std::ptr::null_mut(), false)); }
            if self.bcache.len() < n { self.bcache.resize(n, std::ptr::null_mut()); }
            Z3_solver_push(self.c, self.s);
            for (sy, d) in doms { let b = self.domexpr(ar, *sy, d); Z3_solver_assert(self.c, self.s, b); Z3_dec_ref(self.c, b); }
            for &k in cons { let b = self.to_bool(ar, k); Z3_solver_assert(self.c, self.s, b); }
            let r = Z3_solver_check(self.c, self.s);
            if let Some(d) = &self.dump {
                // sampled queries, with this solver's verdict, for the cvc5 cross-check
                if self.dumped < 40 && (self.queries < 10 || self.queries % 97 == 0) {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let v = match r { 1 => "sat", -1 => "unsat", _ => "unknown" };
                    let _ = std::fs::write(d.join(format!("q{:p}-{}.smt2", self.s, self.queries)), format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", v, s));
                    self.dumped += 1;
                }
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut v = vec![];
                    for &s in syms {
                        let a = self.bv(ar, ar.syms[s as usize].1);
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, a, true, &mut o) { eprintln!("hx: model eval failed"); std::process::exit(3); }
                        Z3_inc_ref(self.c, o);
                        let mut x = 0u64;
                        if !Z3_get_numeral_uint64(self.c, o, &mut x) { eprintln!("hx: numeral failed"); std::process::exit(3); }
                        Z3_dec_ref(self.c, o);
                        v.push((s, x));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => { self.unknowns += 1; Res::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.queries += 1;
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_t { self.max_t = dt; }
            out
        }
    }
}
