//! Z3 through its C API.
use crate::expr::{Exprs, E, K};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, d: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_func_decl_to_ast(c: P, f: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    cache: HashMap<E, P>, // bit-vector term (width 1: bool)
    /// the same, with multiplications, divisions and remainders as uninterpreted functions
    acache: HashMap<E, P>,
    abs: bool,
    hard: HashMap<E, bool>,
    pub abs_unsat: u64,
    fps64: P,
    fps32: P,
    rne: P,
    rtz: P,
    solver: P,
    ufs: HashMap<(u32, u32), P>,
    vars: HashMap<u32, P>,
    qcache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub queries: u64,
    pub hits: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub sat: u64,
    pub unsat: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let fps64 = Z3_mk_fpa_sort_64(ctx);
            let fps32 = Z3_mk_fpa_sort_32(ctx);
            let rne = Z3_mk_fpa_rne(ctx);
            let rtz = Z3_mk_fpa_rtz(ctx);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, cache: HashMap::new(), acache: HashMap::new(), abs: false, hard: HashMap::new(), abs_unsat: 0, fps64, fps32, rne, rtz, solver: s, ufs: HashMap::new(), vars: HashMap::new(), qcache: HashMap::new(), queries: 0, hits: 0, unknown: 0, time: 0.0, max_time: 0.0, sat: 0, unsat: 0 }
        }
    }
    fn keep(&mut self, a: P) -> P { a }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn fpof(&mut self, ex: &Exprs, e: E) -> P {
        let w = ex.w(e);
        let a = self.tr(ex, e);
        unsafe { let r = Z3_mk_fpa_to_fp_bv(self.ctx, a, if w == 64 { self.fps64 } else { self.fps32 }); self.keep(r) }
    }
    fn bv1(&mut self, b: P) -> P { unsafe { let o = self.num(1, 1); let z = self.num(0, 1); Z3_mk_ite(self.ctx, b, o, z) } }
    /// width-1 expressions translate to booleans; `bv` gives the bit-vector form.
    fn bv(&mut self, ex: &Exprs, e: E) -> P {
        let a = self.tr(ex, e);
        if ex.w(e) == 1 { let r = self.bv1(a); self.keep(r) } else { a }
    }
    fn hard_op(ex: &Exprs, e: E) -> bool {
        let n = ex.n(e);
        matches!(n.k, K::Mul | K::UDiv | K::SDiv | K::URem | K::SRem) && n.w >= 16 || matches!(n.k, K::FMul | K::FDiv) || ex.deep(e)
    }
    /// Does the term contain an operation the abstraction replaces?
    fn has_hard(&mut self, ex: &Exprs, e: E) -> bool {
        if let Some(&h) = self.hard.get(&e) { return h; }
        let mut h = Self::hard_op(ex, e);
        if !h {
            for k in ex.kids(e) { if self.has_hard(ex, k) { h = true; break; } }
        }
        self.hard.insert(e, h);
        h
    }
    fn tr(&mut self, ex: &Exprs, e: E) -> P {
        if self.abs && !self.has_hard(ex, e) {
            self.abs = false;
            std::mem::swap(&mut self.cache, &mut self.acache);
            let r = self.tr(ex, e);
            std::mem::swap(&mut self.cache, &mut self.acache);
            self.abs = true;
            return r;
        }
        if let Some(&p) = self.cache.get(&e) { return p; }
        let n = ex.n(e);
        let c = self.ctx;
        let w1 = n.w == 1;
        unsafe {
            let r = match n.k {
                _ if self.abs && ex.deep(e) => {
                    // a fresh value: the term is hash-consed, so equal terms share it
                    let s = CString::new(format!("deep{}", e)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w))
                }
                _ if self.abs && Self::hard_op(ex, e) => {
                    let args = [self.bv(ex, n.a), self.bv(ex, n.b)];
                    let sort = Z3_mk_bv_sort(c, n.w);
                    let dom = [sort, sort];
                    let key = (1_000_000 + n.k as u32 * 1000 + n.w, 2);
                    let f = match self.ufs.get(&key) {
                        Some(f) => *f,
                        None => {
                            let s = CString::new(format!("abs{}", key.0)).unwrap();
                            let f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), 2, dom.as_ptr(), sort);
                            self.ufs.insert(key, f);
                            f
                        }
                    };
                    Z3_mk_app(c, f, 2, args.as_ptr())
                }
                K::Const => if w1 { if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.v, n.w) },
                K::Var => {
                    let s = CString::new(format!("v{}", n.a)).unwrap();
                    let sort = if w1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w) };
                    let v = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort);
                    self.vars.insert(n.a, v);
                    v
                }
                K::And | K::Or | K::Xor if w1 => {
                    let a = self.tr(ex, n.a);
                    let b = self.tr(ex, n.b);
                    let xs = [a, b];
                    match n.k {
                        K::And => Z3_mk_and(c, 2, xs.as_ptr()),
                        K::Or => Z3_mk_or(c, 2, xs.as_ptr()),
                        _ => if ex.konst(n.b) == Some(1) { Z3_mk_not(c, a) } else { Z3_mk_xor(c, a, b) },
                    }
                }
                K::Eq => { let a = self.bv(ex, n.a); let b = self.bv(ex, n.b); Z3_mk_eq(c, a, b) }
                K::Ult => { let a = self.bv(ex, n.a); let b = self.bv(ex, n.b); Z3_mk_bvult(c, a, b) }
                K::Slt => { let a = self.bv(ex, n.a); let b = self.bv(ex, n.b); Z3_mk_bvslt(c, a, b) }
                K::Ite => { let a = self.tr(ex, n.a); let b = self.tr(ex, n.b); let d = self.tr(ex, n.c); Z3_mk_ite(c, a, b, d) }
                K::ZExt => { let iw = ex.w(n.a); let a = self.bv(ex, n.a); Z3_mk_zero_ext(c, n.w - iw, a) }
                K::SExt => { let iw = ex.w(n.a); let a = self.bv(ex, n.a); Z3_mk_sign_ext(c, n.w - iw, a) }
                K::Extract => {
                    let a = self.bv(ex, n.a);
                    let x = Z3_mk_extract(c, n.b + n.w - 1, n.b, a);
                    if w1 { let o = self.num(1, 1); Z3_mk_eq(c, x, o) } else { x }
                }
                K::Concat => { let a = self.bv(ex, n.a); let b = self.bv(ex, n.b); Z3_mk_concat(c, a, b) }
                K::FAdd | K::FSub | K::FMul | K::FDiv => {
                    let a = self.fpof(ex, n.a);
                    let b = self.fpof(ex, n.b);
                    let r = self.rne;
                    let f = match n.k { K::FAdd => Z3_mk_fpa_add(c, r, a, b), K::FSub => Z3_mk_fpa_sub(c, r, a, b), K::FMul => Z3_mk_fpa_mul(c, r, a, b), _ => Z3_mk_fpa_div(c, r, a, b) };
                    let f = self.keep(f);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                K::FEq => { let a = self.fpof(ex, n.a); let b = self.fpof(ex, n.b); Z3_mk_fpa_eq(c, a, b) }
                K::FLt => { let a = self.fpof(ex, n.a); let b = self.fpof(ex, n.b); Z3_mk_fpa_lt(c, a, b) }
                K::FLe => { let a = self.fpof(ex, n.a); let b = self.fpof(ex, n.b); Z3_mk_fpa_leq(c, a, b) }
                K::FNan => { let a = self.fpof(ex, n.a); Z3_mk_fpa_is_nan(c, a) }
                K::FCvt => { let a = self.fpof(ex, n.a); let f = Z3_mk_fpa_to_fp_float(c, self.rne, a, if n.w == 64 { self.fps64 } else { self.fps32 }); let f = self.keep(f); Z3_mk_fpa_to_ieee_bv(c, f) }
                K::UToF => { let a = self.bv(ex, n.a); let f = Z3_mk_fpa_to_fp_unsigned(c, self.rne, a, if n.w == 64 { self.fps64 } else { self.fps32 }); let f = self.keep(f); Z3_mk_fpa_to_ieee_bv(c, f) }
                K::SToF => { let a = self.bv(ex, n.a); let f = Z3_mk_fpa_to_fp_signed(c, self.rne, a, if n.w == 64 { self.fps64 } else { self.fps32 }); let f = self.keep(f); Z3_mk_fpa_to_ieee_bv(c, f) }
                K::FToU => { let a = self.fpof(ex, n.a); Z3_mk_fpa_to_ubv(c, self.rtz, a, n.w) }
                K::FToS => { let a = self.fpof(ex, n.a); Z3_mk_fpa_to_sbv(c, self.rtz, a, n.w) }
                K::Uf => {
                    let mut args = vec![self.bv(ex, n.a)];
                    let mut dom = vec![Z3_mk_bv_sort(c, ex.w(n.a))];
                    if n.b != Exprs::none() { args.push(self.bv(ex, n.b)); dom.push(Z3_mk_bv_sort(c, ex.w(n.b))); }
                    let key = (n.v as u32, args.len() as u32);
                    let f = match self.ufs.get(&key) {
                        Some(f) => *f,
                        None => {
                            let s = CString::new(format!("uf{}_{}", key.0, key.1)).unwrap();
                            let f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), args.len() as c_uint, dom.as_ptr(), Z3_mk_bv_sort(c, n.w));
                            self.ufs.insert(key, f);
                            f
                        }
                    };
                    Z3_mk_app(c, f, args.len() as c_uint, args.as_ptr())
                }
                _ => {
                    let a = self.bv(ex, n.a);
                    let b = self.bv(ex, n.b);
                    let x = match n.k {
                        K::Add => Z3_mk_bvadd(c, a, b), K::Sub => Z3_mk_bvsub(c, a, b), K::Mul => Z3_mk_bvmul(c, a, b),
                        K::UDiv => Z3_mk_bvudiv(c, a, b), K::SDiv => Z3_mk_bvsdiv(c, a, b), K::URem => Z3_mk_bvurem(c, a, b), K::SRem => Z3_mk_bvsrem(c, a, b),
                        K::And => Z3_mk_bvand(c, a, b), K::Or => Z3_mk_bvor(c, a, b), K::Xor => Z3_mk_bvxor(c, a, b),
                        K::Shl => Z3_mk_bvshl(c, a, b), K::LShr => Z3_mk_bvlshr(c, a, b), K::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    };
                    if w1 { let o = self.num(1, 1); Z3_mk_eq(c, x, o) } else { x }
                }
            };
            self.keep(r);
            self.cache.insert(e, r);
            r
        }
    }

    /// Is the conjunction satisfiable? The model covers the variables of the conjunction.
    pub fn check(&mut self, ex: &mut Exprs, conj: &[E]) -> Res {
        let mut key: Vec<E> = conj.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) {
            self.hits += 1;
            return match r { Some(m) => Res::Sat(m.to_vec()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        let mut hard = false;
        for &e in &key { hard |= self.has_hard(ex, e); }
        if hard {
            // Over-approximation first: unsatisfiable here means unsatisfiable.
            self.abs = true;
            std::mem::swap(&mut self.cache, &mut self.acache);
            let asts: Vec<P> = key.iter().map(|&e| self.tr(ex, e)).collect();
            std::mem::swap(&mut self.cache, &mut self.acache);
            self.abs = false;
            let r = unsafe {
                Z3_solver_reset(self.ctx, self.solver);
                for a in &asts { Z3_solver_assert(self.ctx, self.solver, *a); }
                Z3_solver_check(self.ctx, self.solver)
            };
            if std::env::var("SYMEX_DBG").is_ok() { eprintln!("abs {} {:.2}s", r, t0.elapsed().as_secs_f64()); unsafe { if let Ok(f) = std::env::var("SYMEX_DUMP") { std::fs::write(f, CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_bytes()).unwrap(); } } }
            if r == -1 {
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                if dt > self.max_time { self.max_time = dt; }
                self.queries += 1;
                self.unsat += 1;
                self.abs_unsat += 1;
                self.qcache.insert(key, None);
                return Res::Unsat;
            }
            // A model may be easy to hit even where it is hard to derive (hash functions).
            let mut seen: Vec<u32> = key.iter().flat_map(|&e| ex.vars[e as usize].iter().copied()).collect();
            seen.sort_unstable();
            seen.dedup();
            if !key.iter().any(|&e| ex.has_uf(e)) {
                let n = seen.iter().max().map_or(0, |v| *v as usize + 1);
                let mut m = vec![0u128; n];
                let mut rng: u64 = 0x9e3779b97f4a7c15 ^ key.len() as u64;
                let mut next = || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
                for round in 0..64 {
                    for &v in &seen { let r = next() as u128 | (next() as u128) << 64; m[v as usize] = if round % 3 == 0 { r & 3 } else { r } & crate::ir::mask(ex.var_width[v as usize]); }
                    if key.iter().all(|&e| ex.eval(e, &m) == 1) {
                        let r: Vec<(u32, u128)> = seen.iter().map(|&v| (v, m[v as usize])).collect();
                        self.time += t0.elapsed().as_secs_f64();
                        self.queries += 1;
                        self.sat += 1;
                        self.qcache.insert(key, Some(Rc::new(r.clone())));
                        return Res::Sat(r);
                    }
                }
            }
        }
        let r;
        let mut m = Vec::new();
        unsafe {
            let asts: Vec<P> = key.iter().map(|&e| self.tr(ex, e)).collect();
            Z3_solver_reset(self.ctx, self.solver);
            for a in &asts { Z3_solver_assert(self.ctx, self.solver, *a); }
            r = Z3_solver_check(self.ctx, self.solver);
            if r == 1 {
                let mo = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, mo);
                let mut seen: Vec<u32> = key.iter().flat_map(|&e| ex.vars[e as usize].iter().copied()).collect();
                seen.sort_unstable();
                seen.dedup();
                for v in seen {
                    let a = self.vars[&v];
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, mo, a, true, &mut out) {
                        let mut x: u64 = 0;
                        let val = if ex.var_width[v as usize] > 1 {
                            if Z3_get_numeral_uint64(self.ctx, out, &mut x) { x as u128 }
                            else { CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_str().unwrap().parse::<u128>().unwrap() }
                        } else {
                            let t = Z3_mk_true(self.ctx);
                            (out == t) as u128
                        };
                        m.push((v, val));
                    }
                }
                Z3_model_dec_ref(self.ctx, mo);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("SYMEX_DBG").is_ok() { eprintln!("query {} {:.2}s hard {} conj {}", r, dt, hard, key.len()); }
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        self.queries += 1;
        match r {
            1 => { self.sat += 1; self.qcache.insert(key, Some(Rc::new(m.clone()))); Res::Sat(m) }
            -1 => { self.unsat += 1; self.qcache.insert(key, None); Res::Unsat }
            _ => { self.unknown += 1; Res::Unknown }
        }
    }
}
