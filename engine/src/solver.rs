//! Z3 (libz3 C API) back end: constraint slicing, caching, model reuse.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
}
extern "C" fn on_err(_c: P, e: c_int) { panic!("z3 error {e}"); }

pub struct Model { pub bytes: Vec<u8>, pub memo: std::cell::RefCell<FxMap<Ex, u128>> }
impl Model {
    pub fn new(bytes: Vec<u8>) -> Rc<Model> { Rc::new(Model { bytes, memo: Default::default() }) }
    pub fn eval(&self, cx: &Ctx, e: Ex) -> u128 { cx.eval(e, &self.bytes, &mut self.memo.borrow_mut()) }
}

#[derive(Clone)]
pub enum Res { Sat(Rc<Vec<(u32, u8)>>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache_hits: u64, pub model_hits: u64, pub syntactic: u64, pub cex_hits: u64, pub time: f64, pub slow_max: f64 }

pub struct Solver {
    c: P,
    simple: P,
    logic: P,
    bool_sort_true: P,
    bv_terms: FxMap<Ex, P>,
    bool_terms: FxMap<Ex, P>,
    cache: std::collections::HashMap<Vec<Ex>, Res>,
    recent: std::collections::VecDeque<Rc<Model>>,
    unsat_by: FxMap<Ex, Vec<Vec<Ex>>>,
    pub stats: Stats,
    pub dump_dir: Option<String>,
    pub timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let logic = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as _);
            let simple = if std::env::var("SX_SIMPLE").is_ok() { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, logic) };
            Z3_solver_inc_ref(c, simple);
            let sym = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as _);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, sym, timeout_ms.min(5000));
            Z3_solver_set_params(c, simple, p);
            let t = Z3_mk_true(c); Z3_inc_ref(c, t);
            Solver { c, simple, logic, bool_sort_true: t, bv_terms: Default::default(), bool_terms: Default::default(), cache: Default::default(), recent: Default::default(), unsat_by: Default::default(), stats: Default::default(), dump_dir: None, timeout_ms }
        }
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a); } a }
    fn bv(&mut self, cx: &Ctx, e: Ex) -> P {
        if let Some(&t) = self.bv_terms.get(&e) { return t; }
        let k = cx.key(e);
        let c = self.c;
        let w = k.w as u32;
        let t = unsafe {
            match k.op {
                Op::Const => {
                    if w <= 64 { Z3_mk_unsigned_int64(c, k.k as u64, Z3_mk_bv_sort(c, w)) }
                    else {
                        let h = self.keep(Z3_mk_unsigned_int64(c, (k.k >> 64) as u64, Z3_mk_bv_sort(c, w - 64)));
                        let l = self.keep(Z3_mk_unsigned_int64(c, k.k as u64, Z3_mk_bv_sort(c, 64)));
                        Z3_mk_concat(c, h, l)
                    }
                }
                Op::Var => { let s = std::ffi::CString::new(format!("v{}", k.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8)) }
                Op::Concat => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_concat(c, a, b) }
                Op::Extract => { let a = self.bv(cx, k.a); Z3_mk_extract(c, k.k as u32 + w - 1, k.k as u32, a) }
                Op::ZExt => { let a = self.bv(cx, k.a); Z3_mk_zero_ext(c, w - cx.w(k.a), a) }
                Op::SExt => { let a = self.bv(cx, k.a); Z3_mk_sign_ext(c, w - cx.w(k.a), a) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(cx, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    let one = self.keep(Z3_mk_unsigned_int64(c, 1, s)); let zero = self.keep(Z3_mk_unsigned_int64(c, 0, s));
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => { let (p, a, b) = (self.boolean(cx, k.a), self.bv(cx, k.b), self.bv(cx, k.c)); Z3_mk_ite(c, p, a, b) }
                op => {
                    let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(t);
        self.bv_terms.insert(e, t);
        t
    }
    fn boolean(&mut self, cx: &Ctx, e: Ex) -> P {
        if let Some(&t) = self.bool_terms.get(&e) { return t; }
        let k = cx.key(e);
        debug_assert_eq!(k.w, 1);
        let c = self.c;
        let t = unsafe {
            match k.op {
                Op::Const => if k.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_eq(c, a, b) }
                Op::Ult => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_bvule(c, a, b) }
                Op::Slt => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let (a, b) = (self.bv(cx, k.a), self.bv(cx, k.b)); Z3_mk_bvsle(c, a, b) }
                Op::And => { let v = [self.boolean(cx, k.a), self.boolean(cx, k.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolean(cx, k.a), self.boolean(cx, k.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => {
                    if cx.konst(k.b) == Some(1) { let a = self.boolean(cx, k.a); Z3_mk_not(c, a) }
                    else { let (a, b) = (self.boolean(cx, k.a), self.boolean(cx, k.b)); Z3_mk_xor(c, a, b) }
                }
                Op::Ite => { let (p, a, b) = (self.boolean(cx, k.a), self.boolean(cx, k.b), self.boolean(cx, k.c)); Z3_mk_ite(c, p, a, b) }
                _ => { let a = self.bv(cx, e); let one = self.keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))); Z3_mk_eq(c, a, one) }
            }
        };
        self.keep(t);
        self.bool_terms.insert(e, t);
        t
    }

    /// Satisfiability of a conjunction; the model covers exactly the variables in `vars`.
    fn check(&mut self, cx: &mut Ctx, cs: &[Ex]) -> Res {
        let mut key = cs.to_vec();
        key.sort_unstable(); key.dedup();
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return r.clone(); }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut vars: Vec<u32> = vec![];
        for &e in &key { let s = cx.support(e); vars.extend_from_slice(&s); }
        vars.sort_unstable(); vars.dedup();
        let terms: Vec<P> = key.iter().map(|&e| self.boolean(cx, e)).collect();
        let c = self.c;
        let res = unsafe {
            Z3_solver_push(c, self.simple);
            for &t in &terms { Z3_solver_assert(c, self.simple, t); }
            let r = Z3_solver_check(c, self.simple);
            if let Some(d) = &self.dump_dir {
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.simple)).to_string_lossy().to_string();
                let n = self.stats.queries;
                let _ = std::fs::write(format!("{d}/q{n}_{}.smt2", if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" }), format!("(set-logic QF_BV)\n{s}(check-sat)\n"));
            }
            let out = if r == 1 { Res::Sat(Rc::new(self.model(cx, self.simple, &vars))) } else if r == -1 { Res::Unsat } else { Res::Unknown };
            Z3_solver_pop(c, self.simple, 1);
            if let Res::Unknown = out {
                let s = Z3_mk_solver_for_logic(c, self.logic);
                Z3_solver_inc_ref(c, s);
                let sym = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as _);
                let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
                Z3_params_set_uint(c, p, sym, self.timeout_ms);
                Z3_solver_set_params(c, s, p);
                for &t in &terms { Z3_solver_assert(c, s, t); }
                let r = Z3_solver_check(c, s);
                let out = if r == 1 { Res::Sat(Rc::new(self.model(cx, s, &vars))) } else if r == -1 { Res::Unsat } else { Res::Unknown };
                Z3_solver_dec_ref(c, s);
                out
            } else { out }
        };
        match res { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.slow_max { self.stats.slow_max = dt; }
        self.cache.insert(key, res.clone());
        res
    }
    unsafe fn model(&mut self, cx: &mut Ctx, s: P, vars: &[u32]) -> Vec<(u32, u8)> {
        let c = self.c;
        let m = Z3_solver_get_model(c, s);
        Z3_model_inc_ref(c, m);
        let mut out = vec![];
        for &v in vars {
            let name = cx.var_names[v as usize].clone();
            let e = cx.var(&name);
            let t = self.bv(cx, e);
            let mut r: P = std::ptr::null_mut();
            let mut x = 0u64;
            if Z3_model_eval(c, m, t, true, &mut r) { Z3_get_numeral_uint64(c, r, &mut x); }
            out.push((v, x as u8));
        }
        Z3_model_dec_ref(c, m);
        out
    }

    /// Constraints of `pc` that (transitively) share variables with `seed`.
    fn slice(&self, cx: &mut Ctx, pc: &[Ex], seed: Ex) -> Vec<Ex> {
        let sv = cx.support(seed);
        let mut seen = vec![false; cx.nvars as usize];
        for &v in sv.iter() { seen[v as usize] = true; }
        let sup: Vec<Rc<Vec<u32>>> = pc.iter().map(|&e| cx.support(e)).collect();
        let mut taken = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !taken[i] && sup[i].iter().any(|&v| seen[v as usize]) {
                    taken[i] = true; changed = true;
                    for &v in sup[i].iter() { seen[v as usize] = true; }
                }
            }
            if !changed { break; }
        }
        pc.iter().zip(taken).filter(|(_, t)| *t).map(|(e, _)| *e).collect()
    }

    /// Is pc && cond satisfiable?  `model` satisfies pc. Returns a model of pc && cond.
    pub fn sat_with(&mut self, cx: &mut Ctx, pc: &[Ex], model: &Rc<Model>, cond: Ex) -> Result<Option<Rc<Model>>, ()> {
        if let Some(k) = cx.konst(cond) { self.stats.syntactic += 1; return Ok(if k != 0 { Some(model.clone()) } else { None }); }
        if model.eval(cx, cond) != 0 { self.stats.model_hits += 1; return Ok(Some(model.clone())); }
        let mut cs = self.slice(cx, pc, cond);
        cs.push(cond);
        // counterexample cache: a recent model that happens to satisfy the slice
        for i in 0..self.recent.len() {
            let m = &self.recent[i];
            if m.eval(cx, cond) != 0 && cs.iter().all(|&c| m.eval(cx, c) != 0) {
                self.stats.cex_hits += 1;
                let mut b = model.bytes.clone();
                for &c in &cs { for &v in cx.support(c).iter() { let v = v as usize; if b.len() <= v { b.resize(v + 1, 0); } b[v] = *m.bytes.get(v).unwrap_or(&0); } }
                let m = self.recent.remove(i).unwrap(); self.recent.push_front(m);
                return Ok(Some(Model::new(b)));
            }
        }
        if let Some(sets) = self.unsat_by.get(&cond) {
            for s in sets { if s.iter().all(|c| cs.contains(c)) { self.stats.cache_hits += 1; return Ok(None); } }
        }
        match self.check(cx, &cs) {
            Res::Unsat => { let l = self.unsat_by.entry(cond).or_default(); if l.len() < 16 { l.push(cs); } Ok(None) }
            Res::Unknown => Err(()),
            Res::Sat(vals) => {
                let mut b = model.bytes.clone();
                for &(v, x) in vals.iter() { if b.len() <= v as usize { b.resize(v as usize + 1, 0); } b[v as usize] = x; }
                let m = Model::new(b);
                self.recent.push_front(m.clone()); self.recent.truncate(24);
                Ok(Some(m))
            }
        }
    }
    /// All values `e` can take under pc (each with a model), or Err if the solver gives up or there are more than `max`.
    pub fn enumerate(&mut self, cx: &mut Ctx, pc: &[Ex], model: &Rc<Model>, e: Ex, max: usize) -> Result<Vec<(u128, Rc<Model>)>, ()> {
        let cs = self.slice(cx, pc, e);
        let mut vars: Vec<u32> = cx.support(e).to_vec();
        for &x in &cs { let s = cx.support(x); vars.extend_from_slice(&s); }
        vars.sort_unstable(); vars.dedup();
        let terms: Vec<P> = cs.iter().map(|&x| self.boolean(cx, x)).collect();
        let c = self.c;
        let mut out = vec![];
        let first = model.eval(cx, e);
        out.push((first, model.clone()));
        let t0 = Instant::now();
        unsafe {
            Z3_solver_push(c, self.simple);
            for &t in &terms { Z3_solver_assert(c, self.simple, t); }
            let mut last = first;
            let r = loop {
                let eq = cx.eqc(e, last); let ne = cx.not(eq);
                if let Some(0) = cx.konst(ne) { break Ok(()); }
                let t = self.boolean(cx, ne);
                Z3_solver_assert(c, self.simple, t);
                self.stats.queries += 1;
                let r = Z3_solver_check(c, self.simple);
                if r == -1 { self.stats.unsat += 1; break Ok(()); }
                let vals = if r == 1 { self.stats.sat += 1; self.model(cx, self.simple, &vars) } else {
                    // out of time: ask again with a fresh solver and a longer limit
                    let mut all = cs.clone();
                    for &(x, _) in &out { let eq = cx.eqc(e, x); let ne = cx.not(eq); all.push(ne); }
                    match self.check(cx, &all) { Res::Unsat => break Ok(()), Res::Unknown => break Err(()), Res::Sat(v) => v.to_vec() }
                };
                let mut b = model.bytes.clone();
                for (v, x) in vals { if b.len() <= v as usize { b.resize(v as usize + 1, 0); } b[v as usize] = x; }
                let m = Model::new(b);
                last = m.eval(cx, e);
                out.push((last, m));
                if out.len() > max { break Err(()); }
            };
            Z3_solver_pop(c, self.simple, 1);
            self.stats.time += t0.elapsed().as_secs_f64();
            r?;
        }
        Ok(out)
    }
    #[allow(dead_code)]
    pub fn true_term(&self) -> P { self.bool_sort_true }
}
