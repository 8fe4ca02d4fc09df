//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub fid: u32, pub block: u32, pub ip: usize, pub regs: Vec<V>, pub sp: u64, pub allocas: Vec<u64>, pub dst: u32, pub next: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub subst: FxMap<Ex, u128>,
    /// variables whose value is determined by the path condition
    pub fixed: Vec<u64>,
    /// identifies the set of fixed variables and their values (memo key for `rewrite`)
    pub ver: u32,
    /// variables that occur in a constraint together with another variable
    pub linked: Vec<u64>,
    /// exact per-byte domains from single-variable constraints
    pub dom: Rc<FxMap<u32, [u64; 4]>>,
    /// interval facts about expressions
    pub ival: Rc<FxMap<Ex, (u128, u128)>>,
    pub model: Rc<Model>,
    pub inputs: Vec<(Rc<str>, Vec<u32>)>,
    pub counts: BTreeMap<Rc<str>, u32>,
    pub steps: u64,
    pub observed: Vec<(u32, Vec<Ex>)>,
    pub errno: u64,
    pub depth_conc: u32,
    pub choices: Vec<String>,
    pub fs: crate::fs::Fs,
}

pub struct Violation { pub kind: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<(String, Vec<u8>)>, pub observe: Vec<(u32, Vec<u8>)> }

pub struct Limits { pub max_steps: u64, pub max_time: f64, pub max_paths: u64, pub max_depth: usize, pub samples: usize, pub max_rss: u64 }

pub enum End { Next, Kill, Done }
type R<T> = Result<T, Stop>;
pub enum Stop {
    /// the state was re-queued or is infeasible; drop it
    Drop,
    Panic(String),
    Fault(String),
    Unsupported(String),
    /// path ended normally (exit/return)
    Finish,
}

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub sv: Solver,
    pub work: Vec<State>,
    pub lim: Limits,
    pub visited: BTreeSet<u32>,
    pub builtin: HashMap<u32, Option<Builtin>>,
    pub param: Vec<u64>,
    // results
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_cut: u64,
    pub paths_total: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub reached: BTreeMap<String, u64>,
    pub assert_ids: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    stop_at: Option<f64>, looks: u32,
    pub vio_keys: BTreeMap<String, u32>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<(u32, Vec<u8>)>)>,
    pub start: Instant,
    pub max_heap: u64,
    pub trace: bool,
    pub profile: Option<HashMap<(u32, u32), u64>>,
    pub rng: u64,
    pub assumed: u64,
    rw_memo: FxMap<(u32, Ex), Ex>,
    vers: FxMap<(u32, u32, u8), u32>,
    pub decided_dom: u64,
    pub decided_range: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Builtin { Bytes, Assume, Assert, Reach, Param, Observe, ForkVal, IsSym, Panic, PanicNoUnwind, Alloc, AllocZeroed, Dealloc, Realloc, Malloc, Calloc, Free, ReallocC, PosixMemalign, AlignedAlloc,
    Memcpy, Memmove, Memset, Memcmp, Strlen, Memchr, Abort, Exit, Errno, Syscall, Zero, GetRandom, Fs(crate::fs::Call), Trap, Intrinsic, FmtSkip, Unsup, NoShim, CloneFail, MinusOne, Fail }

fn mask_v(v: u128, w: u32) -> u128 { v & ones(w) }

impl Exec {
    pub fn new(m: Module, lim: Limits, param: Vec<u64>, timeout_ms: u32) -> Exec {
        Exec { m, cx: Ctx::new(), sv: Solver::new(timeout_ms), work: vec![], lim, visited: Default::default(), builtin: Default::default(), param,
            paths_ok: 0, paths_panic: 0, paths_cut: 0, paths_total: 0, forks: 0, steps: 0, asserts: 0, assert_queries: 0, reached: Default::default(), assert_ids: Default::default(), violations: vec![], stop_at: None, looks: 0, vio_keys: Default::default(), errors: Default::default(), samples: vec![], start: Instant::now(), max_heap: 0, trace: false, profile: None, rng: 0x9E3779B97F4A7C15, assumed: 0, rw_memo: Default::default(), vers: Default::default(), decided_dom: 0, decided_range: 0 }
    }

    fn lookup_builtin(&mut self, f: u32) -> Option<Builtin> {
        if let Some(b) = self.builtin.get(&f) { return *b; }
        let n = self.m.fnames[f as usize].clone();
        let n: &str = &n;
        let has = self.m.has_body(f);
        use Builtin::*;
        let b = match n {
            "vf_bytes" => Some(Bytes), "vf_assume" => Some(Assume), "vf_assert" => Some(Assert), "vf_reach" => Some(Reach), "vf_param" => Some(Param), "vf_observe" => Some(Observe), "vf_fork" => Some(ForkVal), "vf_is_symbolic" => Some(IsSym),
            "malloc" => Some(Malloc), "calloc" => Some(Calloc), "realloc" => Some(ReallocC), "free" => Some(Free), "posix_memalign" => Some(PosixMemalign), "aligned_alloc" => Some(AlignedAlloc),
            "memcpy" => Some(Memcpy), "memmove" => Some(Memmove), "memset" => Some(Memset), "memcmp" | "bcmp" => Some(Memcmp), "strlen" => Some(Strlen), "memchr" => Some(Memchr),
            "abort" => Some(Abort), "exit" | "_exit" => Some(Exit), "__errno_location" => Some(Errno), "getrandom" => Some(GetRandom), "syscall" => Some(Syscall),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "atexit" | "sigaction" | "signal" | "sigaltstack" | "isatty" => Some(Zero),
            "getenv" => Some(Zero),
            // no optional CPU features: the portable (SSE2) implementations are executed
            _ if n.contains("11std_detect6detect5cache21detect_and_initialize") || n.contains("std_detect6detect5cache21detect_and_initialize") => Some(Zero),
            _ if n.starts_with("llvm.") => Some(Intrinsic),
            _ if n.contains("9panicking9panic_fmt") || n.contains("rust_begin_unwind") || n.contains("9panicking18panic_nounwind_fmt") => Some(Panic),
            _ if n.contains("9panicking19panic_cannot_unwind") || n.contains("alloc18handle_alloc_error") || n.contains("9panicking13panic_nounwind") || n.contains("std7process5abort") || n.contains("abort_internal") => Some(PanicNoUnwind),
            _ if n.ends_with("___rust_alloc") => Some(Alloc), _ if n.ends_with("___rust_alloc_zeroed") => Some(AllocZeroed), _ if n.ends_with("___rust_dealloc") => Some(Dealloc), _ if n.ends_with("___rust_realloc") => Some(Realloc),
            _ if n.contains("___rust_no_alloc_shim") => Some(NoShim),
            _ if !has && crate::fs::Call::by_name(n).is_some() => Some(Fs(crate::fs::Call::by_name(n).unwrap())),
            _ if !has => Some(Unsup),
            _ => None,
        };
        self.builtin.insert(f, b);
        b
    }

    pub fn initial(&mut self, entry: &str) -> Result<(), String> {
        let fid = *self.m.findex.get(entry).ok_or(format!("no entry {entry}"))?;
        let mut objs = vec![];
        for i in 0..self.m.globals.len() {
            let (addr, ro, ty) = { let g = &self.m.globals[i]; (g.addr, g.constant, g.ty.clone()) };
            let init = self.m.global_init(i);
            let mut o = Obj::new(addr, ty.alloc_size(), Kind::Global, ro);
            Self::fill_const(&mut o, 0, &ty, &init);
            objs.push(Rc::new(o));
        }
        let f = self.m.func(fid);
        let nregs = f.nregs as usize;
        self.visited.insert(fid);
        let fr = Frame { f, fid, block: 0, ip: 0, regs: vec![V::I(0); nregs], sp: STACK_BASE, allocas: vec![], dst: u32::MAX, next: None };
        let st = State { frames: vec![Rc::new(fr)], mem: Mem { base: Rc::new(objs), objs: BTreeMap::new(), heap_next: HEAP_BASE, live_heap: 0 }, pc: vec![], subst: Default::default(), fixed: vec![], ver: 0, linked: vec![], dom: Default::default(), ival: Default::default(), model: Model::new(vec![]), inputs: vec![], counts: BTreeMap::new(), steps: 0, observed: vec![], errno: 0, depth_conc: 0, choices: vec![], fs: Default::default() };
        self.work.push(st);
        Ok(())
    }
    fn fill_const(o: &mut Obj, off: usize, ty: &Ty, v: &V) {
        match (ty, v) {
            (Ty::Arr(_, t), V::Agg(a)) | (Ty::Vec(_, t), V::Agg(a)) => { let s = t.alloc_size() as usize; for (i, x) in a.iter().enumerate() { Self::fill_const(o, off + i * s, t, x); } }
            (Ty::Struct(f, _), V::Agg(a)) => { let (l, _) = ty.struct_layout(); for i in 0..f.len() { Self::fill_const(o, off + l[i] as usize, &f[i], &a[i]); } }
            (_, V::I(x)) => { for i in 0..ty.store_size() as usize { if off + i < o.data.len() { o.data[off + i] = (x >> (8 * i)) as u8; } } }
            _ => {}
        }
    }

    /// Reason to stop exploring, if there is one. Once a violation is known, only a little more is looked at.
    fn spent(&mut self) -> Option<&'static str> {
        let t = self.start.elapsed().as_secs_f64();
        if t > self.lim.max_time { return Some("time limit reached: paths left unexplored"); }
        if !self.violations.is_empty() {
            let end = *self.stop_at.get_or_insert(t + 10.0);
            if t > end { return Some("stopped after a violation: paths left unexplored"); }
        }
        self.looks += 1;
        if self.looks & 0xf == 0 {
            if let Ok(m) = std::fs::read_to_string("/proc/self/statm") {
                let pages: u64 = m.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                if pages > self.lim.max_rss / 4096 { return Some("memory limit reached: paths left unexplored"); }
            }
        }
        None
    }
    pub fn run(&mut self) {
        self.start = Instant::now();
        while let Some(mut st) = self.work.pop() {
if let Some(why) = self.spent() { *self.errors.entry(why.into()).or_default() += 1; self.paths_cut += 1 + self.work.len() as u64; return; }
            if self.paths_total >= self.lim.max_paths { *self.errors.entry("path limit reached".into()).or_default() += 1; self.paths_cut += 1 + self.work.len() as u64; return; }
            loop {
                match self.step(&mut st) {
                    Ok(()) => {
                        if self.steps & 0x3fff == 0 { if let Some(why) = self.spent() { *self.errors.entry(why.into()).or_default() += 1; self.paths_cut += 1 + self.work.len() as u64; return; } }
                    }
                    Err(stop) => { self.finish(st, stop); break; }
                }
            }
        }
    }

    fn stack(&self, st: &State) -> Vec<String> { st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect() }
    fn input_vals(&self, st: &State, model: &Rc<Model>) -> Vec<(String, Vec<u8>)> {
        st.inputs.iter().map(|(n, vars)| (n.to_string(), vars.iter().map(|&v| *model.bytes.get(v as usize).unwrap_or(&0)).collect())).collect()
    }
    fn observe_vals(&self, st: &State, model: &Rc<Model>) -> Vec<(u32, Vec<u8>)> {
        st.observed.iter().map(|(id, es)| (*id, es.iter().map(|&e| model.eval(&self.cx, e) as u8).collect())).collect()
    }
    fn violate(&mut self, st: &State, model: &Rc<Model>, kind: &str, msg: String) {
        let key = format!("{kind}: {msg}");
        let n = self.vio_keys.entry(key).or_insert(0);
        *n += 1;
        if *n <= 3 {
            let v = Violation { kind: kind.into(), msg, stack: self.stack(st), inputs: self.input_vals(st, model), observe: self.observe_vals(st, model) };
            self.violations.push(v);
        }
    }
    fn finish(&mut self, st: State, stop: Stop) {
        self.max_heap = self.max_heap.max(st.mem.objs.len() as u64);
        match stop {
            Stop::Drop => {}
            Stop::Finish => {
                self.paths_total += 1; self.paths_ok += 1;
                // reservoir of completed paths for native validation
                let n = self.paths_ok;
                let k = self.lim.samples as u64;
                let put = if (self.samples.len() as u64) < k { Some(self.samples.len()) } else { self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let r = (self.rng >> 33) % n; if r < k { Some(r as usize) } else { None } };
                if let Some(i) = put {
                    let s = (self.input_vals(&st, &st.model), self.observe_vals(&st, &st.model));
                    if i < self.samples.len() { self.samples[i] = s; } else { self.samples.push(s); }
                }
            }
            Stop::Panic(msg) => { self.paths_total += 1; self.paths_panic += 1; let m = st.model.clone(); self.violate(&st, &m, "panic", msg); }
            Stop::Fault(msg) => { self.paths_total += 1; let m = st.model.clone(); self.violate(&st, &m, "fault", msg); }
            Stop::Unsupported(msg) => { self.paths_total += 1; self.paths_cut += 1; let w = format!("{msg} in {}", self.stack(&st).into_iter().take(4).collect::<Vec<_>>().join(" < ")); *self.errors.entry(w).or_default() += 1; }
        }
    }

    // ---- values
    #[inline]
    pub fn get(&mut self, st: &State, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => {
                let v = &st.frames.last().unwrap().regs[*r as usize];
                if let V::E(e) = v { if let Some(c) = self.known(st, *e) { return V::I(c); } }
                v.clone()
            }
            Opnd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) { if r != u32::MAX { Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v; } }
    pub fn ex(&mut self, v: &V, w: u32) -> Ex { match v { V::I(x) => self.cx.c(*x, w), V::E(e) => *e, V::Agg(_) => panic!("agg as scalar") } }
    pub fn val(&self, e: Ex) -> V { match self.cx.konst(e) { Some(k) => V::I(k), None => V::E(e) } }

    /// value of `e` if the path condition fixes it syntactically
    fn known(&mut self, st: &State, e: Ex) -> Option<u128> {
        if st.subst.is_empty() { return None; }
        if let Some(&c) = st.subst.get(&e) { return Some(c); }
        if st.fixed.is_empty() { return None; }
        let s = self.cx.support(e);
        if s.len() <= 64 && s.iter().all(|&v| st.fixed.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1)) { return Some(st.model.eval(&self.cx, e)); }
        None
    }
    fn is_fixed(st: &State, v: u32) -> bool { st.fixed.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1) }
    fn is_linked(st: &State, v: u32) -> bool { st.linked.get(v as usize / 64).map_or(false, |w| w >> (v % 64) & 1 == 1) }
    fn link(st: &mut State, v: u32) { let i = v as usize / 64; if st.linked.len() <= i { st.linked.resize(i + 1, 0); } st.linked[i] |= 1 << (v % 64); }
    fn fix_var(&mut self, st: &mut State, v: u32, x: u8) {
        if Self::is_fixed(st, v) { return; }
        debug_assert_eq!(*st.model.bytes.get(v as usize).unwrap_or(&0), x);
        let i = v as usize / 64;
        if st.fixed.len() <= i { st.fixed.resize(i + 1, 0); }
        st.fixed[i] |= 1 << (v % 64);
        let n = self.vers.len() as u32 + 1;
        st.ver = *self.vers.entry((st.ver, v, x)).or_insert(n);
        let name = self.cx.var_names[v as usize].clone();
        let e = self.cx.var(&name);
        st.subst.insert(e, x as u128);
        // constraints over v shrink; re-add them
        if Self::is_linked(st, v) {
            let old = std::mem::take(&mut st.pc);
            st.linked.clear();
            let mut again = vec![];
            for c in old {
                let s = self.cx.support(c);
                if s.binary_search(&v).is_ok() { again.push(c); continue; }
                if s.len() > 1 { for &u in s.iter() { Self::link(st, u); } }
                st.pc.push(c);
            }
            for c in again { let r = self.rewrite(st, c); self.add_pc(st, r); }
        } else {
            let cx = &mut self.cx;
            st.pc.retain(|&c| { let s = cx.support(c); !(s.len() == 1 && s[0] == v) });
        }
    }
    /// Substitute the variables the path condition fixes.
    fn rewrite(&mut self, st: &State, e: Ex) -> Ex {
        if st.fixed.is_empty() { return e; }
        let s = self.cx.support(e);
        if !s.iter().any(|&v| Self::is_fixed(st, v)) { return e; }
        if let Some(&r) = self.rw_memo.get(&(st.ver, e)) { return r; }
        let k = self.cx.key(e);
        let r = if k.op == Op::Var { let x = *st.model.bytes.get(k.k as usize).unwrap_or(&0); self.cx.c(x as u128, 8) } else {
            let a = if k.a != 0 { self.rewrite(st, k.a) } else { 0 };
            let b = if k.b != 0 { self.rewrite(st, k.b) } else { 0 };
            let c = if k.c != 0 { self.rewrite(st, k.c) } else { 0 };
            self.cx.rebuild(e, a, b, c)
        };
        if self.rw_memo.len() > 4_000_000 { self.rw_memo.clear(); }
        self.rw_memo.insert((st.ver, e), r);
        r
    }
    fn tighten(&mut self, st: &mut State, e: Ex, lo: u128, hi: u128) {
        let (l, h) = self.range(st, e, 8);
        if lo > l || hi < h { Rc::make_mut(&mut st.ival).insert(e, (lo.max(l), hi.min(h))); }
        let k = self.cx.key(e);
        match k.op {
            Op::ZExt => self.tighten(st, k.a, lo, hi),
            Op::Concat => { let wl = self.cx.w(k.b); self.tighten(st, k.a, lo >> wl, hi >> wl); }
            _ => {}
        }
    }
    /// Unsigned range of `e` on this path (sound over-approximation).
    fn range(&mut self, st: &State, e: Ex, d: u32) -> (u128, u128) {
        let (mut lo, mut hi) = (self.cx.umin(e), self.cx.umax(e));
        if lo == hi { return (lo, hi); }
        if let Some(&v) = st.subst.get(&e) { return (v, v); }
        if let Some(&(l, h)) = st.ival.get(&e) { lo = lo.max(l); hi = hi.min(h); }
        if d == 0 { return (lo, hi); }
        let k = self.cx.key(e);
        let m = ones(k.w as u32);
        let (l, h) = match k.op {
            Op::Var => match st.dom.get(&(k.k as u32)) {
                Some(t) => { let ok = |x: &usize| t[x / 64] >> (x % 64) & 1 == 1; ((0..256usize).find(ok).unwrap_or(0) as u128, (0..256usize).rev().find(ok).unwrap_or(0) as u128) }
                None => (lo, hi),
            },
            Op::ZExt => self.range(st, k.a, d - 1),
            Op::Concat => { let wl = self.cx.w(k.b); let (a, b) = (self.range(st, k.a, d - 1), self.range(st, k.b, d - 1)); ((a.0 << wl) | b.0, (a.1 << wl) | b.1) }
            Op::Add => {
                let (a, b) = (self.range(st, k.a, d - 1), self.range(st, k.b, d - 1));
                match a.1.checked_add(b.1) {
                    Some(h) if h <= m => (a.0 + b.0, h),
                    // every value wraps exactly once
                    Some(h) if k.w < 128 && a.0 + b.0 > m => (a.0 + b.0 - m - 1, h - m - 1),
                    _ => (lo, hi),
                }
            }
            Op::Sub => { let (a, b) = (self.range(st, k.a, d - 1), self.range(st, k.b, d - 1)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (lo, hi) } }
            Op::Mul => { let (a, b) = (self.range(st, k.a, d - 1), self.range(st, k.b, d - 1)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (lo, hi) } }
            Op::UDiv => { let (a, b) = (self.range(st, k.a, d - 1), self.range(st, k.b, d - 1)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (lo, hi) } }
            Op::Ite => { let (a, b) = (self.range(st, k.b, d - 1), self.range(st, k.c, d - 1)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Extract if k.k == 0 => { let a = self.range(st, k.a, d - 1); if a.1 <= m { a } else { (lo, hi) } }
            Op::Extract => { let a = self.range(st, k.a, d - 1); let s = k.k as u32; if a.1 >> s <= m { (a.0 >> s, a.1 >> s) } else { (lo, hi) } }
            _ => (lo, hi),
        };
        (lo.max(l), hi.min(h))
    }
    /// Truth value of `c` if ranges on this path decide it.
    fn by_range(&mut self, st: &State, c: Ex, d: u32) -> Option<bool> {
        if let Some(v) = self.cx.konst(c) { return Some(v != 0); }
        if let Some(&v) = st.subst.get(&c) { return Some(v != 0); }
        if d == 0 { return None; }
        let k = self.cx.key(c);
        match k.op {
            Op::Ult | Op::Ule => {
                let (a, b) = (self.range(st, k.a, 8), self.range(st, k.b, 8));
                if k.op == Op::Ult { if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None } }
                else if a.1 <= b.0 { Some(true) } else if a.0 > b.1 { Some(false) } else { None }
            }
            Op::Eq if self.cx.w(k.a) > 1 => { let (a, b) = (self.range(st, k.a, 8), self.range(st, k.b, 8)); if a.1 < b.0 || b.1 < a.0 { Some(false) } else if a.0 == a.1 && a == b { Some(true) } else { None } }
            Op::Xor if self.cx.konst(k.b) == Some(1) => self.by_range(st, k.a, d - 1).map(|x| !x),
            Op::And => match (self.by_range(st, k.a, d - 1), self.by_range(st, k.b, d - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or => match (self.by_range(st, k.a, d - 1), self.by_range(st, k.b, d - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            _ => None,
        }
    }
    fn add_pc(&mut self, st: &mut State, c: Ex) {
        if self.cx.konst(c) == Some(1) { return; }
        let c = self.rewrite(st, c);
        if self.cx.konst(c).is_some() { return; }
        let k = self.cx.key(c);
        if k.op == Op::And { self.add_pc(st, k.a); self.add_pc(st, k.b); return; }
        if k.op == Op::Xor && self.cx.konst(k.b) == Some(1) {
            let i = self.cx.key(k.a);
            if i.op == Op::Or { let a = self.cx.not(i.a); let b = self.cx.not(i.b); self.add_pc(st, a); self.add_pc(st, b); return; }
            st.subst.insert(k.a, 0);
        }
        match k.op {
            Op::Eq => { if let Some(v) = self.cx.konst(k.b) { st.subst.insert(k.a, v); self.tighten(st, k.a, v, v); let x = self.cx.key(k.a); if x.op == Op::ZExt { st.subst.insert(x.a, v); } } }
            Op::Ult => {
                let (a, b) = (self.range(st, k.a, 8), self.range(st, k.b, 8));
                if b.1 > 0 { self.tighten(st, k.a, 0, b.1 - 1); }
                self.tighten(st, k.b, a.0 + 1, u128::MAX);
            }
            Op::Ule => {
                let (a, b) = (self.range(st, k.a, 8), self.range(st, k.b, 8));
                self.tighten(st, k.a, 0, b.1);
                self.tighten(st, k.b, a.0, u128::MAX);
            }
            _ => {}
        }
        st.subst.insert(c, 1);
        let s = self.cx.support(c);
        if s.len() == 1 {
            let v = s[0];
            let t = self.cx.table(c, v);
            let d = Rc::make_mut(&mut st.dom).entry(v).or_insert([u64::MAX; 4]);
            for i in 0..4 { d[i] &= t[i]; }
            let d = *d;
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                let x = (0..256usize).find(|&x| d[x / 64] >> (x % 64) & 1 == 1).unwrap();
                if !st.pc.contains(&c) { st.pc.push(c); }
                self.fix_var(st, v, x as u8);
                return;
            }
        } else { for &v in s.iter() { Self::link(st, v); } }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    /// Is `cond` satisfiable here? Ok(Some(model)) / Ok(None).  `z3`: always ask the SMT solver
    /// unless the answer is syntactic (used for assertions).
    fn sat(&mut self, st: &State, cond: Ex, z3: bool) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.known(st, cond) { return Ok(if v != 0 { Some(st.model.clone()) } else { None }); }
        let cond = self.rewrite(st, cond);
        if let Some(v) = self.known(st, cond) { return Ok(if v != 0 { Some(st.model.clone()) } else { None }); }
        if let Some(v) = self.cx.konst(cond) { return Ok(if v != 0 { Some(st.model.clone()) } else { None }); }
        let n = self.cx.not(cond);
        if let Some(&1) = st.subst.get(&n) { return Ok(None); }
        if st.model.eval(&self.cx, cond) != 0 { self.sv.stats.model_hits += 1; return Ok(Some(st.model.clone())); }
        if !z3 {
            let s = self.cx.support(cond);
            if s.len() == 1 {
                let v = s[0];
                let t = self.cx.table(cond, v);
                let d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
                let x = (0..256usize).find(|&x| (d[x / 64] & t[x / 64]) >> (x % 64) & 1 == 1);
                match x {
                    None => { self.decided_dom += 1; return Ok(None); }
                    Some(x) if !Self::is_linked(st, v) => {
                        self.decided_dom += 1;
                        let mut b = st.model.bytes.clone();
                        if b.len() <= v as usize { b.resize(v as usize + 1, 0); }
                        b[v as usize] = x as u8;
                        return Ok(Some(Model::new(b)));
                    }
                    _ => {}
                }
            }
            if self.by_range(st, cond, 6) == Some(false) { self.decided_range += 1; return Ok(None); }
        }
        self.sv.sat_with(&mut self.cx, &st.pc, &st.model, cond).map_err(|_| Stop::Unsupported("solver gave no answer in its time limit".into()))
    }
    /// Fork on a condition. Returns the side the current state takes; the other side (if feasible) is queued
    /// at the *same* instruction (it re-executes with the opposite constraint).
    fn branch(&mut self, st: &mut State, cond: Ex) -> R<bool> {
        if let Some(k) = self.cx.konst(cond) { return Ok(k != 0); }
        if let Some(v) = self.known(st, cond) { return Ok(v != 0); }
        let orig = cond;
        let cond = self.rewrite(st, cond);
        if let Some(k) = self.cx.konst(cond) { return Ok(k != 0); }
        if let Some(v) = self.known(st, cond) { return Ok(v != 0); }
        let here = st.model.eval(&self.cx, cond) != 0;
        let nc = self.cx.not(cond);
        let (mine, other) = if here { (cond, nc) } else { (nc, cond) };
        if let Some(m) = self.sat(st, other, false)? {
            self.forks += 1;
            if let Some(p) = &mut self.profile { let f = st.frames.last().unwrap(); *p.entry((f.fid, f.block)).or_default() += 1; }
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, other);
            o.subst.insert(orig, !here as u128);
            self.work.push(o);
            self.add_pc(st, mine);
        } else {
            // implied: remember
            st.subst.insert(cond, here as u128);
            st.subst.insert(nc, !here as u128);
        }
        st.subst.insert(orig, here as u128);
        Ok(here)
    }
    /// Concrete value of a scalar; forks over the feasible values.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(x) => Ok(*x),
            V::E(e) => {
                if let Some(c) = self.known(st, *e) { return Ok(c); }
                let orig = *e;
                let e = &self.rewrite(st, *e);
                if let Some(c) = self.cx.konst(*e) { return Ok(c); }
                let e = *e;
                // every feasible value
                let sup = self.cx.support(e);
                let vals: Result<Vec<(u128, Rc<Model>)>, ()> = if sup.len() == 1 && !Self::is_linked(st, sup[0]) {
                    let v = sup[0] as usize;
                    let d = st.dom.get(&sup[0]).copied().unwrap_or([u64::MAX; 4]);
                    let mut out: Vec<(u128, Rc<Model>)> = vec![(st.model.eval(&self.cx, e), st.model.clone())];
                    for x in 0..256usize {
                        if d[x / 64] >> (x % 64) & 1 == 0 { continue; }
                        let mut b = st.model.bytes.clone();
                        if b.len() <= v { b.resize(v + 1, 0); }
                        b[v] = x as u8;
                        let m = Model::new(b);
                        let y = m.eval(&self.cx, e);
                        if !out.iter().any(|o| o.0 == y) { out.push((y, m)); }
                    }
                    self.decided_dom += 1;
                    Ok(out)
                } else { self.sv.enumerate(&mut self.cx, &st.pc, &st.model, e, 4096) };
                let vals = vals.map_err(|_| Stop::Unsupported("more than 4096 values for one address, size or count (or solver gave up)".into()))?;
                if vals.len() > 1 {
                    self.forks += vals.len() as u64 - 1;
                    if let Some(p) = &mut self.profile { let f = st.frames.last().unwrap(); *p.entry((f.fid, f.block)).or_default() += vals.len() as u64 - 1; }
                }
                for (x, m) in &vals[1..] {
                    let mut o = st.clone();
                    o.model = m.clone();
                    let eq = self.cx.eqc(e, *x);
                    self.add_pc(&mut o, eq);
                    o.subst.insert(e, *x); o.subst.insert(orig, *x);
                    self.work.push(o);
                }
                let x = vals[0].0;
                let eq = self.cx.eqc(e, x);
                self.add_pc(st, eq);
                st.subst.insert(e, x); st.subst.insert(orig, x);
                Ok(x)
            }
            V::Agg(_) => Err(Stop::Unsupported("aggregate as address".into())),
        }
    }
    fn conc_o(&mut self, st: &mut State, o: &Opnd) -> R<u128> { let v = self.get(st, o); self.conc(st, &v) }

    // ---- memory access
    pub fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        let o = match st.mem.find_n(addr, n as u64) { Some(o) => o.clone(), None => return Err(Stop::Fault(format!("invalid read of {n} bytes{}", self.fault_ctx(st, addr)))) };
        Ok(self.read_obj(&o, (addr - o.base) as usize, n))
    }
    fn fault_ctx(&self, st: &State, addr: u64) -> String { let f = demangle(&st.frames.last().unwrap().f.name); let nul = if addr < 4096 { " (null)" } else { "" }; format!("{nul} in {f}") }
    fn read_obj(&mut self, o: &Obj, off: usize, n: usize) -> V {
        if n <= 16 && !o.any_sym(off, n) {
            let mut x = 0u128;
            for i in (0..n).rev() { x = (x << 8) | o.data[off + i] as u128; }
            return V::I(x);
        }
        let mut e = o.byte(&mut self.cx, off);
        for i in 1..n { let b = o.byte(&mut self.cx, off + i); e = self.cx.concat(b, e); }
        self.val(e)
    }
    pub fn store_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        let cxt = if st.mem.find_n(addr, n as u64).map(|o| !o.ro) != Some(true) { Some(self.fault_ctx(st, addr)) } else { None };
        if let Some(c) = cxt { return Err(Stop::Fault(format!("invalid write of {n} bytes{c}"))); }
        let o = st.mem.find_mut(addr, n as u64).unwrap();
        let off = (addr - o.base) as usize;
        match v {
            V::I(x) => for i in 0..n { o.set_conc(off + i, (x >> (8 * i)) as u8) },
            V::E(e) => {
                let w = self.cx.w(*e);
                let e = if w < 8 * n as u32 { self.cx.zext(*e, 8 * n as u32) } else { *e };
                for i in 0..n {
                    let b = self.cx.extract(e, 8 * i as u32, 8);
                    match self.cx.konst(b) { Some(k) => o.set_conc(off + i, k as u8), None => o.set_sym(off + i, b) }
                }
            }
            V::Agg(_) => panic!(),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<V> {
        Ok(match ty {
            Ty::Int(w) => {
                let v = self.load_bytes(st, addr, ty.store_size() as usize)?;
                if w % 8 != 0 { match v { V::I(x) => V::I(mask_v(x, *w)), V::E(e) => { let e = self.cx.extract(e, 0, *w); self.val(e) } _ => unreachable!() } } else { v }
            }
            Ty::Ptr | Ty::Double | Ty::Float => self.load_bytes(st, addr, ty.store_size() as usize)?,
            Ty::Arr(n, t) => { let s = t.alloc_size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, t, addr + i * s)?); } V::Agg(Rc::new(v)) }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { let raw = self.load_bytes(st, addr, ty.store_size() as usize)?; let e = self.ex(&raw, 8 * ty.store_size() as u32); let mut v = vec![]; for i in 0..*n { let x = self.cx.extract(e, i as u32 * t.bits(), t.bits()); v.push(self.val(x)); } return Ok(V::Agg(Rc::new(v))); }
                let s = t.store_size(); let mut v = vec![]; for i in 0..*n { v.push(self.load(st, t, addr + i * s)?); } V::Agg(Rc::new(v))
            }
            Ty::Struct(f, _) => { let (l, _) = ty.struct_layout(); let mut v = vec![]; for i in 0..f.len() { v.push(self.load(st, &f[i], addr + l[i])?); } V::Agg(Rc::new(v)) }
            _ => return Err(Stop::Unsupported("load type".into())),
        })
    }
    fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Arr(_, t), V::Agg(a)) => { let s = t.alloc_size(); for (i, x) in a.iter().enumerate() { self.store(st, t, addr + i as u64 * s, x)?; } Ok(()) }
            (Ty::Vec(_, t), V::Agg(a)) => {
                if t.bits() % 8 != 0 { let e = self.pack(a, t.bits()); let n = ty.store_size() as usize; return self.store_bytes(st, addr, n, &e); }
                let s = t.store_size(); for (i, x) in a.iter().enumerate() { self.store(st, t, addr + i as u64 * s, x)?; } Ok(())
            }
            (Ty::Struct(f, _), V::Agg(a)) => { let (l, _) = ty.struct_layout(); for i in 0..f.len() { self.store(st, &f[i], addr + l[i], &a[i])?; } Ok(()) }
            _ => self.store_bytes(st, addr, ty.store_size() as usize, v),
        }
    }
    fn pack(&mut self, a: &[V], w: u32) -> V {
        let mut e = self.ex(&a[0], w);
        for x in &a[1..] { let y = self.ex(x, w); e = self.cx.concat(y, e); }
        self.val(e)
    }

    /// Load through a symbolic pointer: mux over the object if that is cheap, else fork over addresses.
    fn load_sym(&mut self, st: &mut State, ty: &Ty, p: Ex) -> R<V> {
        if ty.is_scalar() {
            let n = ty.store_size();
            let p = self.rewrite(st, p);
            if let Some(a) = self.cx.konst(p) { return self.load(st, ty, a as u64); }
            let k = self.cx.key(p);
            let (idx, c) = if k.op == Op::Add && self.cx.konst(k.b).is_some() { (k.a, self.cx.konst(k.b).unwrap() as u64) } else { (p, 0) };
            let here = st.model.eval(&self.cx, p) as u64;
            if let Some(o) = st.mem.find_n(here, n).cloned() {
                // in range?
                let lo = o.base; let hi = o.base + o.size() - n;
                let lo_e = self.cx.c(lo as u128, 64); let hi_e = self.cx.c(hi as u128, 64);
                let a = self.cx.bin(Op::Ule, lo_e, p); let b = self.cx.bin(Op::Ule, p, hi_e);
                // p = idx + c: use interval knowledge when the sum does not wrap
                let (imin, imax) = { let r = self.range(st, idx, 8); (r.0 as u64, r.1 as u64) };
                let inr = if let (Some(x), Some(y)) = (imin.checked_add(c), imax.checked_add(c)) { if x >= lo && y <= hi { self.cx.tru() } else { self.cx.bin(Op::And, a, b) } } else { self.cx.bin(Op::And, a, b) };
                if !self.branch(st, inr)? { return Err(Stop::Unsupported("symbolic pointer outside its object".into())); }
                let mask = self.cx.possible(idx) as u64;
                // bits above what can address the object are determined; restrict to offsets inside the object
                let span = o.size();
                let mut cands: Vec<(u64, u64)> = vec![]; // (idx value, offset)
                let step = if mask == 0 { 1 } else { 1u64 << mask.trailing_zeros() };
                if span / step <= 1024 {
                    let first = lo.wrapping_sub(c);
                    // idx values v = addr - c for addr in [lo, hi]
                    let mut addr = lo;
                    let mis = first & (step - 1);
                    if mis != 0 { addr += step - mis; }
                    while addr <= hi {
                        let v = addr.wrapping_sub(c);
                        if v & !mask == 0 && v >= imin && v <= imax { cands.push((v, addr - lo)); }
                        addr += step;
                    }
                    let conc_only = match &o.sym { None => true, Some(_) => !cands.iter().any(|c| o.any_sym(c.1 as usize, n as usize)) };
                    if !cands.is_empty() && cands.len() <= if conc_only { 512 } else { 4 } {
                        let mut leaves: Vec<(u64, Ex)> = vec![];
                        for (v, off) in cands {
                            let x = self.read_obj(&o, off as usize, n as usize);
                            let e = self.ex(&x, 8 * n as u32);
                            leaves.push((v, e));
                        }
                        let e = self.mux(idx, &leaves, 63);
                        let w = ty.bits();
                        let e = if w < 8 * n as u32 { self.cx.extract(e, 0, w) } else { e };
                        return Ok(self.val(e));
                    }
                }
            }
        }
        let a = self.conc(st, &V::E(p))? as u64;
        self.load(st, ty, a)
    }
    fn mux(&mut self, idx: Ex, leaves: &[(u64, Ex)], bit: i32) -> Ex {
        let f = leaves[0].1;
        if leaves.iter().all(|l| l.1 == f) { return f; }
        let mut bit = bit;
        while bit >= 0 && leaves.iter().all(|l| (l.0 >> bit) & 1 == (leaves[0].0 >> bit) & 1) { bit -= 1; }
        // leaves are sorted by value only modulo wrap; partition explicitly
        let (one, zero): (Vec<_>, Vec<_>) = leaves.iter().partition(|l| (l.0 >> bit) & 1 == 1);
        let a = self.mux(idx, &one, bit - 1);
        let b = self.mux(idx, &zero, bit - 1);
        let c = self.cx.extract(idx, bit as u32, 1);
        self.cx.ite(c, a, b)
    }

    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = match st.mem.find_n(s, n) { Some(o) => o.clone(), None => return Err(Stop::Fault(format!("memcpy: invalid source of {n} bytes{}", self.fault_ctx(st, s)))) };
        let soff = (s - so.base) as usize; let n = n as usize;
        let cxt = self.fault_ctx(st, d);
        let o = match st.mem.find_mut(d, n as u64) { Some(o) => o, None => return Err(Stop::Fault(format!("memcpy: invalid destination of {n} bytes{cxt}"))) };
        let off = (d - o.base) as usize;
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        if so.any_sym(soff, n) {
            let len = o.data.len();
            let src = so.sym.as_ref().unwrap();
            o.sym.get_or_insert_with(|| vec![0; len])[off..off + n].copy_from_slice(&src[soff..soff + n]);
        } else if let Some(x) = &mut o.sym { x[off..off + n].fill(0); }
        Ok(())
    }
    pub fn read_mem(&mut self, st: &State, a: u64, n: u64) -> R<Vec<Ex>> {
        if n == 0 { return Ok(vec![]); }
        let o = match st.mem.find_n(a, n) { Some(o) => o.clone(), None => return Err(Stop::Fault(format!("invalid read of {n} bytes{}", self.fault_ctx(st, a)))) };
        let off = (a - o.base) as usize;
        Ok((0..n as usize).map(|i| o.byte(&mut self.cx, off + i)).collect())
    }
    pub fn write_mem(&mut self, st: &mut State, a: u64, es: &[Ex]) -> R<()> {
        for (i, &e) in es.iter().enumerate() { let v = self.val(e); self.store_bytes(st, a + i as u64, 1, &v)?; }
        Ok(())
    }
    pub fn read_str(&mut self, st: &State, a: u64, n: u64) -> String {
        match self.read_mem(st, a, n) { Ok(b) => { let v: Vec<u8> = b.iter().map(|&e| self.cx.konst(e).unwrap_or(b'?' as u128) as u8).collect(); String::from_utf8_lossy(&v).into_owned() } Err(_) => "?".into() }
    }
    fn read_u64(&mut self, st: &State, a: u64) -> Option<u64> { match self.load_bytes(st, a, 8) { Ok(V::I(x)) => Some(x as u64), _ => None } }
    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        let p = self.read_u64(st, a)?; let n = self.read_u64(st, a + 8)?;
        let l = match self.load_bytes(st, a + 16, 4) { Ok(V::I(x)) => x, _ => return None };
        if n == 0 || n > 300 { return None; }
        let s = self.read_str(st, p, n);
        if !s.contains(".rs") { return None; }
        Some(format!("{}:{}", s.trim_end_matches('\0'), l))
    }

    // ---- stepping
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap().clone();
        let from = fr.block;
        let b = &fr.f.blocks[to as usize];
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
        for (d, inc) in &b.phis {
            let o = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| o).expect("phi pred");
            vals.push((*d, self.get(st, o)));
        }
        drop(fr);
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.block = to; f.ip = 0;
        for (d, v) in vals { f.regs[d as usize] = v; }
        Ok(())
    }
    #[inline]
    fn adv(st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }

    fn lanes(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Exec, u32, &V, &V) -> V) -> V {
        if let Ty::Vec(_, t) = ty {
            let (V::Agg(x), V::Agg(y)) = (a, b) else { panic!("vector operand") };
            let w = t.bits();
            V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(self, w, p, q)).collect()))
        } else { f(self, ty.bits(), a, b) }
    }
    pub fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) { return V::I(fold(op, *x, *y, w).unwrap()); }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let e = self.cx.bin(op, x, y);
        self.val(e)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        match p {
            Pred::Eq => self.bin(Op::Eq, w, a, b),
            Pred::Ne => { let r = self.bin(Op::Eq, w, a, b); self.bin(Op::Xor, 1, &r, &V::I(1)) }
            Pred::Ult => self.bin(Op::Ult, w, a, b), Pred::Ugt => self.bin(Op::Ult, w, b, a),
            Pred::Ule => self.bin(Op::Ule, w, a, b), Pred::Uge => self.bin(Op::Ule, w, b, a),
            Pred::Slt => self.bin(Op::Slt, w, a, b), Pred::Sgt => self.bin(Op::Slt, w, b, a),
            Pred::Sle => self.bin(Op::Sle, w, a, b), Pred::Sge => self.bin(Op::Sle, w, b, a),
        }
    }
    fn cast1(&mut self, kind: Cast, from: u32, to: u32, v: &V) -> R<V> {
        Ok(match (kind, v) {
            (Cast::Bit, _) => v.clone(),
            (Cast::Trunc, V::I(x)) => V::I(mask_v(*x, to)),
            (Cast::ZExt, V::I(_)) => v.clone(),
            (Cast::SExt, V::I(x)) => V::I(mask_v(sext(*x, from) as u128, to)),
            (Cast::Trunc, V::E(e)) => { let r = self.cx.extract(*e, 0, to); self.val(r) }
            (Cast::ZExt, V::E(e)) => { let r = self.cx.zext(*e, to); self.val(r) }
            (Cast::SExt, V::E(e)) => { let r = self.cx.sxt(*e, to); self.val(r) }
            (k, V::I(x)) => {
                let f = |x: u128, w: u32| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let r = |d: f64, w: u32| if w == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 };
                match k {
                    Cast::FpToUi => V::I(mask_v(f(*x, from) as u128, to)), Cast::FpToSi => V::I(mask_v((f(*x, from) as i128) as u128, to)),
                    Cast::UiToFp => V::I(if to == 32 { (*x as f32).to_bits() as u128 } else { (*x as f64).to_bits() as u128 }), Cast::SiToFp => { let s = sext(*x, from); V::I(if to == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }) }
                    Cast::FpExt | Cast::FpTrunc => V::I(r(f(*x, from), to)),
                    _ => unreachable!(),
                }
            }
            _ => return Err(Stop::Unsupported("symbolic float conversion".into())),
        })
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        self.steps += 1; st.steps += 1;
        if st.steps > self.lim.max_steps { return Err(Stop::Fault("step limit: path does not terminate within the step bound (hang)".into())); }
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.block as usize].insts[fr.ip];
        match inst {
            Inst::Nop => { Self::adv(st); }
            Inst::Bin { op, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && !matches!(ty, Ty::Vec(..)) {
                    if let V::I(0) = y { return Err(Stop::Fault("division by zero (undefined behaviour)".into())); }
                }
                let op = *op;
                let r = self.lanes(ty, &x, &y, &mut |s, w, p, q| s.bin(op, w, p, q));
                self.set(st, *dst, r); Self::adv(st);
            }
            Inst::ICmp { pred, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let p = *pred;
                let r = self.lanes(ty, &x, &y, &mut |s, w, q, r| s.icmp(p, w, q, r));
                self.set(st, *dst, r); Self::adv(st);
            }
            Inst::Cast { kind, from, to, dst, a } => {
                let x = self.get(st, a);
                let r = if *kind == Cast::Bit {
                    match (from, to) {
                        (Ty::Vec(_, t), Ty::Vec(n2, t2)) => {
                            let V::Agg(l) = &x else { panic!() };
                            if t.bits() == t2.bits() { x.clone() } else {
                                // through bytes/bits of at most 128
                                let e = self.pack(l, t.bits()); let e = self.ex(&e, from.bits());
                                let mut v = vec![]; for i in 0..*n2 { let y = self.cx.extract(e, i as u32 * t2.bits(), t2.bits()); v.push(self.val(y)); }
                                V::Agg(Rc::new(v))
                            }
                        }
                        (Ty::Vec(_, t), _) => { let V::Agg(l) = &x else { panic!() }; self.pack(l, t.bits()) }
                        (_, Ty::Vec(n, t)) => { let e = self.ex(&x, from.bits()); let mut v = vec![]; for i in 0..*n { let y = self.cx.extract(e, i as u32 * t.bits(), t.bits()); v.push(self.val(y)); } V::Agg(Rc::new(v)) }
                        _ => x.clone(),
                    }
                } else if let (Ty::Vec(_, t), Ty::Vec(_, t2)) = (from, to) {
                    let V::Agg(l) = &x else { panic!() };
                    let mut v = vec![]; for y in l.iter() { v.push(self.cast1(*kind, t.bits(), t2.bits(), y)?); } V::Agg(Rc::new(v))
                } else {
                    let x = if matches!(x, V::E(_)) && !matches!(kind, Cast::Bit | Cast::Trunc | Cast::ZExt | Cast::SExt) { V::I(self.conc(st, &x)?) } else { x };
                    self.cast1(*kind, from.bits(), to.bits(), &x)?
                };
                self.set(st, *dst, r); Self::adv(st);
            }
            Inst::Select { cty, ty, dst, c, a, b } => {
                let cv = self.get(st, c); let (x, y) = (self.get(st, a), self.get(st, b));
                let r = if let Ty::Vec(..) = cty {
                    let (V::Agg(cs), V::Agg(xs), V::Agg(ys)) = (&cv, &x, &y) else { panic!() };
                    let w = if let Ty::Vec(_, t) = ty { t.bits() } else { 0 };
                    let mut v = vec![];
                    for i in 0..cs.len() { v.push(match &cs[i] { V::I(0) => ys[i].clone(), V::I(_) => xs[i].clone(), V::E(e) => { let (p, q) = (self.ex(&xs[i], w), self.ex(&ys[i], w)); let r = self.cx.ite(*e, p, q); self.val(r) } _ => panic!() }); }
                    V::Agg(Rc::new(v))
                } else {
                    match cv {
                        V::I(0) => y, V::I(_) => x,
                        V::E(e) => {
                            if ty.is_scalar() && *ty != Ty::Ptr && (*ty != Ty::Int(64) || matches!((&x, &y), (V::I(_), V::I(_)))) { let (p, q) = (self.ex(&x, ty.bits()), self.ex(&y, ty.bits())); let r = self.cx.ite(e, p, q); self.val(r) }
                            else if self.branch(st, e)? { x } else { y }
                        }
                        _ => panic!(),
                    }
                };
                self.set(st, *dst, r); Self::adv(st);
            }
            Inst::Load { ty, dst, p } => {
                let v = match self.get(st, p) { V::I(a) => self.load(st, ty, a as u64)?, V::E(e) => self.load_sym(st, ty, e)?, _ => panic!() };
                self.set(st, *dst, v); Self::adv(st);
            }
            Inst::Store { ty, v, p } => {
                let a = self.conc_o(st, p)? as u64;
                let v = self.get(st, v);
                self.store(st, ty, a, &v)?; Self::adv(st);
            }
            Inst::Gep { dst, base, off, idx } => {
                let mut v = self.get(st, base);
                if *off != 0 { v = self.bin(Op::Add, 64, &v, &V::I(*off as u64 as u128)); }
                for (o, w, s) in idx {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i)? } else if *w > 64 { self.cast1(Cast::Trunc, *w, 64, &i)? } else { i };
                    let i = self.bin(Op::Mul, 64, &i, &V::I(*s as u64 as u128));
                    v = self.bin(Op::Add, 64, &v, &i);
                }
                self.set(st, *dst, v); Self::adv(st);
            }
            Inst::Alloca { dst, size, align, n } => {
                let k = match n { Some((o, _)) => self.conc_o(st, o)? as u64, None => 1 };
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                let al = (*align).max(16);
                let a = (fr.sp + al - 1) / al * al;
                let sz = size * k;
                fr.sp = a + sz + 32;
                if fr.sp - STACK_BASE > (64 << 20) { return Err(Stop::Fault("stack overflow (stack use above 64 MiB)".into())); }
                fr.allocas.push(a);
                fr.regs[*dst as usize] = V::I(a as u128);
                fr.ip += 1;
                st.mem.objs.insert(a, Rc::new(Obj::new(a, sz, Kind::Stack, false)));
            }
            Inst::Br(b) => self.jump(st, *b)?,
            Inst::CondBr { c, t, f } => {
                let b = match self.get(st, c) { V::I(x) => x != 0, V::E(e) => self.branch(st, e)?, _ => panic!() };
                self.jump(st, if b { *t } else { *f })?;
            }
            Inst::Switch { v, w, def, cases } => {
                match self.get(st, v) {
                    V::I(x) => { let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def); self.jump(st, t)?; }
                    V::E(e) => {
                        let e = self.rewrite(st, e);
                        // group by target
                        let mut groups: Vec<(u32, Ex)> = vec![];
                        let mut any = self.cx.c(0, 1);
                        for (k, t) in cases {
                            let q = { let kc = self.cx.c(*k, *w); self.cx.bin(Op::Eq, e, kc) };
                            any = self.cx.bin(Op::Or, any, q);
                            if t == def { continue; }
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) { g.1 = self.cx.bin(Op::Or, g.1, q); } else { groups.push((*t, q)); }
                        }
                        let mut dc = self.cx.not(any);
                        for (k, t) in cases { if t == def { let q = self.cx.eqc(e, *k); dc = self.cx.bin(Op::Or, dc, q); } }
                        groups.push((*def, dc));
                        // current model picks one; the others are queued
                        let mine = groups.iter().position(|g| st.model.eval(&self.cx, g.1) != 0).unwrap();
                        let mut more = vec![];
                        for (i, (t, q)) in groups.iter().enumerate() {
                            if i == mine { continue; }
                            if let Some(m) = self.sat(st, *q, false)? { more.push((*t, *q, m)); }
                        }
                        for (t, q, m) in more {
                            self.forks += 1;
                            if let Some(p) = &mut self.profile { let f = st.frames.last().unwrap(); *p.entry((f.fid, f.block)).or_default() += 1; }
                            let mut o = st.clone(); o.model = m; self.add_pc(&mut o, q); self.jump(&mut o, t)?; self.work.push(o);
                        }
                        self.add_pc(st, groups[mine].1);
                        self.jump(st, groups[mine].0)?;
                    }
                    _ => panic!(),
                }
            }
            Inst::Ret(v) => {
                let rv = match v { Some((_, o)) => Some(self.get(st, o)), None => None };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { st.mem.objs.remove(a); }
                if st.frames.is_empty() { return Err(Stop::Finish); }
                let (dst, next) = (fr.dst, fr.next);
                if let Some(v) = rv { self.set(st, dst, v); }
                match next { Some(b) => self.jump(st, b)?, None => Self::adv(st) }
            }
            Inst::Unreachable => return Err(Stop::Fault(format!("unreachable code reached in {}", demangle(&f.name)))),
            Inst::ExtractV { dst, a, idx } => { let mut v = self.get(st, a); for i in idx { v = if let V::Agg(x) = &v { x[*i as usize].clone() } else { panic!() }; } self.set(st, *dst, v); Self::adv(st); }
            Inst::InsertV { dst, a, v, idx, .. } => {
                let mut agg = self.get(st, a); let x = self.get(st, v);
                fn ins(a: &mut V, idx: &[u32], x: V) { if idx.is_empty() { *a = x; } else if let V::Agg(v) = a { ins(&mut Rc::make_mut(v)[idx[0] as usize], &idx[1..], x) } else { panic!() } }
                ins(&mut agg, idx, x);
                self.set(st, *dst, agg); Self::adv(st);
            }
            Inst::ExtractE { dst, a, i } => { let k = self.conc_o(st, i)? as usize; let V::Agg(v) = self.get(st, a) else { panic!() }; let x = v[k].clone(); self.set(st, *dst, x); Self::adv(st); }
            Inst::InsertE { dst, a, v, i } => { let k = self.conc_o(st, i)? as usize; let V::Agg(mut l) = self.get(st, a) else { panic!() }; let x = self.get(st, v); Rc::make_mut(&mut l)[k] = x; self.set(st, *dst, V::Agg(l)); Self::adv(st); }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let (V::Agg(x), V::Agg(y)) = (self.get(st, a), self.get(st, b)) else { panic!() };
                let v = mask.iter().map(|&i| { let i = i as u32 as usize; if i < *n { x[i].clone() } else if i < 2 * n { y[i - n].clone() } else { V::I(0) } }).collect();
                self.set(st, *dst, V::Agg(Rc::new(v))); Self::adv(st);
            }
            Inst::Freeze { dst, a } => { let v = self.get(st, a); self.set(st, *dst, v); Self::adv(st); }
            Inst::Rmw { dst, op, ty, p, v } => {
                let a = self.conc_o(st, p)? as u64; let x = self.get(st, v);
                let old = self.load(st, ty, a)?; let w = ty.bits();
                let new = match op.as_str() { "xchg" => x, "add" => self.bin(Op::Add, w, &old, &x), "sub" => self.bin(Op::Sub, w, &old, &x), "and" => self.bin(Op::And, w, &old, &x), "or" => self.bin(Op::Or, w, &old, &x), "xor" => self.bin(Op::Xor, w, &old, &x), o => return Err(Stop::Unsupported(format!("atomicrmw {o}"))) };
                self.store(st, ty, a, &new)?; self.set(st, *dst, old); Self::adv(st);
            }
            Inst::CmpXchg { dst, ty, p, old, new } => {
                let a = self.conc_o(st, p)? as u64; let (o, n) = (self.get(st, old), self.get(st, new));
                let cur = self.load(st, ty, a)?;
                let eq = self.bin(Op::Eq, ty.bits(), &cur, &o); let eq = self.conc(st, &eq)?;
                if eq != 0 { self.store(st, ty, a, &n)?; }
                self.set(st, *dst, V::Agg(Rc::new(vec![cur, V::I(eq)]))); Self::adv(st);
            }
            Inst::FBin { op, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                // floating point is computed on single values: symbolic operands are enumerated
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let r = if *ty == Ty::Float { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match *op { "+" => p + q, "-" => p - q, "*" => p * q, "/" => p / q, _ => p % q }).to_bits() as u128 }
                    else { let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64)); (match *op { "+" => p + q, "-" => p - q, "*" => p * q, "/" => p / q, _ => p % q }).to_bits() as u128 };
                self.set(st, *dst, V::I(r)); Self::adv(st);
            }
            Inst::FNeg { ty, dst, a } => { let v = self.get(st, a); let w = ty.bits(); let r = self.bin(Op::Xor, w, &v, &V::I(1u128 << (w - 1))); self.set(st, *dst, r); Self::adv(st); }
            Inst::FCmp { pred, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (p, q) = if *ty == Ty::Float { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
                let un = p.is_nan() || q.is_nan();
                let r = match pred.as_str() { "oeq" => p == q, "one" => !un && p != q, "ogt" => p > q, "oge" => p >= q, "olt" => p < q, "ole" => p <= q, "ord" => !un, "uno" => un, "ueq" => un || p == q, "une" => un || p != q, "ugt" => un || p > q, "uge" => un || p >= q, "ult" => un || p < q, "ule" => un || p <= q, "true" => true, _ => false };
                self.set(st, *dst, V::I(r as u128)); Self::adv(st);
            }
            Inst::Call(c) => self.call(st, c)?,
            Inst::Unsupported(s) => return Err(Stop::Unsupported(format!("instruction {s}"))),
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        if let Some(n) = &c.name { if n.starts_with("llvm.") { return self.intrinsic(st, c, n); } }
        let target = self.conc_o(st, &c.callee)? as u64;
        let Some(fid) = self.m.func_at(target) else { return Err(Stop::Fault(format!("call of a non-function address{}", self.fault_ctx(st, target)))) };
        if let Some(b) = self.lookup_builtin(fid) { return self.builtin(st, c, b, fid); }
        let f = self.m.func(fid);
        self.visited.insert(fid);
        if st.frames.len() > self.lim.max_depth { return Err(Stop::Fault("stack overflow: call depth above the bound (unbounded recursion)".into())); }
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { if i < c.args.len() { regs[*p as usize] = self.get(st, &c.args[i].1); } }
        let sp = st.frames.last().unwrap().sp;
        if self.trace { eprintln!("{}> {}", " ".repeat(st.frames.len()), demangle(&f.name)); }
        st.frames.push(Rc::new(Frame { f, fid, block: 0, ip: 0, regs, sp, allocas: vec![], dst: c.dst, next: c.next }));
        Ok(())
    }
    fn ret(&mut self, st: &mut State, c: &CallI, v: V) -> R<()> {
        self.set(st, c.dst, v);
        match c.next { Some(b) => self.jump(st, b), None => { Self::adv(st); Ok(()) } }
    }
    fn arg(&mut self, st: &State, c: &CallI, i: usize) -> V { self.get(st, &c.args[i].1) }
    pub fn argc(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> { let v = self.arg(st, c, i); Ok(self.conc(st, &v)? as u64) }

    /// Size of an allocation: symbolic sizes are over-approximated by the largest feasible value up to 1 MiB.
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x as u64),
            V::E(e) => {
                if let Some(c) = self.known(st, *e) { return Ok(c as u64); }
                let e = &self.rewrite(st, *e);
                if let Some(c) = self.cx.konst(*e) { return Ok(c as u64); }
                let (mn, mx) = self.range(st, *e, 8);
                if mx - mn <= 64 * 8 { return Ok(self.conc(st, &V::E(*e))? as u64); }
                const CAP: u128 = 1 << 20;
                // smallest power-of-two style bound that holds
                let mut cap = 64u128;
                loop {
                    let k = self.cx.c(cap, 64);
                    let gt = self.cx.bin(Op::Ult, k, *e);
                    if mx <= cap || self.sat(st, gt, false)?.is_none() { return Ok(cap as u64); }
                    if cap >= CAP { return Ok(CAP as u64); }
                    cap *= 4;
                }
            }
            _ => panic!(),
        }
    }
    fn do_alloc(&mut self, st: &mut State, v: &V, align: u64) -> R<u64> {
        if let V::E(e) = v {
            let (_, mx) = self.range(st, *e, 8);
            if mx > 1 << 32 {
                let k = self.cx.c(1 << 32, 64);
                let gt = self.cx.bin(Op::Ult, k, *e);
                if let Some(m) = self.sat(st, gt, true)? {
                    self.violate(st, &m, "panic", "memory allocation above 4 GiB requested".into());
                    let le = self.cx.not(gt);
                    match self.sat(st, le, false)? { Some(m) => { st.model = m; self.add_pc(st, le); } None => return Err(Stop::Drop) }
                }
            }
        }
        let n = self.alloc_size(st, v)?;
        if n > (1 << 32) { return Err(Stop::Panic("memory allocation above 4 GiB requested".into())); }
        let n = n.min(1 << 24);
        Ok(st.mem.alloc(n, align))
    }

    fn builtin(&mut self, st: &mut State, c: &CallI, b: Builtin, fid: u32) -> R<()> {
        use Builtin::*;
        let r = match b {
            Bytes => {
                let p = self.argc(st, c, 0)?; let n = self.argc(st, c, 1)?; let np = self.argc(st, c, 2)?; let nl = self.argc(st, c, 3)?;
                let name: Rc<str> = self.read_str(st, np, nl).into();
                let k = st.counts.entry(name.clone()).or_insert(0); let inst = *k; *k += 1;
                let mut vars = vec![];
                for i in 0..n {
                    let e = self.cx.var(&format!("{name}#{inst}[{i}]"));
                    vars.push(self.cx.key(e).k as u32);
                    self.store_bytes(st, p + i, 1, &V::E(e))?;
                }
                st.inputs.push((name, vars));
                V::I(0)
            }
            Assume => {
                self.assumed += 1;
                match self.arg(st, c, 0) {
                    V::I(0) => return Err(Stop::Drop), V::I(_) => {}
                    V::E(e) => match self.sat(st, e, false)? { Some(m) => { st.model = m; self.add_pc(st, e); } None => return Err(Stop::Drop) },
                    _ => panic!(),
                }
                V::I(0)
            }
            Assert => {
                let p = self.argc(st, c, 1)?; let n = self.argc(st, c, 2)?;
                let id = self.read_str(st, p, n);
                self.asserts += 1;
                *self.assert_ids.entry(id.clone()).or_default() += 1;
                match self.arg(st, c, 0) {
                    V::I(0) => { let m = st.model.clone(); self.violate(st, &m, "assert", id); return Err(Stop::Drop); }
                    V::I(_) => {}
                    V::E(e) => {
                        self.assert_queries += 1;
                        let nc = self.cx.not(e);
                        if let Some(m) = self.sat(st, nc, true)? { self.violate(st, &m, "assert", id); }
                        match self.sat(st, e, false)? { Some(m) => { st.model = m; self.add_pc(st, e); } None => return Err(Stop::Drop) }
                    }
                    _ => panic!(),
                }
                V::I(0)
            }
            Reach => { let p = self.argc(st, c, 0)?; let n = self.argc(st, c, 1)?; let id = self.read_str(st, p, n); *self.reached.entry(id).or_default() += 1; V::I(0) }
            Param => { let i = self.argc(st, c, 0)? as usize; V::I(*self.param.get(i).unwrap_or(&0) as u128) }
            Observe => {
                let id = self.argc(st, c, 0)? as u32; let p = self.argc(st, c, 1)?; let n = self.argc(st, c, 2)?;
                let es = self.read_mem(st, p, n)?; st.observed.push((id, es)); V::I(0)
            }
            ForkVal => { let v = self.arg(st, c, 0); let x = self.conc(st, &v)?; V::I(x) }
            IsSym => { let v = self.arg(st, c, 0); V::I(matches!(v, V::E(_)) as u128) }
            Panic | PanicNoUnwind => {
                let mut loc = None;
                for i in (0..c.args.len()).rev() { if let V::I(a) = self.arg(st, c, i) { loc = self.location(st, a as u64); if loc.is_some() { break; } } }
                let nm = demangle(&st.frames.last().unwrap().f.name);
                let loc = loc.unwrap_or_else(|| "?".into());
                let what = short_fn(&nm);
                return Err(Stop::Panic(format!("{} ({})", loc, what)));
            }
            Alloc => { let al = self.argc(st, c, 1)?; let v = self.arg(st, c, 0); V::I(self.do_alloc(st, &v, al)? as u128) }
            AllocZeroed => { let al = self.argc(st, c, 1)?; let v = self.arg(st, c, 0); V::I(self.do_alloc(st, &v, al)? as u128) }
            Malloc => { let v = self.arg(st, c, 0); V::I(self.do_alloc(st, &v, 16)? as u128) }
            Calloc => { let (a, b) = (self.arg(st, c, 0), self.arg(st, c, 1)); let v = self.bin(Op::Mul, 64, &a, &b); V::I(self.do_alloc(st, &v, 16)? as u128) }
            AlignedAlloc => { let al = self.argc(st, c, 0)?; let v = self.arg(st, c, 1); V::I(self.do_alloc(st, &v, al)? as u128) }
            PosixMemalign => { let out = self.argc(st, c, 0)?; let al = self.argc(st, c, 1)?; let v = self.arg(st, c, 2); let p = self.do_alloc(st, &v, al)?; self.store_bytes(st, out, 8, &V::I(p as u128))?; V::I(0) }
            Dealloc | Free => {
                let p = self.argc(st, c, 0)?;
                if p != 0 { match st.mem.objs.get(&p) { Some(o) if o.kind == Kind::Heap => { st.mem.objs.remove(&p); } _ => return Err(Stop::Fault(format!("invalid free{}", self.fault_ctx(st, p)))) } }
                V::I(0)
            }
            Realloc | ReallocC => {
                let p = self.argc(st, c, 0)?;
                let (nv, al) = if b == Realloc { let al = self.argc(st, c, 2)?; (self.arg(st, c, 3), al) } else { (self.arg(st, c, 1), 16) };
                let q = self.do_alloc(st, &nv, al)?;
                if p != 0 {
                    let (old, new) = match (st.mem.objs.get(&p), st.mem.objs.get(&q)) { (Some(a), Some(b)) => (a.size(), b.size()), _ => return Err(Stop::Fault("realloc of invalid pointer".into())) };
                    self.memcpy(st, q, p, old.min(new))?;
                    st.mem.objs.remove(&p);
                }
                V::I(q as u128)
            }
            Memcpy | Memmove => { let n = self.argc(st, c, 2)?; let d = self.argc(st, c, 0)?; let s = self.argc(st, c, 1)?; self.memcpy(st, d, s, n)?; V::I(d as u128) }
            Memset => { let n = self.argc(st, c, 2)?; let d = self.argc(st, c, 0)?; let v = self.arg(st, c, 1); self.memset(st, d, &v, n)?; V::I(d as u128) }
            Memcmp => {
                let n = self.argc(st, c, 2)?; let a = self.argc(st, c, 0)?; let bb = self.argc(st, c, 1)?;
                let x = self.read_mem(st, a, n)?; let y = self.read_mem(st, bb, n)?;
                let bcmp = &*self.m.fnames[fid as usize] == "bcmp";
                if bcmp {
                    let mut eq = self.cx.tru();
                    for i in 0..n as usize { let q = self.cx.bin(Op::Eq, x[i], y[i]); eq = self.cx.bin(Op::And, eq, q); if self.cx.konst(eq) == Some(0) { break; } }
                    let (z, o) = (self.cx.c(0, 32), self.cx.c(1, 32));
                    let r = self.cx.ite(eq, z, o); self.val(r)
                } else {
                    let mut r = self.cx.c(0, 32); let (m1, p1) = (self.cx.c(u32::MAX as u128, 32), self.cx.c(1, 32));
                    for i in (0..n as usize).rev() {
                        let q = self.cx.bin(Op::Eq, x[i], y[i]); let l = self.cx.bin(Op::Ult, x[i], y[i]);
                        let d = self.cx.ite(l, m1, p1); r = self.cx.ite(q, r, d);
                    }
                    self.val(r)
                }
            }
            Strlen => {
                let a = self.argc(st, c, 0)?; let mut n = 0u64;
                loop { let v = self.load_bytes(st, a + n, 1)?; let z = self.bin(Op::Eq, 8, &v, &V::I(0)); let z = match z { V::I(x) => x != 0, V::E(e) => self.branch(st, e)?, _ => panic!() }; if z { break; } n += 1; }
                V::I(n as u128)
            }
            Memchr => {
                let a = self.argc(st, c, 0)?; let ch = self.arg(st, c, 1); let n = self.argc(st, c, 2)?;
                let ch = self.cast1(Cast::Trunc, 32, 8, &ch)?;
                let mut r = 0u64;
                for i in 0..n { let v = self.load_bytes(st, a + i, 1)?; let z = self.bin(Op::Eq, 8, &v, &ch); let z = match z { V::I(x) => x != 0, V::E(e) => self.branch(st, e)?, _ => panic!() }; if z { r = a + i; break; } }
                V::I(r as u128)
            }
            Abort | Trap => return Err(Stop::Panic("abort".into())),
            Exit => { let code = self.argc(st, c, 0)?; if code != 0 { return Err(Stop::Panic(format!("process exit with status {code}"))); } return Err(Stop::Finish); }
            Errno => {
                if st.errno == 0 { st.errno = st.mem.alloc(8, 8); }
                V::I(st.errno as u128)
            }
            GetRandom => { let p = self.argc(st, c, 0)?; let n = self.argc(st, c, 1)?; self.memset(st, p, &V::I(0x5a), n)?; V::I(n as u128) }
            Syscall => {
                let nr = self.argc(st, c, 0)?;
                match nr { 318 => { let p = self.argc(st, c, 1)?; let n = self.argc(st, c, 2)?; self.memset(st, p, &V::I(0x5a), n)?; V::I(n as u128) } _ => return Err(Stop::Unsupported(format!("syscall {nr}"))) }
            }
            Zero | NoShim => V::I(0),
            MinusOne => V::I(u64::MAX as u128),
            Fs(call) => match self.fs_call(st, c, call)? { Some(v) => v, None => V::I(0) },
            Fail | FmtSkip | CloneFail | Intrinsic | Unsup => return Err(Stop::Unsupported(format!("external function {}", self.m.fnames[fid as usize]))),
        };
        // results narrower than 64 bit
        let r = match (&c.rty, r) { (Ty::Int(w), V::I(x)) => V::I(mask_v(x, *w)), (_, r) => r };
        self.ret(st, c, r)
    }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let v = match v { V::E(e) if self.cx.w(*e) > 8 => { let x = self.cx.extract(*e, 0, 8); self.val(x) } V::I(x) => V::I(x & 0xff), v => v.clone() };
        let cxt = self.fault_ctx(st, d);
        let o = match st.mem.find_mut(d, n) { Some(o) => o, None => return Err(Stop::Fault(format!("memset: invalid destination of {n} bytes{cxt}"))) };
        let off = (d - o.base) as usize;
        match v { V::I(x) => { o.data[off..off + n as usize].fill(x as u8); if let Some(s) = &mut o.sym { s[off..off + n as usize].fill(0); } } V::E(e) => for i in 0..n as usize { o.set_sym(off + i, e); }, _ => panic!() }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, c: &CallI, name: &str) -> R<()> {
        let n = &name[5..];
        let base = n.split('.').next().unwrap();
        let w = match &c.rty { Ty::Int(w) => *w, _ => 0 };
        macro_rules! a { ($i:expr) => { self.arg(st, c, $i) } }
        let r: V = match base {
            "memcpy" | "memmove" => { let n = self.argc(st, c, 2)?; if n > 0 { let d = self.argc(st, c, 0)?; let s = self.argc(st, c, 1)?; self.memcpy(st, d, s, n)?; } V::I(0) }
            "memset" => { let n = self.argc(st, c, 2)?; if n > 0 { let d = self.argc(st, c, 0)?; let v = a!(1); self.memset(st, d, &v, n)?; } V::I(0) }
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (a!(0), a!(1));
                let ty = c.rty.clone();
                let p = match base { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                // 64-bit minima and maxima are lengths and capacities: case split instead of carrying ite chains
                if ty == Ty::Int(64) {
                    let q = self.icmp(p, 64, &x, &y);
                    let t = match q { V::I(v) => v != 0, V::E(e) => self.branch(st, e)?, _ => unreachable!() };
                    return self.ret(st, c, if t { x } else { y });
                }
                self.lanes(&ty, &x, &y, &mut |s, w, x, y| { let q = s.icmp(p, w, x, y); match q { V::I(0) => y.clone(), V::I(_) => x.clone(), V::E(e) => { let (a, b) = (s.ex(x, w), s.ex(y, w)); let r = s.cx.ite(e, a, b); s.val(r) } _ => panic!() } })
            }
            "abs" => { let x = a!(0); let neg = self.icmp(Pred::Slt, w, &x, &V::I(0)); let m = self.bin(Op::Sub, w, &V::I(0), &x); match neg { V::I(0) => x, V::I(_) => m, V::E(e) => { let (p, q) = (self.ex(&m, w), self.ex(&x, w)); let r = self.cx.ite(e, p, q); self.val(r) } _ => panic!() } }
            "ucmp" | "scmp" => {
                let w0 = c.args[0].0.bits(); let (x, y) = (a!(0), a!(1));
                let lt = self.icmp(if base == "ucmp" { Pred::Ult } else { Pred::Slt }, w0, &x, &y); let eq = self.bin(Op::Eq, w0, &x, &y);
                let (lt, eq) = (self.ex(&lt, 1), self.ex(&eq, 1));
                let (m1, z, p1) = (self.cx.c(ones(w), w), self.cx.c(0, w), self.cx.c(1, w));
                let t = self.cx.ite(eq, z, p1); let r = self.cx.ite(lt, m1, t); self.val(r)
            }
            "ctpop" => match a!(0) { V::I(x) => V::I(x.count_ones() as u128), V::E(e) => { let mut s = self.cx.c(0, w); for i in 0..w { let b = self.cx.extract(e, i, 1); let b = self.cx.zext(b, w.max(2)); let b = if w == 1 { self.cx.extract(b, 0, 1) } else { b }; s = self.cx.bin(Op::Add, s, b); } self.val(s) } V::Agg(_) => return Err(Stop::Unsupported("vector ctpop".into())) },
            "ctlz" | "cttz" => match a!(0) {
                V::I(x) => V::I(if base == "ctlz" { (if x == 0 { w } else { x.leading_zeros() - (128 - w) }) as u128 } else { (if x == 0 { w } else { x.trailing_zeros() }) as u128 }),
                V::E(e) => { let mut s = self.cx.c(w as u128, w);
                    let order: Vec<u32> = if base == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
                    for i in order { let b = self.cx.extract(e, i, 1); let k = self.cx.c(if base == "ctlz" { w - 1 - i } else { i } as u128, w); s = self.cx.ite(b, k, s); } self.val(s) }
                V::Agg(_) => return Err(Stop::Unsupported("vector ctlz".into())),
            },
            "bswap" => { let x = a!(0); match x { V::I(x) => { let mut r = 0u128; for i in 0..w / 8 { r = (r << 8) | ((x >> (8 * i)) & 0xff); } V::I(r) } V::E(e) => { let mut r = self.cx.extract(e, 0, 8); for i in 1..w / 8 { let b = self.cx.extract(e, 8 * i, 8); r = self.cx.concat(r, b); } self.val(r) } _ => return Err(Stop::Unsupported("vector bswap".into())) } }
            "bitreverse" => { let x = a!(0); match x { V::I(x) => V::I(x.reverse_bits() >> (128 - w)), V::E(e) => { let mut r = self.cx.extract(e, 0, 1); for i in 1..w { let b = self.cx.extract(e, i, 1); r = self.cx.concat(r, b); } self.val(r) } _ => return Err(Stop::Unsupported("vector bitreverse".into())) } }
            "fshl" | "fshr" => {
                let s = a!(2); let s = self.conc(st, &s)? as u32 % w;
                let (x, y) = (a!(0), a!(1));
                if s == 0 { if base == "fshl" { x } else { y } } else {
                    let l = if base == "fshl" { s } else { w - s };
                    let hi = self.bin(Op::Shl, w, &x, &V::I(l as u128)); let lo = self.bin(Op::LShr, w, &y, &V::I((w - l) as u128));
                    self.bin(Op::Or, w, &hi, &lo)
                }
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" if n.contains(".with.overflow") => {
                let w = c.args[0].0.bits(); let (x, y) = (a!(0), a!(1));
                let signed = base.starts_with('s');
                let op = match &base[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let res = self.bin(op, w, &x, &y);
                let (xe, ye) = (self.ex(&x, w), self.ex(&y, w));
                let ov = match (signed, op) {
                    (false, Op::Sub) => self.cx.bin(Op::Ult, xe, ye),
                    (false, Op::Add) => { if w < 128 { let (p, q) = (self.cx.zext(xe, w + 1), self.cx.zext(ye, w + 1)); let s = self.cx.bin(Op::Add, p, q); self.cx.extract(s, w, 1) } else { let r = self.ex(&res, w); self.cx.bin(Op::Ult, r, xe) } }
                    _ => {
                        let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                        if ww > 128 { 
                            if let (V::I(p), V::I(q)) = (&x, &y) { let o = if signed { sext(*p, w).checked_mul(sext(*q, w)).map(|r| r != sext(r as u128 & ones(w), w)).unwrap_or(true) } else { p.checked_mul(*q).map(|r| r > ones(w)).unwrap_or(true) }; self.cx.c(o as u128, 1) }
                            else { return Err(Stop::Unsupported("wide multiply overflow".into())) }
                        } else {
                            let (p, q) = if signed { (self.cx.sxt(xe, ww), self.cx.sxt(ye, ww)) } else { (self.cx.zext(xe, ww), self.cx.zext(ye, ww)) };
                            let s = self.cx.bin(op, p, q);
                            if signed { let t = self.cx.extract(s, 0, w); let u = self.cx.sxt(t, ww); let e = self.cx.bin(Op::Eq, u, s); self.cx.not(e) }
                            else { let h = self.cx.extract(s, w, ww - w); let e = self.cx.eqc(h, 0); self.cx.not(e) }
                        }
                    }
                };
                let ov = self.val(ov);
                V::Agg(Rc::new(vec![res, ov]))
            }
            "uadd" | "usub" | "sadd" | "ssub" if n.contains(".sat") => {
                let (x, y) = (a!(0), a!(1)); let ty = c.rty.clone();
                let b = base.to_string();
                self.lanes(&ty, &x, &y, &mut |s, w, x, y| {
                    let (p, q) = (s.ex(x, w), s.ex(y, w));
                    let r = match b.as_str() {
                        "usub" => { let lt = s.cx.bin(Op::Ult, p, q); let d = s.cx.bin(Op::Sub, p, q); let z = s.cx.c(0, w); s.cx.ite(lt, z, d) }
                        "uadd" => { let d = s.cx.bin(Op::Add, p, q); let lt = s.cx.bin(Op::Ult, d, p); let m = s.cx.c(ones(w), w); s.cx.ite(lt, m, d) }
                        _ => { let op = if b == "sadd" { Op::Add } else { Op::Sub }; let (a, c) = (s.cx.sxt(p, w + 1), s.cx.sxt(q, w + 1)); let d = s.cx.bin(op, a, c); let t = s.cx.extract(d, 0, w); let u = s.cx.sxt(t, w + 1); let ok = s.cx.bin(Op::Eq, u, d); let sg = s.cx.extract(d, w, 1); let mn = s.cx.c(1u128 << (w - 1), w); let mx = s.cx.c(ones(w - 1), w); let sat = s.cx.ite(sg, mn, mx); s.cx.ite(ok, t, sat) }
                    };
                    s.val(r)
                })
            }
            "threadlocal" | "ptrmask" | "launder" | "strip" | "expect" | "ssa" => if base == "ptrmask" { let (x, y) = (a!(0), a!(1)); self.bin(Op::And, 64, &x, &y) } else { a!(0) },
            "is" => V::I(0),
            "objectsize" => V::I(u64::MAX as u128),
            "trap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "stacksave" | "stackrestore" | "va_start" | "va_end" => V::I(0),
            "vector" if n.starts_with("vector.reduce") => {
                let V::Agg(l) = a!(0) else { panic!() };
                let op = n.split('.').nth(2).unwrap();
                let o = match op { "or" => Op::Or, "and" => Op::And, "xor" => Op::Xor, "add" => Op::Add, "mul" => Op::Mul, o => return Err(Stop::Unsupported(format!("vector.reduce.{o}"))) };
                let mut r = l[0].clone(); for x in &l[1..] { r = self.bin(o, w, &r, x); } r
            }
            "load" if n.starts_with("load.relative") => { let p = self.argc(st, c, 0)?; let o = self.argc(st, c, 1)?; let v = self.load_bytes(st, p.wrapping_add(o), 4)?; let v = self.cast1(Cast::SExt, 32, 64, &v)?; self.bin(Op::Add, 64, &V::I(p as u128), &v) }
            "fabs" => match a!(0) { V::I(x) => V::I(if c.rty == Ty::Float { x & 0x7fff_ffff } else { x & 0x7fff_ffff_ffff_ffff }), _ => return Err(Stop::Unsupported("fabs".into())) },
            _ => return Err(Stop::Unsupported(format!("intrinsic {name}"))),
        };
        self.ret(st, c, r)
    }
}

pub fn short_fn(s: &str) -> String { s.split("::").collect::<Vec<_>>().into_iter().rev().take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::") }

/// Readable form of a mangled name (legacy scheme exactly; v0 names by their identifiers).
pub fn demangle(s: &str) -> String {
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes(); let mut i = 0; let mut parts: Vec<String> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut n = 0; while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            if i + n > b.len() { break; }
            parts.push(r[i..i + n].to_string()); i += n;
        }
        if parts.last().map(|p| p.len() == 17 && p.starts_with('h')) == Some(true) { parts.pop(); }
        let mut t = parts.join("::");
        for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u3b$", ";"), ("$u27$", "'"), ("$u3d$", "="), ("..", "::")] { t = t.replace(a, b); }
        t.trim_start_matches('_').to_string()
    } else if let Some(r) = s.strip_prefix("_R") {
        let b = r.as_bytes(); let mut i = 0; let mut parts: Vec<String> = vec![];
        while i < b.len() {
            if b[i].is_ascii_digit() && b[i] != b'0' {
                let mut n = 0; let st = i; while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
                if i < b.len() && b[i] == b'_' { i += 1; }
                if i + n <= b.len() && n > 0 && r[i..i + n].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && n < 80 { parts.push(r[i..i + n].to_string()); i += n; } else { i = st + 1; }
            } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' { i += 1; if i < b.len() && (b[i - 1] == b's' || b[i - 1] == b'B') { let sv = i; while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; } if i < b.len() && b[i] == b'_' { i += 1; } else { i = sv; } } }
            else { i += 1; }
        }
        parts.join("::")
    } else { s.to_string() }
}
