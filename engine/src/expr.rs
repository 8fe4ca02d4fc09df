//! Hash-consed bit-vector expressions (width 1..=128) with simplification on construction.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Ex = u32; // 0 is reserved: "no expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil, Var, Const, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Ule, Slt, Sle, Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub w: u16, pub a: Ex, pub b: Ex, pub c: Ex, pub k: u128 }

#[derive(Clone, Copy)]
pub struct Node { pub key: Key, pub mask: u128, pub umin: u128, pub umax: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    intern: FxMap<Key, Ex>,
    support: FxMap<Ex, std::rc::Rc<Vec<u32>>>,
    ext_memo: FxMap<(Ex, u32, u32), Ex>,
    pub tables: FxMap<Ex, [u64; 4]>,
    pub nvars: u32,
    pub var_names: Vec<String>,
    pub var_ids: HashMap<String, u32>,
}

#[inline]
pub fn ones(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
fn fill(x: u128) -> u128 { if x == 0 { 0 } else { let b = 128 - x.leading_zeros(); ones(b) } }

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = ones(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext(a, w), sext(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; let s = s.min(127); ((sext(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => return None,
    })
}

impl Ctx {
    pub fn new() -> Ctx {
        let nil = Node { key: Key { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 }, mask: 0, umin: 0, umax: 0 };
        Ctx { nodes: vec![nil], intern: Default::default(), support: Default::default(), ext_memo: Default::default(), tables: Default::default(), nvars: 0, var_names: vec![], var_ids: HashMap::new() }
    }
    #[inline] pub fn w(&self, e: Ex) -> u32 { self.nodes[e as usize].key.w as u32 }
    #[inline] pub fn key(&self, e: Ex) -> Key { self.nodes[e as usize].key }
    #[inline] pub fn op(&self, e: Ex) -> Op { self.nodes[e as usize].key.op }
    #[inline] pub fn konst(&self, e: Ex) -> Option<u128> { let k = &self.nodes[e as usize].key; if k.op == Op::Const { Some(k.k) } else { None } }
    #[inline] fn mask(&self, e: Ex) -> u128 { self.nodes[e as usize].mask }
    #[inline] pub fn umin(&self, e: Ex) -> u128 { self.nodes[e as usize].umin }
    #[inline] pub fn umax(&self, e: Ex) -> u128 { self.nodes[e as usize].umax }
    pub fn possible(&self, e: Ex) -> u128 { self.mask(e) }

    fn mk(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
        let key = Key { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.intern.get(&key) { return e; }
        let m = ones(w);
        let (ma, mb, mc) = (self.mask(a), self.mask(b), self.mask(c));
        let (la, ha, lb, hb) = (self.umin(a), self.umax(a), self.umin(b), self.umax(b));
        let mut lo = 0u128; let mut hi = m; let mut mask = m;
        match op {
            Op::Const => { lo = k; hi = k; mask = k; }
            Op::Add => {
                if let (Some(h), true) = (ha.checked_add(hb), true) { if h <= m { hi = h; lo = la + lb; mask = fill(h); } }
            }
            Op::Sub => { if la >= hb { lo = la - hb; hi = ha - lb; mask = fill(hi); } }
            Op::Mul => { if let Some(h) = ha.checked_mul(hb) { if h <= m { hi = h; lo = la * lb; mask = fill(h); } } 
                let tz = ma.trailing_zeros().min(127) + mb.trailing_zeros().min(127); if tz < 128 { mask &= !ones(tz.min(127)); } }
            Op::UDiv => { if lb > 0 { hi = ha / lb; lo = if hb > 0 { la / hb } else { 0 }; mask = fill(hi); } }
            Op::URem => { if lb > 0 { hi = ha.min(hb - 1); mask = fill(hi); } }
            Op::And => { mask = ma & mb; hi = ha.min(hb).min(mask); }
            Op::Or => { mask = ma | mb; lo = la.max(lb); hi = mask; }
            Op::Xor => { mask = ma | mb; hi = mask; }
            Op::Shl => {}
            Op::LShr => { hi = ha; mask = fill(ha); }
            Op::Concat => { let wl = self.w(b); mask = (ma << wl) | mb; lo = (la << wl) | lb; hi = (ha << wl) | hb; }
            Op::Extract => { mask = (ma >> (k as u32)) & m; hi = if k == 0 && ha <= m { ha } else { mask.min(if k < 128 { ha >> k } else { 0 }) }; if ha <= ones((k as u32 + w).min(128)) { lo = la >> k; } if hi > m { hi = m } }
            Op::ZExt => { mask = ma; lo = la; hi = ha; }
            Op::SExt => { let wa = self.w(a); if ha < (1u128 << (wa - 1)) { mask = ma; lo = la; hi = ha; } else { mask = ma | (m & !ones(wa)); } }
            Op::Ite => { mask = mb | mc; let (lc, hc) = (self.umin(c), self.umax(c)); lo = lb.min(lc); hi = hb.max(hc); }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { mask = 1; hi = 1; }
            _ => {}
        }
        if hi > mask { hi = mask; }
        if lo > hi { lo = hi; }
        let e = self.nodes.len() as Ex;
        self.nodes.push(Node { key, mask, umin: lo, umax: hi });
        self.intern.insert(key, e);
        if lo == hi && op != Op::Const && op != Op::Var {
            let c = self.c(lo, w);
            self.intern.insert(key, c);
            return c;
        }
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> Ex { debug_assert!(w > 0); self.mk(Op::Const, w, 0, 0, 0, v & ones(w)) }
    pub fn tru(&mut self) -> Ex { self.c(1, 1) }
    pub fn var(&mut self, name: &str) -> Ex {
        let id = if let Some(&i) = self.var_ids.get(name) { i } else {
            let i = self.nvars; self.nvars += 1; self.var_names.push(name.to_string()); self.var_ids.insert(name.to_string(), i); i };
        self.mk(Op::Var, 8, 0, 0, 0, id as u128)
    }

    pub fn not(&mut self, a: Ex) -> Ex { let w = self.w(a); let o = self.c(ones(w), w); self.bin(Op::Xor, a, o) }
    pub fn eqc(&mut self, a: Ex, k: u128) -> Ex { let w = self.w(a); let c = self.c(k, w); self.bin(Op::Eq, a, c) }

    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        let k = self.key(a);
        match k.op {
            Op::Const => self.c(k.k, w),
            Op::ZExt => self.zext(k.a, w),
            Op::Ite if self.konst(k.b).is_some() && self.konst(k.c).is_some() => { let (x, y) = (self.zext(k.b, w), self.zext(k.c, w)); self.ite(k.a, x, y) }
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sxt(&mut self, a: Ex, w: u32) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(sext(k, wa) as u128, w); }
        if self.umax(a) < (1u128 << (wa - 1)) { return self.zext(a, w); }
        let k = self.key(a);
        match k.op {
            Op::SExt => self.sxt(k.a, w),
            Op::Ite if self.konst(k.b).is_some() && self.konst(k.c).is_some() => { let (x, y) = (self.sxt(k.b, w), self.sxt(k.c, w)); self.ite(k.a, x, y) }
            _ => self.mk(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa, "extract {lo}+{w} of {wa}");
        if w == wa { return a; }
        let k = self.key(a);
        if (self.mask(a) >> lo) & ones(w) == 0 { return self.c(0, w); }
        match k.op {
            Op::Const => self.c(k.k >> lo, w),
            Op::Extract => self.extract(k.a, lo + k.k as u32, w),
            Op::Concat => {
                let wl = self.w(k.b);
                if lo + w <= wl { self.extract(k.b, lo, w) }
                else if lo >= wl { self.extract(k.a, lo - wl, w) }
                else { let h = self.extract(k.a, 0, lo + w - wl); let l = self.extract(k.b, lo, wl - lo); self.concat(h, l) }
            }
            Op::ZExt => {
                let wx = self.w(k.a);
                if lo + w <= wx { self.extract(k.a, lo, w) } else if lo >= wx { self.c(0, w) }
                else { let x = self.extract(k.a, lo, wx - lo); self.zext(x, w) }
            }
            Op::SExt => {
                let wx = self.w(k.a);
                if lo + w <= wx { self.extract(k.a, lo, w) }
                else if lo < wx { let x = self.extract(k.a, lo, wx - lo); self.sxt(x, w) }
                else { let x = self.extract(k.a, wx - 1, 1); self.sxt(x, w) }
            }
            Op::And | Op::Or | Op::Xor | Op::Ite => {
                if let Some(&r) = self.ext_memo.get(&(a, lo, w)) { return r; }
                let r = if k.op == Op::Ite { let x = self.extract(k.b, lo, w); let y = self.extract(k.c, lo, w); self.ite(k.a, x, y) }
                else { let x = self.extract(k.a, lo, w); let y = self.extract(k.b, lo, w); self.bin(k.op, x, y) };
                self.ext_memo.insert((a, lo, w), r);
                r
            }
            _ => self.mk(Op::Extract, w, a, 0, 0, lo as u128),
        }
    }
    /// (hi, lo) adjacent pieces of the same thing -> merged
    fn merge(&mut self, hi: Ex, lo: Ex) -> Option<Ex> {
        let (kh, kl) = (self.key(hi), self.key(lo));
        if kh.op == Op::Const && kl.op == Op::Const {
            let wl = kl.w as u32; let w = kh.w as u32 + wl;
            return Some(self.c((kh.k << wl) | kl.k, w));
        }
        if kh.op == Op::Extract {
            if kl.op == Op::Extract && kl.a == kh.a && kh.k as u32 == kl.k as u32 + kl.w as u32 {
                return Some(self.extract(kl.a, kl.k as u32, kl.w as u32 + kh.w as u32));
            }
            if kh.a == lo && kh.k as u32 == self.w(lo) { return None; }
        }
        // Concat(Extract(x, n..), lo) where lo is Extract handled; Ite merging with equal condition
        if kh.op == Op::Ite && kl.op == Op::Ite && kh.a == kl.a
            && ([kh.b, kh.c, kl.b, kl.c].iter().all(|&x| self.konst(x).is_some())) {
            let x = self.concat(kh.b, kl.b); let y = self.concat(kh.c, kl.c);
            return Some(self.ite(kh.a, x, y));
        }
        if (kh.op == Op::Ite && kl.op == Op::Const && self.konst(kh.b).is_some() && self.konst(kh.c).is_some())
            { let x = self.concat(kh.b, lo); let y = self.concat(kh.c, lo); return Some(self.ite(kh.a, x, y)); }
        if (kl.op == Op::Ite && kh.op == Op::Const && self.konst(kl.b).is_some() && self.konst(kl.c).is_some())
            { let x = self.concat(hi, kl.b); let y = self.concat(hi, kl.c); return Some(self.ite(kl.a, x, y)); }
        None
    }
    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        debug_assert!(w <= 128);
        if self.konst(hi) == Some(0) { return self.zext(lo, w); }
        if let Some(m) = self.merge(hi, lo) { return m; }
        let (kh, kl) = (self.key(hi), self.key(lo));
        if kl.op == Op::Concat {
            if let Some(m) = self.merge(hi, kl.a) { return self.concat(m, kl.b); }
        }
        if kh.op == Op::Concat {
            if let Some(m) = self.merge(kh.b, lo) { return self.concat(kh.a, m); }
            // right-associate for a canonical form
            let r = self.concat(kh.b, lo);
            return self.concat(kh.a, r);
        }
        if kh.op == Op::ZExt {
            let x = self.concat(kh.a, lo);
            return self.zext(x, w);
        }
        if kl.op == Op::ZExt {
            // hi ++ (0 ++ x): keep as concat(hi, concat(0,x)) => mk directly
            return self.mk(Op::Concat, w, hi, lo, 0, 0);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.konst(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let kc = self.key(c);
        if kc.op == Op::Xor && self.konst(kc.b) == Some(1) { return self.ite(kc.a, b, a); }
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let ka = self.key(a);
        if ka.op == Op::Ite && ka.a == c { return self.ite(c, ka.b, b); }
        let kb = self.key(b);
        if kb.op == Op::Ite && kb.a == c { return self.ite(c, a, kb.c); }
        // ite(c, a, ite(d, a, e)) -> ite(c|d, a, e)
        if kb.op == Op::Ite && kb.b == a { let o = self.bin(Op::Or, c, kb.a); return self.ite(o, a, kb.c); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = fold(op, x, y, w) {
                let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
                return self.c(r, rw);
            }
        }
        let m = ones(w);
        let (mut a, mut b, mut ka, mut kb) = (a, b, ka, kb);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ka.is_some() || (kb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ka, &mut kb); }
            }
            _ => {}
        }
        let na = self.key(a);
        let nb = self.key(b);
        // op(ite(c,k1,k2), k) -> ite(c, op(k1,k), op(k2,k))
        if let Some(y) = kb {
            if na.op == Op::Ite {
                if let (Some(x1), Some(x2)) = (self.konst(na.b), self.konst(na.c)) {
                    if let (Some(r1), Some(r2)) = (fold(op, x1, y, w), fold(op, x2, y, w)) {
                        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
                        let (r1, r2) = (self.c(r1, rw), self.c(r2, rw));
                        return self.ite(na.a, r1, r2);
                    }
                }
            }
        }
        if let Some(x) = ka {
            if nb.op == Op::Ite {
                if let (Some(y1), Some(y2)) = (self.konst(nb.b), self.konst(nb.c)) {
                    if let (Some(r1), Some(r2)) = (fold(op, x, y1, w), fold(op, x, y2, w)) {
                        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
                        let (r1, r2) = (self.c(r1, rw), self.c(r2, rw));
                        return self.ite(nb.a, r1, r2);
                    }
                }
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    if na.op == Op::Add { if let Some(x) = self.konst(na.b) { let c = self.c(x.wrapping_add(y), w); return self.bin(Op::Add, na.a, c); } }
                    if na.op == Op::Sub { if let Some(x) = self.konst(na.a) { let c = self.c(x.wrapping_add(y), w); return self.bin(Op::Sub, c, na.b); } }
                }
                if self.mask(a) & self.mask(b) == 0 { return self.bin(Op::Or, a, b); }
                if kb.is_none() && na.op == Op::Add && self.konst(na.b).is_some() {
                    let t = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, t, na.b);
                }
                if kb.is_none() && nb.op == Op::Add && self.konst(nb.b).is_some() {
                    let t = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, t, nb.b);
                }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
            }
            Op::Sub => {
                if a == b { return self.c(0, w); }
                if let Some(y) = kb { let c = self.c(y.wrapping_neg() & m, w); return self.bin(Op::Add, a, c); }
                if na.op == Op::Add {
                    if na.a == b { return na.b; }
                    if na.b == b { return na.a; }
                    if let Some(_) = self.konst(na.b) { let t = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, t, na.b); }
                }
                if nb.op == Op::Add {
                    if let Some(y) = self.konst(nb.b) { let t = self.bin(Op::Sub, a, nb.a); let c = self.c(y.wrapping_neg() & m, w); return self.bin(Op::Add, t, c); }
                    if nb.a == a { let z = self.c(0, w); return self.bin(Op::Sub, z, nb.b); }
                    if nb.b == a { let z = self.c(0, w); return self.bin(Op::Sub, z, nb.a); }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
            }
            Op::Mul => {
                if let Some(y) = kb {
                    if y == 0 { return b; }
                    if y == 1 { return a; }
                    if y.is_power_of_two() { let c = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, c); }
                }
                if w == 1 { return self.bin(Op::And, a, b); }
            }
            Op::UDiv => {
                // narrow dividend, wide divisor: divide at the dividend's width
                let k = 128 - self.umax(a).leading_zeros();
                if kb.is_none() && k > 0 && k <= 16 && w > k {
                    let top = self.c(1 << k, w); let lt = self.bin(Op::Ult, b, top);
                    let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                    let q = self.bin(Op::UDiv, x, y); let q = self.zext(q, w);
                    let other = self.c(0, w);
                    return self.ite(lt, q, other);
                }
                if let Some(y) = kb {
                    if y == 1 { return a; }
                    if y.is_power_of_two() { let c = self.c(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, c); }
                    if y != 0 && self.umax(a) < y { return self.c(0, w); }
                    if na.op == Op::ZExt && y != 0 { let wx = self.w(na.a); if y <= ones(wx) { let c = self.c(y, wx); let d = self.bin(Op::UDiv, na.a, c); return self.zext(d, w); } }
                }
            }
            Op::URem => {
                // narrow dividend, wide divisor: divide at the dividend's width
                let k = 128 - self.umax(a).leading_zeros();
                if kb.is_none() && k > 0 && k <= 16 && w > k {
                    let top = self.c(1 << k, w); let lt = self.bin(Op::Ult, b, top);
                    let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                    let q = self.bin(Op::URem, x, y); let q = self.zext(q, w);
                    let other = a;
                    return self.ite(lt, q, other);
                }
                if let Some(y) = kb {
                    if y == 1 { return self.c(0, w); }
                    if y.is_power_of_two() { let c = self.c(y - 1, w); return self.bin(Op::And, a, c); }
                    if y != 0 && self.umax(a) < y { return a; }
                    if na.op == Op::ZExt && y != 0 { let wx = self.w(na.a); if y <= ones(wx) { let c = self.c(y, wx); let d = self.bin(Op::URem, na.a, c); return self.zext(d, w); } }
                }
                if kb.is_none() && self.umax(a) < self.umin(b) { return a; }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(y) = kb {
                    if y == 0 { return b; }
                    if y == m { return a; }
                    let mm = self.mask(a);
                    if mm & y == 0 { return self.c(0, w); }
                    if mm & !y == 0 { return a; }
                    if na.op == Op::And { if let Some(x) = self.konst(na.b) { let c = self.c(x & y, w); return self.bin(Op::And, na.a, c); } }
                    // contiguous mask -> extract
                    let lo = y.trailing_zeros();
                    let len = (!(y >> lo)).trailing_zeros().min(128);
                    if (y >> lo) == ones(len) && w > 1 {
                        let x = self.extract(a, lo, len);
                        let x = if lo > 0 { let z = self.c(0, lo); self.concat(x, z) } else { x };
                        return self.zext(x, w);
                    }
                    if na.op == Op::ZExt { let wx = self.w(na.a); let c = self.c(y, wx); let x = self.bin(Op::And, na.a, c); return self.zext(x, w); }
                } else if self.mask(a) & self.mask(b) == 0 { return self.c(0, w); }
                if w == 1 && self.is_not_of(a, b) { return self.c(0, 1); }
                if w == 1 && (nb.op == Op::And && (nb.a == a || nb.b == a)) { return b; }
                if w == 1 && (na.op == Op::And && (na.a == b || na.b == b)) { return a; }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(y) = kb { if y == 0 { return a; } if y == m { return b; } }
                if w == 1 && self.is_not_of(a, b) { return self.c(1, 1); }
                let (ma, mb) = (self.mask(a), self.mask(b));
                if ma & mb == 0 && w > 1 {
                    // disjoint: try a split point
                    let (hi_e, lo_e, mh, ml) = if ma > mb { (a, b, ma, mb) } else { (b, a, mb, ma) };
                    let cut = 128 - ml.leading_zeros();
                    if cut > 0 && cut < w && mh & ones(cut) == 0 {
                        let h = self.extract(hi_e, cut, w - cut);
                        let l = self.extract(lo_e, 0, cut);
                        return self.concat(h, l);
                    }
                    // one fits into a hole of the other made of concats
                    if ml != 0 {
                        let lo = ml.trailing_zeros();
                        let (h, _) = (hi_e, ());
                        if mh & (ones(cut) & !ones(lo)) == 0 && cut <= w && (lo > 0 || cut < w) {
                            let mut parts: Option<Ex> = None;
                            if lo > 0 { parts = Some(self.extract(h, 0, lo)); }
                            let mid = self.extract(lo_e, lo, cut - lo);
                            let p = match parts { Some(p) => self.concat(mid, p), None => mid };
                            if cut < w { let t = self.extract(h, cut, w - cut); return self.concat(t, p); }
                            return p;
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b { return self.c(0, w); }
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    if na.op == Op::Xor { if let Some(x) = self.konst(na.b) { let c = self.c(x ^ y, w); return self.bin(Op::Xor, na.a, c); } }
                    if w == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
                if na.op == Op::Xor { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if nb.op == Op::Xor { if nb.a == a { return nb.b; } if nb.b == a { return nb.a; } }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    if y >= w as u128 {
                        if op == Op::AShr { let s = self.extract(a, w - 1, 1); return self.sxt(s, w); }
                        return self.c(0, w);
                    }
                    let y = y as u32;
                    return match op {
                        Op::Shl => { let x = self.extract(a, 0, w - y); let z = self.c(0, y); self.concat(x, z) }
                        Op::LShr => { let x = self.extract(a, y, w - y); self.zext(x, w) }
                        _ => { let x = self.extract(a, y, w - y); self.sxt(x, w) }
                    };
                }
                if ka == Some(0) { return a; }
            }
            Op::Eq => {
                if a == b { return self.tru(); }
                if self.umax(a) < self.umin(b) || self.umax(b) < self.umin(a) { return self.c(0, 1); }
                if let Some(y) = kb {
                    if y & !self.mask(a) != 0 { return self.c(0, 1); }
                    if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Op::ZExt => { let wx = self.w(na.a); let c = self.c(y, wx); return self.bin(Op::Eq, na.a, c); }
                        Op::SExt => { let wx = self.w(na.a); if sext(y & ones(wx), wx) as u128 & m == y { let c = self.c(y, wx); return self.bin(Op::Eq, na.a, c); } return self.c(0, 1); }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let ch = self.c(y >> wl, w - wl); let cl = self.c(y, wl);
                            let p = self.bin(Op::Eq, na.a, ch);
                            if self.konst(p) == Some(0) { return p; }
                            let q = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, p, q);
                        }
                        Op::Add => if let Some(x) = self.konst(na.b) { let c = self.c(y.wrapping_sub(x), w); return self.bin(Op::Eq, na.a, c); },
                        Op::Sub => { if let Some(x) = self.konst(na.a) { let c = self.c(x.wrapping_sub(y), w); return self.bin(Op::Eq, na.b, c); }
                            if y == 0 { return self.bin(Op::Eq, na.a, na.b); } }
                        Op::Xor => if let Some(x) = self.konst(na.b) { let c = self.c(x ^ y, w); return self.bin(Op::Eq, na.a, c); },
                        Op::Ite => {
                            if let Some(x) = self.konst(na.b) { if x != y { let n = self.not(na.a); let r = self.bin(Op::Eq, na.c, b); return self.bin(Op::And, n, r); }
                                else { let r = self.bin(Op::Eq, na.c, b); return self.bin(Op::Or, na.a, r); } }
                            if let Some(x) = self.konst(na.c) { if x != y { let r = self.bin(Op::Eq, na.b, b); return self.bin(Op::And, na.a, r); }
                                else { let n = self.not(na.a); let r = self.bin(Op::Eq, na.b, b); return self.bin(Op::Or, n, r); } }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wx, wy) = (self.w(na.a), self.w(nb.a));
                        let mw = wx.max(wy);
                        let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let p = self.bin(Op::Eq, na.a, nb.a);
                        let q = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, p, q);
                    }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.a == nb.a { return self.bin(Op::Eq, na.b, nb.b); }
                        if na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                    }
                    if na.op == Op::Xor && nb.op == Op::Xor {
                        if na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                        if na.a == nb.a { return self.bin(Op::Eq, na.b, nb.b); }
                    }
                    if w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.c((op == Op::Ule) as u128, 1); }
                let (la, ha, lb, hb) = (self.umin(a), self.umax(a), self.umin(b), self.umax(b));
                if op == Op::Ult {
                    if ha < lb { return self.tru(); }
                    if la >= hb { return self.c(0, 1); }
                    if kb == Some(la + 1) { let c = self.c(la, w); return self.bin(Op::Eq, a, c); }
                    if hb > 0 && ka == Some(hb - 1) { let c = self.c(hb, w); return self.bin(Op::Eq, b, c); }
                    if kb == Some(ha) { let c = self.c(ha, w); let e = self.bin(Op::Eq, a, c); return self.not(e); }
                    if ka == Some(lb) { let c = self.c(lb, w); let e = self.bin(Op::Eq, b, c); return self.not(e); }
                } else {
                    if ha <= lb { return self.tru(); }
                    if la > hb { return self.c(0, 1); }
                    if let Some(y) = kb { if y < m { let c = self.c(y + 1, w); return self.bin(Op::Ult, a, c); } }
                    if let Some(x) = ka { if x > 0 { let c = self.c(x - 1, w); return self.bin(Op::Ult, c, b); } }
                }
                let narrow = |s: &Self, k: &Key, e: Ex| -> Option<u32> { if k.op == Op::ZExt { Some(s.w(k.a)) } else { s.konst(e).map(|c| (128 - c.leading_zeros()).max(1)) } };
                if let (Some(x), Some(y)) = (narrow(self, &na, a), narrow(self, &nb, b)) {
                    let mw = x.max(y);
                    if mw < w {
                        let p = self.extract(a, 0, mw); let q = self.extract(b, 0, mw);
                        return self.bin(op, p, q);
                    }
                }
                // common low part: ult(concat(h,l), const with low bits 0) -> ult(h, k>>n)
                if let Some(y) = kb { if na.op == Op::Concat && op == Op::Ult { let wl = self.w(na.b); if y & ones(wl) == 0 { let c = self.c(y >> wl, w - wl); return self.bin(Op::Ult, na.a, c); } } }
                if let Some(x) = ka { if nb.op == Op::Concat && op == Op::Ult { let wl = self.w(nb.b); if x & ones(wl) == ones(wl) { let c = self.c(x >> wl, w - wl); return self.bin(Op::Ult, c, nb.a); } } }
                if w == 1 { // a<b == !a & b ; a<=b == !a | b
                    let n = self.not(a); return self.bin(if op == Op::Ult { Op::And } else { Op::Or }, n, b);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c((op == Op::Sle) as u128, 1); }
                let s = 1u128 << (w - 1);
                if self.umax(a) < s && self.umax(b) < s { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if self.umax(a) < s && self.umin(b) >= s { return self.c(0, 1); }
                if self.umin(a) >= s && self.umax(b) < s { return self.tru(); }
                if op == Op::Sle {
                    if let Some(y) = kb { if y != s - 1 { let c = self.c(y.wrapping_add(1), w); return self.bin(Op::Slt, a, c); } }
                    if let Some(x) = ka { if x != s { let c = self.c(x.wrapping_sub(1), w); return self.bin(Op::Slt, c, b); } }
                }
                if op == Op::Slt && kb == Some(0) { let t = self.extract(a, w - 1, 1); return t; }
                if op == Op::Slt && ka == Some(m) { let t = self.extract(b, w - 1, 1); return self.not(t); }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
            }
            _ => {}
        }
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        self.mk(op, rw, a, b, 0, 0)
    }
    fn is_not_of(&self, a: Ex, b: Ex) -> bool {
        let (x, y) = (self.key(a), self.key(b));
        (x.op == Op::Xor && x.a == b && self.konst(x.b) == Some(ones(x.w as u32))) || (y.op == Op::Xor && y.a == a && self.konst(y.b) == Some(ones(y.w as u32)))
            || (x.op == Op::Ult && y.op == Op::Ule && x.a == y.b && x.b == y.a) || (x.op == Op::Ule && y.op == Op::Ult && x.a == y.b && x.b == y.a)
    }

    /// Rebuild a node with new children (re-simplifies).
    pub fn rebuild(&mut self, e: Ex, a: Ex, b: Ex, c: Ex) -> Ex {
        let k = self.key(e);
        if (a, b, c) == (k.a, k.b, k.c) { return e; }
        match k.op {
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, k.k as u32, k.w as u32),
            Op::ZExt => self.zext(a, k.w as u32),
            Op::SExt => self.sxt(a, k.w as u32),
            Op::Ite => self.ite(a, b, c),
            op => self.bin(op, a, b),
        }
    }
    /// Truth table of a boolean expression over its single byte variable.
    pub fn table(&mut self, e: Ex, v: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) { return *t; }
        let mut t = [0u64; 4];
        let mut model = vec![0u8; v as usize + 1];
        for x in 0..256usize {
            model[v as usize] = x as u8;
            let mut memo = FxMap::default();
            if self.eval(e, &model, &mut memo) != 0 { t[x / 64] |= 1 << (x % 64); }
        }
        self.tables.insert(e, t);
        t
    }

    pub fn children(&self, e: Ex) -> [Ex; 3] { let k = &self.nodes[e as usize].key; [k.a, k.b, k.c] }

    pub fn support(&mut self, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.support.get(&e) { return s.clone(); }
        let k = self.key(e);
        let mut v: Vec<u32> = vec![];
        if k.op == Op::Var { v.push(k.k as u32); }
        let mut only: Option<std::rc::Rc<Vec<u32>>> = None; let mut n = 0;
        for c in [k.a, k.b, k.c] {
            if c != 0 { let s = self.support(c); if !s.is_empty() { v.extend_from_slice(&s); only = Some(s); n += 1; } }
        }
        let r = if n == 1 { only.unwrap() } else { v.sort_unstable(); v.dedup(); std::rc::Rc::new(v) };
        self.support.insert(e, r.clone());
        r
    }

    /// Evaluate under an assignment of the byte variables (missing = 0).
    pub fn eval(&self, e: Ex, model: &[u8], memo: &mut FxMap<Ex, u128>) -> u128 {
        let k = &self.nodes[e as usize].key;
        match k.op {
            Op::Const => return k.k,
            Op::Var => return *model.get(k.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let k = *k;
        let r = match k.op {
            Op::Concat => { let wl = self.w(k.b); let h = self.eval(k.a, model, memo); let l = self.eval(k.b, model, memo); (h << wl) | l }
            Op::Extract => (self.eval(k.a, model, memo) >> (k.k as u32)) & ones(k.w as u32),
            Op::ZExt => self.eval(k.a, model, memo),
            Op::SExt => { let wa = self.w(k.a); sext(self.eval(k.a, model, memo), wa) as u128 & ones(k.w as u32) }
            Op::Ite => if self.eval(k.a, model, memo) != 0 { self.eval(k.b, model, memo) } else { self.eval(k.c, model, memo) },
            op => { let wa = self.w(k.a); let a = self.eval(k.a, model, memo); let b = self.eval(k.b, model, memo); fold(op, a, b, wa).unwrap() }
        };
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: Ex) -> String { self.show_d(e, 6) }
    fn show_d(&self, e: Ex, d: u32) -> String {
        let k = self.key(e);
        match k.op {
            Op::Const => format!("{:#x}:{}", k.k, k.w),
            Op::Var => self.var_names[k.k as usize].clone(),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("{}[{}+{}]", self.show_d(k.a, d - 1), k.k, k.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", k.op, k.w, self.show_d(k.a, d - 1)),
            Op::Ite => format!("ite({}, {}, {})", self.show_d(k.a, d - 1), self.show_d(k.b, d - 1), self.show_d(k.c, d - 1)),
            _ => format!("{:?}({}, {})", k.op, self.show_d(k.a, d - 1), self.show_d(k.b, d - 1)),
        }
    }
}
