//! Parser for the textual LLVM IR emitted by rustc (opaque pointers).
use crate::expr::Op;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Label, Meta }

impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Vec(n, t) => *n as u32 * t.bits(), _ => panic!("bits of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size_raw().next_power_of_two().min(16).max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    fn size_raw(&self) -> u64 { match self { Ty::Vec(n, t) => (*n * t.bits() as u64 + 7) / 8, _ => 0 } }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Vec(..) => self.size_raw(),
            Ty::Struct(..) => self.struct_layout().1,
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 { let a = self.align(); (self.store_size() + a - 1) / a * a }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0u64; let mut v = Vec::with_capacity(f.len()); let mut ma = 1;
            for t in f.iter() {
                let a = if *packed { 1 } else { t.align() };
                ma = ma.max(a);
                off = (off + a - 1) / a * a;
                v.push(off);
                off += t.alloc_size();
            }
            (v, (off + ma - 1) / ma * ma)
        } else { panic!() }
    }
}

#[derive(Clone, Debug)]
pub enum V { I(u128), E(u32), Agg(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), C(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub struct CallI { pub dst: u32, pub rty: Ty, pub callee: Opnd, pub name: Option<Rc<str>>, pub args: Vec<(Ty, Opnd)>, pub next: Option<u32> }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, ty: Ty, dst: u32, a: Opnd, b: Opnd },
    FBin { op: &'static str, ty: Ty, dst: u32, a: Opnd, b: Opnd },
    FNeg { ty: Ty, dst: u32, a: Opnd },
    FCmp { pred: String, ty: Ty, dst: u32, a: Opnd, b: Opnd },
    ICmp { pred: Pred, ty: Ty, dst: u32, a: Opnd, b: Opnd },
    Cast { kind: Cast, from: Ty, to: Ty, dst: u32, a: Opnd },
    Select { cty: Ty, ty: Ty, dst: u32, c: Opnd, a: Opnd, b: Opnd },
    Load { ty: Ty, dst: u32, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Alloca { dst: u32, size: u64, align: u64, n: Option<(Opnd, u32)> },
    Call(Box<CallI>),
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u32, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    ExtractV { dst: u32, a: Opnd, idx: Vec<u32> },
    InsertV { dst: u32, a: Opnd, v: Opnd, idx: Vec<u32>, aty: Ty },
    ExtractE { dst: u32, a: Opnd, i: Opnd },
    InsertE { dst: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, a: Opnd, b: Opnd, mask: Vec<i64>, n: usize },
    Freeze { dst: u32, a: Opnd },
    Rmw { dst: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { dst: u32, ty: Ty, p: Opnd, old: Opnd, new: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub insts: Vec<Inst> }
pub struct Func { pub name: Rc<str>, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block> }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tok<'a> { Local(&'a str), Global(&'a str), Id(&'a str), Int(&'a str), Flt(&'a str), P(u8), CStr(&'a [u8]), Str(&'a str), Meta, Attr, Dots, Eof }

struct Lex<'a> { s: &'a [u8], i: usize }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
impl<'a> Lex<'a> {
    fn st(&self, a: usize, b: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) } }
    fn skip_ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1; }
            if self.i < self.s.len() && self.s[self.i] == b';' { self.skip_line(); } else { return; }
        }
    }
    fn skip_line(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
    fn peek(&mut self) -> Tok<'a> { let i = self.i; let t = self.next(); self.i = i; t }
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            let a = self.i + 1; let mut j = a;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            self.st(a, j)
        } else {
            let a = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; }
            self.st(a, self.i)
        }
    }
    fn next(&mut self) -> Tok<'a> {
        self.skip_ws();
        if self.i >= self.s.len() { return Tok::Eof; }
        let c = self.s[self.i];
        match c {
            b'%' => { self.i += 1; Tok::Local(self.name()) }
            b'@' => { self.i += 1; Tok::Global(self.name()) }
            b'!' => { self.i += 1; if self.i < self.s.len() && (idc(self.s[self.i])) { self.name(); } else if self.s[self.i] == b'"' { self.name(); } Tok::Meta }
            b'#' => { self.i += 1; self.name(); Tok::Attr }
            b'"' => Tok::Str(self.name()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                let a = self.i + 2; let mut j = a;
                while self.s[j] != b'"' { j += 1; }
                self.i = j + 1;
                Tok::CStr(&self.s[a..j])
            }
            b'.' if self.s[self.i..].starts_with(b"...") => { self.i += 3; Tok::Dots }
            b'0'..=b'9' | b'-' => {
                let a = self.i; self.i += 1;
                let mut flt = false;
                if c == b'0' && self.i < self.s.len() && self.s[self.i] == b'x' { flt = true; self.i += 1; while self.s[self.i].is_ascii_alphanumeric() { self.i += 1; } }
                else { while self.i < self.s.len() { let d = self.s[self.i]; if d.is_ascii_digit() { self.i += 1 } else if d == b'.' || d == b'e' || (flt && (d == b'+' || d == b'-')) { flt = true; self.i += 1 } else { break } } }
                if flt { Tok::Flt(self.st(a, self.i)) } else { Tok::Int(self.st(a, self.i)) }
            }
            c if c.is_ascii_alphabetic() || c == b'_' => { let a = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') { self.i += 1; } Tok::Id(self.st(a, self.i)) }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    fn expect(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { panic!("expected {:?} got {:?} at: {}", c as char, t, self.ctx()); } }
    fn accept(&mut self, c: u8) -> bool { if self.peek() == Tok::P(c) { self.next(); true } else { false } }
    fn ctx(&self) -> String { let a = self.i.saturating_sub(80); let b = (self.i + 80).min(self.s.len()); String::from_utf8_lossy(&self.s[a..b]).into_owned() }
    fn skip_parens(&mut self) { // after '('
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::Eof => panic!("eof"), _ => {} } }
    }
}

pub struct GlobalDef { pub name: Rc<str>, pub addr: u64, pub ty: Ty, pub constant: bool, pub external: bool, init: (usize, usize), pub tls: bool }

pub struct Module {
    text: &'static [u8],
    types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub fnames: Vec<Rc<str>>,
    pub findex: HashMap<Rc<str>, u32>,
    fbody: Vec<Option<(usize, usize)>>,
    funcs: Vec<Option<Rc<Func>>>,
    aliases: HashMap<Rc<str>, (usize, usize)>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000_0;

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static [u8] = Box::leak(std::fs::read(path).expect("read ll").into_boxed_slice());
        let mut m = Module { text, types: HashMap::new(), globals: vec![], gaddr: HashMap::new(), fnames: vec![], findex: HashMap::new(), fbody: vec![], funcs: vec![], aliases: HashMap::new() };
        // line scan
        let mut pos = 0;
        let mut glines = vec![]; let mut tlines = vec![];
        while pos < text.len() {
            let eol = text[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(text.len());
            let line = &text[pos..eol];
            if line.starts_with(b"define ") {
                let mut end = eol;
                // find "\n}\n"
                loop {
                    let e = text[end + 1..].iter().position(|&c| c == b'\n').map(|x| end + 1 + x).unwrap_or(text.len());
                    if &text[end + 1..e] == b"}" { end = e; break; }
                    end = e;
                }
                let name = Self::fn_name(&text[pos..eol]);
                m.add_fn(name, Some((pos, end)), false);
                pos = end + 1; continue;
            } else if line.starts_with(b"declare ") {
                let name = Self::fn_name(line);
                let weak = line.windows(11).any(|w| w == b"extern_weak");
                m.add_fn(name, None, weak);
            } else if line.starts_with(b"@") { glines.push((pos, eol)); }
            else if line.starts_with(b"%") { tlines.push((pos, eol)); }
            pos = eol + 1;
        }
        // named types may refer to each other: iterate until resolved
        let mut todo = tlines;
        while !todo.is_empty() {
            let mut rest = vec![];
            for &(a, b) in &todo {
                let mut lx = Lex { s: &text[a..b], i: 0 };
                let n = match lx.next() { Tok::Local(n) => n.to_string(), _ => continue };
                lx.expect(b'='); lx.next();
                if let Some(t) = m.try_ty(&mut lx) { m.types.insert(n, t); } else { rest.push((a, b)); }
            }
            if rest.len() == todo.len() { break; }
            todo = rest;
        }
        let mut addr = GLOBAL_BASE;
        for (a, b) in glines {
            let mut lx = Lex { s: &text[a..b], i: 0 };
            let name: Rc<str> = match lx.next() { Tok::Global(n) => n.into(), _ => panic!() };
            lx.expect(b'=');
            let mut external = false; let mut tls = false; let mut alias = false; let mut constant = false; let mut weak = false;
            loop {
                match lx.next() {
                    Tok::Id("external") => external = true,
                    Tok::Id("extern_weak") => { external = true; weak = true }
                    Tok::Id("thread_local") => { tls = true; if lx.accept(b'(') { lx.skip_parens(); } }
                    Tok::Id("global") => break,
                    Tok::Id("constant") => { constant = true; break }
                    Tok::Id("alias") => { alias = true; break }
                    Tok::Id("addrspace") => { lx.expect(b'('); lx.skip_parens(); }
                    Tok::Id(_) => {}
                    t => panic!("global {name}: {t:?}"),
                }
            }
            if alias { m.aliases.insert(name.clone(), (a + lx.i, b)); continue; }
            let ty = m.ty(&mut lx);
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            if weak { m.gaddr.insert(name.clone(), 0); }
            else { m.gaddr.insert(name.clone(), addr); }
            m.globals.push(GlobalDef { name, addr, constant, external, init: (a + lx.i, b), tls, ty: ty.clone() });
            addr += ty.alloc_size().max(1) + 16;
        }
        let al: Vec<_> = m.aliases.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (n, (a, b)) in al {
            let mut lx = Lex { s: &text[a..b], i: 0 };
            let _t = m.ty(&mut lx); lx.expect(b','); let t = m.ty(&mut lx);
            let v = m.constant(&mut lx, &t);
            if let V::I(x) = v { m.gaddr.insert(n.clone(), x as u64); if let Some(f) = m.func_at(x as u64) { m.findex.insert(n, f); } }
        }
        m
    }
    fn fn_name(line: &[u8]) -> Rc<str> {
        let mut lx = Lex { s: line, i: 0 };
        loop { match lx.next() { Tok::Global(n) => return n.into(), Tok::Eof => panic!("no fn name"), _ => {} } }
    }
    fn add_fn(&mut self, name: Rc<str>, body: Option<(usize, usize)>, weak: bool) {
        let id = self.fnames.len() as u32;
        self.fnames.push(name.clone());
        self.fbody.push(body);
        self.funcs.push(None);
        self.findex.insert(name.clone(), id);
        self.gaddr.insert(name, if weak { 0 } else { FUNC_BASE + 16 * id as u64 });
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < FUNC_BASE || (addr - FUNC_BASE) % 16 != 0 { return None; }
        let i = (addr - FUNC_BASE) / 16;
        if (i as usize) < self.fnames.len() { Some(i as u32) } else { None }
    }
    pub fn has_body(&self, f: u32) -> bool { self.fbody[f as usize].is_some() }
    pub fn body_lines(&self, f: u32) -> usize { self.fbody[f as usize].map(|(a, b)| self.text[a..b].iter().filter(|&&c| c == b'\n').count()).unwrap_or(0) }

    fn ty(&self, lx: &mut Lex) -> Ty { match self.try_ty(lx) { Some(t) => t, None => panic!("type at {}", lx.ctx()) } }
    fn try_ty(&self, lx: &mut Lex) -> Option<Ty> {
        let t = match lx.next() {
            Tok::Id("ptr") => { if lx.peek() == Tok::Id("addrspace") { lx.next(); lx.expect(b'('); lx.skip_parens(); } Ty::Ptr }
            Tok::Id("void") => Ty::Void, Tok::Id("float") => Ty::Float, Tok::Id("double") => Ty::Double,
            Tok::Id("half") => Ty::Int(16), Tok::Id("fp128") => Ty::Int(128),
            Tok::Id("label") => Ty::Label, Tok::Id("metadata") | Tok::Id("token") => Ty::Meta,
            Tok::Id("opaque") => Ty::Int(8),
            Tok::Id(s) if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().ok()?),
            Tok::P(b'[') => { let n = match lx.next() { Tok::Int(n) => n.parse().ok()?, _ => return None }; lx.next(); let t = self.try_ty(lx)?; lx.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            Tok::P(b'<') => {
                if lx.peek() == Tok::P(b'{') { lx.next(); let f = self.fields(lx)?; lx.expect(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n = match lx.next() { Tok::Int(n) => n.parse().ok()?, _ => return None }; lx.next(); let t = self.try_ty(lx)?; lx.expect(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            Tok::P(b'{') => { let f = self.fields(lx)?; Ty::Struct(Rc::new(f), false) }
            Tok::Local(n) => self.types.get(n)?.clone(),
            _ => return None,
        };
        Some(t)
    }
    fn fields(&self, lx: &mut Lex) -> Option<Vec<Ty>> {
        let mut f = vec![];
        if lx.accept(b'}') { return Some(f); }
        loop { f.push(self.try_ty(lx)?); match lx.next() { Tok::P(b',') => {}, Tok::P(b'}') => return Some(f), _ => return None } }
    }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => { let z = Self::zero(t); V::Agg(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(Self::zero).collect())),
            _ => V::I(0),
        }
    }
    fn int_lit(s: &str, w: u32) -> u128 { let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128); (v as u128) & crate::expr::ones(w) }
    fn is_ty_start(t: Tok) -> bool {
        match t {
            Tok::Id(s) => matches!(s, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128") || (s.len() > 1 && s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => true,
            _ => false,
        }
    }
    /// constant of type ty
    fn constant(&self, lx: &mut Lex, ty: &Ty) -> V {
        let t = lx.next();
        match t {
            Tok::Int(s) => match ty { Ty::Double | Ty::Float => Self::flt(s, ty), _ => V::I(Self::int_lit(s, ty.bits())) },
            Tok::Flt(s) => Self::flt(s, ty),
            Tok::Id("true") => V::I(1), Tok::Id("false") => V::I(0),
            Tok::Id("null") | Tok::Id("none") => V::I(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => Self::zero(ty),
            Tok::Global(n) => V::I(*self.gaddr.get(n).unwrap_or_else(|| panic!("unknown global {n}")) as u128),
            Tok::CStr(b) => {
                let mut v = vec![]; let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' && b[i + 1] == b'\\' { v.push(V::I(92)); i += 2; } else if b[i] == b'\\' { let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap(); v.push(V::I(u8::from_str_radix(h, 16).unwrap() as u128)); i += 3; } else { v.push(V::I(b[i] as u128)); i += 1; }
                }
                V::Agg(Rc::new(v))
            }
            Tok::P(b'<') if lx.peek() == Tok::P(b'{') => { lx.next(); let r = self.agg(lx, b'}'); lx.expect(b'>'); r }
            Tok::P(b'{') => self.agg(lx, b'}'),
            Tok::P(b'[') => self.agg(lx, b']'),
            Tok::P(b'<') => self.agg(lx, b'>'),
            Tok::Id("splat") => { lx.expect(b'('); let t = self.ty(lx); let v = self.constant(lx, &t); lx.expect(b')'); let n = if let Ty::Vec(n, _) = ty { *n } else { 1 }; V::Agg(Rc::new(vec![v; n as usize])) }
            Tok::Id("getelementptr") => {
                loop { match lx.next() { Tok::P(b'(') => break, Tok::Id("inrange") => { lx.expect(b'('); lx.skip_parens(); } _ => {} } }
                let st = self.ty(lx); lx.expect(b',');
                let bt = self.ty(lx); let base = self.constant(lx, &bt);
                let mut idx = vec![];
                while lx.accept(b',') { let it = self.ty(lx); let v = self.constant(lx, &it); idx.push((v, it.bits())); }
                lx.expect(b')');
                let mut off = 0i128; let mut cur = st;
                for (n, (v, w)) in idx.into_iter().enumerate() {
                    let x = if let V::I(x) = v { crate::expr::sext(x, w) } else { panic!() };
                    if n == 0 { off += x * cur.alloc_size() as i128; continue; }
                    let nt = match &cur {
                        Ty::Arr(_, t) | Ty::Vec(_, t) => { off += x * t.alloc_size() as i128; (**t).clone() }
                        Ty::Struct(f, _) => { off += cur.struct_layout().0[x as usize] as i128; f[x as usize].clone() }
                        _ => panic!(),
                    };
                    cur = nt;
                }
                if let V::I(b) = base { V::I((b as i128 + off) as u128 & u64::MAX as u128) } else { panic!() }
            }
            Tok::Id(k @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr")) => {
                lx.expect(b'('); let t = self.ty(lx); let v = self.constant(lx, &t); lx.next(); let to = self.ty(lx); lx.expect(b')');
                let _ = k;
                if let V::I(x) = v { V::I(x & crate::expr::ones(to.bits())) } else { v }
            }
            Tok::Id(k @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr")) => {
                while !matches!(lx.peek(), Tok::P(b'(')) { lx.next(); }
                lx.expect(b'('); let t = self.ty(lx); let a = self.constant(lx, &t); lx.expect(b','); let t2 = self.ty(lx); let b = self.constant(lx, &t2); lx.expect(b')');
                let op = match k { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "xor" => Op::Xor, "and" => Op::And, "or" => Op::Or, "shl" => Op::Shl, _ => Op::LShr };
                if let (V::I(x), V::I(y)) = (a, b) { V::I(crate::expr::fold(op, x, y, t.bits()).unwrap()) } else { panic!() }
            }
            t => panic!("constant {:?} at {}", t, lx.ctx()),
        }
    }
    fn flt(s: &str, ty: &Ty) -> V {
        let d: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0)) } else { s.parse().unwrap() };
        match ty { Ty::Float => V::I((d as f32).to_bits() as u128), _ => V::I(d.to_bits() as u128) }
    }
    fn agg(&self, lx: &mut Lex, end: u8) -> V {
        let mut v = vec![];
        if lx.accept(end) { return V::Agg(Rc::new(v)); }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, &t));
            match lx.next() { Tok::P(b',') => {}, Tok::P(c) if c == end => return V::Agg(Rc::new(v)), t => panic!("agg {:?} {}", t, lx.ctx()) }
        }
    }
    pub fn global_init(&self, i: usize) -> V {
        let g = &self.globals[i];
        if g.external { return Self::zero(&g.ty); }
        let mut lx = Lex { s: &self.text[g.init.0..g.init.1], i: 0 };
        self.constant(&mut lx, &g.ty)
    }

    pub fn func(&mut self, f: u32) -> Rc<Func> {
        if let Some(r) = &self.funcs[f as usize] { return r.clone(); }
        let (a, b) = self.fbody[f as usize].expect("no body");
        let r = Rc::new(FnParser { m: self, lx: Lex { s: &self.text[a..b], i: 0 }, regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 }.parse(self.fnames[f as usize].clone()));
        self.funcs[f as usize] = Some(r.clone());
        r
    }
}

struct FnParser<'m> { m: &'m Module, lx: Lex<'static>, regs: HashMap<&'static str, u32>, blocks: HashMap<&'static str, u32>, nblocks: u32 }

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &'static str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn block(&mut self, n: &'static str) -> u32 { let k = self.blocks.len() as u32; *self.blocks.entry(n).or_insert(k) }
    fn ty(&mut self) -> Ty { self.m.ty(&mut self.lx) }
    fn skip_attrs(&mut self) {
        // parameter / return attributes and calling conventions between a type and an operand (or before a type)
        loop {
            match self.lx.peek() {
                Tok::Id("align") => { self.lx.next(); if self.lx.accept(b'(') { self.lx.skip_parens(); } else { self.lx.next(); } }
                Tok::Id("cc") => { self.lx.next(); self.lx.next(); }
                Tok::Id(s) if !matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "splat" | "asm" | "to" | "c") && !Module::is_ty_start(Tok::Id(s)) => {
                    self.lx.next();
                    if self.lx.peek() == Tok::P(b'(') && !matches!(s, "fastcc") { self.lx.next(); self.lx.skip_parens(); }
                }
                Tok::Attr => { self.lx.next(); }
                Tok::Str(_) => { self.lx.next(); if self.lx.accept(b'=') { self.lx.next(); } }
                _ => return,
            }
        }
    }
    fn opnd(&mut self, ty: &Ty) -> Opnd {
        match self.lx.peek() {
            Tok::Local(n) => { self.lx.next(); let r = self.reg(n); Opnd::R(r) }
            _ => Opnd::C(self.m.constant(&mut self.lx, ty)),
        }
    }
    fn ty_opnd(&mut self) -> (Ty, Opnd) { let t = self.ty(); if t == Ty::Meta { // metadata operand: skip
            loop { match self.lx.peek() { Tok::P(b',') | Tok::P(b')') => break, Tok::P(b'(') => { self.lx.next(); self.lx.skip_parens(); } _ => { self.lx.next(); } } }
            return (t, Opnd::C(V::I(0))); }
        self.skip_attrs(); let o = self.opnd(&t); (t, o) }
    fn label(&mut self) -> u32 { self.lx.next(); match self.lx.next() { Tok::Local(n) => self.block(n), t => panic!("label {t:?}") } }

    fn parse(mut self, name: Rc<str>) -> Func {
        // header
        loop { if let Tok::Global(_) = self.lx.next() { break; } }
        self.lx.expect(b'(');
        let mut params = vec![]; let mut unnamed = 0;
        if !self.lx.accept(b')') {
            loop {
                if self.lx.peek() == Tok::Dots { self.lx.next(); self.lx.expect(b')'); break; }
                let _t = self.ty();
                self.skip_attrs();
                match self.lx.peek() {
                    Tok::Local(n) => { self.lx.next(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let r = self.reg(n); params.push(r); }
                    _ => { let s: &'static str = Box::leak(format!("{unnamed}").into_boxed_str()); unnamed += 1; let r = self.reg(s); params.push(r); }
                }
                match self.lx.next() { Tok::P(b',') => {}, Tok::P(b')') => break, t => panic!("params {:?} {}", t, self.lx.ctx()) }
            }
        }
        self.lx.skip_line();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            self.lx.skip_ws();
            if self.lx.i >= self.lx.s.len() || self.lx.s[self.lx.i] == b'}' { break; }
            // label?
            let save = self.lx.i;
            let lab = {
                let c = self.lx.s[self.lx.i];
                if c == b'"' || idc(c) { let n = self.lx.name(); if self.lx.i < self.lx.s.len() && self.lx.s[self.lx.i] == b':' { self.lx.i += 1; Some(n) } else { None } } else { None }
            };
            if let Some(n) = lab {
                let b = self.block(n);
                blocks.insert(b, Block { phis: vec![], insts: vec![] });
                cur = Some(b);
                self.nblocks += 1;
                self.lx.skip_line();
                continue;
            }
            self.lx.i = save;
            let b = match cur { Some(b) => b, None => {
                let s: &'static str = Box::leak(format!("{unnamed}").into_boxed_str());
                let b = self.block(s); blocks.insert(b, Block { phis: vec![], insts: vec![] }); cur = Some(b); b } };
            let start = self.lx.i;
            let r = self.inst();
            match r {
                Ok(None) => {}
                Ok(Some(i)) => blocks.get_mut(&b).unwrap().insts.push(i),
                Err(p) => blocks.get_mut(&b).unwrap().phis.push(p),
            }
            let _ = start;
            self.lx.skip_line();
        }
        let n = self.blocks.len() as u32;
        let mut v = Vec::new();
        for i in 0..n { v.push(blocks.remove(&i).unwrap_or_else(|| panic!("missing block in {name}"))); }
        Func { name, nregs: self.regs.len() as u32, params, blocks: v }
    }

    fn inst(&mut self) -> Result<Option<Inst>, (u32, Vec<(u32, Opnd)>)> {
        let mut dst = u32::MAX;
        let mut t = self.lx.next();
        if let Tok::Local(n) = t { dst = self.reg(n); self.lx.expect(b'='); t = self.lx.next(); }
        let mut op = match t { Tok::Id(s) => s, t => panic!("inst {:?} {}", t, self.lx.ctx()) };
        if matches!(op, "tail" | "musttail" | "notail") { self.lx.next(); op = "call"; }
        let flags = |s: &mut Self| { while let Tok::Id(f) = s.lx.peek() { if matches!(f, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak") { s.lx.next(); } else { break; } } };
        Ok(Some(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(self);
                let ty = self.ty(); let a = self.opnd(&ty); self.lx.expect(b','); let b = self.opnd(&ty);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                Inst::Bin { op: o, ty, dst, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { flags(self); let ty = self.ty(); let a = self.opnd(&ty); self.lx.expect(b','); let b = self.opnd(&ty);
                let o = match op { "fadd" => "+", "fsub" => "-", "fmul" => "*", "fdiv" => "/", _ => "%" }; Inst::FBin { op: o, ty, dst, a, b } }
            "fneg" => { flags(self); let ty = self.ty(); let a = self.opnd(&ty); Inst::FNeg { ty, dst, a } }
            "fcmp" => { flags(self); let p = match self.lx.next() { Tok::Id(p) => p.to_string(), _ => panic!() }; let ty = self.ty(); let a = self.opnd(&ty); self.lx.expect(b','); let b = self.opnd(&ty); Inst::FCmp { pred: p, ty, dst, a, b } }
            "icmp" => {
                flags(self);
                let p = match self.lx.next() { Tok::Id("eq") => Pred::Eq, Tok::Id("ne") => Pred::Ne, Tok::Id("ugt") => Pred::Ugt, Tok::Id("uge") => Pred::Uge, Tok::Id("ult") => Pred::Ult, Tok::Id("ule") => Pred::Ule, Tok::Id("sgt") => Pred::Sgt, Tok::Id("sge") => Pred::Sge, Tok::Id("slt") => Pred::Slt, Tok::Id("sle") => Pred::Sle, t => panic!("icmp {t:?}") };
                let ty = self.ty(); let a = self.opnd(&ty); self.lx.expect(b','); let b = self.opnd(&ty);
                Inst::ICmp { pred: p, ty, dst, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                flags(self);
                let (from, a) = self.ty_opnd(); self.lx.next(); let to = self.ty();
                let kind = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => { if from.bits() > to.bits() { Cast::Trunc } else if from.bits() < to.bits() { Cast::ZExt } else { Cast::Bit } }, _ => Cast::Bit };
                Inst::Cast { kind, from, to, dst, a }
            }
            "select" => { flags(self); let (cty, c) = self.ty_opnd(); self.lx.expect(b','); let (ty, a) = self.ty_opnd(); self.lx.expect(b','); let (_, b) = self.ty_opnd(); Inst::Select { cty, ty, dst, c, a, b } }
            "load" => { flags(self); let ty = self.ty(); self.lx.expect(b','); let (_, p) = self.ty_opnd(); Inst::Load { ty, dst, p } }
            "store" => { flags(self); let (ty, v) = self.ty_opnd(); self.lx.expect(b','); let (_, p) = self.ty_opnd(); Inst::Store { ty, v, p } }
            "getelementptr" => {
                flags(self);
                if self.lx.peek() == Tok::Id("inrange") { self.lx.next(); self.lx.expect(b'('); self.lx.skip_parens(); }
                let st = self.ty(); self.lx.expect(b',');
                let (_, base) = self.ty_opnd();
                let mut off = 0i64; let mut idx = vec![]; let mut cur = st; let mut n = 0;
                while self.lx.peek() == Tok::P(b',') {
                    let save = self.lx.i; self.lx.next();
                    if self.lx.peek() == Tok::Meta { self.lx.i = save; break; }
                    let (it, o) = self.ty_opnd();
                    let w = it.bits();
                    let scale;
                    let nt;
                    if n == 0 { scale = cur.alloc_size() as i64; nt = cur.clone(); }
                    else {
                        match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = t.alloc_size() as i64; nt = (**t).clone(); }
                            Ty::Struct(f, _) => {
                                let x = match &o { Opnd::C(V::I(x)) => *x as usize, _ => panic!("struct idx") };
                                off += cur.struct_layout().0[x] as i64;
                                nt = f[x].clone(); cur = nt; n += 1; continue;
                            }
                            _ => panic!("gep"),
                        }
                    }
                    match &o { Opnd::C(V::I(x)) => off = off.wrapping_add((crate::expr::sext(*x, w) as i64).wrapping_mul(scale)), _ => idx.push((o, w, scale)) }
                    cur = nt; n += 1;
                }
                Inst::Gep { dst, base, off, idx }
            }
            "alloca" => {
                flags(self);
                let ty = self.ty(); let mut nn = None; let mut align = ty.align();
                while self.lx.accept(b',') {
                    match self.lx.peek() {
                        Tok::Id("align") => { self.lx.next(); if let Tok::Int(a) = self.lx.next() { align = a.parse().unwrap(); } }
                        Tok::Meta => { self.lx.next(); break }
                        _ => { let (t, o) = self.ty_opnd(); nn = Some((o, t.bits())); }
                    }
                }
                Inst::Alloca { dst, size: ty.alloc_size(), align, n: nn }
            }
            "call" | "invoke" => {
                self.skip_attrs();
                let rty = self.ty();
                if self.lx.peek() == Tok::P(b'(') { self.lx.next(); self.lx.skip_parens(); }
                let (callee, name) = match self.lx.peek() {
                    Tok::Global(n) => {
                        self.lx.next();
                        let a = *self.m.gaddr.get(n).unwrap_or_else(|| panic!("callee {n}"));
                        (Opnd::C(V::I(a as u128)), Some(Rc::from(n)))
                    }
                    Tok::Local(n) => { self.lx.next(); (Opnd::R(self.reg(n)), None) }
                    Tok::Id("asm") => { return Ok(Some(Inst::Unsupported("inline asm".into()))); }
                    _ => { let v = self.m.constant(&mut self.lx, &Ty::Ptr); (Opnd::C(v), None) }
                };
                if let Some(n) = &name { let n: &Rc<str> = n;
                    if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") { return Ok(Some(Inst::Nop)); } }
                self.lx.expect(b'(');
                let mut args = vec![];
                if !self.lx.accept(b')') {
                    loop {
                        let (t, o) = self.ty_opnd();
                        args.push((t, o));
                        match self.lx.next() { Tok::P(b',') => {}, Tok::P(b')') => break, t => panic!("call args {:?} {}", t, self.lx.ctx()) }
                    }
                }
                let mut next = None;
                if op == "invoke" {
                    loop { match self.lx.next() { Tok::Id("to") => break, Tok::Eof => panic!("invoke"), _ => {} } }
                    next = Some(self.label());
                    loop { match self.lx.next() { Tok::Id("unwind") => break, _ => {} } }
                    self.label();
                }
                Inst::Call(Box::new(CallI { dst, rty, callee, name, args, next }))
            }
            "br" => {
                if self.lx.peek() == Tok::Id("label") { let b = self.label(); Inst::Br(b) }
                else { let (_, c) = self.ty_opnd(); self.lx.expect(b','); let t = self.label(); self.lx.expect(b','); let f = self.label(); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let (ty, v) = self.ty_opnd(); self.lx.expect(b','); let def = self.label(); self.lx.expect(b'[');
                let mut cases = vec![];
                while !self.lx.accept(b']') { let t = self.ty(); let c = self.m.constant(&mut self.lx, &t); self.lx.expect(b','); let l = self.label(); if let V::I(x) = c { cases.push((x, l)); } }
                Inst::Switch { v, w: ty.bits(), def, cases }
            }
            "ret" => { if self.lx.peek() == Tok::Id("void") { Inst::Ret(None) } else { let (t, o) = self.ty_opnd(); Inst::Ret(Some((t, o))) } }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                flags(self);
                let ty = self.ty(); let mut v = vec![];
                loop {
                    self.lx.expect(b'['); let o = self.opnd(&ty); self.lx.expect(b',');
                    let b = match self.lx.next() { Tok::Local(n) => self.block(n), t => panic!("phi {t:?}") };
                    self.lx.expect(b']'); v.push((b, o));
                    let save = self.lx.i;
                    if self.lx.accept(b',') { if self.lx.peek() != Tok::P(b'[') { self.lx.i = save; break; } } else { break; }
                }
                return Err((dst, v));
            }
            "extractvalue" => { let (_, a) = self.ty_opnd(); let mut idx = vec![]; while self.lx.accept(b',') { match self.lx.next() { Tok::Int(n) => idx.push(n.parse().unwrap()), _ => break } } Inst::ExtractV { dst, a, idx } }
            "insertvalue" => { let (aty, a) = self.ty_opnd(); self.lx.expect(b','); let (_, v) = self.ty_opnd(); let mut idx = vec![]; while self.lx.accept(b',') { match self.lx.next() { Tok::Int(n) => idx.push(n.parse().unwrap()), _ => break } } Inst::InsertV { dst, a, v, idx, aty } }
            "extractelement" => { let (_, a) = self.ty_opnd(); self.lx.expect(b','); let (_, i) = self.ty_opnd(); Inst::ExtractE { dst, a, i } }
            "insertelement" => { let (_, a) = self.ty_opnd(); self.lx.expect(b','); let (_, v) = self.ty_opnd(); self.lx.expect(b','); let (_, i) = self.ty_opnd(); Inst::InsertE { dst, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.ty_opnd(); self.lx.expect(b','); let (_, b) = self.ty_opnd(); self.lx.expect(b','); let mt = self.ty();
                let mv = self.m.constant(&mut self.lx, &mt);
                let mask = if let V::Agg(v) = mv { v.iter().map(|x| if let V::I(x) = x { *x as i64 } else { 0 }).collect() } else { vec![] };
                let n = if let Ty::Vec(n, _) = t { n as usize } else { 0 };
                Inst::Shuffle { dst, a, b, mask, n }
            }
            "freeze" => { let (_, a) = self.ty_opnd(); Inst::Freeze { dst, a } }
            "atomicrmw" => { flags(self); let o = match self.lx.next() { Tok::Id(o) => o.to_string(), _ => panic!() }; let (_, p) = self.ty_opnd(); self.lx.expect(b','); let (ty, v) = self.ty_opnd(); Inst::Rmw { dst, op: o, ty, p, v } }
            "cmpxchg" => { flags(self); let (_, p) = self.ty_opnd(); self.lx.expect(b','); let (ty, old) = self.ty_opnd(); self.lx.expect(b','); let (_, new) = self.ty_opnd(); Inst::CmpXchg { dst, ty, p, old, new } }
            "fence" => Inst::Nop,
            "landingpad" => { // multi-line
                let _ = self.ty();
                loop { let s = self.lx.i; self.lx.skip_ws(); match self.lx.peek() { Tok::Id("cleanup") => { self.lx.next(); } Tok::Id("catch") | Tok::Id("filter") => { self.lx.next(); self.lx.skip_line(); } _ => { self.lx.i = s; break; } } }
                // step back so that skip_line does not eat the next instruction
                self.lx.i -= 1; while self.lx.s[self.lx.i] == b'\n' || self.lx.s[self.lx.i] == b' ' { self.lx.i -= 1; }
                self.lx.i += 1;
                Inst::Unsupported("landingpad".into())
            }
            "resume" => Inst::Unsupported("resume".into()),
            o => Inst::Unsupported(o.to_string()),
        }))
    }
}
