//! Memory model: byte objects at concrete addresses, copy on write; each byte is concrete or an expression.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Stack, Heap, Global }

#[derive(Clone)]
pub struct Obj { pub base: u64, pub kind: Kind, pub ro: bool, pub data: Vec<u8>, pub sym: Option<Vec<Ex>> }

impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind, ro: bool) -> Obj { Obj { base, kind, ro, data: vec![0; size as usize], sym: None } }
    pub fn size(&self) -> u64 { self.data.len() as u64 }
    #[inline] pub fn sym_at(&self, i: usize) -> Ex { match &self.sym { Some(s) => s[i], None => 0 } }
    pub fn byte(&self, cx: &mut Ctx, i: usize) -> Ex { let s = self.sym_at(i); if s != 0 { s } else { cx.c(self.data[i] as u128, 8) } }
    pub fn set_conc(&mut self, i: usize, b: u8) { self.data[i] = b; if let Some(s) = &mut self.sym { s[i] = 0; } }
    pub fn set_sym(&mut self, i: usize, e: Ex) { let n = self.data.len(); self.sym.get_or_insert_with(|| vec![0; n])[i] = e; }
    pub fn any_sym(&self, i: usize, n: usize) -> bool { match &self.sym { Some(s) => s[i..i + n].iter().any(|&x| x != 0), None => false } }
}

#[derive(Clone)]
pub struct Mem { pub base: Rc<Vec<Rc<Obj>>>, pub objs: BTreeMap<u64, Rc<Obj>>, pub heap_next: u64, pub live_heap: u64 }

pub const HEAP_BASE: u64 = 0x20_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

impl Mem {
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        if let Some((_, o)) = self.objs.range(..=addr).next_back() {
            if addr < o.base + o.size().max(1) { return Some(o); }
        }
        let i = self.base.partition_point(|o| o.base <= addr);
        if i > 0 { let o = &self.base[i - 1]; if addr < o.base + o.size().max(1) { return Some(o); } }
        None
    }
    /// object that contains [addr, addr+n)
    pub fn find_n(&self, addr: u64, n: u64) -> Option<&Rc<Obj>> {
        let o = self.find(addr)?;
        if addr + n <= o.base + o.size() { Some(o) } else { None }
    }
    pub fn find_mut(&mut self, addr: u64, n: u64) -> Option<&mut Obj> {
        let base = { let o = self.find_n(addr, n)?; if o.ro { return None; } o.base };
        if !self.objs.contains_key(&base) { let o = self.find(base)?.clone(); self.objs.insert(base, o); }
        self.objs.get_mut(&base).map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (self.heap_next + al - 1) / al * al;
        self.heap_next = a + size.max(1) + 32;
        self.objs.insert(a, Rc::new(Obj::new(a, size, Kind::Heap, false)));
        self.live_heap += 1;
        a
    }
}
