//! Images of whole databases with small pages. Rows are playlist entries (three numbers, 12 bytes).
use crate::*;
use rekordcrate::pdb::{io::Database, *};
pub const ROW: usize = 12;
pub const TYPE: u32 = 8;
pub struct Db { pub b: Vec<u8>, pub ps: usize }
impl Db {
    /// `pages` pages including the header page, which has `tables` tables
    pub fn new(ps: usize, pages: usize, next_unused: u32, tables: usize) -> Db {
        let mut d = Db { b: vec![0u8; ps * pages], ps };
        d.put32(4, ps as u32);
        d.put32(8, tables as u32);
        d.put32(12, next_unused);
        d.put32(20, 1);
        d
    }
    pub fn put16(&mut self, at: usize, v: u16) { self.b[at] = v as u8; self.b[at + 1] = (v >> 8) as u8; }
    pub fn put32(&mut self, at: usize, v: u32) { self.put16(at, v as u16); self.put16(at + 2, (v >> 16) as u16); }
    pub fn get32(&self, at: usize) -> u32 { u32::from_le_bytes([self.b[at], self.b[at + 1], self.b[at + 2], self.b[at + 3]]) }
    pub fn table(&mut self, i: usize, kind: u32, first: u32, last: u32) {
        let at = 28 + 16 * i;
        self.put32(at, kind);
        self.put32(at + 8, first);
        self.put32(at + 12, last);
    }
    fn head(&mut self, page: usize, kind: u32, next: u32, flags: u8) -> usize {
        let at = page * self.ps;
        self.put32(at + 4, page as u32);
        self.put32(at + 8, kind);
        self.put32(at + 12, next);
        self.b[at + 27] = flags;
        at
    }
    /// an index page in normal form
    pub fn index(&mut self, page: usize, kind: u32, next: u32, entries: usize) {
        let at = self.head(page, kind, next, 0x64);
        self.b[at + 36] = 0xec;
        self.b[at + 37] = 3;
        self.put32(at + 48, 0x03ff_ffff);
        self.put16(at + 56, entries as u16);
        for i in 0..(self.ps - 80) / 4 { self.put32(at + 60 + 4 * i, if i < entries { (i as u32) << 3 } else { 0x1FFF_FFF8 }); }
    }
    /// a data page of `rows` stored rows (packed from heap offset 0 on) of which `flags` are present
    pub fn data(&mut self, page: usize, kind: u32, next: u32, rows: usize, flags: u16) {
        let at = self.head(page, kind, next, 0x24);
        let mut valid = 0;
        for i in 0..16 { valid += (flags >> i & 1) as u32; }
        let v = rows as u32 | valid << 13;
        self.b[at + 24] = v as u8;
        self.b[at + 25] = (v >> 8) as u8;
        self.b[at + 26] = (v >> 16) as u8;
        let end = at + self.ps;
        let used = ROW * rows;
        self.put16(at + 28, (self.ps - 40 - used - 2 * rows - 4 * rows.div_ceil(16)) as u16);
        self.put16(at + 30, used as u16);
        if rows > 0 { self.put16(end - 4, flags); }
        for i in 0..rows { self.put16(end - 4 - 2 * (i + 1), (ROW * i) as u16); }
    }
    /// where a row of a page is
    pub fn row(&self, page: usize, row: usize) -> usize { page * self.ps + 40 + ROW * row }
    pub fn reader(&self) -> Result<Database<Cursor<Vec<u8>>>, rekordcrate::Error> { Database::open_non_persistent(Cursor::new(self.b.clone()), DatabaseType::Plain) }
}
