//! Images of database pages.
use binrw::{io::Cursor, BinRead};
use rekordcrate::pdb::*;
/// Size of a history entry row (three numbers).
pub const ROW: usize = 12;
pub struct Image { pub b: Vec<u8>, pub size: usize }
impl Image {
    /// an empty page of history entries
    pub fn new(size: usize, flags: u8) -> Image {
        let mut b = vec![0u8; size];
        b[4] = 5;
        b[8] = 12;
        b[12] = 6;
        b[27] = flags;
        Image { b, size }
    }
    pub fn put16(&mut self, at: usize, v: u16) { self.b[at] = v as u8; self.b[at + 1] = (v >> 8) as u8; }
    pub fn put32(&mut self, at: usize, v: u32) { self.put16(at, v as u16); self.put16(at + 2, (v >> 16) as u16); }
    /// 13 bits row count, 11 bits valid rows
    pub fn counts(&mut self, rows: u16, valid: u16) {
        let v = rows as u32 | (valid as u32) << 13;
        self.b[24] = v as u8;
        self.b[25] = (v >> 8) as u8;
        self.b[26] = (v >> 16) as u8;
    }
    pub fn space(&mut self, free: u16, used: u16) { self.put16(28, free); self.put16(30, used); }
    pub fn offset(&mut self, group: usize, row: usize, offset: usize) { let at = self.size - 36 * group - 4 - 2 * (row + 1); self.put16(at, offset as u16); }
    pub fn flags(&mut self, group: usize, flags: u16) { let at = self.size - 36 * group - 4; self.put16(at, flags); }
    pub fn unknown(&mut self, group: usize, v: u16) { let at = self.size - 36 * group - 2; self.put16(at, v); }
    pub fn read(&self) -> Result<Page, binrw::Error> { read(&self.b, self.size) }
}
pub fn read(b: &[u8], size: usize) -> Result<Page, binrw::Error> {
    Page::read_le_args(&mut Cursor::new(b), (size as u32, DatabaseType::Plain))
}
