//! Rows and images of databases holding them.
pub const PS: usize = 0x200;
pub struct Img { pub b: Vec<u8>, at: usize, rows: usize, page: usize }
/// Image of a database: header page, then an index page and a data page for each table.
impl Img {
    pub fn new(kinds: &[u32]) -> Img {
        let mut d = crate::db::Db::new(PS, 1 + 2 * kinds.len(), 1 + 2 * kinds.len() as u32, kinds.len());
        for (i, k) in kinds.iter().copied().enumerate() {
            let p = 1 + 2 * i;
            d.table(i, k, p as u32, p as u32 + 1);
            d.index(p, k, p as u32 + 1, 1);
            d.data(p + 1, k, 9, 0, 0);
        }
        Img { b: d.b, at: 0, rows: 0, page: 2 }
    }
    pub fn page(&mut self, page: usize) { self.page = page; self.at = 0; self.rows = 0; }
    pub fn row(&mut self, row: &[u8]) {
        let (base, at) = (self.page * PS, self.at);
        self.b[base + 40 + at..base + 40 + at + row.len()].copy_from_slice(row);
        let slot = base + PS - 4 - 2 * (self.rows + 1);
        self.b[slot] = at as u8;
        self.b[slot + 1] = (at >> 8) as u8;
        self.b[base + PS - 4] |= 1 << self.rows;
        self.rows += 1;
        self.at += (row.len() + 3) / 4 * 4;
        let old = u32::from_le_bytes([0, self.b[base + 25], self.b[base + 26], 0]) >> 8 >> 5;
        let v = self.rows as u32 | (old + 1) << 13;
        self.b[base + 24] = v as u8;
        self.b[base + 25] = (v >> 8) as u8;
        self.b[base + 26] = (v >> 16) as u8;
        self.b[base + 30] = self.at as u8;
        self.b[base + 31] = (self.at >> 8) as u8;
    }
    /// marks a row of the page as deleted
    pub fn delete(&mut self, row: usize) {
        let base = self.page * PS;
        self.b[base + PS - 4] &= !(1 << row);
        let v = u32::from_le_bytes([self.b[base + 24], self.b[base + 25], self.b[base + 26], 0]) - (1 << 13);
        self.b[base + 24] = v as u8;
        self.b[base + 25] = (v >> 8) as u8;
        self.b[base + 26] = (v >> 16) as u8;
    }
    pub fn node(&mut self, id: u32, parent: u32, folder: bool, name: &[u8]) {
        let mut r = Vec::new();
        for v in [parent, 0, 0, id, folder as u32] { r.extend(v.to_le_bytes()); }
        r.extend(name);
        self.row(&r);
    }
    pub fn artist(&mut self, id: u32, name: &[u8]) {
        let mut r = vec![0x60, 0, 0, 0];
        r.extend(id.to_le_bytes());
        r.extend([3, 10]);
        r.extend(name);
        self.row(&r);
    }
    pub fn titled(&mut self, id: u32, artist: u32, title: &[u8]) {
        let mut r = vec![0u8; 0x5c];
        r[0] = 0x20;
        r[0x44..0x48].copy_from_slice(&artist.to_le_bytes());
        r[0x48..0x4c].copy_from_slice(&id.to_le_bytes());
        r.push(3);
        for i in 0..21 { r.push(if i == 17 { 115 } else { 114 }); }
        r.push(3);
        r.extend(title);
        self.row(&r);
    }
    pub fn track(&mut self, id: u32, path: &[u8]) {
        let mut r = vec![0u8; 0x5c];
        r[0] = 0x20;
        r[0x48..0x4c].copy_from_slice(&id.to_le_bytes());
        r.push(3);
        for i in 0..21 { r.push(if i == 20 { 115 } else { 114 }); }
        r.push(3);
        r.extend(path);
        self.row(&r);
    }
    pub fn entry(&mut self, index: u32, track: u32, list: u32) {
        let mut r = Vec::new();
        for v in [index, track, list] { r.extend(v.to_le_bytes()); }
        self.row(&r);
    }
}
/// a short ASCII string
pub fn given(t: &[u8]) -> Vec<u8> { let mut r = vec![(2 * (t.len() + 1) + 1) as u8]; r.extend(t); r }
/// page type numbers of the row kinds of `well`
pub const CODE: [u32; 17] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16, 17, 19, 3, 4];
/// bytes of a well-formed row of each kind
pub fn well(k: usize) -> Vec<u8> {
    let s = b"\x07ab".to_vec();
    let mut v = vec![0u8; 0];
    match k {
        0 => { v.extend([0x20, 0]); v.resize(0x5c, 1); v.extend([3, 0]); v.truncate(0x5c); v.push(3); for _ in 0..21 { v.push(114); } v.extend(s); }
        1 | 4 => { v.extend([1, 0, 0, 0]); v.extend(s); }
        2 => { v.extend([0x60, 0, 0, 0, 1, 0, 0, 0, 3, 10]); v.extend(s); }
        3 => { v.extend([0x80, 0]); v.resize(20, 0); v.extend([3, 22]); v.extend(s); }
        5 => { v.extend([1, 0, 0, 0, 1, 0, 0, 0]); v.extend(s); }
        6 => { v.extend([0, 0, 0, 0, 0, 1, 0, 0]); v.extend(s); }
        7 => { v.resize(20, 0); v.extend(s); }
        8 | 10 => v.resize(12, 0),
        9 | 11 => { v.extend([1, 0, 0, 0]); v.extend(s); }
        12 => { v.extend([1, 0, 1, 0, 0x90, 10, 0, 0, 0xfa, 0xff, b'a', 0, 0xfb, 0xff]); }
        13 => v.resize(8, 0),
        14 => { v.extend([0x80, 2, 0, 0]); v.resize(12, 0); v.extend(s.clone()); v.extend([0x19, 0x1e]); v.extend(s.clone()); v.extend(s); }
        15 => { v.extend([0x80, 6]); v.resize(28, 0); v.extend([3, 31, 31]); v.extend(s); }
        16 => v.resize(16, 0),
        _ => {}
    }
    v
}
