#![no_main]
//! C13: opening, flushing and closing a database.
use binrw::io::{Cursor, Read, Seek, SeekFrom, Write};
use fallible_iterator::FallibleIterator;
use harness::db::*;
use harness::*;
use rekordcrate::pdb::{io::Database, *};

/// Four pages behind the header page: index, two data pages of two rows each, a page no table refers to; then `more` bytes.
/// Whatever the format does not define is arbitrary where the library has no normal form for it.
fn image(ps: usize, more: usize) -> Db {
    let mut d = Db::new(ps, 5, 5, 2);
    d.table(0, TYPE, 1, 3);
    d.table(1, 0x55, 9, 9);
    for at in [16, 20, 32, 48] { fill(&mut d.b[at..at + 4], "header"); }
    fill(&mut d.b[60..ps], "slack");
    d.index(1, TYPE, 2, 2);
    d.data(2, TYPE, 3, 2, 3);
    d.data(3, TYPE, 9, 2, 2);
    fill(&mut d.b[4 * ps..], "unused");
    for p in 1..4 { let at = p * ps; fill(&mut d.b[at + 16..at + 24], "head"); fill(&mut d.b[at + 28..at + 32], "sizes"); }
    for p in 2..4 { let at = p * ps; fill(&mut d.b[at + 32..at + ps - 8], "heap"); }
    let tail = vec(more, "tail");
    d.b.extend_from_slice(&tail);
    d
}
fn number(v: &mut [u8], at: usize, x: u32) { v[at..at + 4].copy_from_slice(&x.to_le_bytes()); }
fn ix(i: u32) -> PageIndex { match PageIndex::try_from(i) { Ok(i) => i, Err(_) => { check(false, "page index"); loop {} } } }

/// A stream that records where it is asked to go.
/// a file of 1 TiB of which only the start can be read; notes where else it was read and whether it was written
struct Probe { head: Vec<u8>, pos: u64, last: u64, writes: u64 }
impl Read for Probe {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos >= self.head.len() as u64 { self.last = self.pos; return Ok(0); }
        let at = self.pos as usize;
        let n = b.len().min(self.head.len() - at);
        b[..n].copy_from_slice(&self.head[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Probe {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p { SeekFrom::Start(x) => self.pos = x, SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as u64, SeekFrom::End(d) => self.pos = ((1i64 << 40) + d) as u64 }
        Ok(self.pos)
    }
}
impl Write for Probe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.writes += 1; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// a file of which only the header page's start and one empty data page exist; what is written has to be what is there
struct Sparse { head: Vec<u8>, page: Vec<u8>, at: u64, pos: u64, wrong: bool, written: usize }
impl Sparse {
    /// the bytes from the current position on
    fn here(&self) -> &[u8] {
        if self.pos < self.head.len() as u64 { return &self.head[self.pos as usize..]; }
        let d = self.pos.wrapping_sub(self.at);
        if d < self.page.len() as u64 { &self.page[d as usize..] } else { &[] }
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let h = self.here();
        let n = b.len().min(h.len());
        b[..n].copy_from_slice(&h[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        match p { SeekFrom::Start(x) => self.pos = x, SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as u64, SeekFrom::End(d) => self.pos = ((1i64 << 40) + d) as u64 }
        Ok(self.pos)
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let h = self.here();
        let ok = b.len() <= h.len() && same(b, &h[..b.len()]);
        if !ok { self.wrong = true; }
        self.written += b.len();
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

harnesses! {
    // nothing edited; params: page size, bytes behind the last page, which pages are loaded (0 table, 1 arbitrary single pages, 2 none)
    fn h_same() {
        let (ps, more, how) = (param(0) as usize, param(1) as usize, param(2));
        let d = image(ps, more);
        let mut b = d.b.clone();
        let mut db = match Database::open(Cursor::new(&mut b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match how {
            0 => match db.iter_rows::<PlaylistEntry>() { Ok(mut it) => { let mut n = 0; while let Ok(Some(_)) = it.next() { n += 1; } check(n == 3, "all rows visited"); } Err(_) => check(false, "rows") },
            1 => for i in 1..4 { if choose(2, "load") == 1 { check(db.load_page(ix(i)).is_ok(), "page loaded"); } },
            _ => {}
        }
        let twice = boolv("twice");
        check(db.flush().is_ok(), "an unedited database is flushed");
        if twice { check(db.flush().is_ok(), "a database is flushed again"); }
        if boolv("close") { check(db.close().is_ok(), "an unedited database is closed"); }
        check(b.len() == d.b.len() && same(&b, &d.b), "without edits the file's content is unchanged");
        reach("unchanged");
    }
    // a row edited; params: page, row, closed rather than flushed
    fn h_edit() {
        let (page, row, close) = (param(0) as u32, param(1) as usize, param(2) == 1);
        let ps = 0x60;
        let d = image(ps, 5);
        let mut b = d.b.clone();
        let (e, t, l) = (u32v("new"), u32v("new"), u32v("new"));
        let mut db = match Database::open(Cursor::new(&mut b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match db.load_page(ix(page)) {
            Ok(p) => match p.content.as_data_mut().and_then(|c| c.rows.get_mut(&((ROW * row) as u16))).and_then(|r| r.as_variant_mut::<PlaylistEntry>()) {
                Some(r) => { r.entry_index = e; r.track_id = TrackId(t); r.playlist_id = PlaylistTreeNodeId(l); }
                None => { check(false, "the row is there"); return }
            },
            Err(_) => { check(false, "page loaded (edit)"); return }
        }
        if close { check(db.close().is_ok(), "an edited database is closed"); } else { check(db.flush().is_ok(), "an edited database is flushed"); }
        let mut want = d.b.clone();
        let at = d.row(page as usize, row);
        number(&mut want, at, e);
        number(&mut want, at + 4, t);
        number(&mut want, at + 8, l);
        check(b.len() == want.len() && same(&b, &want), "exactly the edited row's bytes change");
        let mut again = match Database::open_non_persistent(Cursor::new(&b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened again"); return } };
        let mut it = match again.iter_rows::<PlaylistEntry>() { Ok(i) => i, Err(_) => { check(false, "rows again"); return } };
        let skip = if page == 2 { row } else { 2 };
        let mut k = 0;
        loop {
            match it.next() {
                Ok(Some(r)) => { if k == skip { check(r.entry_index == e && r.track_id == TrackId(t) && r.playlist_id == PlaylistTreeNodeId(l), "the edit is there when the file is opened again"); reach("edited"); } k += 1; }
                Ok(None) => break,
                Err(_) => { check(false, "rows read again"); break; }
            }
        }
    }
    // rows of a whole table edited through the row iterator, and page headers
    fn h_edit_all() {
        let ps = 0x60;
        let d = image(ps, 0);
        let mut b = d.b.clone();
        let mut want = d.b.clone();
        let mut db = match Database::open(Cursor::new(&mut b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match db.iter_rows::<PlaylistEntry>() {
            Ok(mut it) => {
                let mut k = 0;
                while let Ok(Some(r)) = it.next() {
                    let v = u32v("new");
                    r.entry_index = v;
                    number(&mut want, d.row(2 + k / 2, if k == 2 { 1 } else { k }), v);
                    k += 1;
                }
                check(k == 3, "all rows visited (edit)");
            }
            Err(_) => check(false, "rows (edit)"),
        }
        // a flush in between keeps the database usable
        check(db.flush().is_ok(), "a database is flushed in between");
        match db.load_page(ix(1)) { Ok(p) => { p.header.unknown1 = u32v("id"); number(&mut want, ps + 16, p.header.unknown1); } Err(_) => check(false, "index page loaded") }
        match db.load_page(ix(3)) { Ok(p) => { p.header.unknown2 = u32v("id"); number(&mut want, 3 * ps + 20, p.header.unknown2); } Err(_) => check(false, "data page loaded") }
        let h = db.get_header_mut();
        h.sequence = u32v("sequence");
        number(&mut want, 20, h.sequence);
        check(db.close().is_ok(), "an edited database is closed (all)");
        check(same(&b, &want), "exactly the edited fields' bytes change");
        reach("edited");
    }
    // a row inserted; param: page
    fn h_insert() {
        let page = param(0) as u32;
        let ps = 0xa0;
        let mut d = Db::new(ps, 5, 5, 1);
        d.table(0, TYPE, 1, 3);
        d.index(1, TYPE, 2, 2);
        d.data(2, TYPE, 3, 2, 3);
        d.data(3, TYPE, 9, 2, 3);
        for p in 2..4 { for r in 0..2 { let at = d.row(p, r); fill(&mut d.b[at..at + ROW], "row"); } }
        let new = bytes::<ROW>("new");
        let mut b = d.b.clone();
        let mut db = match Database::open(Cursor::new(&mut b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        let row = match rda::<Row, _>(&new, (PageType::Plain(PlainPageType::PlaylistEntries),)) { Ok((r, _)) => r, Err(_) => { check(false, "row"); return } };
        match db.load_page(ix(page)) {
            Ok(p) => match p.allocate_row(12) { Some(f) => f(row), None => { check(false, "room for a row"); return } },
            Err(_) => { check(false, "page loaded (insert)"); return }
        }
        check(db.close().is_ok(), "database closed (insert)");
        let at = page as usize * ps;
        let mut want = d.b.clone();
        want[d.row(page as usize, 2)..d.row(page as usize, 2) + ROW].copy_from_slice(&new);
        want[at + 24] = 3; want[at + 25] = 3 << 5;
        want[at + 28] -= 14; want[at + 30] += 12;
        want[at + ps - 4] = 7;
        want[at + ps - 10] = 24;
        check(b.len() == want.len() && same(&b, &want), "an inserted row changes its page only");
        let mut again = match Database::open_non_persistent(Cursor::new(&b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened again (insert)"); return } };
        match again.iter_rows::<PlaylistEntry>() { Ok(it) => check(matches!(it.count(), Ok(5)), "the new row is there when the file is opened again"), Err(_) => check(false, "rows again (insert)") }
        reach("inserted");
    }
    // where pages are loaded from and that loading never writes; any page size and any page number in the database
    fn h_place() {
        let mut d = Db::new(0x60, 1, 6, 0);
        let size = u32v("size");
        assume(size >= 0x60);
        d.put32(4, size);
        let p = Probe { head: d.b.clone(), pos: 0, last: 0, writes: 0 };
        let mut p = p;
        let i = 1 + choose(5, "page") as u32;
        let n;
        {
            let mut db = match Database::open(&mut p, DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened (place)"); return } };
            n = db.load_page(ix(i)).is_err();
        }
        check(n, "a page that cannot be read is an error");
        check(p.last == size as u64 * i as u64, "a page is loaded from its number times the page size");
        check(p.writes == 0, "opening and loading never write");
        reach("place");
    }
    // where a loaded page is written, for every page size; param: page
    fn h_store() {
        let page = param(0) as u32;
        let mut d = Db::new(0x60, 2, 5, 1);
        d.table(0, TYPE, page, page);
        d.data(1, TYPE, 9, 0, 0);
        d.put32(0x64, page);
        fill(&mut d.b[0x60 + 16..0x60 + 24], "head");
        fill(&mut d.b[0x60 + 32..0x60 + 40], "more");
        let size = u32v("size");
        assume(size >= 0x60);
        d.put32(4, size);
        let mut f = Sparse { head: d.b[..44].to_vec(), page: d.b[0x60..0x60 + 40].to_vec(), at: size as u64 * page as u64, pos: 0, wrong: false, written: 0 };
        let mut db = match Database::open(&mut f, DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "database opened (store)"); return } };
        check(db.load_page(ix(page)).is_ok(), "a page is found at its number times the page size");
        check(db.close().is_ok(), "a database of any page size is closed");
        check(!f.wrong, "a page is written where it was read, and nowhere else");
        check(f.written >= 84, "the header and the page are written");
        reach("stored");
    }
    // extended databases; param: extended
    fn h_ext() {
        let mut d = Db::new(0x60, 3, 3, 1);
        d.table(0, 4, 1, 2);
        d.index(1, 4, 2, 0);
        d.data(2, 4, 9, 2, 3);
        for r in 0..2 { let at = d.row(2, r); fill(&mut d.b[at + 4..at + ROW], "row"); d.put32(at, 0); }
        // a track tag takes 16 bytes
        let end = 3 * d.ps;
        d.put16(end - 8, 16);
        let at = d.row(2, 0);
        for r in 0..2 { d.put32(at + 16 * r, 0); fill(&mut d.b[at + 16 * r + 4..at + 16 * r + 12], "tag"); d.put32(at + 16 * r + 12, 3); }
        let mut b = d.b.clone();
        let mut db = match Database::open(Cursor::new(&mut b), DatabaseType::Ext) { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        let mut n = 0;
        match db.iter_pages(PageType::Ext(ext::ExtPageType::TrackTag)) {
            Ok(mut it) => while let Ok(Some(p)) = it.next() { if let Some(c) = p.content.as_data() { n += c.rows.len(); } },
            Err(_) => check(false, "extended table"),
        }
        check(n == 2, "the rows of an extended database are read");
        check(db.close().is_ok(), "extended database closed");
        check(same(&b, &d.b), "without edits an extended database is unchanged");
        reach("ext");
    }
}
