#![no_main]
//! C36: storage that fails or transfers little at a time.
use binrw::io::{Cursor, Read, Seek, SeekFrom, Write};
use binrw::{BinRead, BinWrite};
use fallible_iterator::FallibleIterator;
use harness::anlz::{b32, fixed};
use harness::db::{Db, ROW, TYPE as KIND};
use harness::settings::TYPES;
use harness::*;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::{io::Database, *};
use rekordcrate::setting::Setting;
use rekordcrate::xml::Document;
use std::io::{Error, ErrorKind};

/// The n-th access to the storage fails: just once (0), as all later ones do (1), by being interrupted (2) or, if it is a write, by storing nothing (3).
struct Plan { n: u16, seen: u16, mode: u64, hit: u32, max: usize, unflushed: bool }
static mut PLAN: Plan = Plan { n: 0, seen: 0, mode: 0, hit: 0, max: 0, unflushed: false };
#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan { unsafe { &mut PLAN } }
fn arm(n: u16, mode: u64, max: usize) { *plan() = Plan { n, seen: 0, mode, hit: 0, max, unflushed: false }; }
fn disarm() -> u32 { let h = plan().hit; arm(0, 0, usize::MAX); h }
fn hit() -> bool { plan().hit > 0 }
fn failing() -> bool {
    let p = plan();
    if p.mode == 1 && p.hit > 0 { p.hit += 1; return true; }
    p.seen += 1;
    if p.seen == p.n { p.hit += 1; return true; }
    false
}
struct Disk<'a> { d: &'a mut Vec<u8>, pos: u64 }
fn disk(d: &mut Vec<u8>) -> Disk<'_> { Disk { d, pos: 0 } }
impl Read for Disk<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if plan().mode != 3 && failing() { return Err(Error::from(if plan().mode == 2 { ErrorKind::Interrupted } else { ErrorKind::TimedOut })); }
        let at = (self.pos as usize).min(self.d.len());
        let n = b.len().min(self.d.len() - at).min(plan().max);
        b[..n].copy_from_slice(&self.d[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Disk<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if failing() { match plan().mode { 3 => return Ok(0), 2 => return Err(Error::from(ErrorKind::Interrupted)), _ => return Err(Error::from(ErrorKind::StorageFull)) } }
        plan().unflushed = true;
        let at = self.pos as usize;
        let n = b.len().min(plan().max);
        if self.d.len() < at + n { self.d.resize(at + n, 0); }
        self.d[at..at + n].copy_from_slice(&b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if plan().mode < 2 && failing() { return Err(Error::from(ErrorKind::StorageFull)); }
        plan().unflushed = false;
        Ok(())
    }
}
impl Seek for Disk<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        if plan().mode < 2 && failing() { return Err(Error::from(ErrorKind::TimedOut)); }
        self.pos = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => (self.pos as i64 + d) as u64, SeekFrom::End(d) => (self.d.len() as i64 + d) as u64 };
        Ok(self.pos)
    }
}
/// page type and row of each kind; 18 and 19 are a genre with an ISRC and with a long ASCII name
fn code(k: usize) -> u32 { if k > 17 { 1 } else { img::CODE[k] } }
fn row(k: usize) -> Vec<u8> {
    let mut v = Vec::new();
    match k {
        18 => { v.extend_from_slice(&[1, 0, 0, 0, 0x90, 18, 0, 0, 3]); v.extend_from_slice(b"GBAYE0000351\0"); }
        19 => v.extend_from_slice(&[1, 0, 0, 0, 0x40, 7, 0, 0, b'a', b'b', b'c']),
        _ => return img::well(k),
    }
    v
}
/// whether a fault has to surface: an interruption does not
fn fatal() -> bool { hit() && plan().mode != 2 }
fn anlz(k: usize) -> Vec<u8> {
    let parts = [fixed(k, 1, 2, 2), fixed(3, 2, 0, 0)];
    let mut v = b"PMAI".to_vec();
    b32(&mut v, 16);
    b32(&mut v, (16 + parts[0].len() + parts[1].len()) as u32);
    v.extend_from_slice(&[1, 2, 3, 4]);
    for p in &parts { v.extend_from_slice(p); }
    v
}
/// index page and two data pages of playlist entries behind the header page; the last page has free room
fn image() -> Db {
    let mut d = Db::new(0x60, 4, 4, 1);
    d.table(0, KIND, 1, 3);
    d.index(1, KIND, 2, 1);
    d.data(2, KIND, 3, 2, 3);
    d.data(3, KIND, 9, 1, 1);
    for (p, r) in [(2, 0), (2, 1), (3, 0)] { let at = d.row(p, r); for i in 0..ROW { d.b[at + i] = (p * 16 + r * 4 + i) as u8; } }
    d
}
fn ids<R: Read + Seek>(db: &mut Database<R>, v: &mut Vec<u32>) -> bool {
    let mut it = match db.iter_rows::<PlaylistEntry>() { Ok(i) => i, Err(_) => { check(hit(), "opt:the table is found"); return false } };
    loop {
        match it.next() { Ok(Some(r)) => v.push(r.entry_index), Ok(None) => return true, Err(_) => return false }
    }
}
fn number(d: &Db, p: usize, r: usize) -> u32 { d.get32(d.row(p, r)) }

fn collection() -> &'static str {
    "<DJ_PLAYLISTS Version=\"1\"><PRODUCT Name=\"a\" Version=\"b\" Company=\"c\"/><COLLECTION Entries=\"1\"><TRACK TrackID=\"7\" Name=\"n\" Location=\"l\"><TEMPO Inizio=\"0\" Bpm=\"1\" Metro=\"4/4\" Battito=\"1\"/></TRACK></COLLECTION><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"2\"><NODE Type=\"0\" Name=\"f\" Count=\"0\"/><NODE Type=\"1\" Name=\"p\" Entries=\"2\" KeyType=\"0\"><TRACK Key=\"7\"/><TRACK Key=\"8\"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>"
}
harnesses! {
    // collections; params: mode, bytes per access
    fn h_read_xml() {
        let want = match quick_xml::de::from_str::<Document>(collection()) { Ok(d) => d, Err(_) => { check(false, "collection read"); return } };
        let mut b = collection().as_bytes().to_vec();
        arm(u16v("access"), param(0), param(1) as usize);
        let got = quick_xml::de::from_reader::<_, Document>(std::io::BufReader::with_capacity(32, disk(&mut b)));
        // the parser may look at what follows the document, and need not care about a failure there
        if fatal() { check(match got { Ok(d) => d == want, Err(_) => true }, "a collection that cannot be read is an error"); reach("opt:failed"); }
        else { check(match got { Ok(d) => d == want, Err(_) => false }, "a collection is read however its storage transfers it"); reach("read"); }
    }
    fn h_write_xml() {
        let d = match quick_xml::de::from_str::<Document>(collection()) { Ok(d) => d, Err(_) => { check(false, "collection read (write)"); return } };
        let want = match quick_xml::se::to_string(&d) { Ok(s) => s, Err(_) => { check(false, "collection written"); return } };
        arm(u16v("access"), param(0), param(1) as usize);
        let mut out = Vec::new();
        let r = quick_xml::se::to_utf8_io_writer(disk(&mut out), &d);
        if fatal() { check(r.is_err(), "a collection that cannot be written completely is an error"); reach("opt:failed"); }
        else { check(r.is_ok() && same(&out, want.as_bytes()), "a collection is written however its storage takes it"); reach("written"); }
    }
    // analysis files read from failing storage; params: section kind, mode, bytes per access
    fn h_read_anlz() {
        let mut b = anlz(param(0) as usize);
        let want = match ANLZ::read(&mut Cursor::new(&b)) { Ok(a) => a, Err(_) => { check(false, "analysis file read"); return } };
        arm(u16v("access"), param(1), param(2) as usize);
        let got = ANLZ::read(&mut disk(&mut b));
        if fatal() { check(got.is_err(), "an analysis file that cannot be read completely is an error"); reach("opt:failed"); }
        else { check(match got { Ok(a) => a == want, Err(_) => false }, "an analysis file is read however its storage transfers it"); reach("read"); }
    }
    fn h_write_anlz() {
        let b = anlz(param(0) as usize);
        let a = match ANLZ::read(&mut Cursor::new(&b)) { Ok(a) => a, Err(_) => { check(false, "analysis file read (write)"); return } };
        arm(u16v("access"), param(1), param(2) as usize);
        let mut out = Vec::new();
        let r = a.write(&mut disk(&mut out));
        if fatal() { check(r.is_err(), "an analysis file that cannot be written completely is an error"); reach("opt:failed"); }
        else { check(r.is_ok() && same(&out, &b), "an analysis file is written however its storage takes it"); reach("written"); }
    }
    // setting files; params: kind, mode, bytes per access
    fn h_read_setting() {
        let k = param(0) as usize;
        let mut b = settings::file(k);
        let want = match Setting::read_args(&mut Cursor::new(&b), (TYPES[k],)) { Ok(a) => a, Err(_) => { check(false, "setting file read"); return } };
        arm(u16v("access"), param(1), param(2) as usize);
        let got = Setting::read_args(&mut disk(&mut b), (TYPES[k],));
        if fatal() { check(got.is_err(), "a setting file that cannot be read completely is an error"); reach("opt:failed"); }
        else { check(match got { Ok(a) => a == want, Err(_) => false }, "a setting file is read however its storage transfers it"); reach("read"); }
    }
    fn h_write_setting() {
        let k = param(0) as usize;
        let b = settings::file(k);
        let s = match Setting::read_args(&mut Cursor::new(&b), (TYPES[k],)) { Ok(a) => a, Err(_) => { check(false, "setting file read (write)"); return } };
        let mut want = Cursor::new(Vec::new());
        check(s.write_args(&mut want, (false,)).is_ok(), "setting written");
        arm(u16v("access"), param(1), param(2) as usize);
        let mut out = Vec::new();
        let r = s.write_args(&mut disk(&mut out), (false,));
        if fatal() { check(r.is_err(), "a setting file that cannot be written completely is an error"); reach("opt:failed"); }
        else { check(r.is_ok() && same(&out, &want.into_inner()), "a setting file is written however its storage takes it"); reach("written"); }
    }
    // databases opened and iterated; a single failure can be repeated; params: mode, bytes per access
    fn h_read_db() {
        let d = image();
        let mut b = d.b.clone();
        arm(u16v("access"), param(0), param(1) as usize);
        let mut db = match Database::open_non_persistent(disk(&mut b), DatabaseType::Plain) {
            Ok(db) => db,
            Err(_) => { check(fatal(), "a database is opened however its storage transfers it"); reach("opt:not opened"); return }
        };
        check(!fatal(), "a failure while opening is reported");
        let want = [number(&d, 2, 0), number(&d, 2, 1), number(&d, 3, 0)];
        let mut got = Vec::new();
        let ok = ids(&mut db, &mut got);
        check(got.len() <= 3 && got[..] == want[..got.len().min(3)], "what is read before a failure is right");
        if ok { check(!fatal(), "a failure while iterating is reported"); check(got.len() == 3, "all rows are read however the storage transfers them"); reach("read"); }
        else {
            check(fatal(), "reading fails only if the storage does");
            if plan().mode == 0 {
                let mut again = Vec::new();
                check(ids(&mut db, &mut again) && again[..] == want, "after a single failure everything can be read");
                reach("opt:again");
            }
        }
    }
    // pages with a row of every kind loaded, index pages (17), and written again; params: kind, mode, bytes per access
    fn h_page() {
        let k = param(0) as usize;
        let index = k == 17;
        let kinds = [if index { 0 } else { code(k) }];
        let mut i = img::Img::new(&kinds);
        if !index { i.page(2); i.row(&row(k)); }
        let mut b = i.b;
        let old = b.clone();
        let t = if k == 15 || k == 16 { DatabaseType::Ext } else { DatabaseType::Plain };
        let n = if index { 1 } else { 2 };
        let nr = match PageIndex::try_from(n) { Ok(n) => n, Err(_) => return };
        let want = match Database::open_non_persistent(Cursor::new(&old), t) { Ok(mut db) => match db.load_page(nr) { Ok(p) => p.clone(), Err(_) => { check(false, "page loaded (page)"); return } }, Err(_) => { check(false, "database opened (page)"); return } };
        arm(0, 0, usize::MAX);
        let mut db = match Database::open_non_persistent(disk(&mut b), t) { Ok(db) => db, Err(_) => { check(false, "database opened (page)"); return } };
        arm(u16v("access"), param(1), param(2) as usize);
        match db.load_page(nr) {
            Ok(p) => { check(*p == want, "a page is loaded however its storage transfers it, or its failure is reported"); reach("page"); }
            Err(_) => {
                check(fatal(), "loading a page fails only if the storage does");
                if plan().mode == 0 { check(match db.load_page(nr) { Ok(p) => *p == want, Err(_) => false }, "after a single failure a page can be loaded"); reach("opt:again"); }
            }
        }
    }
    fn h_write_page() {
        let k = param(0) as usize;
        let index = k == 17;
        let kinds = [if index { 0 } else { code(k) }];
        let mut i = img::Img::new(&kinds);
        if !index { i.page(2); i.row(&row(k)); }
        let t = if k == 15 || k == 16 { DatabaseType::Ext } else { DatabaseType::Plain };
        let at = if index { img::PS } else { 2 * img::PS };
        let page = match Page::read_le_args(&mut Cursor::new(&i.b[at..at + img::PS]), (img::PS as u32, t)) { Ok(p) => p, Err(_) => { check(false, "page read (write)"); return } };
        let mut whole = Cursor::new(std::vec![0u8; img::PS]);
        check(page.write_le_args(&mut whole, (img::PS as u32,)).is_ok(), "page written");
        arm(u16v("access"), param(1), param(2) as usize);
        let mut out = std::vec![0u8; img::PS];
        let r = page.write_le_args(&mut disk(&mut out), (img::PS as u32,));
        if fatal() { check(r.is_err(), "a page that cannot be written completely is an error"); reach("opt:failed"); }
        else { check(r.is_ok() && same(&out, &whole.into_inner()), "a page is written however its storage takes it"); reach("written"); }
    }
    // a row edited, all pages loaded or only its own, and flushed or closed; params: mode, bytes per access, all pages, close
    fn h_write_db() {
        let d = image();
        let mut b = d.b.clone();
        let mut want = d.b.clone();
        let x = u32v("edit");
        let at = d.row(2, 1);
        want[at..at + 4].copy_from_slice(&x.to_le_bytes());
        arm(0, 0, usize::MAX);
        {
            let mut db = match Database::open(disk(&mut b), DatabaseType::Plain) { Ok(db) => db, Err(_) => { check(false, "database opened"); return } };
            if param(2) == 1 { let mut v = Vec::new(); check(ids(&mut db, &mut v), "rows read"); }
            let page = match PageIndex::try_from(2).ok().and_then(|i| db.load_page(i).ok()) { Some(p) => p, None => { check(false, "page loaded"); return } };
            match page.content.as_data_mut().and_then(|c| c.rows.get_mut(&(ROW as u16))).and_then(|r| r.as_variant_mut::<PlaylistEntry>()) { Some(r) => r.entry_index = x, None => { check(false, "the row is there"); return } }
            arm(u16v("access"), param(0), param(1) as usize);
            if param(3) == 1 {
                let r = db.close();
                if fatal() { check(r.is_err(), "a database that cannot be written completely is not closed silently"); reach("opt:not closed"); }
                else { check(r.is_ok() && !plan().unflushed, "what a closed database holds has reached its storage"); reach("opt:closed"); }
            } else {
                let r = db.flush();
                if fatal() {
                    check(r.is_err(), "a database that cannot be written completely is an error");
                    if plan().mode != 1 { check(db.flush().is_ok() && !plan().unflushed, "after a single failure everything can be flushed"); plan().hit = 0; reach("opt:again"); }
                } else { check(r.is_ok() && !plan().unflushed, "what is flushed has reached the storage"); reach("opt:flushed"); }
            }
        }
        let done = !fatal();
        disarm();
        check(b.len() == want.len(), "the file keeps its size");
        if b.len() != want.len() { return; }
        if done { check(same(&b, &want), "the edit is stored however the storage takes it"); }
        else {
            let mut torn = true;
            for i in 0..b.len() { torn &= b[i] == want[i] || b[i] == d.b[i]; }
            check(torn, "a failure leaves every byte as it was or as it should be");
            reach("opt:torn");
        }
    }
}
